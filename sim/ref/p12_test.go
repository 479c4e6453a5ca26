package ref

import (
	"bytes"
	"crypto/cipher"
	"encoding/hex"
	"fmt"
	"testing"
)

func TestRC2(t *testing.T) {
	for _, c := range []struct {
		k    string
		e    int
		p, x string
	}{
		{"0000000000000000", 63, "0000000000000000", "ebb773f993278eff"},
		{"ffffffffffffffff", 64, "ffffffffffffffff", "278b27e42e2f0d49"},
		{"3000000000000000", 64, "1000000000000001", "30649edf9be7d2c2"},
		{"88", 64, "0000000000000000", "61a8a244adacccf0"},
		{"88bca90e90875a", 64, "0000000000000000", "6ccf4308974c267f"},
		{"88bca90e90875a7f0f79c384627bafb2", 64, "0000000000000000", "1a807d272bbe5db1"},
		{"88bca90e90875a7f0f79c384627bafb2", 128, "0000000000000000", "2269552ab0f85ca6"}} {
		k, _ := hex.DecodeString(c.k)
		p, _ := hex.DecodeString(c.p)
		var b cipher.Block = NewRC2(k, c.e)
		o := make([]byte, 8)
		b.Encrypt(o, p)
		if fmt.Sprintf("%x", o) != c.x {
			t.Errorf("%x want %s", o, c.x)
		}
		d := make([]byte, 8)
		b.Decrypt(d, o)
		if !bytes.Equal(d, p) {
			t.Error("dec")
		}
	}
	w := WriteP12([]byte{0x30, 0}, [][]byte{{0x30, 0}, {0x30, 1, 2}}, "pä", [3][]byte{make([]byte, 8), {1, 2, 3, 4, 5, 6, 7, 8}, {9, 9, 9, 9, 9, 9, 9, 9}}, 2048, 1)
	p, err := ReadP12(w, "pä")
	if err != nil || len(p.Certs) != 2 || len(p.Salts) != 3 {
		t.Fatal(err)
	}
	if _, err := ReadP12(w, "p"); err == nil {
		t.Fatal()
	}
}
