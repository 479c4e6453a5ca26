package ref

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"os"
	"testing"
)

// TestMine finds salts whose key derivation meets rare carries; run with MINE=1.
func TestMine(t *testing.T) {
	if os.Getenv("MINE") == "" {
		t.Skip()
	}
	for _, pw := range []string{"password", "", "a password of more than thirty-one characters, to fill blocks"} {
		p, _ := BMP(pw)
		found := map[string]int{}
		for i := uint64(0); i < 400000; i++ {
			var salt [8]byte
			binary.BigEndian.PutUint64(salt[:], i*0x9e3779b97f4a7c15)
			in := make([]byte, 64)
			for k := range in {
				in[k] = 1
			}
			for k := 0; k < 64; k++ {
				in = append(in, salt[k%8])
			}
			for k := 0; k < 64*((len(p)+63)/64); k++ {
				in = append(in, p[k%len(p)])
			}
			a := sha1.Sum(in)
			for k := 1; k < 2048; k++ {
				a = sha1.Sum(a[:])
			}
			kind := ""
			switch {
			case a[0] == 0 && a[1] == 0:
				kind = "two zero"
			case a[0] == 255 && a[1] == 255:
				kind = "two ff"
			case a[0] == 0 && byte(int(salt[0])+int(a[0])) == 0:
				kind = "both short"
			case int(salt[0])+int(a[0]) == 256 && int(salt[1])+int(a[1]) < 255:
				kind = "salt block 0 after carry"
			case int(salt[0])+int(a[0]) == 255 && int(salt[1])+int(a[1]) == 255:
				kind = "carry through"
			default:
				continue
			}
			if found[kind] < 2 {
				found[kind]++
				fmt.Printf("{%q, %q}, // %s\n", pw, fmt.Sprintf("%x", salt), kind)
			}
		}
	}
}
