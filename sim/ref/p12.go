package ref

import (
	"bytes"
	"crypto/cipher"
	"crypto/des"
	"crypto/hmac"
	"crypto/sha1"
	"errors"
	"math/big"
	"strings"
	"unicode/utf16"
)

// PKCS#12 (RFC 7292) with password privacy and integrity, SHA-1, RC2-40 (RFC 2268) and 3DES; written from the RFCs.

// P12Key derives n bytes by RFC 7292 appendix B.2.
func P12Key(id byte, password, salt []byte, iter, n int) []byte {
	const v = 64
	fill := func(b []byte) []byte {
		if len(b) == 0 {
			return nil
		}
		var out []byte
		for len(out)%v != 0 || len(out) < len(b) {
			out = append(out, b[len(out)%len(b)])
		}
		return out
	}
	i := append(fill(salt), fill(password)...)
	var out []byte
	for len(out) < n {
		a := sha1.Sum(append(bytes.Repeat([]byte{id}, v), i...))
		for k := 1; k < iter; k++ {
			a = sha1.Sum(a[:])
		}
		out = append(out, a[:]...)
		b := make([]byte, v)
		for k := range b {
			b[k] = a[k%20]
		}
		x := new(big.Int).Add(new(big.Int).SetBytes(b), big.NewInt(1))
		mod := new(big.Int).Lsh(big.NewInt(1), 8*v)
		for k := 0; k+v <= len(i); k += v {
			y := new(big.Int).SetBytes(i[k : k+v])
			y.Add(y, x).Mod(y, mod)
			y.FillBytes(i[k : k+v])
		}
	}
	return out[:n]
}

// SamePassword reports whether the derivation cannot tell two passwords apart: it repeats their encoding up to whole
// blocks.
func SamePassword(a, b string) bool {
	fill := func(s string) string {
		x, ok := BMP(s)
		if !ok {
			return "?" + s
		}
		n := (len(x) + 63) / 64 * 64
		for len(x) < n {
			x = append(x, x...)
		}
		return string(x[:n])
	}
	return fill(a) == fill(b)
}

// BMP encodes a password as a null-terminated BMPString.
func BMP(s string) ([]byte, bool) {
	var out []byte
	for _, r := range s {
		if r > 0xffff {
			return nil, false
		}
		out = append(out, byte(r>>8), byte(r))
	}
	return append(out, 0, 0), true
}

var rc2Pi = func() (t [256]byte) {
	// the digits table of RFC 2268
	const hex = "d978f9c419ddb5ed28e9fd794aa0d89dc67e37832b76538e624c6488448bfba2179a59f587b34f1361456d8d09817d32bd8f40eb86b77b0bf09521225c6b4e8254d66593ce60b21c7356c014a78cf1dc1275ca1f3bbee4d1423dd430a33cb6266fbf0eda4669075727f21d9bbc944303f811c7f690ef3ee706c3d52fc8661ed708e8eade8052eef784aa72ac354d6a2a961ad2715a1549744b9fd05e0418a4ecc2e0416e0f51cbcc2491af50a1f47039997c3a8523b8b47afc02365b255597312d5dfa98e38a92ae05df2910676cbac9d300e6cfe19ea82c6316013f58e289a90d38341bab33ffb0bb480c5fb9b1cd2ec5f3db47e5a59c770aa62068fe7fc1ad"
	n, hi := 0, -1
	for _, c := range hex {
		var d int
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		default:
			continue
		}
		if hi < 0 {
			hi = d
		} else {
			t[n] = byte(hi<<4 | d)
			n++
			hi = -1
		}
	}
	if n != 256 {
		panic("RC2 table")
	}
	return
}()

type rc2 struct{ k [64]uint16 }

// NewRC2 is RC2 with the given effective key bits.
func NewRC2(key []byte, effective int) cipher.Block {
	var l [128]byte
	copy(l[:], key)
	t := len(key)
	t8 := (effective + 7) / 8
	tm := byte(0xff >> uint(8*t8-effective))
	for i := t; i < 128; i++ {
		l[i] = rc2Pi[l[i-1]+l[i-t]]
	}
	l[128-t8] = rc2Pi[l[128-t8]&tm]
	for i := 127 - t8; i >= 0; i-- {
		l[i] = rc2Pi[l[i+1]^l[i+t8]]
	}
	c := &rc2{}
	for i := range c.k {
		c.k[i] = uint16(l[2*i]) | uint16(l[2*i+1])<<8
	}
	return c
}

func (c *rc2) BlockSize() int { return 8 }

var rc2Rot = [4]uint{1, 2, 3, 5}

func (c *rc2) Encrypt(dst, src []byte) {
	var r [4]uint16
	for i := range r {
		r[i] = uint16(src[2*i]) | uint16(src[2*i+1])<<8
	}
	j := 0
	for round := 0; round < 16; round++ {
		for i := 0; i < 4; i++ {
			r[i] += c.k[j] + r[(i+3)%4]&r[(i+2)%4] + ^r[(i+3)%4]&r[(i+1)%4]
			j++
			r[i] = r[i]<<rc2Rot[i] | r[i]>>(16-rc2Rot[i])
		}
		if round == 4 || round == 10 {
			for i := 0; i < 4; i++ {
				r[i] += c.k[r[(i+3)%4]&63]
			}
		}
	}
	for i := range r {
		dst[2*i], dst[2*i+1] = byte(r[i]), byte(r[i]>>8)
	}
}

func (c *rc2) Decrypt(dst, src []byte) {
	var r [4]uint16
	for i := range r {
		r[i] = uint16(src[2*i]) | uint16(src[2*i+1])<<8
	}
	j := 63
	for round := 0; round < 16; round++ {
		for i := 3; i >= 0; i-- {
			r[i] = r[i]>>rc2Rot[i] | r[i]<<(16-rc2Rot[i])
			r[i] -= c.k[j] + r[(i+3)%4]&r[(i+2)%4] + ^r[(i+3)%4]&r[(i+1)%4]
			j--
		}
		if round == 4 || round == 10 {
			for i := 3; i >= 0; i-- {
				r[i] -= c.k[r[(i+3)%4]&63]
			}
		}
	}
	for i := range r {
		dst[2*i], dst[2*i+1] = byte(r[i]), byte(r[i]>>8)
	}
}

// P12 is what a keystore holds.
type P12 struct {
	Key   []byte // PKCS#8
	Certs [][]byte
	KeyID [][]byte // local key id of each certificate; nil if none
	ID    []byte   // local key id of the key
	Salts [][]byte // certificates', key's, MAC's
	MAC   int      // iterations
	Iter  []int
	Algs  []string
}

var (
	errP12  = errors.New("not a keystore of the known form")
	errPass = errors.New("wrong password or damaged keystore")
)

func oidBody(dotted ...uint64) []byte {
	out := []byte{byte(dotted[0]*40 + dotted[1])}
	for _, v := range dotted[2:] {
		var tmp []byte
		tmp = append(tmp, byte(v&0x7f))
		for v >>= 7; v > 0; v >>= 7 {
			tmp = append(tmp, byte(v&0x7f)|0x80)
		}
		for i := len(tmp) - 1; i >= 0; i-- {
			out = append(out, tmp[i])
		}
	}
	return out
}

var (
	oData     = oidBody(1, 2, 840, 113549, 1, 7, 1)
	oEnc      = oidBody(1, 2, 840, 113549, 1, 7, 6)
	oPBE3DES  = oidBody(1, 2, 840, 113549, 1, 12, 1, 3)
	oPBERC2   = oidBody(1, 2, 840, 113549, 1, 12, 1, 6)
	oKeyBag   = oidBody(1, 2, 840, 113549, 1, 12, 10, 1, 2)
	oCertBag  = oidBody(1, 2, 840, 113549, 1, 12, 10, 1, 3)
	oX509     = oidBody(1, 2, 840, 113549, 1, 9, 22, 1)
	oLocalKey = oidBody(1, 2, 840, 113549, 1, 9, 21)
	oFriendly = oidBody(1, 2, 840, 113549, 1, 9, 20)
	oCSP      = oidBody(1, 3, 6, 1, 4, 1, 311, 17, 1)
	oSHA1     = oidBody(1, 3, 14, 3, 2, 26)
)

// rd reads one element with the tag wanted.
func rd(b []byte, tag byte) (val, rest []byte, err error) {
	t, v, _, r, ok := ReadTLV(b)
	if !ok || t != tag {
		return nil, nil, errP12
	}
	return v, r, nil
}

type reader struct {
	b   []byte
	err error
}

func (r *reader) take(tag byte) []byte {
	if r.err != nil {
		return nil
	}
	v, rest, err := rd(r.b, tag)
	if err != nil {
		r.err = err
		return nil
	}
	r.b = rest
	return v
}

func (r *reader) num() int {
	v := r.take(2)
	if r.err != nil || len(v) == 0 || len(v) > 4 || v[0]&0x80 != 0 {
		r.err = errP12
		return 0
	}
	n := 0
	for _, b := range v {
		n = n<<8 | int(b)
	}
	return n
}

func (r *reader) end() {
	if r.err == nil && len(r.b) != 0 {
		r.err = errP12
	}
}

func (r *reader) want(tag byte, val []byte) {
	if v := r.take(tag); r.err == nil && !bytes.Equal(v, val) {
		r.err = errP12
	}
}

func sub(r *reader, tag byte) *reader {
	v := r.take(tag)
	return &reader{b: v, err: r.err}
}

// pbe reads an AlgorithmIdentifier of password-based encryption and decrypts.
func (p *P12) pbe(alg *reader, data, pw []byte) ([]byte, error) {
	id := alg.take(6)
	params := sub(alg, 0x30)
	salt := params.take(4)
	iter := params.num()
	params.end()
	if alg.err != nil || params.err != nil || iter < 1 || iter > 1<<20 {
		return nil, errP12
	}
	p.Salts, p.Iter = append(p.Salts, salt), append(p.Iter, iter)
	var c cipher.Block
	switch {
	case bytes.Equal(id, oPBE3DES):
		p.Algs = append(p.Algs, "3des")
		c, _ = des.NewTripleDESCipher(P12Key(1, pw, salt, iter, 24))
	case bytes.Equal(id, oPBERC2):
		p.Algs = append(p.Algs, "rc2-40")
		c = NewRC2(P12Key(1, pw, salt, iter, 5), 40)
	default:
		return nil, errP12
	}
	if len(data) == 0 || len(data)%8 != 0 {
		return nil, errPass
	}
	out := make([]byte, len(data))
	cipher.NewCBCDecrypter(c, P12Key(2, pw, salt, iter, 8)).CryptBlocks(out, data)
	k := int(out[len(out)-1])
	if k < 1 || k > 8 {
		return nil, errPass
	}
	for _, b := range out[len(out)-k:] {
		if int(b) != k {
			return nil, errPass
		}
	}
	return out[:len(out)-k], nil
}

// ReadP12 opens a keystore strictly.
func ReadP12(b []byte, password string) (*P12, error) {
	pw, ok := BMP(password)
	if !ok {
		return nil, errPass
	}
	p := &P12{}
	top := &reader{b: b}
	pfx := sub(top, 0x30)
	top.end()
	if v := pfx.num(); v != 3 {
		return nil, errP12
	}
	ci := sub(pfx, 0x30)
	ci.want(6, oData)
	ex := sub(ci, 0xa0)
	safe := ex.take(4)
	ex.end()
	ci.end()
	mac := sub(pfx, 0x30)
	pfx.end()
	di := sub(mac, 0x30)
	alg := sub(di, 0x30)
	alg.want(6, oSHA1)
	if alg.err == nil && len(alg.b) > 0 {
		alg.want(5, nil)
	}
	alg.end()
	digest := di.take(4)
	di.end()
	salt := mac.take(4)
	p.MAC = 1
	if mac.err == nil && len(mac.b) > 0 {
		p.MAC = mac.num()
	}
	mac.end()
	for _, r := range []*reader{top, pfx, ci, ex, mac, di, alg} {
		if r.err != nil {
			return nil, r.err
		}
	}
	if p.MAC < 1 || p.MAC > 1<<20 {
		return nil, errP12
	}
	h := hmac.New(sha1.New, P12Key(3, pw, salt, p.MAC, 20))
	h.Write(safe)
	if !hmac.Equal(h.Sum(nil), digest) {
		return nil, errPass
	}
	as := &reader{b: safe}
	list := sub(as, 0x30)
	as.end()
	if as.err != nil {
		return nil, as.err
	}
	for len(list.b) > 0 && list.err == nil {
		c := sub(list, 0x30)
		id := c.take(6)
		ex := sub(c, 0xa0)
		c.end()
		var content []byte
		switch {
		case bytes.Equal(id, oData):
			content = ex.take(4)
		case bytes.Equal(id, oEnc):
			ed := sub(ex, 0x30)
			if ed.num() != 0 {
				return nil, errP12
			}
			ec := sub(ed, 0x30)
			ed.end()
			ec.want(6, oData)
			alg := sub(ec, 0x30)
			data := ec.take(0x80)
			ec.end()
			if ec.err != nil || ed.err != nil {
				return nil, errP12
			}
			var err error
			if content, err = p.pbe(alg, data, pw); err != nil {
				return nil, err
			}
		default:
			return nil, errP12
		}
		ex.end()
		if c.err != nil || ex.err != nil {
			return nil, errP12
		}
		if err := p.bags(content, pw); err != nil {
			return nil, err
		}
	}
	if list.err != nil {
		return nil, list.err
	}
	p.Salts = append(p.Salts, salt)
	return p, nil
}

func (p *P12) bags(b, pw []byte) error {
	top := &reader{b: b}
	list := sub(top, 0x30)
	top.end()
	if top.err != nil {
		return top.err
	}
	for len(list.b) > 0 && list.err == nil {
		bag := sub(list, 0x30)
		id := bag.take(6)
		val := sub(bag, 0xa0)
		var lk []byte
		if bag.err == nil && len(bag.b) > 0 {
			attrs := sub(bag, 0x31)
			for len(attrs.b) > 0 && attrs.err == nil {
				a := sub(attrs, 0x30)
				aid := a.take(6)
				v := sub(a, 0x31)
				if bytes.Equal(aid, oLocalKey) {
					lk = v.take(4)
				}
				if a.err != nil || v.err != nil {
					return errP12
				}
			}
			if attrs.err != nil {
				return attrs.err
			}
		}
		bag.end()
		if bag.err != nil || val.err != nil {
			return errP12
		}
		switch {
		case bytes.Equal(id, oCertBag):
			cb := sub(val, 0x30)
			cb.want(6, oX509)
			ex := sub(cb, 0xa0)
			c := ex.take(4)
			ex.end()
			cb.end()
			if cb.err != nil || ex.err != nil {
				return errP12
			}
			p.Certs, p.KeyID = append(p.Certs, c), append(p.KeyID, lk)
		case bytes.Equal(id, oKeyBag):
			kb := sub(val, 0x30)
			alg := sub(kb, 0x30)
			data := kb.take(4)
			kb.end()
			if kb.err != nil || p.Key != nil {
				return errP12
			}
			var err error
			if p.Key, err = p.pbe(alg, data, pw); err != nil {
				return err
			}
			p.ID = lk
		default:
			return errP12
		}
		val.end()
		if val.err != nil {
			return errP12
		}
	}
	return list.err
}

func tl(tag byte, parts ...[]byte) []byte { return TLV(tag, bytes.Join(parts, nil)) }

func small(n int) []byte {
	x := big.NewInt(int64(n)).Bytes()
	if len(x) == 0 || x[0]&0x80 != 0 {
		x = append([]byte{0}, x...)
	}
	return TLV(2, x)
}

func pbeEncrypt(rc bool, plain, pw, salt []byte, iter int) (alg, out []byte) {
	id := oPBE3DES
	var c cipher.Block
	if rc {
		id = oPBERC2
		c = NewRC2(P12Key(1, pw, salt, iter, 5), 40)
	} else {
		c, _ = des.NewTripleDESCipher(P12Key(1, pw, salt, iter, 24))
	}
	k := 8 - len(plain)%8
	out = append(append([]byte{}, plain...), bytes.Repeat([]byte{byte(k)}, k)...)
	cipher.NewCBCEncrypter(c, P12Key(2, pw, salt, iter, 8)).CryptBlocks(out, out)
	return tl(0x30, TLV(6, id), tl(0x30, TLV(4, salt), small(iter))), out
}

// WriteP12 makes a keystore as the first version of the library does; salts are 8 bytes each.
func WriteP12(key []byte, certs [][]byte, password string, salts [3][]byte, iter, mac int) []byte {
	pw, ok := BMP(password)
	if !ok {
		return nil
	}
	return WriteP12Raw(key, certs, pw, salts, iter, mac)
}

// WriteP12Raw takes the password as encoded.
func WriteP12Raw(key []byte, certs [][]byte, pw []byte, salts [3][]byte, iter, mac int) []byte {
	return WriteP12Tweaked(key, certs, pw, salts, iter, mac, func(_ string, b []byte) []byte { return b })
}

// P12Style is what other implementations do differently: the order of the safes, the ciphers, the attributes.
type P12Style struct {
	KeyFirst  bool   // as Java does
	Cert      string // "", "3des", "plain"
	KeyRC2    bool
	KeyID     []byte // instead of the certificate's fingerprint
	Name, CSP string // friendlyName and Microsoft CSP Name, where not empty
	CAName    string
	Null      bool // NULL parameters beside the digest

	Terminated bool // the texts end in a zero character
}

// PresentEmpty is a text that is there, and empty.
const PresentEmpty = "\x00"

// WriteP12Tweaked lets tweak alter every layer before it is wrapped in the next, so that the damage lies under a
// sound MAC and sound encryption.
func WriteP12Tweaked(key []byte, certs [][]byte, pw []byte, salts [3][]byte, iter, mac int, tweak func(layer string, b []byte) []byte) []byte {
	return WriteP12Styled(key, certs, pw, salts, iter, mac, P12Style{}, tweak)
}

// WriteP12Styled is WriteP12Tweaked in another style.
func WriteP12Styled(key []byte, certs [][]byte, pw []byte, salts [3][]byte, iter, mac int, st P12Style, tweak func(layer string, b []byte) []byte) []byte {
	fp := sha1.Sum(certs[0])
	if st.KeyID == nil {
		st.KeyID = fp[:]
	}
	bmp := func(s string) []byte {
		var b []byte
		for _, u := range utf16.Encode([]rune(strings.TrimPrefix(s, PresentEmpty))) {
			b = append(b, byte(u>>8), byte(u))
		}
		if st.Terminated {
			b = append(b, 0, 0)
		}
		return TLV(0x1e, b)
	}
	common := [][]byte{}
	if st.Name != "" {
		common = append(common, tweak("attr", tl(0x30, TLV(6, oFriendly), tl(0x31, tweak("attr-value", bmp(st.Name))))))
	}
	common = append(common, tl(0x30, TLV(6, oLocalKey), tl(0x31, TLV(4, st.KeyID))))
	attrs := tweak("cert-attrs", tl(0x31, common...))
	if st.CSP != "" {
		common = append(common, tl(0x30, TLV(6, oCSP), tl(0x31, tweak("attr-value", bmp(st.CSP)))))
	}
	keyAttrs := tweak("key-attrs", tl(0x31, common...))
	var bags [][]byte
	for i, c := range certs {
		v := tl(0xa0, tl(0x30, TLV(6, oX509), tl(0xa0, TLV(4, c))))
		switch {
		case i == 0:
			bags = append(bags, tl(0x30, TLV(6, oCertBag), v, attrs))
		case st.CAName != "":
			bags = append(bags, tl(0x30, TLV(6, oCertBag), v, tl(0x31, tl(0x30, TLV(6, oFriendly), tl(0x31, bmp(st.CAName))))))
		default:
			bags = append(bags, tl(0x30, TLV(6, oCertBag), v))
		}
	}
	var first []byte
	if plain := tweak("cert-bags", tl(0x30, bags...)); st.Cert == "plain" {
		first = tl(0x30, TLV(6, oData), tl(0xa0, TLV(4, plain)))
	} else {
		alg, enc := pbeEncrypt(st.Cert == "", plain, pw, salts[0], iter)
		first = tl(0x30, TLV(6, oEnc), tl(0xa0, tl(0x30, small(0), tl(0x30, TLV(6, oData), tweak("cert-alg", alg), TLV(0x80, tweak("cert-ciphertext", enc))))))
	}
	first = tweak("certs", first)
	alg, enc := pbeEncrypt(st.KeyRC2, tweak("key", key), pw, salts[1], iter)
	second := tl(0x30, TLV(6, oData), tl(0xa0, TLV(4, tweak("key-bags", tl(0x30, tl(0x30, TLV(6, oKeyBag), tl(0xa0, tl(0x30, tweak("key-alg", alg), TLV(4, tweak("key-ciphertext", enc)))), keyAttrs))))))
	if st.KeyFirst {
		first, second = second, first
	}
	safe := tweak("safe", tl(0x30, first, second))
	h := hmac.New(sha1.New, P12Key(3, pw, salts[2], mac, 20))
	h.Write(safe)
	id := tl(0x30, TLV(6, oSHA1))
	if st.Null {
		id = tl(0x30, TLV(6, oSHA1), TLV(5, nil))
	}
	m := [][]byte{tl(0x30, id, TLV(4, h.Sum(nil))), TLV(4, salts[2])}
	if mac != 1 {
		m = append(m, small(mac))
	}
	return tl(0x30, small(3), tl(0x30, TLV(6, oData), tl(0xa0, TLV(4, safe))), tl(0x30, m...))
}
