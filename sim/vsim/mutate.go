package vsim

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
)

// Damage describes and applies what a network or a disk can do to a message in transit or at rest. The donor, if
// any, is another valid message whose parts may be spliced in. The result differs from b unless b is empty and
// there is nothing to insert.
func Damage(t *Tape, b, donor []byte) ([]byte, string) {
	for try := 0; ; try++ {
		out, how := damage(t, b, donor)
		if string(out) != string(b) {
			return out, how
		}
		if try > 4 {
			return append(append([]byte(nil), b...), 0), "append-zero"
		}
	}
}

// Packaged is b with what tools put around files: line ends, padding, marks, text armour.
func Packaged(t *Tape, b []byte) ([]byte, string) {
	c := append([]byte(nil), b...)
	switch t.Int(9) {
	case 0:
		return append(c, '\n'), "a line end behind it"
	case 1:
		return append(c, '\r', '\n'), "a line end behind it"
	case 2:
		return append(c, make([]byte, 1+t.Int(16))...), "zero bytes behind it"
	case 3:
		return append(c, [...]byte{' ', 0x1a, 0xff, '\t'}[t.Int(4)]), "a filler behind it"
	case 4:
		return append([]byte{0xef, 0xbb, 0xbf}, c...), "a byte order mark before it"
	case 5:
		return append([]byte{[...]byte{' ', '\n', 0}[t.Int(3)]}, c...), "a filler before it"
	case 6:
		return []byte(base64.StdEncoding.EncodeToString(c)), "base64"
	case 7:
		return []byte(hex.EncodeToString(c)), "hex"
	}
	k := (64 - len(c)%64) % 64
	for i := 0; i < k; i++ {
		c = append(c, byte(k))
	}
	if k == 0 {
		c = append(c, c...)
	}
	return c, "padded to a block"
}

func damage(t *Tape, b, donor []byte) ([]byte, string) {
	n := len(b)
	c := append([]byte(nil), b...)
	if n == 0 {
		return []byte{byte(t.Int(256))}, "insert"
	}
	weights := []int{6, 4, 4, 3, 3, 2, 2, 3, 12, 2}
	if len(donor) == 0 {
		weights[5], weights[7] = 0, 0
	}
	switch t.Weighted(weights...) {
	case 0: // flip one bit
		i := t.Int(n)
		bit := t.Int(8)
		c[i] ^= 1 << bit
		return c, fmt.Sprintf("flip bit %d of byte %d/%d", bit, i, n)
	case 1: // set a byte
		i := t.Int(n)
		v := [...]byte{0, 0xff, 0x80, 0x7f, 1, c[i] + 1, c[i] - 1, byte(t.Int(256))}[t.Int(8)]
		c[i] = v
		return c, fmt.Sprintf("set byte %d/%d to %02x", i, n, v)
	case 2: // truncate
		k := t.Int(n)
		if t.Int(3) == 1 {
			k = n - 1 - t.Int(min(n, 8))
		}
		return c[:k], fmt.Sprintf("truncate to %d/%d", k, n)
	case 3: // extend
		k := 1 + t.Int(8)
		return append(c, t.Bytes(k)...), fmt.Sprintf("append %d bytes", k)
	case 4: // delete or duplicate a stretch
		i := t.Int(n)
		k := 1 + t.Int(min(n-i, 40))
		if t.Int(2) == 0 {
			return append(append([]byte(nil), b[:i]...), b[i+k:]...), fmt.Sprintf("delete %d bytes at %d/%d", k, i, n)
		}
		return append(append(append([]byte(nil), b[:i+k]...), b[i:i+k]...), b[i+k:]...), fmt.Sprintf("duplicate %d bytes at %d/%d", k, i, n)
	case 5: // splice the tail of another message
		i := t.Int(n + 1)
		j := i
		if t.Int(2) == 1 {
			j = t.Int(len(donor) + 1)
		}
		j = min(j, len(donor))
		return append(append([]byte(nil), b[:i]...), donor[j:]...), fmt.Sprintf("splice donor[%d:] at %d/%d", j, i, n)
	case 6: // zero or swap a block
		i := t.Int(n)
		k := min(n-i, 1<<t.Int(10))
		if t.Int(2) == 0 {
			for x := i; x < i+k; x++ {
				c[x] = 0
			}
			return c, fmt.Sprintf("zero %d bytes at %d/%d", k, i, n)
		}
		j := t.Int(n - k + 1)
		copy(c[i:i+k], b[j:j+k])
		return c, fmt.Sprintf("copy %d bytes from %d to %d/%d", k, j, i, n)
	case 7: // replace one element by one of the donor's
		return spliceTLV(t, b, donor)
	case 8: // structured edit
		return mutateTLV(t, b)
	default: // several flips
		k := 2 + t.Int(6)
		for x := 0; x < k; x++ {
			c[t.Int(n)] ^= byte(1 + t.Int(255))
		}
		return c, fmt.Sprintf("alter %d bytes of %d", k, n)
	}
}

// ---- DER ----------------------------------------------------------------------------------------------

type node struct {
	tag    []byte // identifier octets
	body   []byte // primitive content
	kids   []*node
	parent *node
	wrap   byte // prefix inside the content before the kids (the unused-bits byte of a BIT STRING)
	isWrap bool
	raw    []byte // if set, encodes as this
}

func (n *node) encode() []byte {
	if n.raw != nil {
		return n.raw
	}
	body := n.body
	if n.kids != nil {
		body = nil
		if n.isWrap {
			body = append(body, n.wrap)
		}
		for _, k := range n.kids {
			body = append(body, k.encode()...)
		}
	}
	out := append([]byte(nil), n.tag...)
	return append(append(out, derLen(len(body))...), body...)
}

func derLen(l int) []byte {
	switch {
	case l < 0x80:
		return []byte{byte(l)}
	case l < 0x100:
		return []byte{0x81, byte(l)}
	case l < 0x10000:
		return []byte{0x82, byte(l >> 8), byte(l)}
	default:
		return []byte{0x83, byte(l >> 16), byte(l >> 8), byte(l)}
	}
}

func parseTLVs(b []byte, depth int) ([]*node, bool) {
	var out []*node
	for len(b) > 0 {
		i := 1
		if b[0]&0x1f == 0x1f {
			for i < len(b) && b[i]&0x80 != 0 {
				i++
			}
			i++
		}
		if i >= len(b) {
			return nil, false
		}
		tag := b[:i]
		l := int(b[i])
		i++
		if l >= 0x80 {
			k := l & 0x7f
			if k == 0 || k > 3 || i+k > len(b) {
				return nil, false
			}
			l = 0
			for _, x := range b[i : i+k] {
				l = l<<8 | int(x)
			}
			i += k
		}
		if i+l > len(b) {
			return nil, false
		}
		n := &node{tag: append([]byte(nil), tag...), body: b[i : i+l]}
		if depth < 24 {
			if tag[0]&0x20 != 0 {
				if k, ok := parseTLVs(n.body, depth+1); ok {
					n.kids = k
				}
			} else if tag[0] == 4 && l > 2 || tag[0]&0xc0 == 0x80 && l > 2 {
				if k, ok := parseTLVs(n.body, depth+1); ok && len(k) > 0 && plausible(k) {
					n.kids = k
				}
			} else if tag[0] == 3 && l > 3 {
				if k, ok := parseTLVs(n.body[1:], depth+1); ok && len(k) > 0 && plausible(k) {
					n.kids, n.isWrap, n.wrap = k, true, n.body[0]
				}
			}
		}
		for _, k := range n.kids {
			k.parent = n
		}
		out = append(out, n)
		b = b[i+l:]
	}
	return out, true
}

func plausible(k []*node) bool {
	for _, x := range k {
		switch x.tag[0] {
		case 1, 2, 3, 4, 5, 6, 0xc, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0xa0, 0xa1, 0xa3:
		default:
			return false
		}
	}
	return true
}

func flatten(ns []*node, out []*node) []*node {
	for _, n := range ns {
		out = append(out, n)
		out = flatten(n.kids, out)
	}
	return out
}

func encodeAll(ns []*node) []byte {
	var out []byte
	for _, n := range ns {
		out = append(out, n.encode()...)
	}
	return out
}

// Elements is how many DER elements b has, 0 if it is not DER.
func Elements(b []byte) int {
	ns, ok := parseTLVs(b, 0)
	if !ok {
		return 0
	}
	return len(flatten(ns, nil))
}

func path(n *node) string {
	s := ""
	for ; n != nil; n = n.parent {
		i := 0
		if n.parent != nil {
			for j, k := range n.parent.kids {
				if k == n {
					i = j
				}
			}
		}
		s = fmt.Sprintf("/%d:%02x", i, n.tag[0]) + s
	}
	return s
}

func mutateTLV(t *Tape, b []byte) ([]byte, string) {
	roots, ok := parseTLVs(b, 0)
	if !ok || len(roots) == 0 {
		i := t.Int(len(b))
		c := append([]byte(nil), b...)
		c[i] ^= byte(1 + t.Int(255))
		return c, fmt.Sprintf("alter byte %d/%d", i, len(b))
	}
	all := flatten(roots, nil)
	n := all[t.Int(len(all))]
	where := path(n)
	content := n.body
	if n.kids != nil {
		x := *n
		x.raw = nil
		e := x.encode()
		content = e[len(e)-contentLen(&x):]
	}
	switch t.Weighted(4, 3, 3, 3, 4, 4, 3, 2, 3, 4, 2, 2) {
	case 0: // flip a bit of the content
		if len(content) == 0 {
			n.kids, n.body = nil, []byte{0}
			return encodeAll(roots), where + ": content 00"
		}
		c := append([]byte(nil), content...)
		i := t.Int(len(c))
		c[i] ^= 1 << t.Int(8)
		n.kids, n.body = nil, c
		return encodeAll(roots), fmt.Sprintf("%s: flip a bit of content byte %d/%d", where, i, len(c))
	case 1: // empty it
		n.kids, n.body = nil, []byte{}
		return encodeAll(roots), where + ": emptied"
	case 2: // remove it
		n.raw = []byte{}
		return encodeAll(roots), where + ": removed"
	case 3: // duplicate it
		e := n.encode()
		k := 1 + t.Int(3)
		out := append([]byte(nil), e...)
		for i := 0; i < k; i++ {
			out = append(out, e...)
		}
		n.raw = out
		return encodeAll(roots), fmt.Sprintf("%s: %d more copies", where, k)
	case 4: // change the tag
		tags := []byte{2, 3, 4, 5, 6, 1, 0xc, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0xa0, 0xa1, 0xa3, 0x80, 0x81, 0x82, 0x86, 0x87, 0x24, 0x23, 0x10, 0x1e, 0x14, 0x0a, 0x60}
		nt := tags[t.Int(len(tags))]
		n.tag = []byte{nt}
		return encodeAll(roots), fmt.Sprintf("%s: tag %02x", where, nt)
	case 5: // replace by an interesting integer or string
		vals := [][]byte{{0}, {1}, {0xff}, {0x80}, {0x7f, 0xff, 0xff, 0xff}, {0, 0, 1}, {0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0, 0x80, 0, 0, 0, 0, 0, 0, 0}, {}, {2}, {0x10, 0}}
		v := vals[t.Int(len(vals))]
		n.kids, n.body = nil, v
		return encodeAll(roots), fmt.Sprintf("%s: content %x", where, v)
	case 6: // swap with a sibling or move another element here
		if n.parent != nil && len(n.parent.kids) > 1 {
			k := n.parent.kids
			i, j := t.Int(len(k)), t.Int(len(k))
			k[i], k[j] = k[j], k[i]
			return encodeAll(roots), fmt.Sprintf("%s: siblings %d and %d swapped", where, i, j)
		}
		o := all[t.Int(len(all))]
		n.raw = (&node{tag: o.tag, body: o.body}).encode()
		return encodeAll(roots), where + ": replaced by " + path(o)
	case 7: // lie about the length
		e := n.encode()
		if len(e) < 2 {
			return b, ""
		}
		e = append([]byte(nil), e...)
		lies := []byte{0, 0x7f, 0x80, 0x81, 0x84, 0xff, e[1] + 1, e[1] - 1}
		e[1] = lies[t.Int(len(lies))]
		n.raw = e
		return encodeAll(roots), fmt.Sprintf("%s: length byte %02x", where, e[1])
	case 8: // truncate or extend the content, lengths kept consistent
		c := append([]byte(nil), content...)
		if t.Int(2) == 0 && len(c) > 0 {
			k := t.Int(len(c))
			if t.Int(2) == 1 { // by little
				k = len(c) - 1 - t.Int(min(len(c), 3))
			}
			c = c[:k]
			n.kids, n.body = nil, c
			return encodeAll(roots), fmt.Sprintf("%s: content cut to %d", where, len(c))
		}
		k := 1 + t.Int(9)
		c = append(c, t.Bytes(k)...)
		n.kids, n.body = nil, c
		return encodeAll(roots), fmt.Sprintf("%s: content extended by %d", where, k)
	case 9: // replace by another element of the same message
		o := all[t.Int(len(all))]
		n.raw = append([]byte(nil), o.encode()...)
		return encodeAll(roots), where + ": replaced by " + path(o)
	case 10: // reorder or repeat inside
		if len(n.kids) > 0 {
			i := t.Int(len(n.kids))
			k := append([]*node(nil), n.kids...)
			k = append(k, n.kids[i])
			n.kids = k
			return encodeAll(roots), fmt.Sprintf("%s: child %d repeated at the end", where, i)
		}
		n.tag = []byte{n.tag[0] ^ 0x20}
		return encodeAll(roots), where + ": primitive/constructed"
	default: // non-minimal integer or length
		if n.tag[0] == 2 {
			n.kids, n.body = nil, append([]byte{0}, n.body...)
			return encodeAll(roots), where + ": leading zero"
		}
		e := n.encode()
		h := len(n.tag)
		if len(e) > h && e[h] < 0x80 {
			n.raw = append(append(append([]byte(nil), e[:h]...), 0x81, e[h]), e[h+1:]...)
		} else {
			n.raw = append(append(append([]byte(nil), e[:h]...), 0x83, 0), e[h+1:]...)
		}
		return encodeAll(roots), where + ": non-minimal length"
	}
}

func contentLen(n *node) int {
	l := 0
	if n.isWrap {
		l = 1
	}
	for _, k := range n.kids {
		l += len(k.encode())
	}
	return l
}

func spliceTLV(t *Tape, b, donor []byte) ([]byte, string) {
	roots, ok := parseTLVs(b, 0)
	dr, ok2 := parseTLVs(donor, 0)
	if !ok || !ok2 || len(roots) == 0 || len(dr) == 0 {
		return mutateTLV(t, b)
	}
	all, dall := flatten(roots, nil), flatten(dr, nil)
	n := all[t.Int(len(all))]
	where := path(n)
	// Prefer the donor's element at the same place.
	var o *node
	if t.Int(3) != 2 {
		for _, x := range dall {
			if path(x) == where {
				o = x
				break
			}
		}
	}
	if o == nil {
		o = dall[t.Int(len(dall))]
	}
	n.raw = append([]byte(nil), o.encode()...)
	return encodeAll(roots), fmt.Sprintf("%s: replaced by donor %s", where, path(o))
}
