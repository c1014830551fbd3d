package props

import (
	"crypto/rsa"
	"fmt"
	"math/big"
	"testing"

	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/keys"
	"verifharness/ref"
	"verifharness/stat"
)

// anyKey draws a public key as a terminal might announce it.
func anyKey(g *gen.G) *rsa.PublicKey {
	k := *keys.A()
	pub := k.PublicKey
	switch g.Int("key", 0, 6) {
	case 0:
		return nil
	case 1:
		return &rsa.PublicKey{N: new(big.Int), E: g.Int("e", 0, 65537)}
	case 2:
		return &rsa.PublicKey{N: new(big.Int).SetBytes(g.Bytes("n", g.Int("len", 0, 130))), E: g.Int("e", 0, 65537)}
	case 3: // around the size that has no room for a byte of text
		n := new(big.Int).Lsh(big.NewInt(1), uint(g.Int("bits", 320, 360)))
		return &rsa.PublicKey{N: n.Add(n, big.NewInt(1)), E: 65537}
	case 4:
		return &rsa.PublicKey{N: pub.N, E: int(int32(g.U32("e")))}
	case 5:
		return &rsa.PublicKey{E: 3}
	}
	return &pub
}

// C25: whatever an application puts into a message, and whatever key it uses,
// encoding ends with an error or a well-formed frame.
func TestC25_Wild(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		id := gen.IDs[g.Uniform("type", len(gen.IDs))]
		h := g.Header()
		h.ID = id
		m := gen.Message(h, g.Wild(id))
		text := gen.Canon(m.Body)
		label := "plain"
		var frame []byte
		var err error
		if g.Int("crypt", 0, 7) == 7 {
			key := anyKey(g)
			label = "key"
			if key != nil && key.N != nil {
				text += fmt.Sprintf(" key %d bits, %d", key.N.BitLen(), key.E)
			}
			quiet(func() { frame, err = m.Encode(key) })
			if err == nil && key != nil {
				h.Prop |= ref.BitEncrypt
			}
		} else {
			frame, err = encode(m)
		}
		if err != nil {
			label += "-refused"
		} else {
			rh, size, body, perr := ref.Parse(frame)
			if perr != nil || size != len(body) {
				t.Fatalf("%s\nencodes to the malformed frame %x (%v)", text, frame, perr)
			}
			if gen.CanonRef(rh) != gen.CanonRef(h) {
				t.Fatalf("%s\nencodes to a frame with header %s, want %s", text, gen.CanonRef(rh), gen.CanonRef(h))
			}
			var back protocol.Message
			if err := back.Decode(frame, keys.A()); err != nil && h.Prop&ref.BitEncrypt == 0 {
				t.Fatalf("%s\nencodes to %x, which is refused: %v", text, frame, err)
			}
			if h.Prop&ref.BitEncrypt != 0 {
				label += "-sent"
			} else if bodyNil(&back) {
				label += "-no-body"
			}
		}
		stat.Case(len(text) > 40, stat.Hash(text, h.Prop), func() string { return label + ": " + fmt.Sprintf("%.300s", text) }, label, idLabel(id))
	})
}
