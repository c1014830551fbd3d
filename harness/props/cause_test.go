package props

import (
	"crypto/rsa"
	stderrors "errors"
	"fmt"
	"io"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/errors"
	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/keys"
	"verifharness/ref"
	"verifharness/stat"
)

// causes lists the errors a frame may be refused with, by what is wrong with
// it; none if it is sound as far as its frame goes.
func causes(f []byte, key *rsa.PrivateKey) map[error]bool {
	out := map[error]bool{}
	content, err := ref.LaxContent(f)
	switch err {
	case nil:
	case ref.ErrDelim, ref.ErrEscape:
		out[errors.ErrInvalidMessage] = true
		return out
	case ref.ErrSum:
		out[errors.ErrInvalidCheckSum] = true
		if len(f) < 12+3 {
			out[errors.ErrInvalidHeader] = true
		}
		if len(f) < 4 {
			out[errors.ErrInvalidMessage] = true
		}
		return out
	default: // nothing in it
		out[errors.ErrInvalidMessage] = true
		out[errors.ErrInvalidCheckSum] = true
		return out
	}
	h, size, body, err := ref.LaxParse(f)
	switch {
	case err != nil && len(content) == 0:
		out[errors.ErrInvalidMessage] = true
		out[errors.ErrInvalidCheckSum] = true
	case err != nil:
		out[errors.ErrInvalidHeader] = true
	case size == len(body) && h.Prop&ref.BitEncrypt != 0:
		if key == nil {
			out[errors.ErrDecryptMessageFailed] = true
		} else if _, err := refDecrypt(key, body); err != nil {
			out[errors.ErrDecryptMessageFailed] = true
		}
	}
	return out
}

func TestC29_Frames(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		f, kind := hostileFrame(g)
		if g.Bool("damaged") {
			kind = "damaged"
			f, _, _, _ = validFrame(g)
			for k := g.Int("edits", 1, 2); k > 0; k-- {
				switch g.Int("edit", 0, 4) {
				case 0:
					f = g.Mutate(f)
				case 1:
					f = f[:g.Int("n", 0, len(f))]
				case 2:
					f = append([]byte(nil), f...)
					if len(f) > 0 {
						f[g.Uniform("at", len(f))] ^= byte(g.Int("x", 1, 255))
					}
				case 3:
					i := g.Int("at", 0, len(f))
					f = append(append(append([]byte{}, f[:i]...), 0x7d), f[i:]...)
				default: // short, number not decimal, or sub-package without its numbers
					n := g.Int("n", 0, 17)
					b := g.Bytes("b", n)
					if n > 3 {
						b[2] = byte(g.Int("p", 0, 7) << 5)
					}
					f = ref.Wrap(append(b, ref.XOR(b)))
				}
			}
		}
		var key *rsa.PrivateKey
		if g.Bool("key") {
			key = keys.A()
		}
		want := causes(f, key)
		var m protocol.Message
		var err error
		if key != nil || g.Bool("nilkey") {
			err = m.Decode(append([]byte(nil), f...), key)
		} else {
			err = m.Decode(append([]byte(nil), f...))
		}
		stat.Case(err != nil, stat.Hash(f, key != nil), func() string { return fmt.Sprintf("%s %x: %v", kind, f, err) }, fmt.Sprintf("cause-%v", err))
		if err == nil && len(want) == 0 {
			return
		}
		for w := range want {
			if stderrors.Is(err, w) {
				return
			}
		}
		t.Fatalf("%x: error %q, but what is wrong is %v", f, err, want)
	})
}

// tooLong: the two packages have an error of this meaning each.
func tooLong(err error) bool {
	return stderrors.Is(err, errors.ErrBodyTooLong) || stderrors.Is(err, protocol.ErrBodyTooLong)
}

func TestC29_Encode(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		g.Over = g.Bool("over")
		c := g.Any()
		g.Over = false
		h := g.Header()
		h.ID = c.ID
		m := gen.Message(h, c.In())
		long := c.Over || size(c, t) > 1023
		head := false
		switch g.Int("header", 0, 5) {
		case 0:
			m.Header.IccID = 1000000000000 + rapid.Uint64Range(0, 1<<63).Draw(t, "icc")
			head = true
		case 1:
			m.Header.Packet = nil
			m.Header.Property |= 1 << 13
			head = true
		case 2:
			m.Header.Property |= 1 << 10
			head = true
		}
		_, err := encode(m)
		stat.Case(long || head, stat.Hash(c.ID, c.Wire, head), func() string { return fmt.Sprintf("%04x %d bytes: %v", c.ID, len(c.Wire), err) }, fmt.Sprintf("encode-%v", err))
		switch {
		case err == nil && !long && !head:
		case long && tooLong(err):
		case head && stderrors.Is(err, errors.ErrInvalidHeader):
		default:
			t.Fatalf("%04x: error %q for a message that is too long (%v) or has a header that cannot be sent (%v)", c.ID, err, long, head)
		}
	})
}

type nowhere struct{ io.Reader }

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

func TestC29_Rest(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		kind := g.Int("kind", 0, 4)
		var what string
		var err, want error
		switch kind {
		case 0: // dates
			b := g.Bytes("bcd", 6)
			if g.Bool("digits") {
				for i := range b {
					b[i] = b[i]>>4%10<<4 | b[i]&15%10
				}
			}
			r := protocol.NewReader(append([]byte(nil), b...))
			_, err = r.ReadBcdTime()
			what = fmt.Sprintf("date %x", b)
			if !ref.ValidTime(b) {
				want = errors.ErrInvalidBCDTime
			}
		case 1: // extras
			id := g.U8("id")
			if g.Bool("known") {
				id = gen.ExtraIDs[g.Uniform("xid", len(gen.ExtraIDs))]
			}
			b := g.Blob("data", 8)
			need, ok := map[byte]int{1: 4, 2: 2, 3: 2, 4: 2, 0x12: 6, 0x13: 7, 0x25: 4, 0x2a: 2, 0x2b: 4, 0x30: 1, 0x31: 1}[id]
			if id == 0x11 {
				need, ok = 1, true
				if len(b) > 0 && b[0] != 0 {
					need = 5
				}
			}
			_, _, err = extra.Decode(id, b)
			what = fmt.Sprintf("extra %02x %x", id, b)
			if !ok {
				want = errors.ErrTypeNotRegistered
			} else if len(b) < need {
				want = errors.ErrInvalidExtraLength
			}
		case 2: // not a message
			codec, e := go808.Protocol{}.NewCodec(nowhere{nil})
			if e != nil {
				t.Fatal(e)
			}
			v := []interface{}{nil, 7, "x", &protocol.Message{}, protocol.Header{}, []byte{0x7e}}[g.Uniform("v", 6)]
			err, want = codec.Send(v), errors.ErrInvalidMessage
			what = fmt.Sprintf("sending a %T", v)
		case 3: // property
			var p protocol.Property
			n := g.U16("n")
			err = p.SetBodySize(n)
			what = fmt.Sprintf("body size %d", n)
			if n > 1023 {
				want = errors.ErrBodyTooLong
			}
		default: // header
			b := g.Bytes("h", g.Int("n", 0, 18))
			if len(b) > 3 {
				b[2] = byte(g.Int("p", 0, 7) << 5)
			}
			ok := len(b) >= 12
			for i := 4; i < min(10, len(b)); i++ {
				if g.Int("digits", 0, 30) > 0 {
					b[i] = b[i]>>4%10<<4 | b[i]&15%10
				}
				ok = ok && b[i]>>4 < 10 && b[i]&15 < 10
			}
			ok = ok && (b[2]&0x20 == 0 || len(b) >= 16)
			var h protocol.Header
			err = h.Decode(append([]byte(nil), b...))
			what = fmt.Sprintf("header %x", b)
			if !ok {
				want = errors.ErrInvalidHeader
			}
		}
		stat.Case(want != nil, stat.Hash(what), func() string { return fmt.Sprintf("%s: %v", what, err) }, fmt.Sprintf("rest-%d", kind))
		if (err == nil) != (want == nil) || want != nil && !stderrors.Is(err, want) {
			t.Fatalf("%s: error %v, want %v", what, err, want)
		}
	})
}
