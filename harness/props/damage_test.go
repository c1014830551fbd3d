package props

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"testing"

	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/keys"
	"verifharness/ref"
	"verifharness/stat"
)

// validFrame draws a frame that fits, and its unescaped content.
func validFrame(g *gen.G) (frame, content []byte, h ref.Header, c gen.Case) {
	c = g.Any()
	if !c.Fits() {
		c = gen.Gens[0x0001](g)
	}
	h = g.Header()
	h.ID = c.ID
	content = append(h.Bytes(len(c.Wire)), c.Wire...)
	content = append(content, ref.XOR(content))
	return ref.Wrap(content), content, h, c
}

// any single content byte changed: rejected
func TestC04_SingleByte(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		frame, content, _, c := validFrame(g)
		for k := g.Int("bytes", 1, 4); k > 0; k-- {
			var i int
			switch g.Int("where", 0, 3) {
			case 0:
				i = g.Int("i", 0, min(15, len(content)-1)) // header
			case 1:
				i = len(content) - 1 - g.Int("i", 0, min(2, len(content)-1)) // checksum
			default:
				i = g.Int("i", 0, len(content)-1)
			}
			x := byte(g.Int("x", 1, 255))
			mod := append([]byte(nil), content...)
			mod[i] ^= x
			bad := ref.Wrap(mod)
			stat.Case(true, stat.Hash(bad), func() string { return fmt.Sprintf("%04x byte %d of %d xor %02x", c.ID, i, len(content), x) }, "single-byte")
			if m, err := decode(bad); err == nil {
				t.Fatalf("frame with content byte %d changed (xor %02x) accepted\n good %x\n bad  %x\n %s", i, x, frame, bad, canonMsg(m))
			}
			var m protocol.Message
			if err := m.Decode(append([]byte(nil), bad...), keys.A()); err == nil {
				t.Fatalf("with a key: frame with content byte %d changed accepted: %x", i, bad)
			}
		}
	})
}

// arbitrary edits of the wire bytes, judged by the reference parser
func TestC04_Wire(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		frame, _, _, c := validFrame(g)
		bad := frame
		switch g.Int("edit", 0, 6) {
		case 0:
			bad = g.Mutate(frame)
		case 1: // truncated
			bad = frame[:g.Int("n", 0, len(frame))]
		case 2: // head cut off
			bad = frame[g.Int("n", 0, len(frame)):]
		case 3: // escape destroyed: the byte after an escape replaced
			bad = append([]byte(nil), frame...)
			var at []int
			for i := 1; i+1 < len(bad); i++ {
				if bad[i] == 0x7d {
					at = append(at, i+1)
				}
			}
			if len(at) > 0 {
				bad[at[g.Int("at", 0, len(at)-1)]] = g.U8("v")
			}
		case 4: // lone escape inserted
			i := g.Int("at", 1, len(frame)-1)
			if g.Bool("end") { // around the checksum
				i = len(frame) - g.Int("back", 1, 3)
			}
			bad = append(append(append([]byte{}, frame[:i]...), 0x7d), frame[i:]...)
		case 5: // delimiter replaced
			bad = append([]byte(nil), frame...)
			if g.Bool("first") {
				bad[0] = g.U8("v")
			} else {
				bad[len(bad)-1] = g.U8("v")
			}
		default: // content of a wrong size with right checksum
			n := g.Int("n", 0, 17)
			b := g.Bytes("b", n)
			if n > 3 {
				b[2] = byte(g.Int("p", 0, 7) << 5) // packet bit or not, encryption bit off
			}
			for i := 4; i < min(10, n) && g.Int("digits", 0, 30) > 0; i++ { // a proper number
				b[i] = b[i]>>4%10<<4 | b[i]&15%10
			}
			bad = ref.Wrap(append(b, ref.XOR(b)))
		}
		_, size, body, rerr := ref.LaxParse(bad)
		label := "still-valid"
		m, err := decode(bad)
		switch {
		case rerr == ref.ErrBCD:
			label = "phone-digits"
		case rerr != nil:
			label = "invalid"
			if err == nil {
				t.Fatalf("%04x: %v, but accepted: %x as %s", c.ID, rerr, bad, canonMsg(m))
			}
		case size != len(body):
			label = "length-mismatch"
			if err == nil && m.Body != nil {
				t.Fatalf("%04x: declares %d body bytes, has %d, but delivers a body: %x", c.ID, size, len(body), bad)
			}
		}
		if err != nil && m.Body != nil {
			t.Fatalf("%04x: error %v and a body: %x", c.ID, err, bad)
		}
		stat.Case(label != "still-valid", stat.Hash(bad), func() string { return fmt.Sprintf("%s: %x", label, bad) }, "wire-"+label)
	})
}

// declared length different from the actual one
func TestC04_Length(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		_, _, h, c := validFrame(g)
		n := len(c.Wire)
		body := append([]byte(nil), c.Wire...)
		declared := n
		how := g.Int("how", 0, 4)
		switch how {
		case 0: // declared differs
			declared = g.Int("d", 0, 1023)
		case 1:
			declared = n + []int{-2, -1, 1, 2, 3}[g.Int("d", 0, 4)]
		case 2: // longer by a multiple of 1024
			body = append(body, bytes.Repeat([]byte{g.U8("f")}, 1024*g.Int("k", 1, 4))...)
		case 3:
			body = append(body, make([]byte, 65536*g.Int("k", 1, 2))...)
		default:
			body = append(body, g.Bytes("x", g.Int("k", 1, 300))...)
		}
		declared &= 0x3ff
		if declared < 0 {
			declared = 0
		}
		if declared == len(body) {
			return
		}
		bad := ref.RawFrame(h.Bytes(declared), body)
		stat.Case(true, stat.Hash(bad), func() string { return fmt.Sprintf("%04x declares %d, has %d", c.ID, declared, len(body)) }, fmt.Sprintf("length-%d", how))
		m, err := decode(bad)
		if err == nil && m.Body != nil {
			t.Fatalf("%04x: declares %d body bytes, has %d, but delivers %s", c.ID, declared, len(body), gen.Canon(m.Body))
		}
	})
}

// damaged compressed data
func TestC04_Gzip(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		var z bytes.Buffer
		zw, _ := gzip.NewWriterLevel(&z, g.Int("level", 0, 9))
		var plain []byte
		if g.Bool("rep") {
			plain = bytes.Repeat(g.Bytes("u", 7), g.Int("n", 0, 400))
		} else {
			plain = rapid.SliceOfN(rapid.Byte(), 0, 500).Draw(t, "plain")
		}
		zw.Write(plain)
		zw.Close()
		comp := z.Bytes()
		switch g.Int("dmg", 0, 4) {
		case 0:
			comp = comp[:g.Int("cut", 0, len(comp)-1)]
		case 1:
			comp[g.Int("at", 10, len(comp)-1)] ^= 1 << g.Int("bit", 0, 7)
		case 2:
			comp[len(comp)-1-g.Int("at", 0, 7)] ^= byte(g.Int("x", 1, 255)) // trailer
		case 3:
			comp = g.Mutate(comp)
		}
		if len(comp) > 1019 {
			return
		}
		var want []byte
		zr, zerr := gzip.NewReader(bytes.NewReader(comp))
		if zerr == nil {
			want, zerr = io.ReadAll(zr)
		}
		w := &gen.W{}
		w.U32(uint32(len(comp)))
		w.Raw(comp)
		h := g.Header()
		h.ID = 0x0901
		frame := ref.Frame(h, w.B)
		label := "gzip-intact"
		if zerr != nil {
			label = "gzip-damaged"
		}
		stat.Case(zerr != nil, stat.Hash(frame), func() string { return fmt.Sprintf("%d compressed bytes: %v", len(comp), zerr) }, label)
		m, err := decode(frame)
		if err != nil {
			t.Fatalf("valid frame refused: %v", err)
		}
		if zerr != nil {
			if m.Body != nil {
				t.Fatalf("compressed data is damaged (%v), but %d bytes were delivered: %x", zerr, len(m.Body.(*protocol.T808_0x0901).Uncompressed), comp)
			}
			return
		}
		if m.Body == nil || !bytes.Equal(m.Body.(*protocol.T808_0x0901).Uncompressed, want) {
			t.Fatalf("compressed data is intact but was not delivered unchanged: %x", comp)
		}
	})
}
