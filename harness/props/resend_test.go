package props

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
	"unicode/utf8"

	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// lossyText reports text the character set itself cannot reproduce (decoded
// from invalid or unassigned GB18030 byte sequences).
func lossyText(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && lossyText(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && lossyText(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && v.Type().Elem().Kind() != reflect.Uint8; i++ {
			if lossyText(v.Index(i)) {
				return true
			}
		}
	case reflect.String:
		for _, r := range v.String() {
			if r == utf8.RuneError || !gen.Encodable(r) {
				return true
			}
		}
	}
	return false
}

// mutated or valid frame with a correct header and checksum
func decodable(g *gen.G) ([]byte, string) {
	c := g.Any()
	if len(c.Wire) > 1023 {
		c = gen.Gens[0x0200](g)
	}
	h := g.Header()
	h.ID = c.ID
	body, kind := clip(c.Wire), "valid"
	switch g.Int("how", 0, 4) {
	case 0, 1:
		body, kind = clip(g.Mutate(c.Wire)), "mutated"
	case 2: // trailing bytes
		body, kind = clip(append(append([]byte(nil), c.Wire...), g.Bytes("t", g.Int("tn", 1, 9))...)), "trailing"
	case 3: // few single-byte edits only
		b := append([]byte(nil), body...)
		for k := g.Int("k", 1, 3); k > 0 && len(b) > 0; k-- {
			b[g.Int("at", 0, len(b)-1)] = g.U8("v")
		}
		body, kind = b, "edited"
	}
	return ref.Frame(h, body), kind
}

func TestC06_Resend(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		frame, kind := decodable(g)
		resend(t, frame, kind)
	})
}

// A frame in the documented layout comes out of the gateway as it came in.
func TestC06_Verbatim(t *testing.T) {
	check(t, 0.4, func(t *rapid.T, g *gen.G) {
		c := g.Any()
		if len(c.Wire) > 1023 {
			c = gen.Gens[0x0200](g)
		}
		h := g.Header()
		h.ID = c.ID
		frame := ref.Frame(h, c.Wire)
		m, err := decode(frame)
		if err != nil || m.Body == nil {
			t.Fatalf("%04x does not decode (%v): %x", c.ID, err, frame)
		}
		lossy := lossyText(reflect.ValueOf(m.Body))
		again, err := encode(m)
		stat.Case(len(c.Wire) > 0, stat.Hash("verbatim", frame), func() string { return fmt.Sprintf("verbatim %x", frame) }, "verbatim", idLabel(c.ID))
		if err != nil || !bytes.Equal(frame, again) {
			if lossy || c.ID == 0x0901 { // replaced characters; compressed data is not unique
				stat.Label("not-unique", 1)
				return
			}
			t.Fatalf("%04x: received and re-sent frames differ (%v)\n %x\n %x", c.ID, err, frame, again)
		}
	})
}

func resend(t interface{ Fatalf(string, ...any) }, frame []byte, kind string) {
	m1, err1 := decode(frame)
	m1b, err1b := decode(frame)
	if (err1 == nil) != (err1b == nil) {
		t.Fatalf("decoding twice: %v and %v", err1, err1b)
	}
	if err1 != nil || m1.Body == nil {
		if err1b == nil && m1b.Body != nil {
			t.Fatalf("decoding twice: no body, then a body: %x", frame)
		}
		stat.Case(false, 0, nil, kind+"-undecodable")
		return
	}
	if m1b.Body == nil {
		t.Fatalf("decoding twice: a body, then none: %x", frame)
	}
	id := uint16(m1.Header.MsgID)
	head, body := gen.CanonHeader(m1.Header), gen.CanonPayload(m1.Body)
	if h2, b2 := gen.CanonHeader(m1b.Header), gen.CanonPayload(m1b.Body); h2 != head || b2 != body {
		t.Fatalf("decoding %x twice differs\n %s %s\n %s %s", frame, head, body, h2, b2)
	}
	stat.Case(true, stat.Hash(frame), func() string { return kind + " " + head + " " + body }, kind, idLabel(id))
	f2, err := encode(m1)
	if err != nil {
		stat.Label("re-encode-refused", 1)
		return
	}
	m2, err := decode(f2)
	if err != nil || m2.Body == nil {
		if lossyText(reflect.ValueOf(m1b.Body)) {
			return
		}
		t.Fatalf("%04x: re-encoded frame does not decode (%v)\n frame %x\n again %x\n value %s", id, err, frame, f2, body)
	}
	if h2, b2 := gen.CanonHeader(m2.Header), gen.CanonPayload(m2.Body); h2 != head || b2 != body {
		if lossyText(reflect.ValueOf(m1b.Body)) {
			stat.Label("lossy-text", 1)
			return
		}
		t.Fatalf("%04x changed by re-sending\n frame %x\n again %x\n was %s %s\n is  %s %s", id, frame, f2, head, body, h2, b2)
	}
	// encoding has no memory: the decoded message encodes to the same bytes again
	if _, oneShot := m1.Body.(protocol.EntityPacket); !oneShot {
		f3, err := encode(m1)
		if err != nil || !bytes.Equal(f2, f3) {
			t.Fatalf("%04x: encoding twice differs (%v)\n %x\n %x", id, err, f2, f3)
		}
	}
}

// fresh values: encoding twice gives the same bytes
func TestC06_EncodeTwice(t *testing.T) {
	check(t, 0.4, func(t *rapid.T, g *gen.G) {
		c := g.Any()
		h := g.Header()
		h.ID = c.ID
		m := gen.Message(h, c.In())
		f1, err1 := encode(m)
		if _, ok := m.Body.(protocol.EntityPacket); ok {
			m.Body = c.In()
		}
		f2, err2 := encode(m)
		stat.Case(err1 == nil && len(c.Wire) > 0, stat.Hash("twice", c.ID, c.Wire), func() string { return "encode twice " + gen.Canon(c.Want()) }, "encode-twice")
		if (err1 == nil) != (err2 == nil) || !bytes.Equal(f1, f2) {
			t.Fatalf("%04x: encoding twice differs (%v, %v)\n %x\n %x", c.ID, err1, err2, f1, f2)
		}
	})
}

// FuzzC06 is the coverage-guided variant over frame contents (checksum and
// length are repaired so that mutations reach the decoders).
func FuzzC06(f *testing.F) {
	for i, id := range gen.IDs {
		f.Add(id, exampleBody(id, i))
	}
	f.Fuzz(func(t *testing.T, id uint16, body []byte) {
		if len(body) > 1023 {
			return
		}
		stat.Guard(func() string { return fmt.Sprintf("%04x %x", id, body) }, func() {
			resend(t, ref.Frame(ref.Header{ID: id, Phone: 13812345678, Serial: 7}, body), "fuzz")
		})
	})
}

func exampleBody(id uint16, seed int) []byte {
	return rapid.Custom(func(t *rapid.T) []byte {
		rapid.Bool().Draw(t, "x")
		return gen.Gens[id](&gen.G{T: t}).Wire
	}).Example(seed)
}

// FuzzC03 feeds raw frame contents (checksum appended) and bodies.
func FuzzC03(f *testing.F) {
	for i, id := range gen.IDs {
		b := clip(exampleBody(id, i))
		f.Add(append(ref.Header{ID: id, Phone: 13812345678, Serial: 7}.Bytes(len(b)), b...))
	}
	f.Fuzz(func(t *testing.T, content []byte) {
		stat.Guard(func() string { return fmt.Sprintf("%x", content) }, func() {
			content = append([]byte(nil), content...)
			if m, err := decode(ref.Wrap(append(content, ref.XOR(content)))); err == nil {
				use(m)
			}
			if len(content) > 12 {
				// repaired length
				n := len(content) - 12
				if content[2]&0x20 != 0 {
					n -= 4
				}
				if n >= 0 && n <= 1023 {
					content[2] = content[2]&0xfc&^4 | byte(n>>8)
					content[3] = byte(n)
					if m, err := decode(ref.Wrap(append(content, ref.XOR(content)))); err == nil {
						use(m)
					}
				}
			}
		})
	})
}
