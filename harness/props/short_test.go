package props

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// accounted judges a message delivered for the received body: sent again it must
// be the same bytes. It returns what is wrong, or "".
func accounted(m *protocol.Message, received []byte) string {
	id := uint16(m.Header.MsgID)
	if id == 0x0901 || lossyText(reflect.ValueOf(m.Body)) {
		return ""
	}
	text := gen.Canon(m.Body)
	again, err := encodeEntity(m.Body)
	if err != nil {
		return fmt.Sprintf("delivers %s, which cannot be encoded: %v", text, err)
	}
	if bytes.Equal(again, received) {
		return ""
	}
	// one stray byte after a location is no extra and is left out
	if n := len(received) - 1; (id == 0x0200 || id == 0x0201 || id == 0x0500) && n >= 28 && bytes.Equal(again, received[:n]) {
		return ""
	}
	return fmt.Sprintf("delivers %s, which stands for %x", text, again)
}

// C27: a body that stops short is refused.
func TestC27_Cut(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		c := g.Any()
		if len(c.Wire) > 1023 || len(c.Wire) == 0 {
			stat.Case(false, 0, nil, "nothing-to-cut")
			return
		}
		h := ref.Header{ID: c.ID, Phone: 13800138000, Serial: 9}
		cuts := map[int]bool{len(c.Wire) - 1: true, 0: true}
		for k := g.Int("cuts", 1, 12); k > 0; k-- {
			cuts[g.Int("cut", 0, len(c.Wire)-1)] = true
		}
		refused, taken := 0, 0
		for k := range cuts {
			m, err := decode(ref.Frame(h, c.Wire[:k]))
			if err != nil {
				t.Fatalf("%04x: a well-framed message with %d of %d bytes of body is an error: %v", c.ID, k, len(c.Wire), err)
			}
			if bodyNil(m) {
				refused++
				continue
			}
			taken++
			if bad := accounted(m, c.Wire[:k]); bad != "" {
				t.Fatalf("%04x: a body cut to %d of %d bytes\n %x\n%s", c.ID, k, len(c.Wire), c.Wire[:k], bad)
			}
		}
		stat.Case(refused > 0, stat.Hash(c.Wire, len(cuts)), func() string {
			return fmt.Sprintf("%04x, %d bytes, %d cuts: %d refused, %d complete by themselves", c.ID, len(c.Wire), len(cuts), refused, taken)
		}, idLabel(c.ID))
	})
}

// C27: nothing is delivered that was not received.
func TestC27_Longer(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		frame, kind := decodable(g)
		_, _, in, err := ref.Parse(frame)
		if err != nil {
			t.Fatalf("harness: %v", err)
		}
		m, err := decode(frame)
		if err != nil || bodyNil(m) || m.Header.MsgID == 0x0901 || lossyText(reflect.ValueOf(m.Body)) {
			stat.Case(false, 0, nil, kind+"-not-judged")
			return
		}
		text := gen.Canon(m.Body)
		again, err := encodeEntity(m.Body)
		if err == nil && len(again) > len(in) {
			t.Fatalf("%04x: %d bytes of body\n %x\nwere delivered as\n %s\nwhich takes %d bytes\n %x", m.Header.MsgID, len(in), in, text, len(again), again)
		}
		stat.Case(len(in) > 2, stat.Hash(in), func() string { return kind + " " + fmt.Sprintf("%04x %.200s", m.Header.MsgID, text) }, kind)
	})
}

// C27: a location report one of whose extras is shorter or longer than its kind
// is refused, wherever it comes.
func TestC27_Extras(t *testing.T) {
	sizes := map[byte]int{0x01: 4, 0x02: 2, 0x03: 2, 0x04: 2, 0x12: 6, 0x13: 7, 0x25: 4, 0x2a: 2, 0x2b: 4, 0x30: 1, 0x31: 1}
	ids := []byte{0x01, 0x02, 0x03, 0x04, 0x11, 0x12, 0x13, 0x25, 0x2a, 0x2b, 0x30, 0x31}
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		location := append(g.Bytes("fix", 8), 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0x20, 0x01, 0x02, 0x03, 0x04, 0x05)
		n := g.Int("extras", 1, 5)
		bad := g.Uniform("bad", n)
		desc := ""
		whole := append([]byte(nil), location...)
		for i := 0; i < n; i++ {
			id := ids[g.Uniform("id", len(ids))]
			data := g.Bytes("data", 12)
			size, ok := sizes[id]
			if !ok { // with an area or without
				if size = 5; g.Bool("plain") {
					size, data[0] = 1, 0
				} else {
					data[0] |= 1
				}
			}
			wrong := size
			if i == bad {
				wrong = g.Int("size", 0, 12)
				if wrong == size {
					wrong = size + 1
				}
			} else if g.Int("unknown", 0, 5) == 5 {
				id, wrong = 0xf7, g.Int("size", 0, 12)
			}
			desc += fmt.Sprintf(" %02x:%d of %d", id, wrong, size)
			whole = append(append(whole, id, byte(wrong)), data[:wrong]...)
		}
		id, body := uint16(0x0200), whole
		switch g.Int("in", 0, 5) {
		case 0:
			id, body = 0x0201, append([]byte{0, 9}, whole...)
		case 1:
			id, body = 0x0500, append([]byte{0, 9}, whole...)
		case 2:
			id, body = 0x0704, append([]byte{0, 1, 0, byte(len(whole) >> 8), byte(len(whole))}, whole...)
		}
		h := ref.Header{ID: id, Phone: 13800138000, Serial: 9}
		stat.Case(true, stat.Hash(desc, id), func() string { return fmt.Sprintf("%04x extras%s", id, desc) }, "wrong-extra")
		m, err := decode(ref.Frame(h, body))
		if err != nil {
			t.Fatalf("a well-framed report is an error: %v", err)
		}
		if !bodyNil(m) {
			t.Fatalf("%04x: a report with extras%s, one of which has no length of its kind, delivers %s", id, desc, gen.Canon(m.Body))
		}
	})
}
