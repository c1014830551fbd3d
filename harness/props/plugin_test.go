package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// custom is a user-defined message: it keeps what it was given.
type custom struct {
	id    uint16
	owner int // registration that made it
	data  []byte
	calls int
	fail  bool
}

func (c *custom) MsgID() protocol.MsgID   { return protocol.MsgID(c.id) }
func (c *custom) Encode() ([]byte, error) { return c.data, nil }
func (c *custom) Decode(d []byte) (int, error) {
	c.calls++
	if c.fail {
		return 0, errors.New("refused")
	}
	c.data = append([]byte(nil), d...)
	return len(d), nil
}

// customPacket is a user-defined message that can be split into packets.
type customPacket struct {
	custom
	packets int
}

func (c *customPacket) GetTag() uint32       { return 1 }
func (c *customPacket) GetReader() io.Reader { return bytes.NewReader(c.data) }
func (c *customPacket) SetReader(io.Reader)  {}
func (c *customPacket) DecodePacket(d []byte) error {
	c.packets++
	_, err := c.custom.Decode(d)
	return err
}

// customExtra is a user-defined location extra.
type customExtra struct {
	id    byte
	owner int
	data  []byte
}

func (c *customExtra) ID() byte           { return c.id }
func (c *customExtra) Data() []byte       { return c.data }
func (c *customExtra) Value() interface{} { return fmt.Sprintf("%d:%x", c.owner, c.data) }
func (c *customExtra) Decode(d []byte) (int, error) {
	c.data = append([]byte(nil), d...)
	return len(d), nil
}

var builtinExtra = map[byte]func() extra.Entity{
	0x01: func() extra.Entity { return new(extra.Extra_0x01) }, 0x02: func() extra.Entity { return new(extra.Extra_0x02) },
	0x03: func() extra.Entity { return new(extra.Extra_0x03) }, 0x04: func() extra.Entity { return new(extra.Extra_0x04) },
	0x11: func() extra.Entity { return new(extra.Extra_0x11) }, 0x12: func() extra.Entity { return new(extra.Extra_0x12) },
	0x13: func() extra.Entity { return new(extra.Extra_0x13) }, 0x25: func() extra.Entity { return new(extra.Extra_0x25) },
	0x2a: func() extra.Entity { return new(extra.Extra_0x2A) }, 0x2b: func() extra.Entity { return new(extra.Extra_0x2B) },
	0x30: func() extra.Entity { return new(extra.Extra_0x30) }, 0x31: func() extra.Entity { return new(extra.Extra_0x31) },
}

// custom registrations use these IDs (besides built-in ones); every other ID
// that is not built in is unregistered.
func customID(i int) uint16 {
	return []uint16{0xf001, 0xf002, 0x0000, 0xffff, 0x0101, 0x8fff, 0x7e7d, 0x0f01}[i]
}
func customExtraID(i int) byte { return []byte{0xe0, 0xe1, 0xff, 0x00, 0x7e, 0x10}[i] }

func isCustomID(id uint16) bool {
	for i := 0; i < 8; i++ {
		if customID(i) == id {
			return true
		}
	}
	return false
}

func isCustomExtra(id byte) bool {
	for i := 0; i < 6; i++ {
		if customExtraID(i) == id {
			return true
		}
	}
	return false
}

// C19: registrations of message types, as a history of register and decode.
func TestC19_Messages(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		owner := map[uint16]int{} // registration in force
		kind := map[uint16]int{}
		made := map[uint16][]protocol.Entity{}
		defer func() {
			for id := range owner {
				if f := gen.New[id]; f != nil {
					protocol.Register(id, f)
				} else {
					protocol.Register(id, func() protocol.Entity { return &custom{fail: true} })
				}
			}
		}()
		regs, trace := 0, ""
		pick := func() uint16 {
			if g.Bool("builtin") {
				return gen.IDs[g.Uniform("id", len(gen.IDs))]
			}
			return customID(g.Uniform("id", 8))
		}
		type kept struct {
			body protocol.Entity
			data []byte
		}
		var all []kept
		for n := g.Int("steps", 1, 14); n > 0; n-- {
			switch op := g.Int("op", 0, 4); {
			case op == 0 || regs == 0: // register
				id, k := pick(), g.Int("kind", 0, 2)
				regs++
				me := regs
				owner[id], kind[id] = me, k
				made[id] = nil
				trace += fmt.Sprintf("reg %04x kind %d; ", id, k)
				protocol.Register(id, func() protocol.Entity {
					var e protocol.Entity
					switch k {
					case 0:
						e = &custom{id: id, owner: me}
					case 1:
						e = &customPacket{custom: custom{id: id, owner: me}}
					default:
						e = &custom{id: id, owner: me, fail: true}
					}
					made[id] = append(made[id], e)
					return e
				})
			case op == 1: // unregistered
				id := g.U16("uid")
				if _, ok := gen.New[id]; ok || isCustomID(id) {
					continue
				}
				h := g.Header()
				h.ID = id
				body := g.Blob("body", 200)
				trace += fmt.Sprintf("unknown %04x; ", id)
				m, err := decode(ref.Frame(h, body))
				if err != nil || m.Body != nil || gen.CanonHeader(m.Header) != gen.CanonRef(h) {
					t.Fatalf("%s\nmessage of unregistered type: %v body %v header %s want %s", trace, err, m.Body, gen.CanonHeader(m.Header), gen.CanonRef(h))
				}
			case op == 2: // a built-in type, not replaced
				c := g.Any()
				if _, ok := owner[c.ID]; ok || !c.Fits() {
					continue
				}
				h := g.Header()
				h.ID = c.ID
				trace += fmt.Sprintf("builtin %04x; ", c.ID)
				m, err := decode(ref.Frame(h, c.Wire))
				if err != nil || m.Body == nil {
					t.Fatalf("%s\nbuilt-in %04x does not decode: %v", trace, c.ID, err)
				}
				if a, b := gen.Canon(m.Body), gen.Canon(c.Want()); a != b {
					t.Fatalf("%s\nbuilt-in %04x decodes to %s, want %s", trace, c.ID, a, b)
				}
			default: // a registered type
				var ids []uint16
				for i := 0; i < 8; i++ {
					if _, ok := owner[customID(i)]; ok {
						ids = append(ids, customID(i))
					}
				}
				for _, id := range gen.IDs {
					if _, ok := owner[id]; ok {
						ids = append(ids, id)
					}
				}
				id := ids[g.Uniform("rid", len(ids))]
				h := g.Header()
				h.ID = id
				body := g.Blob("body", 300)
				trace += fmt.Sprintf("decode %04x; ", id)
				before := len(made[id])
				m, err := decode(ref.Frame(h, body))
				if err != nil || gen.CanonHeader(m.Header) != gen.CanonRef(h) {
					t.Fatalf("%s\n%v header %s want %s", trace, err, gen.CanonHeader(m.Header), gen.CanonRef(h))
				}
				if len(made[id]) == before {
					t.Fatalf("%s\nconstructor registered for %04x was not called", trace, id)
				}
				var in *custom
				switch e := m.Body.(type) {
				case *custom:
					in = e
				case *customPacket:
					in = &e.custom
					if e.packets != 1 {
						t.Fatalf("%s\npacket decoder called %d times", trace, e.packets)
					}
				}
				if kind[id] == 2 {
					if m.Body != nil {
						t.Fatalf("%s\nbody %#v though its decoder refused", trace, m.Body)
					}
					break
				}
				if in == nil {
					t.Fatalf("%s\nbody of %04x is a %T", trace, id, m.Body)
				}
				if in.owner != owner[id] || in.id != id || in.calls != 1 || !bytes.Equal(in.data, body) {
					t.Fatalf("%s\nbody of %04x: registration %d of type %04x, decoded %d times to %x; want %d %04x %x", trace, id, in.owner, in.id, in.calls, in.data, owner[id], id, body)
				}
				for _, k := range all {
					if k.body == m.Body {
						t.Fatalf("%s\ntwo messages share one body", trace)
					}
				}
				all = append(all, kept{m.Body, body})
				// and back
				again, err := encode(m)
				if err != nil || !bytes.Equal(again, ref.Frame(h, body)) {
					t.Fatalf("%s\ncustom message encodes to %x (%v), want %x", trace, again, err, ref.Frame(h, body))
				}
			}
		}
		for _, k := range all {
			var d []byte
			switch e := k.body.(type) {
			case *custom:
				d = e.data
			case *customPacket:
				d = e.data
			}
			if !bytes.Equal(d, k.data) {
				t.Fatalf("%s\nan earlier message changed from %x to %x", trace, k.data, d)
			}
		}
		stat.Case(regs > 0 && len(all) > 0, stat.Hash(trace), func() string { return trace }, "register-history")
	})
}

// extraData draws an extra's payload: mostly small, up to the 255 bytes its
// length byte can express.
func extraData(g *gen.G) []byte {
	switch g.Int("data.size", 0, 9) {
	case 8:
		return g.Bytes("data", g.Int("data.long", 61, 255))
	case 9:
		return g.Bytes("data", []int{127, 128, 129, 255, 254}[g.Uniform("data.edge", 5)])
	}
	return g.Blob("data", 60)
}

// C19: extras of registered, replaced and unknown types in location reports.
func TestC19_Extras(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		owner := map[byte]int{}
		defer func() {
			for id := range owner {
				if f := builtinExtra[id]; f != nil {
					extra.Register(id, f)
				}
			}
		}()
		// registrations of custom IDs persist between cases (there is no way to
		// remove one), so all of them are made in every case
		n := 0
		set := func(id byte) {
			n++
			me := n
			owner[id] = me
			extra.Register(id, func() extra.Entity { return &customExtra{id: id, owner: me} })
		}
		for i := 0; i < 6; i++ {
			set(customExtraID(i))
		}
		for i := g.Int("replaced", 0, 2); i > 0; i-- {
			set(gen.ExtraIDs[g.Int("rid", 0, len(gen.ExtraIDs)-1)])
		}
		if g.Bool("twice") {
			set(customExtraID(g.Int("again", 0, 5)))
		}
		draw := func() ([]gen.Extra, string) {
			var exs []gen.Extra
			desc := ""
			for i := g.Int("extras", 0, 7); i > 0; i-- {
				switch g.Int("kind", 0, 2) {
				case 0:
					e := g.DrawExtra()
					if _, ok := owner[e.ID]; ok {
						data := extraData(g)
						id, me := e.ID, owner[e.ID]
						e = gen.Extra{ID: id, Data: data, Build: func() extra.Entity { return &customExtra{id, me, append([]byte(nil), data...)} }}
						desc += "r"
					} else {
						desc += "b"
					}
					exs = append(exs, e)
				case 1:
					id := customExtraID(g.Uniform("cid", 6))
					data, me := extraData(g), owner[id]
					exs = append(exs, gen.Extra{ID: id, Data: data, Build: func() extra.Entity { return &customExtra{id, me, append([]byte(nil), data...)} }})
					desc += "c"
				default:
					id := byte(g.Uniform("uid", 256))
					if _, ok := builtinExtra[id]; ok || isCustomExtra(id) {
						continue
					}
					exs = append(exs, gen.Extra{ID: id, Data: extraData(g)})
					desc += "u"
				}
			}
			return exs, desc
		}
		exs, desc := draw()
		l := g.LocationWith(exs)
		exs2, desc2 := draw()
		l2 := g.LocationWith(exs2)
		sn := g.U16("sn")
		stat.Case(len(desc) > 1, stat.Hash(desc, l.Wire), func() string { return fmt.Sprintf("extras %s / %s: %x", desc, desc2, l.Wire[28:]) }, "extras-mix")
		type embed struct {
			id   uint16
			body []byte
			want protocol.Entity
		}
		w := &gen.W{}
		w.U16(2)
		w.U8(1)
		for _, x := range []gen.Loc{l, l2} {
			w.U16(uint16(len(x.Wire)))
			w.Raw(x.Wire)
		}
		sw := &gen.W{}
		sw.U16(sn)
		sw.Raw(l.Wire)
		a, b := l.Want(), l2.Want()
		for _, c := range []embed{
			{0x0200, l.Wire, &a},
			{0x0201, sw.B, &protocol.T808_0x0201{ReplyMsgSerialNo: sn, Result: a}},
			{0x0500, sw.B, &protocol.T808_0x0500{ReplyMsgSerialNo: sn, Result: a}},
			{0x0704, w.B, &protocol.T808_0x0704{Type: 1, Items: []protocol.T808_0x0200{a, b}}},
		} {
			if len(c.body) > 1023 {
				continue
			}
			m, err := decode(ref.Frame(ref.Header{ID: c.id, Phone: 9, Serial: sn}, c.body))
			if err != nil || m.Body == nil {
				t.Fatalf("%04x with extras %s/%s does not decode: %v\n%x", c.id, desc, desc2, err, c.body)
			}
			if x, y := gen.CanonPayload(m.Body), gen.CanonPayload(c.want); x != y {
				t.Fatalf("%04x with extras %s/%s\n got  %s\n want %s", c.id, desc, desc2, x, y)
			}
			fresh(t, m.Body)
			// back to bytes: unknown extras are gone, all others as they were
			again, err := encode(m)
			if err != nil {
				t.Fatal(err)
			}
			m2, err := decode(again)
			if err != nil || m2.Body == nil || gen.CanonPayload(m2.Body) != gen.CanonPayload(c.want) {
				t.Fatalf("%04x with extras %s/%s changed when re-sent (%v)", c.id, desc, desc2, err)
			}
		}
	})
}

// fresh checks that no two custom extras of a message are the same object.
func fresh(t *rapid.T, body protocol.Entity) {
	seen := map[extra.Entity]bool{}
	each := func(l *protocol.T808_0x0200) {
		for _, e := range l.Extras {
			if seen[e] {
				t.Fatalf("two extras share one object: %v", e)
			}
			seen[e] = true
		}
	}
	switch x := body.(type) {
	case *protocol.T808_0x0200:
		each(x)
	case *protocol.T808_0x0704:
		for i := range x.Items {
			each(&x.Items[i])
		}
	}
}

// user-defined types need not be pointers
type valueMsg struct {
	id  uint16
	box *[]byte
}

func (v valueMsg) MsgID() protocol.MsgID   { return protocol.MsgID(v.id) }
func (v valueMsg) Encode() ([]byte, error) { return *v.box, nil }
func (v valueMsg) Decode(d []byte) (int, error) {
	*v.box = append([]byte(nil), d...)
	return len(d), nil
}

type mapMsg map[string][]byte

func (v mapMsg) MsgID() protocol.MsgID   { return 0xf001 }
func (v mapMsg) Encode() ([]byte, error) { return v["data"], nil }
func (v mapMsg) Decode(d []byte) (int, error) {
	v["data"] = append([]byte(nil), d...)
	return len(d), nil
}

type valueExtra struct {
	id  byte
	box *[]byte
}

func (v valueExtra) ID() byte           { return v.id }
func (v valueExtra) Data() []byte       { return *v.box }
func (v valueExtra) Value() interface{} { return fmt.Sprintf("%x", *v.box) }
func (v valueExtra) Decode(d []byte) (int, error) {
	*v.box = append([]byte(nil), d...)
	return len(d), nil
}

// C19: user-defined types that are plain values.
func TestC19_Values(t *testing.T) {
	check(t, 0.2, func(t *rapid.T, g *gen.G) {
		id := customID(g.Uniform("id", 8))
		isMap := g.Bool("map")
		if isMap {
			id = 0xf001
		}
		protocol.Register(id, func() protocol.Entity {
			if isMap {
				return mapMsg{}
			}
			return valueMsg{id, new([]byte)}
		})
		defer protocol.Register(id, func() protocol.Entity { return &custom{fail: true} })
		body := g.Blob("body", 300)
		h := g.Header()
		h.ID = id
		stat.Case(len(body) > 0, stat.Hash(id, isMap, body), func() string { return fmt.Sprintf("value type %04x map %v %x", id, isMap, body) }, "values")
		var e protocol.Entity = valueMsg{id, &body}
		if isMap {
			e = mapMsg{"data": body}
		}
		frame, err := encode(gen.Message(h, e))
		if err != nil || !bytes.Equal(frame, ref.Frame(h, body)) {
			t.Fatalf("encodes to %x (%v), want %x", frame, err, ref.Frame(h, body))
		}
		m, err := decode(frame)
		if err != nil || m.Body == nil {
			t.Fatalf("does not decode: %v", err)
		}
		got, err := m.Body.Encode()
		if err != nil || !bytes.Equal(got, body) {
			t.Fatalf("decodes to %x, want %x", got, body)
		}
		// as an extra
		xid := customExtraID(g.Uniform("xid", 6))
		data := g.Blob("extra", 100)
		l := g.LocationWith(nil)
		loc := l.In()
		loc.Extras = []extra.Entity{valueExtra{xid, &data}}
		lh := h
		lh.ID = 0x0200
		frame, err = encode(gen.Message(lh, &loc))
		want := ref.Frame(lh, append(append(append([]byte{}, l.Wire...), xid, byte(len(data))), data...))
		if err != nil || !bytes.Equal(frame, want) {
			t.Fatalf("location with a value extra encodes to %x (%v), want %x", frame, err, want)
		}
	})
}
