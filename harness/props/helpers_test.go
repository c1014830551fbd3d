package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
	"time"

	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// parameters: each kind reads back, directly and through messages
func TestC18_Params(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		p := &protocol.Param{}
		if g.Bool("reuse") { // an earlier value must not shine through
			p.SetBytes(g.U32("old"), g.Blob("oldb", 255))
		}
		id := g.U32("id")
		var raw []byte
		var verify func(q *protocol.Param, where string)
		kind := g.Int("kind", 0, 4)
		fail := func(where string, got, want interface{}, err error) {
			t.Fatalf("kind %d %s: got %v (%v), want %v", kind, where, got, err, want)
		}
		var ret *protocol.Param
		switch kind {
		case 0:
			v := g.U8("v")
			raw = []byte{v}
			ret = p.SetByte(id, v)
			verify = func(q *protocol.Param, where string) {
				if got, err := q.GetByte(); err != nil || got != v {
					fail(where, got, v, err)
				}
			}
		case 1:
			v := g.U16("v")
			raw = binary.BigEndian.AppendUint16(nil, v)
			ret = p.SetUint16(id, v)
			verify = func(q *protocol.Param, where string) {
				if got, err := q.GetUint16(); err != nil || got != v {
					fail(where, got, v, err)
				}
			}
		case 2:
			v := g.U32("v")
			raw = binary.BigEndian.AppendUint32(nil, v)
			ret = p.SetUint32(id, v)
			verify = func(q *protocol.Param, where string) {
				if got, err := q.GetUint32(); err != nil || got != v {
					fail(where, got, v, err)
				}
			}
		case 3:
			v := g.Text("v", 255)
			raw = ref.GB(v)
			ret = p.SetString(id, v)
			verify = func(q *protocol.Param, where string) {
				if got, err := q.GetString(); err != nil || got != v {
					fail(where, fmt.Sprintf("%q", got), fmt.Sprintf("%q", v), err)
				}
			}
		default:
			v := g.Blob("v", 255)
			raw = append([]byte(nil), v...)
			ret = p.SetBytes(id, v)
			for i := range v { // the caller's slice is its own
				v[i] ^= 0x55
			}
			verify = func(q *protocol.Param, where string) {}
		}
		if ret != p {
			t.Fatalf("kind %d: setter does not return its receiver", kind)
		}
		stat.Case(len(raw) > 0, stat.Hash(id, kind, raw), func() string { return fmt.Sprintf("param %08x kind %d %x", id, kind, raw) }, fmt.Sprintf("param-kind-%d", kind))
		all := func(q *protocol.Param, where string) {
			if q.ID() != id {
				t.Fatalf("%s: ID %08x, want %08x", where, q.ID(), id)
			}
			verify(q, where)
			b, err := q.GetBytes()
			if err != nil || !bytes.Equal(b, raw) {
				t.Fatalf("kind %d %s: bytes %x (%v), want %x", kind, where, b, err, raw)
			}
			for i := range b { // what is handed out is a copy
				b[i] ^= 0xaa
			}
			if b2, _ := q.GetBytes(); !bytes.Equal(b2, raw) {
				t.Fatalf("kind %d %s: value changed through a slice handed out", kind, where)
			}
			if got, err := q.GetByte(); (err == nil) != (len(raw) >= 1) || err == nil && got != raw[0] {
				t.Fatalf("%s: GetByte of %x: %v %v", where, raw, got, err)
			}
			if got, err := q.GetUint16(); (err == nil) != (len(raw) >= 2) || err == nil && got != binary.BigEndian.Uint16(raw) {
				t.Fatalf("%s: GetUint16 of %x: %v %v", where, raw, got, err)
			}
			if got, err := q.GetUint32(); (err == nil) != (len(raw) >= 4) || err == nil && got != binary.BigEndian.Uint32(raw) {
				t.Fatalf("%s: GetUint32 of %x: %v %v", where, raw, got, err)
			}
		}
		all(p, "directly")
		// through both parameter messages, among others
		before, after := new(protocol.Param).SetUint16(id-1, 7), new(protocol.Param).SetByte(id+1, 9)
		for _, e := range []protocol.Entity{
			&protocol.T808_0x8103{Params: []*protocol.Param{before, p, after}},
			&protocol.T808_0x0104{ReplyMsgSerialNo: g.U16("sn"), Params: []*protocol.Param{before, p, after}},
		} {
			frame, err := encode(gen.Message(g.Header(), e))
			if err != nil {
				t.Fatalf("%04x: %v", e.MsgID(), err)
			}
			m, err := decode(frame)
			if err != nil || m.Body == nil {
				t.Fatalf("%04x does not decode: %v", e.MsgID(), err)
			}
			var ps []*protocol.Param
			switch b := m.Body.(type) {
			case *protocol.T808_0x8103:
				ps = b.Params
			case *protocol.T808_0x0104:
				ps = b.Params
			}
			if len(ps) != 3 {
				t.Fatalf("%04x: %d parameters, want 3", e.MsgID(), len(ps))
			}
			all(ps[1], fmt.Sprintf("after %04x", e.MsgID()))
		}
		all(p, "at the end")
	})
}

func TestC18_Bits(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		off := g.Int("off", 0, 40)
		if g.Int("far", 0, 9) == 9 {
			off = g.Int("far", 32, 300)
		}
		set := g.Bool("set")
		v8, v16, v32 := g.U8("v8"), g.U16("v16"), g.U32("v32")
		stat.Case(off < 32, stat.Hash(off, set, v8, v16, v32), func() string { return fmt.Sprintf("bit %d=%v of %02x %04x %08x", off, set, v8, v16, v32) }, "bits")
		want := func(v uint64, width int) uint64 {
			if off >= width {
				return v
			}
			if set {
				return v | 1<<off
			}
			return v &^ (1 << off)
		}
		get := func(v uint64, width int) bool { return off < width && v>>off&1 == 1 }
		a, b, c := v8, v16, v32
		if protocol.GetBitByte(v8, off) != get(uint64(v8), 8) || protocol.GetBitUint16(v16, off) != get(uint64(v16), 16) || protocol.GetBitUint32(v32, off) != get(uint64(v32), 32) {
			t.Fatalf("getting bit %d of %02x %04x %08x", off, v8, v16, v32)
		}
		protocol.SetBitByte(&a, off, set)
		protocol.SetBitUint16(&b, off, set)
		protocol.SetBitUint32(&c, off, set)
		if uint64(a) != want(uint64(v8), 8) || uint64(b) != want(uint64(v16), 16) || uint64(c) != want(uint64(v32), 32) {
			t.Fatalf("setting bit %d to %v: %02x->%02x %04x->%04x %08x->%08x", off, set, v8, a, v16, b, v32, c)
		}
		// named flags
		st := protocol.T808_0x0200_Status(v32)
		st.SetSouthLatitude(set)
		if w := setFlag(v32, 2, set); uint32(st) != w || (st.GetLatitudeType() == protocol.SouthLatitudeType) != set {
			t.Fatalf("status %08x south %v -> %08x", v32, set, uint32(st))
		}
		st = protocol.T808_0x0200_Status(v32)
		st.SetWestLongitude(set)
		if w := setFlag(v32, 3, set); uint32(st) != w || (st.GetLongitudeType() == protocol.WestLongitudeType) != set {
			t.Fatalf("status %08x west %v -> %08x", v32, set, uint32(st))
		}
		st = protocol.T808_0x0200_Status(v32)
		if st.GetAccState() != (v32&1 == 1) || st.Positioning() != (v32&2 != 0) {
			t.Fatalf("status %08x: acc %v positioning %v", v32, st.GetAccState(), st.Positioning())
		}
		area := func(name string, bit uint, f func(a *protocol.AreaAttribute)) protocol.AreaAttribute {
			a := protocol.AreaAttribute(v16)
			f(&a)
			if w := uint16(setFlag(uint32(v16), bit, set)); uint16(a) != w {
				t.Fatalf("area %04x %s %v -> %04x, want %04x", v16, name, set, uint16(a), w)
			}
			return a
		}
		if a := area("south", 6, func(a *protocol.AreaAttribute) { a.SetSouthLatitude(set) }); (a.GetLatitudeType() == protocol.SouthLatitudeType) != set {
			t.Fatalf("area %04x: latitude type", uint16(a))
		}
		if a := area("west", 7, func(a *protocol.AreaAttribute) { a.SetWestLongitude(set) }); (a.GetLongitudeType() == protocol.WestLongitudeType) != set {
			t.Fatalf("area %04x: longitude type", uint16(a))
		}
		area("exit", 5, func(a *protocol.AreaAttribute) { a.SetExitAlarm(set) })
		area("enter", 3, func(a *protocol.AreaAttribute) { a.SetEnterAlarm(set) })
		section := func(name string, bit uint, f func(a *protocol.T808_0x8606_SectionAttribute)) protocol.T808_0x8606_SectionAttribute {
			a := protocol.T808_0x8606_SectionAttribute(v8)
			f(&a)
			if w := byte(setFlag(uint32(v8), bit, set)); byte(a) != w {
				t.Fatalf("section %02x %s %v -> %02x, want %02x", v8, name, set, byte(a), w)
			}
			return a
		}
		if a := section("time limit", 0, func(a *protocol.T808_0x8606_SectionAttribute) { a.SetTimeLimit(set) }); a.HasTimeLimit() != set || a.HasSpeedLimit() != (v8&2 != 0) {
			t.Fatalf("section %02x: time limit %v speed limit %v", byte(a), a.HasTimeLimit(), a.HasSpeedLimit())
		}
		if a := section("speed limit", 1, func(a *protocol.T808_0x8606_SectionAttribute) { a.SetSpeedLimit(set) }); a.HasSpeedLimit() != set || a.HasTimeLimit() != (v8&1 != 0) {
			t.Fatalf("section %02x: speed limit %v time limit %v", byte(a), a.HasSpeedLimit(), a.HasTimeLimit())
		}
		if a := section("south", 2, func(a *protocol.T808_0x8606_SectionAttribute) { a.SetSouthLatitude(set) }); (a.GetLatitudeType() == protocol.SouthLatitudeType) != set {
			t.Fatalf("section %02x: latitude type", byte(a))
		}
		if a := section("west", 3, func(a *protocol.T808_0x8606_SectionAttribute) { a.SetWestLongitude(set) }); (a.GetLongitudeType() == protocol.WestLongitudeType) != set {
			t.Fatalf("section %02x: longitude type", byte(a))
		}
		// property word
		p := protocol.Property(v16)
		if p.GetBodySize() != v16&0x3ff || p.IsEnablePacket() != (v16>>13&1 == 1) || p.IsEnableEncrypt() != (v16>>10&1 == 1) {
			t.Fatalf("property %04x: size %d packet %v encrypt %v", v16, p.GetBodySize(), p.IsEnablePacket(), p.IsEnableEncrypt())
		}
		n := g.U16("size")
		if g.Bool("fit") {
			n = uint16(g.Int("size", 0, 1030))
		}
		err := p.SetBodySize(n)
		if n > 1023 {
			if err == nil || uint16(p) != v16 {
				t.Fatalf("size %d accepted (%v), property %04x -> %04x", n, err, v16, uint16(p))
			}
		} else if err != nil || uint16(p) != v16&0xfc00|n {
			t.Fatalf("size %d: %v, property %04x -> %04x", n, err, v16, uint16(p))
		}
	})
}

func setFlag(v uint32, bit uint, set bool) uint32 {
	if set {
		return v | 1<<bit
	}
	return v &^ (1 << bit)
}

type rwItem struct {
	kind  int
	bytes []byte
	str   string
	t     time.Time
}

// Writer against a byte model, Reader against the same model, including
// failing reads that must not consume.
func TestC18_ReaderWriter(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		w := protocol.NewWriter()
		var want []byte
		var items []rwItem
		n := g.Int("items", 0, 10)
		desc := ""
		for i := 0; i < n; i++ {
			it := rwItem{kind: g.Int("kind", 0, 7)}
			switch it.kind {
			case 0:
				v := g.U8("v")
				w.WriteByte(v)
				it.bytes = []byte{v}
			case 1:
				v := g.U16("v")
				w.WriteUint16(v)
				it.bytes = binary.BigEndian.AppendUint16(nil, v)
			case 2:
				v := g.U32("v")
				w.WriteUint32(v)
				it.bytes = binary.BigEndian.AppendUint32(nil, v)
			case 3:
				it.bytes = g.Blob("v", 100)
				w.Write(it.bytes)
			case 4: // sized
				b, size := g.Blob("v", 60), g.Int("size", 0, 60)
				if g.Bool("exact") {
					size = len(b) + g.Int("d", -1, 1)
					if size < 0 {
						size = 0
					}
				}
				w.Write(b, size)
				it.bytes = make([]byte, size)
				copy(it.bytes, b)
			case 5: // text
				it.str = g.Text("s", 100)
				if err := w.WritString(it.str); err != nil {
					t.Fatalf("writing %q: %v", it.str, err)
				}
				it.bytes = ref.GB(it.str)
			case 6: // sized text
				it.str = g.TextOf("s", g.Int("sn", 0, 40))
				b := ref.GB(it.str)
				size := len(b) + g.Int("pad", 0, 5)
				if g.Int("cutit", 0, 3) == 3 {
					size = g.Int("size", 0, len(b))
				}
				if err := w.WritString(it.str, size); err != nil {
					t.Fatalf("writing %q: %v", it.str, err)
				}
				it.bytes = make([]byte, size)
				copy(it.bytes, b)
				if size < len(b) {
					it.kind = 4
				}
			default:
				var in time.Time
				in, it.t = g.Time("t")
				w.WriteBcdTime(in)
				it.bytes = ref.Time(it.t)
			}
			desc += fmt.Sprintf("%d:%d ", it.kind, len(it.bytes))
			want = append(want, it.bytes...)
			items = append(items, it)
		}
		stat.Case(n > 1, stat.Hash(desc, want), func() string { return desc + fmt.Sprintf("%x", want) }, "reader-writer")
		if !bytes.Equal(w.Bytes(), want) {
			t.Fatalf("written %s\n got  %x\n want %x", desc, w.Bytes(), want)
		}
		r := protocol.NewReader(append([]byte(nil), want...))
		left := len(want)
		for i, it := range items {
			if r.Len() != left {
				t.Fatalf("before item %d: %d bytes left, want %d", i, r.Len(), left)
			}
			// reads that ask for too much fail and consume nothing
			if k := g.Int("toomuch", 0, 3); k == 3 {
				if b, err := r.Read(left + g.Int("extra", 1, 9)); err == nil {
					t.Fatalf("read %d bytes of %d", len(b), left)
				}
				if s, err := r.ReadString(left + g.Int("extra", 1, 9)); err == nil {
					t.Fatalf("read text %q of %d", s, left)
				}
				if r.Len() != left {
					t.Fatalf("a failed read consumed %d bytes", left-r.Len())
				}
			}
			var err error
			var got []byte
			switch it.kind {
			case 0:
				var v byte
				v, err = r.ReadByte()
				got = []byte{v}
			case 1:
				var v uint16
				v, err = r.ReadUint16()
				got = binary.BigEndian.AppendUint16(nil, v)
			case 2:
				var v uint32
				v, err = r.ReadUint32()
				got = binary.BigEndian.AppendUint32(nil, v)
			case 3, 4:
				if i == len(items)-1 && g.Bool("rest") {
					got, err = r.Read()
				} else {
					got, err = r.Read(len(it.bytes))
				}
			case 5, 6:
				var s string
				if i == len(items)-1 && g.Bool("rest") {
					s, err = r.ReadString()
				} else {
					s, err = r.ReadString(len(it.bytes))
				}
				if s != it.str {
					t.Fatalf("text %q read as %q (%v)", it.str, s, err)
				}
				got = it.bytes
			default:
				var v time.Time
				v, err = r.ReadBcdTime()
				if err == nil && !v.Equal(it.t) {
					t.Fatalf("time %v read as %v", it.t, v)
				}
				got = it.bytes
			}
			if err != nil || !bytes.Equal(got, it.bytes) {
				t.Fatalf("item %d of %s: got %x (%v), want %x", i, desc, got, err, it.bytes)
			}
			left -= len(it.bytes)
		}
		// at the end, short tails
		tail := g.Bytes("tail", g.Int("tail.n", 0, 7))
		kinds := []struct {
			name string
			size int
			read func(r *protocol.Reader) error
		}{
			{"byte", 1, func(r *protocol.Reader) error { _, err := r.ReadByte(); return err }},
			{"16 bits", 2, func(r *protocol.Reader) error { _, err := r.ReadUint16(); return err }},
			{"32 bits", 4, func(r *protocol.Reader) error { _, err := r.ReadUint32(); return err }},
			{"bytes", len(tail) + 1, func(r *protocol.Reader) error { _, err := r.Read(len(tail) + 1); return err }},
			{"text", len(tail) + 3, func(r *protocol.Reader) error { _, err := r.ReadString(len(tail) + 3); return err }},
			{"time", 6, func(r *protocol.Reader) error { _, err := r.ReadBcdTime(); return err }},
		}
		skip := g.Int("skip", 0, len(tail))
		for _, k := range kinds {
			r := protocol.NewReader(tail)
			if _, err := r.Read(skip); err != nil {
				t.Fatalf("%d of %d bytes: %v", skip, len(tail), err)
			}
			err := k.read(&r)
			if len(tail)-skip >= k.size {
				if err != nil && k.name == "time" { // no date
					continue
				}
				if err != nil {
					t.Fatalf("%s of %d bytes: %v", k.name, len(tail)-skip, err)
				}
				if r.Len() != len(tail)-skip-k.size {
					t.Fatalf("reading %s of %d bytes leaves %d", k.name, len(tail)-skip, r.Len())
				}
				continue
			}
			if err == nil {
				t.Fatalf("%s read from %d bytes", k.name, len(tail)-skip)
			}
			rest, err := r.Read()
			if err != nil || !bytes.Equal(rest, tail[skip:]) {
				t.Fatalf("after failing to read %s, %x is left of %x (%v)", k.name, rest, tail[skip:], err)
			}
		}
	})
}
