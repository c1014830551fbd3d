package props

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

func size(c gen.Case, t *rapid.T) int {
	if c.CheckWire == nil {
		return len(c.Wire)
	}
	b, err := encodeEntity(c.In())
	if err != nil {
		t.Fatalf("body of %04x does not encode: %v", c.ID, err)
	}
	return len(b)
}

// C01: encode then decode gives the message back.
func TestC01_RoundTrip(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		c := g.Any()
		h := g.Header()
		h.ID = c.ID
		if c.Over || size(c, t) > 1023 {
			stat.Case(false, 0, nil, "too-long")
			return
		}
		stat.Case(len(c.Wire) > 0 || h.Packet(), stat.Hash(c.ID, c.Wire, gen.CanonRef(h)), sample(h, c), idLabel(c.ID))
		m := gen.Message(h, c.In())
		frame, err := encode(m)
		if err != nil {
			t.Fatalf("%04x does not encode (%d bytes body): %v\n%s", c.ID, len(c.Wire), err, gen.Canon(c.Want()))
		}
		got, err := decode(frame)
		if err != nil {
			t.Fatalf("%04x: own frame %x does not decode: %v", c.ID, frame, err)
		}
		if bodyNil(got) {
			t.Fatalf("%04x: own frame %x decodes without body; message %s", c.ID, frame, gen.Canon(c.Want()))
		}
		if a, b := gen.CanonHeader(got.Header), gen.CanonRef(h); a != b {
			t.Fatalf("header %s came back as %s", b, a)
		}
		if n := int(got.Header.Property.GetBodySize()); c.CheckWire == nil && n != len(c.Wire) {
			t.Fatalf("body size %d, declared %d", len(c.Wire), n)
		}
		if a, b := gen.Canon(got.Body), gen.Canon(c.Want()); a != b {
			t.Fatalf("%04x came back different\n sent %s\n got  %s", c.ID, b, a)
		}
	})
}

// C02: encoded bytes equal the reference layout, and reference bytes decode to
// the fields.
func TestC02_Layout(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		c := g.Any()
		h := g.Header()
		h.ID = c.ID
		if !c.Fits() {
			stat.Case(false, 0, nil, "too-long")
			return
		}
		want := ref.Frame(h, c.Wire)
		stat.Case(len(c.Wire) >= 8 || hasEscape(want), stat.Hash(want), sample(h, c), idLabel(c.ID))
		if hasEscape(want) {
			stat.Label("escaped", 1)
		}
		if c.CheckWire == nil {
			body, err := encodeEntity(c.In())
			if err != nil {
				t.Fatalf("%04x body: %v", c.ID, err)
			}
			if !bytes.Equal(body, c.Wire) {
				t.Fatalf("%04x body layout\n want %x\n got  %x\n for %s", c.ID, c.Wire, body, gen.Canon(c.Want()))
			}
			frame, err := encode(gen.Message(h, c.In()))
			if err != nil {
				t.Fatalf("%04x: %v", c.ID, err)
			}
			if !bytes.Equal(frame, want) {
				t.Fatalf("%04x frame layout\n want %x\n got  %x", c.ID, want, frame)
			}
		} else if frame, err := encode(gen.Message(h, c.In())); err == nil {
			rh, n, body, err := ref.Parse(frame)
			if err != nil {
				t.Fatalf("%04x: frame %x is malformed: %v", c.ID, frame, err)
			}
			if n != len(body) || gen.CanonRef(rh) != gen.CanonRef(h) {
				t.Fatalf("%04x: header %s size %d, want %s size %d", c.ID, gen.CanonRef(rh), n, gen.CanonRef(h), len(body))
			}
			if err := c.CheckWire(body); err != nil {
				t.Fatalf("%04x body %x: %v", c.ID, body, err)
			}
		}
		got, err := decode(want)
		if err != nil {
			t.Fatalf("reference frame %x does not decode: %v", want, err)
		}
		if bodyNil(got) {
			t.Fatalf("reference frame %x decodes without body (%s)", want, gen.Canon(c.Want()))
		}
		if a, b := gen.CanonHeader(got.Header), gen.CanonRef(h); a != b {
			t.Fatalf("header %s decoded as %s", b, a)
		}
		if a, b := gen.Canon(got.Body), gen.Canon(c.Want()); a != b {
			t.Fatalf("%04x reference bytes %x decode wrong\n want %s\n got  %s", c.ID, c.Wire, b, a)
		}
	})
}

// C02: a location extra's Value is the value it was made from, and the one its
// bytes stand for.
func TestC02_ExtraValues(t *testing.T) {
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		e := g.DrawExtra()
		stat.Case(true, stat.Hash(e.ID, e.Data), func() string { return fmt.Sprintf("extra %02x data %x", e.ID, e.Data) }, fmt.Sprintf("extra-%02x", e.ID))
		made := e.Build()
		if made.ID() != e.ID || !bytes.Equal(made.Data(), e.Data) || !reflect.DeepEqual(made.Value(), e.Val) {
			t.Fatalf("extra %02x made from %+v has ID %02x, data %x (want %x), value %+v", e.ID, e.Val, made.ID(), made.Data(), e.Data, made.Value())
		}
		got, n, err := extra.Decode(e.ID, e.Data)
		if err != nil || n != len(e.Data) {
			t.Fatalf("extra %02x %x: %d bytes read, %v", e.ID, e.Data, n, err)
		}
		if got.ID() != e.ID || !bytes.Equal(got.Data(), e.Data) || !reflect.DeepEqual(got.Value(), e.Val) {
			t.Fatalf("extra %02x read from %x has ID %02x, data %x, value %+v (want %+v)", e.ID, e.Data, got.ID(), got.Data(), got.Value(), e.Val)
		}
	})
}

// C02: Decode tells how many bytes it has read: all of a documented body (of a
// media upload, all but the data, which is left to its reader).
func TestC02_Counts(t *testing.T) {
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		c := g.Any()
		if c.Over {
			return
		}
		n, err := gen.New[c.ID]().Decode(append([]byte(nil), c.Wire...))
		want := len(c.Wire)
		if c.ID == 0x0801 {
			want = 36
		}
		stat.Case(want > 0, stat.Hash(c.ID, c.Wire), func() string { return fmt.Sprintf("%04x body %x", c.ID, c.Wire) }, "count")
		if err != nil || n != want {
			t.Fatalf("%04x: %d of %d bytes read (%v): %x", c.ID, n, len(c.Wire), err, c.Wire)
		}
		// a byte too many is not read, unless it becomes part of what is delivered
		if c.ID != 0x0801 && c.ID != 0x0901 {
			one, two := gen.New[c.ID](), gen.New[c.ID]()
			_, err1 := one.Decode(append([]byte(nil), c.Wire...))
			n, err2 := two.Decode(append(append([]byte(nil), c.Wire...), 0x41))
			if err1 == nil && err2 == nil && n != want && gen.Canon(one) == gen.Canon(two) {
				t.Fatalf("%04x: %d bytes read of %x, the last of which is no part of it", c.ID, n, append(c.Wire, 0x41))
			}
		}
		b := g.Mutate(c.Wire)
		if n, err := gen.New[c.ID]().Decode(append([]byte(nil), b...)); err == nil && (n < 0 || n > len(b)) {
			t.Fatalf("%04x: %d of %d bytes read: %x", c.ID, n, len(b), b)
		}
	})
}

// frameAround builds a frame with correct checksum around a mutated body.
func frameAround(g *gen.G, h ref.Header, body []byte) []byte {
	if len(body) > 1023 {
		body = body[:1023]
	}
	return ref.Frame(h, body)
}

// C05: what does not fit is refused.
func TestC05_Limits(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		g.Over = true
		c := g.Any()
		g.Over = false
		h := g.Header()
		h.ID = c.ID
		checkFits(t, h, c, "limits")
	})
}

// checkFits: a frame iff the message fits, and then a faithful one.
func checkFits(t *rapid.T, h ref.Header, c gen.Case, label string) {
	n := size(c, t)
	if c.Over {
		n = len(c.Wire)
	}
	fits := !c.Over && n <= 1023
	near := c.Over || n > 1000
	l := label + "-fits"
	if c.Over {
		l = label + "-prefix-overflow"
	} else if !fits {
		l = label + "-body-overflow"
	}
	stat.Case(near, stat.Hash(c.ID, c.Wire), func() string {
		return fmt.Sprintf("%04x body %d bytes, prefix overflow %v", c.ID, n, c.Over)
	}, l)
	frame, err := encode(gen.Message(h, c.In()))
	if !fits {
		if err == nil {
			t.Fatalf("%04x: body of %d bytes (prefix overflow %v) was encoded instead of refused: frame of %d bytes", c.ID, n, c.Over, len(frame))
		}
		if len(frame) > 0 {
			t.Fatalf("%04x: refused, but bytes were returned", c.ID)
		}
		return
	}
	if err != nil {
		t.Fatalf("%04x: body of %d bytes refused: %v", c.ID, n, err)
	}
	got, err := decode(frame)
	if err != nil || bodyNil(got) {
		t.Fatalf("%04x: frame does not decode: %v", c.ID, err)
	}
	if a, b := gen.Canon(got.Body), gen.Canon(c.Want()); a != b {
		t.Fatalf("%04x altered\n sent %s\n got  %s", c.ID, b, a)
	}
}

// bulk is an entity of arbitrary size (as a custom message would be).
type bulk struct {
	id   uint16
	data []byte
}

func (b *bulk) MsgID() protocol.MsgID   { return protocol.MsgID(b.id) }
func (b *bulk) Encode() ([]byte, error) { return b.data, nil }
func (b *bulk) Decode(d []byte) (int, error) {
	b.data = append([]byte(nil), d...)
	return len(d), nil
}

func TestC05_BodySize(t *testing.T) {
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		var n int
		switch g.Int("k", 0, 5) {
		case 0:
			n = g.Int("n", 1015, 1031)
		case 1:
			n = g.Int("n", 2040, 2056)
		case 2:
			n = 65536*g.Int("m", 1, 3) + g.Int("n", -3, 1030)
		case 3:
			n = 1024*g.Int("m", 1, 70) + g.Int("n", -2, 2)
		case 4:
			n = g.Int("n", 0, 1023)
		default:
			n = g.Int("n", 1024, 140000)
		}
		data := bytes.Repeat([]byte{g.U8("fill")}, n)
		h := g.Header()
		h.ID = []uint16{0x0900, 0x8900, 0x8700, 0x0700}[g.Int("id", 0, 3)]
		var e protocol.Entity
		switch h.ID {
		case 0x0900:
			e = &protocol.T808_0x0900{Type: 1, Data: data}
			n++
		case 0x8900:
			e = &protocol.T808_0x8900{Type: 1, Data: data}
			n++
		case 0x8700:
			e = &protocol.T808_0x8700{Cmd: 1, Data: data}
			n++
		case 0x0700:
			e = &protocol.T808_0x0700{Cmd: 1, Data: data}
			n += 3
		}
		stat.Case(n > 1000, stat.Hash(h.ID, n, len(data)), func() string { return fmt.Sprintf("%04x body of %d bytes", h.ID, n) }, "bulk")
		frame, err := encode(gen.Message(h, e))
		if n > 1023 {
			if err == nil {
				t.Fatalf("%04x body of %d bytes was encoded into a frame of %d bytes", h.ID, n, len(frame))
			}
			return
		}
		if err != nil {
			t.Fatalf("%04x body of %d bytes refused: %v", h.ID, n, err)
		}
		got, err := decode(frame)
		if err != nil || bodyNil(got) || gen.Canon(got.Body) != gen.Canon(e) {
			t.Fatalf("%04x body of %d bytes does not come back (%v)", h.ID, n, err)
		}
	})
}

// odd messages: no body, typed nil body, packet bit without packet, phone
// number that does not fit.
func TestC05_OddMessages(t *testing.T) {
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		h := g.Header()
		m := gen.Message(h, nil)
		kind := g.Int("kind", 0, 4)
		var want string
		switch kind {
		case 0:
			m.Header.MsgID = protocol.MsgID(g.U16("id"))
		case 1, 2:
			c := g.Any()
			if c.Over || size(c, t) > 1023 {
				return
			}
			m.Body = c.In()
			m.Header.Packet = nil
			m.Header.Property |= 1 << 13
			want = gen.Canon(c.Want())
		case 3:
			c := g.Any()
			if c.Over || size(c, t) > 1023 {
				return
			}
			m.Body = c.In()
			m.Header.IccID = 1000000000000 + rapid.Uint64Range(0, 1<<63).Draw(t, "icc")
			want = gen.Canon(c.Want())
		default:
			m.Body = &protocol.T808_0x0A00{}
		}
		phone := m.Header.IccID
		stat.Case(true, stat.Hash(kind, gen.CanonHeader(m.Header), want), func() string { return fmt.Sprintf("odd kind %d %s", kind, gen.CanonHeader(m.Header)) }, fmt.Sprintf("odd-%d", kind))
		frame, err := encode(m) // must not panic
		if err != nil {
			return
		}
		rh, _, _, perr := ref.Parse(frame)
		if perr != nil {
			t.Fatalf("kind %d: malformed frame %x: %v", kind, frame, perr)
		}
		if rh.Phone != phone {
			t.Fatalf("kind %d: terminal number %d was sent as %d", kind, phone, rh.Phone)
		}
		if kind > 0 && kind <= 3 {
			got, err := decode(frame)
			if err != nil || bodyNil(got) || gen.Canon(got.Body) != want {
				t.Fatalf("kind %d: frame %x does not come back (%v)", kind, frame, err)
			}
		}
	})
}

// C05: an extra whose payload exceeds its one-byte length.
type bigExtra struct{ data []byte }

func (b *bigExtra) ID() byte           { return 0xe7 }
func (b *bigExtra) Data() []byte       { return b.data }
func (b *bigExtra) Value() interface{} { return b.data }
func (b *bigExtra) Decode(d []byte) (int, error) {
	b.data = append([]byte(nil), d...)
	return len(d), nil
}

func TestC05_BigExtra(t *testing.T) {
	check(t, 0.2, func(t *rapid.T, g *gen.G) {
		n := g.Int("n", 240, 300)
		if g.Bool("more") {
			n = g.Int("n2", 500, 900)
		}
		l := g.LocationWith(nil)
		e := l.In()
		e.Extras = append(e.Extras, &bigExtra{bytes.Repeat([]byte{g.U8("fill")}, n)})
		stat.Case(true, stat.Hash(n, l.Wire), func() string { return fmt.Sprintf("custom extra of %d bytes", n) }, "big-extra")
		h := g.Header()
		frame, err := encode(gen.Message(h, &e))
		if n > 255 {
			if err == nil {
				t.Fatalf("extra of %d bytes was encoded: %x", n, frame)
			}
			return
		}
		if err != nil {
			t.Fatalf("extra of %d bytes refused: %v", n, err)
		}
		_, _, body, err := ref.Parse(frame)
		if err != nil || len(body) != len(l.Wire)+2+n {
			t.Fatalf("extra of %d bytes: body of %d bytes (%v)", n, len(body), err)
		}
	})
}

// the named result codes and IDs stand for their wire values
func TestC02_Names(t *testing.T) {
	type named struct {
		name string
		e    protocol.Entity
		at   int
		want byte
	}
	var table []named
	for i, r := range []protocol.Result{protocol.T808_0x8001ResultSuccess, protocol.T808_0x8001ResultFail, protocol.T808_0x8001ResultBad, protocol.T808_0x8001ResultUnsupported, protocol.T808_0x8001ResultAlarmConfirm} {
		table = append(table, named{"platform response result", &protocol.T808_0x8001{Result: r}, 4, byte(i)})
	}
	for i, r := range []protocol.T808_0x8100_Result{protocol.T808_0x8100_ResultSuccess, protocol.T808_0x8100_ResultCarRegistered, protocol.T808_0x8100_ResultCarNotFound, protocol.T808_0x8100_ResultTerminalRegistered, protocol.T808_0x8100_ResultTerminalNotFound} {
		table = append(table, named{"registration result", &protocol.T808_0x8100{Result: r}, 2, byte(i)})
	}
	for i, r := range []protocol.T808_0x0805_Result{protocol.T808_0x0805_ResultSuccess, protocol.T808_0x0805_ResultFail, protocol.T808_0x0805_ResultNotSupported} {
		table = append(table, named{"camera result", &protocol.T808_0x0805{Result: r}, 2, byte(i)})
	}
	for i, r := range []protocol.T808_0x0303_Flag{protocol.T808_0x0303_FlagCancel, protocol.T808_0x0303_FlagRequest} {
		table = append(table, named{"information flag (0 cancel, 1 request)", &protocol.T808_0x0303{Flag: r}, 1, byte(i + 0)})
	}
	for i, r := range []protocol.T808_0x0800_MediaType{protocol.T808_0x0800_MediaTypeImage, protocol.T808_0x0800_MediaTypeAudio, protocol.T808_0x0800_MediaTypeVideo} {
		table = append(table, named{"media type", &protocol.T808_0x0800{Type: r}, 4, byte(i + 0)})
	}
	for i, r := range []protocol.T808_0x0800_MediaCoding{protocol.T808_0x0800_MediaCodingJPEG, protocol.T808_0x0800_MediaCodingTIF, protocol.T808_0x0800_MediaCodingMP3, protocol.T808_0x0800_MediaCodingWAV, protocol.T808_0x0800_MediaCodingWMV} {
		table = append(table, named{"media coding", &protocol.T808_0x0800{Coding: r}, 5, byte(i + 0)})
	}
	for i, r := range []protocol.T808_0x8105_Command{protocol.T808_0x8105_CommandUpgrade, protocol.T808_0x8105_CommandHost, protocol.T808_0x8105_CommandShutdown, protocol.T808_0x8105_CommandReset, protocol.T808_0x8105_CommandFactoryReset, protocol.T808_0x8105_CommandCloseNetwork, protocol.T808_0x8105_CommandCloseAllNetwork} {
		table = append(table, named{"terminal command", &protocol.T808_0x8105{Cmd: r}, 0, byte(i + 1)})
	}
	for i, r := range []protocol.T808_0x8303_Type{protocol.T808_0x8303_TypeRemoveAll, protocol.T808_0x8303_TypeUpdate, protocol.T808_0x8303_TypeAppend, protocol.T808_0x8303_TypeModify} {
		table = append(table, named{"menu setting", &protocol.T808_0x8303{Type: r}, 0, byte(i + 0)})
	}
	for i, r := range []protocol.T808_0x8400_Flag{protocol.T808_0x8400_FlagNormal, protocol.T808_0x8400_FlagMonitor} {
		table = append(table, named{"call flag", &protocol.T808_0x8400{Flag: r}, 0, byte(i + 0)})
	}
	for i, r := range []protocol.T808_0x8401_Type{protocol.T808_0x8401_TypeRemoveAll, protocol.T808_0x8401_TypeUpdate, protocol.T808_0x8401_TypeAppend, protocol.T808_0x8401_TypeModify} {
		table = append(table, named{"phone book setting", &protocol.T808_0x8401{Type: r}, 0, byte(i + 0)})
	}
	for i, r := range []protocol.T808_0x8401_ContactFlag{protocol.T808_0x8401_ContactFlagIncomingCall, protocol.T808_0x8401_ContactFlagOutgoingCall, protocol.T808_0x8401_ContactFlagBoth} {
		table = append(table, named{"contact flag", &protocol.T808_0x8401{Contacts: []protocol.T808_0x8401_Contact{{Flag: r}}}, 2, byte(i + 1)})
	}
	for i, r := range []protocol.T808_0x8801_SaveFlag{protocol.T808_0x8801_SaveFlagRemote, protocol.T808_0x8801_SaveFlagLocal} {
		table = append(table, named{"save flag", &protocol.T808_0x8801{Save: r}, 5, byte(i + 0)})
	}
	for i, r := range []protocol.T808_0x8801_SaveFlag{protocol.T808_0x8801_SaveFlagRemote, protocol.T808_0x8801_SaveFlagLocal} {
		table = append(table, named{"audio save flag", &protocol.T808_0x8804{Save: r}, 3, byte(i + 0)})
	}
	for i, r := range []protocol.T808_0x8801_Resolution{protocol.T808_0x8801_Resolution320x240, protocol.T808_0x8801_Resolution640x480, protocol.T808_0x8801_Resolution800x600, protocol.T808_0x8801_Resolution1024x768, protocol.T808_0x8801_Resolution176x144, protocol.T808_0x8801_Resolution352x288, protocol.T808_0x8801_Resolution704x288, protocol.T808_0x8801_Resolution704x576} {
		table = append(table, named{"resolution", &protocol.T808_0x8801{Resolution: r}, 6, byte(i + 1)})
	}
	for i, r := range []protocol.T808_0x8804_AudioSampleRate{protocol.T808_0x8804_AudioSampleRate8k, protocol.T808_0x8804_AudioSampleRate11k, protocol.T808_0x8804_AudioSampleRate23k, protocol.T808_0x8804_AudioSampleRate32k} {
		table = append(table, named{"sample rate", &protocol.T808_0x8804{AudioSampleRate: r}, 4, byte(i + 0)})
	}
	for i, r := range []protocol.AreaAction{protocol.AreaActionUpdate, protocol.AreaActionAdd, protocol.AreaActionEdit} {
		table = append(table, named{"circle area action", &protocol.T808_0x8600{Action: r}, 0, byte(i)}, named{"rectangle area action", &protocol.T808_0x8602{Action: r}, 0, byte(i)})
	}
	check(t, 0.001, func(t *rapid.T, g *gen.G) {
		h := g.Header()
		for _, n := range table {
			h.ID = uint16(n.e.MsgID())
			f, err := encode(gen.Message(h, n.e))
			if err != nil {
				t.Fatalf("%s %d: %v", n.name, n.want, err)
			}
			_, _, body, err := ref.Parse(f)
			if err != nil || len(body) <= n.at || body[n.at] != n.want {
				t.Fatalf("%s %d is %x on the wire (%v)", n.name, n.want, body, err)
			}
		}
		stat.Case(false, 0, nil, "named-constants")
	})
}
