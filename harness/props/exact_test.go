package props

import (
	"bytes"
	"fmt"
	"testing"
	"time"
	_ "time/tzdata"

	"gitee.com/coco/go808/protocol"
	"github.com/shopspring/decimal"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// messages that carry coordinates or times
var exactIDs = []uint16{0x0200, 0x0201, 0x0500, 0x0702, 0x0704, 0x0705, 0x0801, 0x0802, 0x8600, 0x8602, 0x8604, 0x8606, 0x8802, 0x8803}

// C20: coordinates and times of every message that carries them.
func TestC20_Messages(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		c := gen.Gens[exactIDs[g.Uniform("id", len(exactIDs))]](g)
		if !c.Fits() {
			stat.Case(false, 0, nil, "too-long")
			return
		}
		h := g.Header()
		h.ID = c.ID
		stat.Case(len(c.Wire) > 8, stat.Hash(c.ID, c.Wire), sample(h, c), idLabel(c.ID), "zone-"+time.Local.String())
		frame, err := encode(gen.Message(h, c.In()))
		if err != nil {
			t.Fatalf("%04x: %v", c.ID, err)
		}
		for i, f := range [][]byte{frame, ref.Frame(h, c.Wire)} {
			m, err := decode(f)
			if err != nil || bodyNil(m) {
				t.Fatalf("%04x: frame %x (%d) does not decode: %v", c.ID, f, i, err)
			}
			if a, b := gen.Canon(m.Body), gen.Canon(c.Want()); a != b {
				t.Fatalf("%04x in zone %v came back different (%d)\n sent %s\n got  %s", c.ID, time.Local, i, b, a)
			}
		}
	})
}

// C20: the point of a location report in all representations of the decimal.
func TestC20_Points(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		lat, lng := g.Micro("lat", 90, 0), g.Micro("lng", 180, 0)
		in, want := g.Time("time")
		e := &protocol.T808_0x0200{Lat: g.Dec("lat", lat), Lng: g.Dec("lng", lng), Time: in}
		if g.Bool("flags") { // every other status bit is the caller's
			e.Status = protocol.T808_0x0200_Status(g.U32("status") &^ 12)
		}
		st := uint32(e.Status)
		stat.Case(lat != 0 || lng != 0, stat.Hash(lat, lng, want.Unix()), func() string { return fmt.Sprintf("%s,%s at %v", e.Lat, e.Lng, in) }, "points")
		frame, err := encode(gen.Message(ref.Header{ID: 0x0200, Phone: 1, Serial: 1}, e))
		if err != nil {
			t.Fatal(err)
		}
		m, err := decode(frame)
		if err != nil || bodyNil(m) {
			t.Fatalf("%x: %v", frame, err)
		}
		b := m.Body.(*protocol.T808_0x0200)
		if !b.Lat.Equal(decimal.New(lat, -6)) || !b.Lng.Equal(decimal.New(lng, -6)) {
			t.Fatalf("%d,%d micro degrees came back as %s,%s", lat, lng, b.Lat, b.Lng)
		}
		if (b.Status.GetLatitudeType() == protocol.SouthLatitudeType) != (lat < 0) || (b.Status.GetLongitudeType() == protocol.WestLongitudeType) != (lng < 0) {
			t.Fatalf("%d,%d micro degrees: status %08x", lat, lng, uint32(b.Status))
		}
		if uint32(b.Status)&^12 != st {
			t.Fatalf("status %08x came back as %08x", st, uint32(b.Status))
		}
		if !b.Time.Equal(want) {
			t.Fatalf("%v came back as %v", want, b.Time)
		}
	})
}

// validBCD says whether six BCD bytes denote a date and time.
func validBCD(b []byte) (time.Time, bool) {
	var v [6]int
	for i, x := range b {
		if x>>4 > 9 || x&15 > 9 {
			return time.Time{}, false
		}
		v[i] = int(x>>4)*10 + int(x&15)
	}
	y := 2000 + v[0]
	if v[1] < 1 || v[1] > 12 || v[2] < 1 || v[3] > 23 || v[4] > 59 || v[5] > 59 {
		return time.Time{}, false
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[v[1]-1]
	if v[1] == 2 && y%4 == 0 { // 2000-2099
		days = 29
	}
	if v[2] > days {
		return time.Time{}, false
	}
	return time.Date(y, time.Month(v[1]), v[2], v[3], v[4], v[5], 0, time.Local), true
}

// C20: digits that form no date are an error, all others the right instant.
func TestC20_Digits(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		d := func(n string, hi int) byte { v := g.Int(n, 0, hi); return byte(v/10<<4 | v%10) }
		b := []byte{d("y", 99), d("m", 13), d("d", 32), d("h", 25), d("mi", 61), d("s", 61)}
		if g.Int("valid", 0, 2) == 0 {
			b = []byte{d("y", 99), d("m", 11) + 1, d("d", 27) + 1, d("h", 23), d("mi", 59), d("s", 59)}
			for i := range b {
				if b[i]&15 > 9 {
					b[i] += 6
				}
			}
		}
		switch g.Int("odd", 0, 5) {
		case 5: // a nibble that is no digit
			i := g.Int("at", 0, 11)
			n := byte(g.Int("nibble", 10, 15))
			if i%2 == 0 {
				b[i/2] = b[i/2]&15 | n<<4
			} else {
				b[i/2] = b[i/2]&0xf0 | n
			}
		case 4: // near the end of a month
			m := g.Int("m", 1, 12)
			b[1] = byte(m/10<<4 | m%10)
			v := g.Int("d", 28, 32)
			b[2] = byte(v/10<<4 | v%10)
		}
		want, ok := validBCD(b)
		label := "date-valid"
		if !ok {
			label = "date-invalid"
		}
		stat.Case(true, stat.Hash(b), func() string { return fmt.Sprintf("date digits %x", b) }, label)
		// a local time a clock change skips or repeats is not pinned down
		l := want.In(time.Local)
		if ok && !bytes.Equal(ref.Time(l), b) {
			return
		}
		same := func(got time.Time) bool {
			return got.Equal(want) || bytes.Equal(ref.Time(got), b)
		}
		r := protocol.NewReader(append([]byte(nil), b...))
		got, err := r.ReadBcdTime()
		if (err == nil) != ok || ok && !same(got) {
			t.Fatalf("digits %x read as %v (%v), want %v %v", b, got, err, want, ok)
		}
		// in messages
		loc := g.LocationWith(nil)
		wire := append([]byte(nil), loc.Wire...)
		copy(wire[22:28], b)
		bodies := map[uint16][]byte{
			0x0200: wire,
			0x0201: append([]byte{1, 2}, wire...),
			0x0704: append([]byte{0, 2, 0, 0, 28}, append(append(append([]byte(nil), loc.Wire...), 0, 28), wire...)...),
		}
		for id, body := range bodies {
			m, err := decode(ref.Frame(ref.Header{ID: id, Phone: 7, Serial: 3}, body))
			if err != nil {
				t.Fatalf("%04x: %v", id, err)
			}
			if !ok {
				if m.Body != nil {
					t.Fatalf("%04x with digits %x delivered %s", id, b, gen.Canon(m.Body))
				}
				continue
			}
			var got time.Time
			switch x := m.Body.(type) {
			case *protocol.T808_0x0200:
				got = x.Time
			case *protocol.T808_0x0201:
				got = x.Result.Time
			case *protocol.T808_0x0704:
				got = x.Items[1].Time
			}
			if !same(got) {
				t.Fatalf("%04x: digits %x came out as %v, want %v", id, b, got, want)
			}
		}
	})
}

// C20: no message with an impossible date in any of its date fields is delivered.
func TestC20_BadDates(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		ids := exactIDs
		c := gen.Gens[ids[g.Uniform("type", len(ids))]](g)
		if len(c.Times)+len(c.Days) == 0 || !c.Fits() {
			return
		}
		k := g.Uniform("field", len(c.Times)+len(c.Days))
		wire := append([]byte(nil), c.Wire...)
		var b []byte // month, day, hour, minute, second
		if k < len(c.Times) {
			b = wire[c.Times[k]+1 : c.Times[k]+6]
		} else {
			at := c.Days[k-len(c.Times)]
			b = wire[at+2 : at+4]
		}
		bcd := func(n int) byte { return byte(n/10<<4 | n%10) }
		i := g.Uniform("part", len(b)+1)
		switch i {
		case 0:
			b[0] = []byte{0x00, 0x13, 0x20, 0x99}[g.Uniform("month", 4)]
		case 1:
			b[1] = []byte{0x00, 0x32, 0x40, 0x99}[g.Uniform("day", 4)]
		case 2:
			if len(b) > 2 {
				b[2] = bcd(g.Int("hour", 24, 99))
			} else {
				b[0], b[1] = 0x02, 0x30
			}
		case 3, 4:
			b[i] = bcd(g.Int("sixty", 60, 99))
		default:
			b[0], b[1] = []byte{0x02, 0x04, 0x06, 0x09, 0x11}[g.Uniform("short", 5)], 0x31
		}
		if g.Int("nibble", 0, 4) == 4 {
			j := g.Uniform("at", len(b))
			b[j] = b[j]&0x0f | byte(g.Int("digit", 10, 15))<<4
		}
		m, err := decode(ref.Frame(ref.Header{ID: c.ID, Phone: 7, Serial: 3}, wire))
		stat.Case(true, stat.Hash(c.ID, wire), func() string { return fmt.Sprintf("%04x with the impossible date %x in field %d", c.ID, b, k) }, "impossible-date", idLabel(c.ID))
		if err != nil {
			t.Fatalf("%04x: %v", c.ID, err)
		}
		if m.Body != nil {
			t.Fatalf("%04x with an impossible date (%x, field %d) delivered %s", c.ID, b, k, gen.Canon(m.Body))
		}
	})
}
