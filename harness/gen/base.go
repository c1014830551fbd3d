// Package gen generates message entities together with the value expected
// after decoding and the reference body bytes.
package gen

import (
	"bytes"
	"time"

	"gitee.com/coco/go808/protocol"
	"github.com/shopspring/decimal"
	"golang.org/x/text/encoding/simplifiedchinese"
	"pgregory.net/rapid"

	"verifharness/ref"
)

// Case is one generated message body.
type Case struct {
	ID   uint16
	In   func() protocol.Entity // fresh value to encode
	Want func() protocol.Entity // expected after decoding
	Wire []byte                 // reference body
	Over bool                   // some one-byte prefix cannot express its length
	// CheckWire replaces byte equality with Wire (compressed bodies).
	CheckWire func(got []byte) error
	// offsets in Wire of 6-byte times and 4-byte days
	Times, Days []int
}

// Fits reports whether the body can be sent.
func (c Case) Fits() bool { return !c.Over && len(c.Wire) <= 1023 }

// G is the generation context.
type G struct {
	T *rapid.T
	// Over makes lengths and counts cluster around and beyond their limits.
	Over bool
}

// W is the reference body writer.
type W struct {
	B    []byte
	Over bool
	// where dates stand: 6-byte times and 4-byte days
	Times, Days []int
}

// Loc appends a location report.
func (w *W) Loc(b []byte) { w.Times = append(w.Times, len(w.B)+22); w.Raw(b) }

func (w *W) U8(v byte)        { w.B = append(w.B, v) }
func (w *W) U16(v uint16)     { w.B = append(w.B, byte(v>>8), byte(v)) }
func (w *W) U32(v uint32)     { w.U16(uint16(v >> 16)); w.U16(uint16(v)) }
func (w *W) Raw(p []byte)     { w.B = append(w.B, p...) }
func (w *W) Time(t time.Time) { w.Times = append(w.Times, len(w.B)); w.Raw(ref.Time(t)) }
func (w *W) Fixed(p []byte, n int) {
	for i := 0; i < n; i++ {
		if i < len(p) {
			w.U8(p[i])
		} else {
			w.U8(0)
		}
	}
}
func (w *W) Count8(n int) {
	if n > 255 {
		w.Over = true
	}
	w.U8(byte(n))
}
func (w *W) Str8(p []byte) { w.Count8(len(p)); w.Raw(p) }

// --- primitive draws -----------------------------------------------------

var special = []byte{0x7e, 0x7d, 0x01, 0x02, 0x00, 0xff, 0x80, 0x7f}

var byteGen = rapid.Custom(func(t *rapid.T) byte {
	if rapid.IntRange(0, 3).Draw(t, "k") == 0 {
		return rapid.SampledFrom(special).Draw(t, "s")
	}
	return rapid.Byte().Draw(t, "b")
})

var u16Gen = rapid.Custom(func(t *rapid.T) uint16 {
	switch rapid.IntRange(0, 3).Draw(t, "k") {
	case 0:
		return rapid.Uint16().Draw(t, "v")
	default:
		return uint16(byteGen.Draw(t, "h"))<<8 | uint16(byteGen.Draw(t, "l"))
	}
})

var u32Gen = rapid.Custom(func(t *rapid.T) uint32 {
	switch rapid.IntRange(0, 3).Draw(t, "k") {
	case 0:
		return rapid.Uint32().Draw(t, "v")
	default:
		return uint32(u16Gen.Draw(t, "h"))<<16 | uint32(u16Gen.Draw(t, "l"))
	}
})

func (g *G) U8(n string) byte    { return byteGen.Draw(g.T, n) }
func (g *G) U16(n string) uint16 { return u16Gen.Draw(g.T, n) }
func (g *G) U32(n string) uint32 { return u32Gen.Draw(g.T, n) }
func (g *G) Bool(n string) bool  { return rapid.Bool().Draw(g.T, n) }
func (g *G) Int(n string, lo, hi int) int {
	if hi < lo {
		hi = lo
	}
	return rapid.IntRange(lo, hi).Draw(g.T, n)
}

// Uniform draws below n without rapid's bias towards small values.
func (g *G) Uniform(name string, n int) int {
	v := 0
	for m := 1; m < n*8; m *= 2 {
		v *= 2
		if rapid.Bool().Draw(g.T, name) {
			v++
		}
	}
	return v % n
}

// oneIn is true for about one draw in n, and shrinks to false.
func (g *G) oneIn(n int, name string) bool { return g.Int(name, 0, n-1) == n-1 }

// Size draws a length: usually small, sometimes up to max, in Over mode around
// the 255/256 and body limits.
func (g *G) Size(name string, small, max int) int {
	if g.Over {
		switch g.Int(name+".k", 0, 4) {
		case 0:
			return g.Int(name, 0, small)
		case 1:
			return g.Int(name, 250, 262)
		case 2:
			return g.Int(name, 500, 520)
		case 3:
			return g.Int(name, max-4, max+4)
		default:
			return g.Int(name, 0, max+8)
		}
	}
	switch g.Int(name+".k", 0, 7) {
	case 7:
		return g.Int(name, 0, max)
	case 6:
		return g.Int(name, max-2, max)
	default:
		if small > max {
			small = max
		}
		return g.Int(name, 0, small)
	}
}

// Bytes draws n arbitrary bytes (long ones as a repeated unit).
func (g *G) Bytes(name string, n int) []byte {
	if n <= 24 {
		return rapid.SliceOfN(byteGen, n, n).Draw(g.T, name)
	}
	unit := rapid.SliceOfN(byteGen, 1, 24).Draw(g.T, name)
	tail := rapid.SliceOfN(byteGen, 4, 4).Draw(g.T, name+".tail")
	out := bytes.Repeat(unit, n/len(unit)+1)[:n]
	copy(out[n-4:], tail)
	return out
}

// Blob draws a byte string up to max long.
func (g *G) Blob(name string, max int) []byte { return g.Bytes(name, g.Size(name+".n", 12, max)) }

// RawText is a non-NUL byte string that may exceed its slot of n bytes.
// want is what the slot keeps.
func (g *G) RawText(name string, slot int) (in, want string) {
	n := 0
	switch g.Int(name+".k", 0, 5) {
	case 0, 1, 2:
		n = g.Int(name+".n", 0, slot)
	case 3:
		n = slot
	case 4:
		n = slot + 1
	default:
		n = g.Int(name+".n", slot, slot*2+3)
	}
	b := g.nonNul(name, n)
	w := b
	if len(w) > slot {
		w = w[:slot]
	}
	return string(b), string(w)
}

// nonNul draws n bytes without NUL.
func (g *G) nonNul(name string, n int) []byte {
	b := g.Bytes(name, n)
	for i := range b {
		if b[i] == 0 {
			b[i] = 0x20
		}
	}
	return b
}

var runeGen = rapid.Custom(func(t *rapid.T) rune {
	var r rune
	switch rapid.IntRange(0, 6).Draw(t, "k") {
	case 0, 1:
		r = rune(rapid.IntRange(0x21, 0x7e).Draw(t, "a"))
	case 2:
		r = rune(rapid.SampledFrom([]int{0x7e, 0x7d, 0x01, 0x02, 0x0a, 0x20, 0x7f, 0x31}).Draw(t, "s"))
	case 3, 4:
		r = rune(rapid.IntRange(0x4e00, 0x9fa5).Draw(t, "c"))
	case 5:
		r = rune(rapid.IntRange(0x80, 0xffff).Draw(t, "m"))
	default:
		r = rune(rapid.IntRange(0x10000, 0x10ffff).Draw(t, "u"))
	}
	if !Encodable(r) {
		r = 'x'
	}
	return r
})

// Encodable reports a character GB18030 can carry and give back.
func Encodable(r rune) bool {
	if r == 0 || r == 0xfffd || r >= 0xd800 && r <= 0xdfff {
		return false
	}
	b, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(string(r)))
	if err != nil {
		return false
	}
	back, err := simplifiedchinese.GB18030.NewDecoder().Bytes(b)
	return err == nil && string(back) == string(r)
}

// Text draws GB18030-representable text whose encoding has at most max bytes
// (a little more in Over mode), cut at a character.
func (g *G) Text(name string, max int) string {
	n := g.Size(name+".n", 16, max)
	return g.TextOf(name, n)
}

// TextOf draws text whose encoding has at most n and about n bytes.
func (g *G) TextOf(name string, n int) string {
	var rs []rune
	if n <= 20 {
		rs = rapid.SliceOfN(runeGen, 0, n).Draw(g.T, name)
	} else {
		unit := rapid.SliceOfN(runeGen, 1, 8).Draw(g.T, name)
		for len(rs) < n {
			rs = append(rs, unit...)
		}
	}
	out := []rune{}
	size := 0
	for _, r := range rs {
		k := len(ref.GB(string(r)))
		if size+k > n {
			break
		}
		size += k
		out = append(out, r)
	}
	if n > 20 { // fill up exactly
		for size < n {
			out = append(out, 'z')
			size++
		}
	}
	return string(out)
}

// Digits draws a decimal string without leading zero.
func (g *G) Digits(name string, max int) string {
	n := g.Int(name+".n", 0, max)
	out := make([]byte, n)
	for i := range out {
		lo := 0
		if i == 0 {
			lo = 1
		}
		out[i] = byte('0' + g.Int(name, lo, 9))
	}
	return string(out)
}

var (
	secLo = time.Date(2000, 1, 1, 0, 0, 0, 0, time.Local).Unix()
	secHi = time.Date(2100, 1, 1, 0, 0, 0, 0, time.Local).Unix() - 1
)

// Time draws an instant of the years 2000-2099 local time, in an arbitrary
// location and with sub-second digits; want has whole seconds.
func (g *G) Time(name string) (in, want time.Time) {
	var sec int64
	switch g.Int(name+".k", 0, 4) {
	case 0:
		sec = rapid.Int64Range(secLo, secHi).Draw(g.T, name)
	case 1: // first decade, around year and month starts
		y := g.Int(name+".y", 2000, 2011)
		m := g.Int(name+".m", 1, 12)
		sec = time.Date(y, time.Month(m), 1, 0, 0, 0, 0, time.Local).Unix() + int64(g.Int(name+".d", -3, 90000))
	case 2: // leap days and month ends
		y := g.Int(name+".y", 2000, 2099)
		m := g.Int(name+".m", 1, 12)
		sec = time.Date(y, time.Month(m)+1, 0, 23, 59, 59, 0, time.Local).Unix() - int64(g.Int(name+".d", 0, 90000))
	case 3: // early hours
		sec = rapid.Int64Range(secLo, secHi).Draw(g.T, name)
		l := time.Unix(sec, 0)
		sec = time.Date(l.Year(), l.Month(), l.Day(), g.Int(name+".h", 0, 1), g.Int(name+".mi", 0, 59), g.Int(name+".s", 0, 59), 0, time.Local).Unix()
	default: // field by field
		sec = time.Date(g.Int(name+".y", 2000, 2099), time.Month(g.Int(name+".m", 1, 12)), g.Int(name+".d", 1, 28),
			g.Int(name+".h", 0, 23), g.Int(name+".mi", 0, 59), g.Int(name+".s", 0, 59), 0, time.Local).Unix()
	}
	if sec < secLo {
		sec = secLo
	}
	if sec > secHi {
		sec = secHi
	}
	for ambiguous(sec) {
		sec += 3600
	}
	if sec > secHi {
		sec = secLo
	}
	want = time.Unix(sec, 0)
	in = time.Unix(sec, int64(g.Int(name+".ns", 0, 999999999)))
	switch g.Int(name+".loc", 0, 2) {
	case 0:
		in = in.UTC()
	case 1:
		in = in.In(time.FixedZone("X", g.Int(name+".off", -12*3600, 14*3600)))
	}
	return in, want
}

// ambiguous reports a local time that denotes two instants.
func ambiguous(sec int64) bool {
	l := time.Unix(sec, 0)
	back := time.Date(l.Year(), l.Month(), l.Day(), l.Hour(), l.Minute(), l.Second(), 0, time.Local)
	if back.Unix() != sec {
		return true
	}
	for _, d := range []int64{-7200, -3600, -1800, 1800, 3600, 7200} {
		o := time.Unix(sec+d, 0)
		if o.Hour() == l.Hour() && o.Minute() == l.Minute() && o.Second() == l.Second() && o.Day() == l.Day() {
			return true
		}
	}
	return false
}

// Micro draws a coordinate in micro-degrees within [-max, max] degrees.
// sign: -1 nonpositive, +1 nonnegative, 0 any.
func (g *G) Micro(name string, max int, sign int) int64 {
	lim := int64(max) * 1000000
	var v int64
	switch g.Int(name+".k", 0, 5) {
	case 0:
		v = int64(g.Int(name, 0, 20))
	case 1:
		v = lim - int64(g.Int(name, 0, 20))
	case 2:
		v = int64(g.Int(name, 0, max)) * 1000000
	default:
		v = rapid.Int64Range(0, lim).Draw(g.T, name)
	}
	neg := sign < 0
	if sign == 0 {
		neg = g.Bool(name + ".neg")
	}
	if neg {
		v = -v
	}
	return v
}

// Dec builds a decimal of the given micro value in one of several equivalent
// representations.
func (g *G) Dec(name string, micro int64) decimal.Decimal {
	switch g.Int(name+".rep", 0, 3) {
	case 1:
		return decimal.New(micro*1000, -9)
	case 2:
		e := int32(-6)
		for e < 0 && micro%10 == 0 && micro != 0 {
			micro /= 10
			e++
		}
		return decimal.New(micro, e)
	case 3:
		d, _ := decimal.NewFromString(decimal.New(micro, -6).String())
		return d
	}
	return decimal.New(micro, -6)
}

func abs32(v int64) uint32 {
	if v < 0 {
		v = -v
	}
	return uint32(v)
}

// hemi gives the flag word to put in (bits possibly left for the encoder to
// set) and the one expected, for bit s (south) and e (west).
func (g *G) hemi(name string, flags uint32, latNeg, latPos, lngNeg, lngPos bool, s, e uint) (in, want uint32) {
	in = flags
	fix := func(bit uint, neg, pos bool) {
		if pos {
			in &^= 1 << bit
		}
		want |= in & (1 << bit)
		if neg {
			want |= 1 << bit
		}
	}
	want = flags &^ (1<<s | 1<<e)
	fix(s, latNeg, latPos)
	fix(e, lngNeg, lngPos)
	return in, want
}

// Header draws a frame header (without message ID).
func (g *G) Header() ref.Header {
	h := ref.Header{Serial: g.U16("serial")}
	switch g.Int("phone.k", 0, 4) {
	case 0:
		h.Phone = uint64(g.Int("phone", 0, 12))
	case 1:
		h.Phone = 999999999999 - uint64(g.Int("phone", 0, 9))
	case 2:
		p := uint64(1)
		for i := g.Int("phone.e", 0, 11); i > 0; i-- {
			p *= 10
		}
		h.Phone = p * uint64(g.Int("phone", 1, 9))
	default:
		h.Phone = rapid.Uint64Range(0, 999999999999).Draw(g.T, "phone")
	}
	if g.Int("pkt", 0, 2) == 2 {
		h.Prop |= ref.BitPacket
		h.Sum, h.Seq = g.U16("sum"), g.U16("seq")
	}
	// reserved property bits 11, 12, 14, 15
	if g.Int("resv", 0, 2) == 2 {
		h.Prop |= uint16(g.Int("resv.v", 0, 15)&3)<<11 | uint16(g.Int("resv.w", 0, 3))<<14
	}
	return h
}

// Message builds the protocol message for a reference header.
func Message(h ref.Header, body protocol.Entity) *protocol.Message {
	m := &protocol.Message{Body: body, Header: protocol.Header{
		IccID: h.Phone, MsgSerialNo: h.Serial, Property: protocol.Property(h.Prop &^ ref.BitPacket),
	}}
	if h.Packet() {
		m.Header.Packet = &protocol.Packet{Sum: h.Sum, Seq: h.Seq}
	}
	return m
}
