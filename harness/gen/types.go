package gen

import (
	"bytes"
	"compress/gzip"
	"crypto/rsa"
	"encoding/binary"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"strings"
	"time"

	p "gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"

	"verifharness/ref"
)

type mk = func() p.Entity

func mkCase(id uint16, w *W, in, want mk) Case {
	if want == nil {
		want = in
	}
	return Case{ID: id, In: in, Want: want, Wire: w.B, Over: w.Over, Times: w.Times, Days: w.Days}
}

// Gens maps each built-in message ID to its generator.
var Gens = map[uint16]func(g *G) Case{}

// New maps each built-in message ID to a constructor of its entity.
var New = map[uint16]func() p.Entity{}

// IDs lists the built-in IDs in a fixed order.
var IDs []uint16

func reg(id uint16, fresh func() p.Entity, f func(g *G) Case) {
	if _, ok := Gens[id]; ok {
		panic(fmt.Sprintf("duplicate %04x", id))
	}
	Gens[id] = func(g *G) Case {
		c := f(g)
		c.ID = id
		return c
	}
	New[id] = fresh
	IDs = append(IDs, id)
}

// --- shared pieces -------------------------------------------------------

// Extra is one generated location extra.
type Extra struct {
	ID    byte
	Data  []byte
	Build func() extra.Entity
	Val   interface{} // what Value() returns
}

// ExtraIDs are the built-in extras.
var ExtraIDs = []byte{0x01, 0x02, 0x03, 0x04, 0x11, 0x12, 0x13, 0x25, 0x2a, 0x2b, 0x30, 0x31}

// DrawExtra draws a built-in extra.
func (g *G) DrawExtra() Extra {
	id := ExtraIDs[g.Int("extra", 0, len(ExtraIDs)-1)]
	w := &W{}
	var b func() extra.Entity
	var val interface{}
	switch id {
	case 0x01:
		v := g.U32("e.v")
		w.U32(v)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x01(v) }
	case 0x02:
		v := g.U16("e.v")
		w.U16(v)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x02(v) }
	case 0x03:
		v := g.U16("e.v")
		w.U16(v)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x03(v) }
	case 0x04:
		v := g.U16("e.v")
		w.U16(v)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x04(v) }
	case 0x11:
		typ := byte(0)
		if g.Bool("e.area") {
			typ = g.U8("e.type")
		}
		w.U8(typ)
		if typ == 0 {
			val = extra.Extra_0x11_Value{}
			b = func() extra.Entity { return extra.NewExtra_0x11(extra.Extra_0x11_Value{}) }
		} else {
			area := g.U32("e.v")
			w.U32(area)
			val = extra.Extra_0x11_Value{Type: typ, AreaID: &area}
			b = func() extra.Entity {
				a := area
				return extra.NewExtra_0x11(extra.Extra_0x11_Value{Type: typ, AreaID: &a})
			}
		}
	case 0x12:
		v := extra.Extra_0x12_Value{Type: g.U8("e.t"), AreaID: g.U32("e.v"), Direction: g.U8("e.d")}
		w.U8(v.Type)
		w.U32(v.AreaID)
		w.U8(v.Direction)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x12(v) }
	case 0x13:
		v := extra.Extra_0x13_Value{RoadID: g.U32("e.v"), Duration: g.U16("e.d"), Result: g.U8("e.r")}
		w.U32(v.RoadID)
		w.U16(v.Duration)
		w.U8(v.Result)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x13(v) }
	case 0x25:
		v := g.U32("e.v")
		w.U32(v)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x25(v) }
	case 0x2a:
		v := g.U16("e.v")
		w.U16(v)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x2A(v) }
	case 0x2b:
		v := g.U32("e.v")
		w.U32(v)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x2B(v) }
	case 0x30:
		v := g.U8("e.v")
		w.U8(v)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x30(v) }
	case 0x31:
		v := g.U8("e.v")
		w.U8(v)
		val = v
		b = func() extra.Entity { return extra.NewExtra_0x31(v) }
	}
	return Extra{id, w.B, b, val}
}

// Loc is a generated location report.
type Loc struct {
	In, Want func() p.T808_0x0200
	Wire     []byte
}

// Location draws a location report with up to maxExtras extras.
func (g *G) Location(maxExtras int) Loc {
	var exs []Extra
	if maxExtras > 0 {
		for i := g.Size("extras", min(4, maxExtras), maxExtras); i > 0; i-- {
			exs = append(exs, g.DrawExtra())
		}
	}
	return g.LocationWith(exs)
}

// LocationWith draws a location report with the given extras.
func (g *G) LocationWith(exs []Extra) Loc {
	alarm, flags := g.U32("alarm"), g.U32("status")
	lat, lng := g.Micro("lat", 90, 0), g.Micro("lng", 180, 0)
	in, want := g.hemi("status", flags, lat < 0, lat > 0, lng < 0, lng > 0, 2, 3)
	dlat, dlng := g.Dec("lat", lat), g.Dec("lng", lng)
	alt, speed, dir := g.U16("alt"), g.U16("speed"), g.U16("dir")
	tin, twant := g.Time("time")
	w := &W{}
	w.U32(alarm)
	w.U32(want)
	w.U32(abs32(lat))
	w.U32(abs32(lng))
	w.U16(alt)
	w.U16(speed)
	w.U16(dir)
	w.Time(twant)
	for _, e := range exs {
		w.U8(e.ID)
		w.Str8(e.Data)
	}
	build := func(st uint32, t time.Time) p.T808_0x0200 {
		v := p.T808_0x0200{Alarm: alarm, Status: p.T808_0x0200_Status(st), Lat: dlat, Lng: dlng,
			Altitude: alt, Speed: speed, Direction: dir, Time: t}
		for _, e := range exs {
			if e.Build != nil {
				v.Extras = append(v.Extras, e.Build())
			}
		}
		return v
	}
	return Loc{
		In:   func() p.T808_0x0200 { return build(in, tin) },
		Want: func() p.T808_0x0200 { return build(want, twant) },
		Wire: w.B,
	}
}

// mediaLocation draws a location as the media messages carry it: the fixed
// 28 bytes only, so extras of the value given to the encoder stay behind.
func (g *G) mediaLocation() Loc {
	l := g.LocationWith(nil)
	if g.Int("m.extras", 0, 7) < 6 {
		return l
	}
	var exs []Extra
	for i := g.Int("m.n", 1, 3); i > 0; i-- {
		exs = append(exs, g.DrawExtra())
	}
	in := l.In
	l.In = func() p.T808_0x0200 {
		v := in()
		for _, e := range exs {
			v.Extras = append(v.Extras, e.Build())
		}
		return v
	}
	return l
}

type param struct {
	id   uint32
	data []byte
	set  func() *p.Param
}

func (g *G) params() []param {
	var out []param
	n := g.Size("params", 4, 200)
	var proto []param
	total := 0
	for i := 0; i < n; i++ {
		if i >= 6 { // repeat with other IDs
			q := proto[i%len(proto)]
			id := q.id + uint32(i)
			data := q.data
			q = param{id: id, data: data, set: func() *p.Param { return new(p.Param).SetBytes(id, data) }}
			out = append(out, q)
			total += 5 + len(q.data)
			continue
		}
		id := g.U32("p.id")
		var q param
		switch g.Int("p.kind", 0, 4) {
		case 0:
			v := g.U8("p.v")
			q = param{id, []byte{v}, func() *p.Param { return new(p.Param).SetByte(id, v) }}
		case 1:
			v := g.U16("p.v")
			q = param{id, []byte{byte(v >> 8), byte(v)}, func() *p.Param { return new(p.Param).SetUint16(id, v) }}
		case 2:
			v := g.U32("p.v")
			q = param{id, binary.BigEndian.AppendUint32(nil, v), func() *p.Param { return new(p.Param).SetUint32(id, v) }}
		case 3:
			s := g.Text("p.s", 255)
			q = param{id, ref.GB(s), func() *p.Param { return new(p.Param).SetString(id, s) }}
		default:
			b := g.Blob("p.b", 255)
			q = param{id, b, func() *p.Param { return new(p.Param).SetBytes(id, b) }}
		}
		total += 5 + len(q.data)
		proto = append(proto, q)
		out = append(out, q)
	}
	_ = total
	return out
}

func (w *W) params(ps []param) {
	w.Count8(len(ps))
	for _, q := range ps {
		w.U32(q.id)
		w.Str8(q.data)
	}
}

func buildParams(ps []param) []*p.Param {
	var out []*p.Param
	for _, q := range ps {
		out = append(out, q.set())
	}
	return out
}

func (g *G) u32s(name string, max int) []uint32 {
	n := g.Size(name+".n", 6, max)
	out := make([]uint32, n)
	for i := range out {
		if i < 12 {
			out[i] = g.U32(name)
		} else {
			out[i] = out[i%12] + uint32(i)
		}
	}
	return out
}

func (g *G) u16s(name string, max int) []uint16 {
	n := g.Size(name+".n", 6, max)
	out := make([]uint16, n)
	for i := range out {
		if i < 12 {
			out[i] = g.U16(name)
		} else {
			out[i] = out[i%12] + uint16(i)
		}
	}
	return out
}

func cp32(v []uint32) []uint32 { return append([]uint32(nil), v...) }
func cp16(v []uint16) []uint16 { return append([]uint16(nil), v...) }
func cp8(v []byte) []byte      { return append([]byte(nil), v...) }

// items draws a number of list items given the size of a small one.
func (g *G) items(name string, itemSize int) int {
	max := 1000 / itemSize
	return g.Size(name, min(3, max), max)
}

func empty(id uint16, fresh func() p.Entity) {
	reg(id, fresh, func(g *G) Case { return mkCase(id, &W{}, fresh, nil) })
}

func init() {
	reg(0x0001, func() p.Entity { return new(p.T808_0x0001) }, func(g *G) Case {
		v := p.T808_0x0001{ReplyMsgSerialNo: g.U16("sn"), ReplyMsgID: g.U16("id"), Result: p.Result(g.U8("r"))}
		w := &W{}
		w.U16(v.ReplyMsgSerialNo)
		w.U16(v.ReplyMsgID)
		w.U8(byte(v.Result))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	empty(0x0002, func() p.Entity { return new(p.T808_0x0002) })
	empty(0x0003, func() p.Entity { return new(p.T808_0x0003) })
	reg(0x0100, func() p.Entity { return new(p.T808_0x0100) }, func(g *G) Case {
		v := p.T808_0x0100{ProvinceID: g.U16("prov"), CityID: g.U16("city")}
		u := v
		v.ManufactureID, u.ManufactureID = g.RawText("man", 5)
		v.Model, u.Model = g.RawText("model", 20)
		v.TerminalID, u.TerminalID = g.RawText("term", 7)
		v.PlateColor = g.U8("color")
		u.PlateColor = v.PlateColor
		v.LicenseNo = g.Text("lic", 1023-37)
		u.LicenseNo = v.LicenseNo
		w := &W{}
		w.U16(v.ProvinceID)
		w.U16(v.CityID)
		w.Fixed([]byte(v.ManufactureID), 5)
		w.Fixed([]byte(v.Model), 20)
		w.Fixed([]byte(v.TerminalID), 7)
		w.U8(v.PlateColor)
		w.Raw(ref.GB(v.LicenseNo))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, func() p.Entity { c := u; return &c })
	})
	reg(0x0102, func() p.Entity { return new(p.T808_0x0102) }, func(g *G) Case {
		v := p.T808_0x0102{AuthKey: g.Text("key", 1023)}
		if v.AuthKey == "" {
			v.AuthKey = "k"
		}
		w := &W{}
		w.Raw(ref.GB(v.AuthKey))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x0104, func() p.Entity { return new(p.T808_0x0104) }, func(g *G) Case {
		sn, ps := g.U16("sn"), g.params()
		w := &W{}
		w.U16(sn)
		w.params(ps)
		return mkCase(0, w, func() p.Entity { return &p.T808_0x0104{ReplyMsgSerialNo: sn, Params: buildParams(ps)} }, nil)
	})
	reg(0x0107, func() p.Entity { return new(p.T808_0x0107) }, func(g *G) Case {
		v := p.T808_0x0107{TerminalType: g.U16("type"), GNSSProperty: g.U8("gnss"), COMMProperty: g.U8("comm")}
		v.Sim = g.Digits("sim", 20)
		v.HardwareVersion = string(g.nonNul("hw", g.Size("hw.n", 10, 255)))
		v.SoftwareVersion = string(g.nonNul("sw", g.Size("sw.n", 10, 255)))
		u := v
		v.ManufactureID, u.ManufactureID = g.RawText("man", 5)
		v.Model, u.Model = g.RawText("model", 20)
		v.TerminalID, u.TerminalID = g.RawText("term", 7)
		w := &W{}
		w.U16(v.TerminalType)
		w.Fixed([]byte(v.ManufactureID), 5)
		w.Fixed([]byte(v.Model), 20)
		w.Fixed([]byte(v.TerminalID), 7)
		w.Raw(ref.BCD(strings.Repeat("0", 20-len(v.Sim)) + v.Sim))
		w.Str8([]byte(v.HardwareVersion))
		w.Str8([]byte(v.SoftwareVersion))
		w.U8(v.GNSSProperty)
		w.U8(v.COMMProperty)
		return mkCase(0, w, func() p.Entity { c := v; return &c }, func() p.Entity { c := u; return &c })
	})
	reg(0x0108, func() p.Entity { return new(p.T808_0x0108) }, func(g *G) Case {
		v := p.T808_0x0108{Type: g.U8("t"), Result: g.U8("r")}
		w := &W{B: []byte{v.Type, v.Result}}
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x0200, func() p.Entity { return new(p.T808_0x0200) }, func(g *G) Case {
		l := g.Location(160)
		return mkCase(0, &W{B: l.Wire, Times: []int{22}}, func() p.Entity { c := l.In(); return &c }, func() p.Entity { c := l.Want(); return &c })
	})
	reg(0x0201, func() p.Entity { return new(p.T808_0x0201) }, func(g *G) Case {
		sn, l := g.U16("sn"), g.Location(40)
		w := &W{}
		w.U16(sn)
		w.Loc(l.Wire)
		return mkCase(0, w, func() p.Entity { return &p.T808_0x0201{ReplyMsgSerialNo: sn, Result: l.In()} },
			func() p.Entity { return &p.T808_0x0201{ReplyMsgSerialNo: sn, Result: l.Want()} })
	})
	reg(0x0301, func() p.Entity { return new(p.T808_0x0301) }, func(g *G) Case {
		v := p.T808_0x0301{EventID: g.U8("e")}
		return mkCase(0, &W{B: []byte{v.EventID}}, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x0302, func() p.Entity { return new(p.T808_0x0302) }, func(g *G) Case {
		v := p.T808_0x0302{ReplyMsgSerialNo: g.U16("sn"), AnswerID: g.U8("a")}
		w := &W{}
		w.U16(v.ReplyMsgSerialNo)
		w.U8(v.AnswerID)
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x0303, func() p.Entity { return new(p.T808_0x0303) }, func(g *G) Case {
		v := p.T808_0x0303{Type: g.U8("t"), Flag: p.T808_0x0303_Flag(g.U8("f"))}
		return mkCase(0, &W{B: []byte{v.Type, byte(v.Flag)}}, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x0500, func() p.Entity { return new(p.T808_0x0500) }, func(g *G) Case {
		sn, l := g.U16("sn"), g.Location(40)
		w := &W{}
		w.U16(sn)
		w.Loc(l.Wire)
		return mkCase(0, w, func() p.Entity { return &p.T808_0x0500{ReplyMsgSerialNo: sn, Result: l.In()} },
			func() p.Entity { return &p.T808_0x0500{ReplyMsgSerialNo: sn, Result: l.Want()} })
	})
	reg(0x0700, func() p.Entity { return new(p.T808_0x0700) }, func(g *G) Case {
		sn, cmd, data := g.U16("sn"), g.U8("cmd"), g.Blob("data", 1020)
		w := &W{}
		w.U16(sn)
		w.U8(cmd)
		w.Raw(data)
		return mkCase(0, w, func() p.Entity { return &p.T808_0x0700{ReplyMsgSerialNo: sn, Cmd: cmd, Data: cp8(data)} }, nil)
	})
	reg(0x0701, func() p.Entity { return new(p.T808_0x0701) }, func(g *G) Case {
		data := g.Blob("data", 1019)
		size := uint32(len(data))
		if g.oneIn(4, "odd") {
			size = g.U32("size")
		}
		w := &W{}
		w.U32(size)
		w.Raw(data)
		return mkCase(0, w, func() p.Entity { return &p.T808_0x0701{Size: size, Content: cp8(data)} }, nil)
	})
	reg(0x0702, func() p.Entity { return new(p.T808_0x0702) }, func(g *G) Case {
		v := p.T808_0x0702{State: g.U8("st"), ICCardResult: g.U8("ic"), DriverName: g.Text("name", 255), CompanyName: g.Text("comp", 255)}
		u := v
		v.Time, u.Time = g.Time("time")
		if g.oneIn(3, "long") {
			n := g.Int("num.n", 20, 40)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('!' + (int(g.U8("num"))+i)%90)
			}
			v.Number, u.Number = string(b), string(b[:20])
		} else {
			over := g.Over
			g.Over = false
			v.Number = g.Text("num", 20)
			g.Over = over
			u.Number = v.Number
		}
		y, mo, d := g.Int("y", 1900, 2200), g.Int("mo", 1, 12), g.Int("d", 1, 28)
		if g.oneIn(4, "eom") {
			d = time.Date(y, time.Month(mo)+1, 0, 12, 0, 0, 0, time.UTC).Day()
		}
		loc := time.Local
		switch g.Int("exp.loc", 0, 2) {
		case 1:
			loc = time.UTC
		case 2:
			loc = time.FixedZone("Y", g.Int("exp.off", -43200, 50400))
		}
		v.ExpiryDate = time.Date(y, time.Month(mo), d, g.Int("exp.h", 0, 23), g.Int("exp.m", 0, 59), 0, 0, loc)
		y, mo, d = v.ExpiryDate.Year(), int(v.ExpiryDate.Month()), v.ExpiryDate.Day()
		u.ExpiryDate = time.Date(y, time.Month(mo), d, 0, 0, 0, 0, time.Local)
		if u.ExpiryDate.Hour() != 0 || u.ExpiryDate.Day() != d { // midnight missing in this zone
			v.ExpiryDate = time.Date(2020, 1, 1, 12, 0, 0, 0, time.Local)
			u.ExpiryDate = time.Date(2020, 1, 1, 0, 0, 0, 0, time.Local)
			y, mo, d = 2020, 1, 1
		}
		w := &W{}
		w.U8(v.State)
		w.Time(v.Time)
		w.U8(v.ICCardResult)
		w.Str8(ref.GB(v.DriverName))
		w.Fixed(ref.GB(v.Number), 20)
		w.Str8(ref.GB(v.CompanyName))
		w.Days = append(w.Days, len(w.B))
		w.Raw(ref.BCD(fmt.Sprintf("%04d%02d%02d", y, mo, d)))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, func() p.Entity { c := u; return &c })
	})
	reg(0x0704, func() p.Entity { return new(p.T808_0x0704) }, func(g *G) Case {
		typ := g.U8("t")
		n := g.Int("n", 0, 4)
		if g.oneIn(6, "big") {
			n = g.Int("nn", 20, 34)
		}
		var ls []Loc
		for i := 0; i < n; i++ {
			if n > 4 && i >= 2 {
				ls = append(ls, ls[i%2])
			} else {
				m := 6
				if n > 4 {
					m = 0
				}
				over := g.Over
				g.Over = false
				ls = append(ls, g.Location(m))
				g.Over = over
			}
		}
		w := &W{}
		w.U16(uint16(n))
		w.U8(typ)
		for _, l := range ls {
			w.U16(uint16(len(l.Wire)))
			w.Loc(l.Wire)
		}
		build := func(want bool) mk {
			return func() p.Entity {
				e := &p.T808_0x0704{Type: typ}
				for _, l := range ls {
					if want {
						e.Items = append(e.Items, l.Want())
					} else {
						e.Items = append(e.Items, l.In())
					}
				}
				return e
			}
		}
		return mkCase(0, w, build(false), build(true))
	})
	reg(0x0705, func() p.Entity { return new(p.T808_0x0705) }, func(g *G) Case {
		h, mi, s, ms := g.Int("h", 0, 23), g.Int("mi", 0, 59), g.Int("s", 0, 59), g.Int("ms", 0, 999)
		sub := time.Duration(g.Int("ns", 0, 999999))
		d := time.Duration(h)*time.Hour + time.Duration(mi)*time.Minute + time.Duration(s)*time.Second + time.Duration(ms)*time.Millisecond
		n := g.items("n", 12)
		its := make([]p.T808_0x0705_CAN, n)
		for i := range its {
			if i < 5 {
				copy(its[i].ID[:], g.Bytes("id", 4))
				copy(its[i].Data[:], g.Bytes("data", 8))
			} else {
				its[i] = its[i%5]
				its[i].Data[3] += byte(i)
			}
		}
		w := &W{}
		w.U16(uint16(n))
		w.Raw(ref.BCD(fmt.Sprintf("%02d%02d%02d%04d", h, mi, s, ms)))
		for _, it := range its {
			w.Raw(it.ID[:])
			w.Raw(it.Data[:])
		}
		return mkCase(0, w, func() p.Entity {
			return &p.T808_0x0705{ReceiveTime: d + sub, Items: append([]p.T808_0x0705_CAN(nil), its...)}
		}, func() p.Entity {
			return &p.T808_0x0705{ReceiveTime: d, Items: append([]p.T808_0x0705_CAN(nil), its...)}
		})
	})
	reg(0x0800, func() p.Entity { return new(p.T808_0x0800) }, func(g *G) Case {
		v := p.T808_0x0800{MediaID: g.U32("id"), Type: p.T808_0x0800_MediaType(g.U8("t")), Coding: p.T808_0x0800_MediaCoding(g.U8("c")), Event: g.U8("e"), ChannelID: g.U8("ch")}
		w := &W{}
		w.U32(v.MediaID)
		w.Raw([]byte{byte(v.Type), byte(v.Coding), v.Event, v.ChannelID})
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x0801, func() p.Entity { return new(p.T808_0x0801) }, func(g *G) Case {
		v := p.T808_0x0801{MediaID: g.U32("id"), Type: p.T808_0x0800_MediaType(g.U8("t")), Coding: p.T808_0x0800_MediaCoding(g.U8("c")), Event: g.U8("e"), ChannelID: g.U8("ch")}
		l := g.mediaLocation()
		data := g.Blob("data", 1023-36)
		nilReader := len(data) == 0 && g.Bool("nilr")
		w := &W{}
		w.U32(v.MediaID)
		w.Raw([]byte{byte(v.Type), byte(v.Coding), v.Event, v.ChannelID})
		w.Loc(l.Wire)
		w.Raw(data)
		build := func(loc func() p.T808_0x0200) mk {
			return func() p.Entity {
				c := v
				c.Location = loc()
				if !nilReader {
					c.Packet = bytes.NewReader(cp8(data))
				}
				return &c
			}
		}
		return mkCase(0, w, build(l.In), build(l.Want))
	})
	reg(0x0802, func() p.Entity { return new(p.T808_0x0802) }, func(g *G) Case {
		sn, n := g.U16("sn"), g.items("n", 35)
		type it struct {
			v p.T808_0x0802_Item
			l Loc
		}
		var its []it
		for i := 0; i < n; i++ {
			if i >= 3 {
				x := its[i%3]
				x.v.MediaID += uint32(i)
				its = append(its, x)
				continue
			}
			its = append(its, it{p.T808_0x0802_Item{MediaID: g.U32("id"), Type: p.T808_0x0800_MediaType(g.U8("t")), ChannelID: g.U8("ch"), Event: g.U8("e")}, g.mediaLocation()})
		}
		w := &W{}
		w.U16(sn)
		w.U16(uint16(n))
		for _, x := range its {
			w.U32(x.v.MediaID)
			w.Raw([]byte{byte(x.v.Type), x.v.ChannelID, x.v.Event})
			w.Loc(x.l.Wire)
		}
		build := func(want bool) mk {
			return func() p.Entity {
				e := &p.T808_0x0802{ReplyMsgSerialNo: sn}
				for _, x := range its {
					v := x.v
					if want {
						v.Location = x.l.Want()
					} else {
						v.Location = x.l.In()
					}
					e.Items = append(e.Items, v)
				}
				return e
			}
		}
		return mkCase(0, w, build(false), build(true))
	})
	reg(0x0805, func() p.Entity { return new(p.T808_0x0805) }, func(g *G) Case {
		sn, r, ids := g.U16("sn"), g.U8("r"), g.u32s("ids", 254)
		w := &W{}
		w.U16(sn)
		w.U8(r)
		w.U16(uint16(len(ids)))
		for _, id := range ids {
			w.U32(id)
		}
		return mkCase(0, w, func() p.Entity {
			return &p.T808_0x0805{ReplyMsgSerialNo: sn, Result: p.T808_0x0805_Result(r), MediaIDs: cp32(ids)}
		}, nil)
	})
	reg(0x0900, func() p.Entity { return new(p.T808_0x0900) }, func(g *G) Case {
		typ, data := g.U8("t"), g.Blob("data", 1022)
		return mkCase(0, &W{B: append([]byte{typ}, data...)}, func() p.Entity { return &p.T808_0x0900{Type: typ, Data: cp8(data)} }, nil)
	})
	reg(0x8900, func() p.Entity { return new(p.T808_0x8900) }, func(g *G) Case {
		typ, data := g.U8("t"), g.Blob("data", 1022)
		return mkCase(0, &W{B: append([]byte{typ}, data...)}, func() p.Entity { return &p.T808_0x8900{Type: typ, Data: cp8(data)} }, nil)
	})
	reg(0x0901, func() p.Entity { return new(p.T808_0x0901) }, func(g *G) Case {
		var data []byte
		switch g.Int("k", 0, 3) {
		case 0:
			data = g.Bytes("data", g.Int("n", 0, 24))
		case 1:
			data = g.Blob("data", 1000)
		case 2: // long, repetitive
			data = g.Bytes("data", g.Int("n", 200, 6000))
		default: // incompressible
			n := g.Int("n", 100, 1100)
			x := g.U32("seed")
			for i := 0; i < n; i++ {
				x = x*1664525 + 1013904223
				data = append(data, byte(x>>24))
			}
		}
		var buf bytes.Buffer
		lv := []int{gzip.DefaultCompression, gzip.NoCompression, gzip.BestSpeed, gzip.BestCompression}[g.Int("level", 0, 3)]
		zw, _ := gzip.NewWriterLevel(&buf, lv)
		zw.Write(data)
		zw.Close()
		w := &W{}
		w.U32(uint32(buf.Len()))
		w.Raw(buf.Bytes())
		c := mkCase(0, w, func() p.Entity { return &p.T808_0x0901{Uncompressed: cp8(data)} }, nil)
		c.CheckWire = func(got []byte) error {
			if len(got) < 4 || int(binary.BigEndian.Uint32(got)) != len(got)-4 {
				return errors.New("compressed length prefix wrong")
			}
			zr, err := gzip.NewReader(bytes.NewReader(got[4:]))
			if err != nil {
				return err
			}
			d, err := ioutil.ReadAll(zr)
			if err != nil {
				return err
			}
			if !bytes.Equal(d, data) {
				return errors.New("compressed data differ")
			}
			return nil
		}
		return c
	})
	key := func(id uint16, fresh func() p.Entity, build func(k *rsa.PublicKey) p.Entity) {
		reg(id, fresh, func(g *G) Case {
			n := g.Bytes("n", 128)
			if n[0] == 0 {
				n[0] = 0x7e
			}
			e := g.U32("e")
			w := &W{}
			w.U32(e)
			w.Raw(n)
			return mkCase(0, w, func() p.Entity { return build(&rsa.PublicKey{E: int(e), N: new(big.Int).SetBytes(n)}) }, nil)
		})
	}
	key(0x0a00, func() p.Entity { return new(p.T808_0x0A00) }, func(k *rsa.PublicKey) p.Entity { return &p.T808_0x0A00{PublicKey: k} })
	key(0x8a00, func() p.Entity { return new(p.T808_0x8A00) }, func(k *rsa.PublicKey) p.Entity { return &p.T808_0x8A00{PublicKey: k} })

	reg(0x8001, func() p.Entity { return new(p.T808_0x8001) }, func(g *G) Case {
		v := p.T808_0x8001{ReplyMsgSerialNo: g.U16("sn"), ReplyMsgID: p.MsgID(g.U16("id")), Result: p.Result(g.U8("r"))}
		w := &W{}
		w.U16(v.ReplyMsgSerialNo)
		w.U16(uint16(v.ReplyMsgID))
		w.U8(byte(v.Result))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x8003, func() p.Entity { return new(p.T808_0x8003) }, func(g *G) Case {
		sn, ids := g.U16("sn"), g.u16s("ids", 255)
		w := &W{}
		w.U16(sn)
		w.Count8(len(ids))
		for _, id := range ids {
			w.U16(id)
		}
		return mkCase(0, w, func() p.Entity { return &p.T808_0x8003{MsgSerialNo: sn, PacketIDs: cp16(ids)} }, nil)
	})
	reg(0x8100, func() p.Entity { return new(p.T808_0x8100) }, func(g *G) Case {
		v := p.T808_0x8100{MsgSerialNo: g.U16("sn"), Result: p.T808_0x8100_Result(g.U8("r")), AuthKey: g.Text("key", 1020)}
		w := &W{}
		w.U16(v.MsgSerialNo)
		w.U8(byte(v.Result))
		w.Raw(ref.GB(v.AuthKey))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x8103, func() p.Entity { return new(p.T808_0x8103) }, func(g *G) Case {
		ps := g.params()
		w := &W{}
		w.params(ps)
		return mkCase(0, w, func() p.Entity { return &p.T808_0x8103{Params: buildParams(ps)} }, nil)
	})
	empty(0x8104, func() p.Entity { return new(p.T808_0x8104) })
	reg(0x8105, func() p.Entity { return new(p.T808_0x8105) }, func(g *G) Case {
		v := p.T808_0x8105{Cmd: p.T808_0x8105_Command(g.U8("cmd")), Data: g.Text("data", 1022)}
		w := &W{}
		w.U8(byte(v.Cmd))
		w.Raw(ref.GB(v.Data))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	idList := func(id uint16, fresh func() p.Entity, build func(v []uint32) p.Entity) {
		reg(id, fresh, func(g *G) Case {
			ids := g.u32s("ids", 255)
			w := &W{}
			w.Count8(len(ids))
			for _, id := range ids {
				w.U32(id)
			}
			return mkCase(0, w, func() p.Entity { return build(cp32(ids)) }, nil)
		})
	}
	idList(0x8106, func() p.Entity { return new(p.T808_0x8106) }, func(v []uint32) p.Entity { return &p.T808_0x8106{Params: v} })
	empty(0x8107, func() p.Entity { return new(p.T808_0x8107) })
	reg(0x8108, func() p.Entity { return new(p.T808_0x8108) }, func(g *G) Case {
		v := p.T808_0x8108{Type: g.U8("t"), Version: g.Text("ver", 255)}
		data := g.Blob("data", 750)
		v.Size = uint32(len(data))
		if g.oneIn(4, "odd") {
			v.Size = g.U32("size")
		}
		u := v
		v.ManufactureID, u.ManufactureID = g.RawText("man", 5)
		w := &W{}
		w.U8(v.Type)
		w.Fixed([]byte(v.ManufactureID), 5)
		w.Str8(ref.GB(v.Version))
		w.U32(v.Size)
		w.Raw(data)
		return mkCase(0, w, func() p.Entity { c := v; c.Data = cp8(data); return &c }, func() p.Entity { c := u; c.Data = cp8(data); return &c })
	})
	empty(0x8201, func() p.Entity { return new(p.T808_0x8201) })
	reg(0x8202, func() p.Entity { return new(p.T808_0x8202) }, func(g *G) Case {
		v := p.T808_0x8202{Interval: g.U16("i"), Expire: g.U32("e")}
		w := &W{}
		w.U16(v.Interval)
		w.U32(v.Expire)
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x8203, func() p.Entity { return new(p.T808_0x8203) }, func(g *G) Case {
		v := p.T808_0x8203{MsgSerialNo: g.U16("sn"), Type: g.U32("t")}
		w := &W{}
		w.U16(v.MsgSerialNo)
		w.U32(v.Type)
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x8300, func() p.Entity { return new(p.T808_0x8300) }, func(g *G) Case {
		v := p.T808_0x8300{Flag: g.U8("f"), Text: g.Text("text", 1022)}
		w := &W{}
		w.U8(v.Flag)
		w.Raw(ref.GB(v.Text))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x8301, func() p.Entity { return new(p.T808_0x8301) }, func(g *G) Case {
		typ := g.U8("t")
		var evs []p.T808_0x8301_Event
		n := g.Size("n", 4, 255)
		for i := 0; i < n; i++ {
			e := p.T808_0x8301_Event{ID: g.U8("id")}
			if n < 6 {
				e.Content = g.Text("c", 255)
			} else if n < 60 && i < 3 {
				e.Content = g.TextOf("c", 6)
			}
			evs = append(evs, e)
		}
		w := &W{}
		w.U8(typ)
		w.Count8(n)
		for _, e := range evs {
			w.U8(e.ID)
			w.Str8(ref.GB(e.Content))
		}
		return mkCase(0, w, func() p.Entity {
			return &p.T808_0x8301{Type: typ, Events: append([]p.T808_0x8301_Event(nil), evs...)}
		}, nil)
	})
	reg(0x8302, func() p.Entity { return new(p.T808_0x8302) }, func(g *G) Case {
		flag, q := g.U8("f"), g.Text("q", 255)
		var as []p.T808_0x8302_Answer
		n := g.Size("n", 4, 200)
		for i := 0; i < n; i++ {
			a := p.T808_0x8302_Answer{ID: g.U8("id")}
			if n < 6 {
				a.Content = g.Text("c", 255)
			} else if n < 60 && i < 3 {
				a.Content = g.TextOf("c", 6)
			}
			as = append(as, a)
		}
		w := &W{}
		w.U8(flag)
		w.Str8(ref.GB(q))
		for _, a := range as {
			w.U8(a.ID)
			w.Str8(ref.GB(a.Content))
		}
		return mkCase(0, w, func() p.Entity {
			return &p.T808_0x8302{Flag: flag, Question: q, CandidateAnswers: append([]p.T808_0x8302_Answer(nil), as...)}
		}, nil)
	})
	reg(0x8303, func() p.Entity { return new(p.T808_0x8303) }, func(g *G) Case {
		typ := g.U8("t")
		var its []p.T808_0x8303_Item
		n := g.Size("n", 4, 255)
		for i := 0; i < n; i++ {
			it := p.T808_0x8303_Item{}
			if n < 6 {
				it.Name = g.Text("c", 400)
			} else if n < 60 && i < 3 {
				it.Name = g.TextOf("c", 6)
			}
			its = append(its, it)
		}
		w := &W{}
		w.U8(typ)
		w.Count8(n)
		for _, it := range its {
			b := ref.GB(it.Name)
			w.U16(uint16(len(b)))
			w.Raw(b)
		}
		return mkCase(0, w, func() p.Entity {
			return &p.T808_0x8303{Type: p.T808_0x8303_Type(typ), Items: append([]p.T808_0x8303_Item(nil), its...)}
		}, nil)
	})
	reg(0x8304, func() p.Entity { return new(p.T808_0x8304) }, func(g *G) Case {
		v := p.T808_0x8304{Type: g.U8("t"), Content: g.Text("c", 1020)}
		b := ref.GB(v.Content)
		w := &W{}
		w.U8(v.Type)
		w.U16(uint16(len(b)))
		w.Raw(b)
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x8400, func() p.Entity { return new(p.T808_0x8400) }, func(g *G) Case {
		v := p.T808_0x8400{Flag: p.T808_0x8400_Flag(g.U8("f")), Number: g.Text("num", 1022)}
		w := &W{}
		w.U8(byte(v.Flag))
		w.Raw(ref.GB(v.Number))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x8401, func() p.Entity { return new(p.T808_0x8401) }, func(g *G) Case {
		typ := g.U8("t")
		var cs []p.T808_0x8401_Contact
		n := g.Size("n", 3, 255)
		for i := 0; i < n; i++ {
			c := p.T808_0x8401_Contact{Flag: p.T808_0x8401_ContactFlag(g.U8("f"))}
			if n < 5 {
				c.Number, c.Contact = g.Text("num", 255), g.Text("name", 255)
			} else if n < 60 && i < 3 {
				c.Number, c.Contact = g.TextOf("num", 6), g.TextOf("name", 5)
			}
			cs = append(cs, c)
		}
		w := &W{}
		w.U8(typ)
		w.Count8(n)
		for _, c := range cs {
			w.U8(byte(c.Flag))
			w.Str8(ref.GB(c.Number))
			w.Str8(ref.GB(c.Contact))
		}
		return mkCase(0, w, func() p.Entity {
			return &p.T808_0x8401{Type: p.T808_0x8401_Type(typ), Contacts: append([]p.T808_0x8401_Contact(nil), cs...)}
		}, nil)
	})
	reg(0x8500, func() p.Entity { return new(p.T808_0x8500) }, func(g *G) Case {
		f := g.U8("f")
		return mkCase(0, &W{B: []byte{f}}, func() p.Entity { return &p.T808_0x8500{Flag: p.T808_0x8500_Flag(f)} }, nil)
	})
	reg(0x8600, func() p.Entity { return new(p.T808_0x8600) }, func(g *G) Case {
		act := g.U8("act")
		n := g.items("n", 18)
		var in, want []p.CircleArea
		w := &W{}
		w.U8(act)
		w.Count8(n)
		for i := 0; i < n; i++ {
			if i >= 5 {
				a, b := in[i%5], want[i%5]
				a.ID += uint32(i)
				b.ID = a.ID
				in, want = append(in, a), append(want, b)
			} else {
				a := p.CircleArea{ID: g.U32("id"), Radius: g.U32("rad")}
				lat, lng := g.Micro("lat", 90, 0), g.Micro("lng", 180, 0)
				a.Lat, a.Lng = g.Dec("lat", lat), g.Dec("lng", lng)
				fi, fw := g.hemi("attr", uint32(g.U16("attr")), lat < 0, lat > 0, lng < 0, lng > 0, 6, 7)
				a.Attribute = p.AreaAttribute(fi)
				b := a
				b.Attribute = p.AreaAttribute(fw)
				if fw&1 == 1 {
					a.StartTime, b.StartTime = g.Time("st")
					a.EndTime, b.EndTime = g.Time("et")
					a.MaxSpeed, a.Duration = g.U16("ms"), g.U8("du")
					b.MaxSpeed, b.Duration = a.MaxSpeed, a.Duration
				}
				in, want = append(in, a), append(want, b)
			}
			b := want[i]
			w.U32(b.ID)
			w.U16(uint16(b.Attribute))
			w.U32(abs32(b.Lat.Shift(6).IntPart()))
			w.U32(abs32(b.Lng.Shift(6).IntPart()))
			w.U32(b.Radius)
			if b.Attribute&1 == 1 {
				w.Time(b.StartTime)
				w.Time(b.EndTime)
				w.U16(b.MaxSpeed)
				w.U8(b.Duration)
			}
		}
		return mkCase(0, w, func() p.Entity {
			return &p.T808_0x8600{Action: p.AreaAction(act), Items: append([]p.CircleArea(nil), in...)}
		}, func() p.Entity {
			return &p.T808_0x8600{Action: p.AreaAction(act), Items: append([]p.CircleArea(nil), want...)}
		})
	})
	idList(0x8601, func() p.Entity { return new(p.T808_0x8601) }, func(v []uint32) p.Entity { return &p.T808_0x8601{IDs: v} })
	reg(0x8602, func() p.Entity { return new(p.T808_0x8602) }, func(g *G) Case {
		act := g.U8("act")
		n := g.items("n", 22)
		var in, want []p.RectArea
		w := &W{}
		w.U8(act)
		w.Count8(n)
		for i := 0; i < n; i++ {
			if i >= 4 {
				a, b := in[i%4], want[i%4]
				a.ID += uint32(i)
				b.ID = a.ID
				in, want = append(in, a), append(want, b)
			} else {
				a := p.RectArea{ID: g.U32("id")}
				sLat, sLng := 1-2*g.Int("sLat", 0, 1), 1-2*g.Int("sLng", 0, 1)
				lat, lng := g.Micro("lat", 90, sLat), g.Micro("lng", 180, sLng)
				lat2, lng2 := g.Micro("lat2", 90, sLat), g.Micro("lng2", 180, sLng)
				a.LeftTopLat, a.LeftTopLon = g.Dec("lat", lat), g.Dec("lng", lng)
				a.RightBottomLat, a.RightBottomLon = g.Dec("lat2", lat2), g.Dec("lng2", lng2)
				fi, fw := g.hemi("attr", uint32(g.U16("attr")), lat < 0 || lat2 < 0, lat > 0 || lat2 > 0, lng < 0 || lng2 < 0, lng > 0 || lng2 > 0, 6, 7)
				a.Attribute = p.AreaAttribute(fi)
				b := a
				b.Attribute = p.AreaAttribute(fw)
				if fw&1 == 1 {
					a.StartTime, b.StartTime = g.Time("st")
					a.EndTime, b.EndTime = g.Time("et")
					a.MaxSpeed, a.Duration = g.U16("ms"), g.U8("du")
					b.MaxSpeed, b.Duration = a.MaxSpeed, a.Duration
				}
				in, want = append(in, a), append(want, b)
			}
			b := want[i]
			w.U32(b.ID)
			w.U16(uint16(b.Attribute))
			w.U32(abs32(b.LeftTopLat.Shift(6).IntPart()))
			w.U32(abs32(b.LeftTopLon.Shift(6).IntPart()))
			w.U32(abs32(b.RightBottomLat.Shift(6).IntPart()))
			w.U32(abs32(b.RightBottomLon.Shift(6).IntPart()))
			if b.Attribute&1 == 1 {
				w.Time(b.StartTime)
				w.Time(b.EndTime)
				w.U16(b.MaxSpeed)
				w.U8(b.Duration)
			}
		}
		return mkCase(0, w, func() p.Entity {
			return &p.T808_0x8602{Action: p.AreaAction(act), Items: append([]p.RectArea(nil), in...)}
		}, func() p.Entity {
			return &p.T808_0x8602{Action: p.AreaAction(act), Items: append([]p.RectArea(nil), want...)}
		})
	})
	idList(0x8603, func() p.Entity { return new(p.T808_0x8603) }, func(v []uint32) p.Entity { return &p.T808_0x8603{IDs: v} })
	reg(0x8604, func() p.Entity { return new(p.T808_0x8604) }, func(g *G) Case {
		n := g.items("n", 8)
		a := p.T808_0x8604{ID: g.U32("id")}
		sLat, sLng := 1-2*g.Int("sLat", 0, 1), 1-2*g.Int("sLng", 0, 1)
		var vs []p.Vertex
		var lats, lngs []int64
		var ln, lp, gn, gp bool
		for i := 0; i < n; i++ {
			var lat, lng int64
			if i < 5 {
				lat, lng = g.Micro("lat", 90, sLat), g.Micro("lng", 180, sLng)
				vs = append(vs, p.Vertex{Lat: g.Dec("lat", lat), Lng: g.Dec("lng", lng)})
			} else {
				lat, lng = lats[i%5], lngs[(i+2)%5]
				vs = append(vs, p.Vertex{Lat: vs[i%5].Lat, Lng: vs[(i+2)%5].Lng})
			}
			lats, lngs = append(lats, lat), append(lngs, lng)
			ln, lp, gn, gp = ln || lat < 0, lp || lat > 0, gn || lng < 0, gp || lng > 0
		}
		fi, fw := g.hemi("attr", uint32(g.U16("attr")), ln, lp, gn, gp, 6, 7)
		a.Attribute = p.AreaAttribute(fi)
		b := a
		b.Attribute = p.AreaAttribute(fw)
		w := &W{}
		w.U32(b.ID)
		w.U16(uint16(fw))
		if fw&1 == 1 {
			a.StartTime, b.StartTime = g.Time("st")
			a.EndTime, b.EndTime = g.Time("et")
			a.MaxSpeed, a.Duration = g.U16("ms"), g.U8("du")
			b.MaxSpeed, b.Duration = a.MaxSpeed, a.Duration
			w.Time(b.StartTime)
			w.Time(b.EndTime)
			w.U16(b.MaxSpeed)
			w.U8(b.Duration)
		}
		w.U16(uint16(n))
		for i := range lats {
			w.U32(abs32(lats[i]))
			w.U32(abs32(lngs[i]))
		}
		return mkCase(0, w, func() p.Entity { c := a; c.Vertexes = append([]p.Vertex(nil), vs...); return &c },
			func() p.Entity { c := b; c.Vertexes = append([]p.Vertex(nil), vs...); return &c })
	})
	idList(0x8605, func() p.Entity { return new(p.T808_0x8605) }, func(v []uint32) p.Entity { return &p.T808_0x8605{IDs: v} })
	reg(0x8606, func() p.Entity { return new(p.T808_0x8606) }, func(g *G) Case {
		n := g.items("n", 18)
		a := p.T808_0x8606{ID: g.U32("id"), Attribute: g.U16("attr")}
		b := a
		a.StartTime, b.StartTime = g.Time("st")
		a.EndTime, b.EndTime = g.Time("et")
		w := &W{}
		w.U32(a.ID)
		w.U16(a.Attribute)
		w.Time(b.StartTime)
		w.Time(b.EndTime)
		w.U16(uint16(n))
		type pt struct {
			in, want    p.T808_0x8606_Point
			lat, lng    int64
			tl, ts, ms  uint16
			du          byte
			time, speed bool
		}
		var pts []pt
		for i := 0; i < n; i++ {
			var x pt
			if i >= 4 {
				x = pts[i%4]
				x.in.ID += uint32(i)
				x.want.ID = x.in.ID
			} else {
				x.lat, x.lng = g.Micro("lat", 90, 0), g.Micro("lng", 180, 0)
				x.in = p.T808_0x8606_Point{ID: g.U32("pid"), SectionID: g.U32("sid"), Width: g.U8("w"), Lat: g.Dec("lat", x.lat), Lng: g.Dec("lng", x.lng)}
				fi, fw := g.hemi("pattr", uint32(g.U8("pattr")), x.lat < 0, x.lat > 0, x.lng < 0, x.lng > 0, 2, 3)
				x.time, x.speed = g.Bool("lt"), g.Bool("ls")
				fw &^= 3
				if x.time {
					x.tl, x.ts = g.U16("tl"), g.U16("ts")
					fw |= 1
				}
				if x.speed {
					x.ms, x.du = g.U16("ms"), g.U8("du")
					fw |= 2
				}
				x.want = x.in
				x.in.Attribute, x.want.Attribute = p.T808_0x8606_SectionAttribute(fi), p.T808_0x8606_SectionAttribute(fw)
			}
			pts = append(pts, x)
			w.U32(x.want.ID)
			w.U32(x.want.SectionID)
			w.U32(abs32(x.lat))
			w.U32(abs32(x.lng))
			w.U8(x.want.Width)
			w.U8(byte(x.want.Attribute))
			if x.time {
				w.U16(x.tl)
				w.U16(x.ts)
			}
			if x.speed {
				w.U16(x.ms)
				w.U8(x.du)
			}
		}
		build := func(want bool) mk {
			return func() p.Entity {
				c := a
				if want {
					c = b
				}
				for _, x := range pts {
					x := x
					v := x.in
					if want {
						v = x.want
					}
					if x.time {
						tl, ts := x.tl, x.ts
						v.TimeTooLong, v.TimeTooShort = &tl, &ts
					}
					if x.speed {
						ms, du := x.ms, x.du
						v.MaxSpeed, v.OverSpeedDuration = &ms, &du
					}
					c.Points = append(c.Points, v)
				}
				return &c
			}
		}
		return mkCase(0, w, build(false), build(true))
	})
	idList(0x8607, func() p.Entity { return new(p.T808_0x8607) }, func(v []uint32) p.Entity { return &p.T808_0x8607{IDs: v} })
	reg(0x8700, func() p.Entity { return new(p.T808_0x8700) }, func(g *G) Case {
		cmd, data := g.U8("cmd"), g.Blob("data", 1022)
		return mkCase(0, &W{B: append([]byte{cmd}, data...)}, func() p.Entity { return &p.T808_0x8700{Cmd: cmd, Data: cp8(data)} }, nil)
	})
	reg(0x8701, func() p.Entity { return new(p.T808_0x8701) }, func(g *G) Case {
		cmd, data := g.U8("cmd"), g.Blob("data", 1022)
		return mkCase(0, &W{B: append([]byte{cmd}, data...)}, func() p.Entity { return &p.T808_0x8701{Cmd: cmd, Data: cp8(data)} }, nil)
	})
	empty(0x8702, func() p.Entity { return new(p.T808_0x8702) })
	reg(0x8800, func() p.Entity { return new(p.T808_0x8800) }, func(g *G) Case {
		id, ids := g.U32("id"), g.u16s("ids", 255)
		w := &W{}
		w.U32(id)
		if len(ids) > 0 {
			w.Count8(len(ids))
			for _, x := range ids {
				w.U16(x)
			}
		}
		return mkCase(0, w, func() p.Entity { return &p.T808_0x8800{MediaID: id, RetryIDs: cp16(ids)} }, nil)
	})
	reg(0x8801, func() p.Entity { return new(p.T808_0x8801) }, func(g *G) Case {
		v := p.T808_0x8801{ChannelID: g.U8("ch"), Cmd: g.U16("cmd"), Duration: g.U16("d"), Save: p.T808_0x8801_SaveFlag(g.U8("s")),
			Resolution: p.T808_0x8801_Resolution(g.U8("r")), Quality: g.U8("q"), Lighting: g.U8("l"), Contrast: g.U8("c"), Saturability: g.U8("sa"), Chroma: g.U8("chr")}
		w := &W{}
		w.U8(v.ChannelID)
		w.U16(v.Cmd)
		w.U16(v.Duration)
		w.Raw([]byte{byte(v.Save), byte(v.Resolution), v.Quality, v.Lighting, v.Contrast, v.Saturability, v.Chroma})
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x8802, func() p.Entity { return new(p.T808_0x8802) }, func(g *G) Case {
		v := p.T808_0x8802{Type: p.T808_0x0800_MediaType(g.U8("t")), ChannelID: g.U8("ch"), Event: g.U8("e")}
		u := v
		v.StartTime, u.StartTime = g.Time("st")
		v.EndTime, u.EndTime = g.Time("et")
		w := &W{}
		w.Raw([]byte{byte(v.Type), v.ChannelID, v.Event})
		w.Time(v.StartTime)
		w.Time(v.EndTime)
		return mkCase(0, w, func() p.Entity { c := v; return &c }, func() p.Entity { c := u; return &c })
	})
	reg(0x8803, func() p.Entity { return new(p.T808_0x8803) }, func(g *G) Case {
		v := p.T808_0x8803{Type: p.T808_0x0800_MediaType(g.U8("t")), ChannelID: g.U8("ch"), Event: g.U8("e"), RemoveFlag: g.U8("rm")}
		u := v
		v.StartTime, u.StartTime = g.Time("st")
		v.EndTime, u.EndTime = g.Time("et")
		w := &W{}
		w.Raw([]byte{byte(v.Type), v.ChannelID, v.Event})
		w.Time(v.StartTime)
		w.Time(v.EndTime)
		w.U8(v.RemoveFlag)
		return mkCase(0, w, func() p.Entity { c := v; return &c }, func() p.Entity { c := u; return &c })
	})
	reg(0x8804, func() p.Entity { return new(p.T808_0x8804) }, func(g *G) Case {
		v := p.T808_0x8804{Cmd: g.U8("cmd"), Duration: g.U16("d"), Save: p.T808_0x8801_SaveFlag(g.U8("s")), AudioSampleRate: p.T808_0x8804_AudioSampleRate(g.U8("r"))}
		w := &W{}
		w.U8(v.Cmd)
		w.U16(v.Duration)
		w.U8(byte(v.Save))
		w.U8(byte(v.AudioSampleRate))
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	reg(0x8805, func() p.Entity { return new(p.T808_0x8805) }, func(g *G) Case {
		v := p.T808_0x8805{MediaID: g.U32("id"), RemoveFlag: g.U8("rm")}
		w := &W{}
		w.U32(v.MediaID)
		w.U8(v.RemoveFlag)
		return mkCase(0, w, func() p.Entity { c := v; return &c }, nil)
	})
	if len(IDs) != 65 {
		panic(fmt.Sprintf("%d generators", len(IDs)))
	}
}

// Any draws a body of any built-in type. Types with a rich structure are
// preferred.
func (g *G) Any() Case {
	return Gens[g.AnyID()](g)
}

var richIDs = []uint16{0x0104, 0x0107, 0x0200, 0x0201, 0x0500, 0x0702, 0x0704, 0x0705, 0x0801, 0x0802, 0x0805, 0x0901, 0x8003, 0x8103,
	0x8108, 0x8301, 0x8302, 0x8303, 0x8401, 0x8600, 0x8602, 0x8604, 0x8606, 0x8800}

// AnyID draws a built-in message ID.
func (g *G) AnyID() uint16 {
	if g.Bool("rich") {
		return richIDs[g.Uniform("id", len(richIDs))]
	}
	return IDs[g.Uniform("id", len(IDs))]
}
