package props

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"io"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/keys"
	"verifharness/stat"
)

func hostileFrame(g *gen.G) ([]byte, string) { return g.HostileFrame() }

func clip(b []byte) []byte { return gen.Clip(b) }

// use touches everything a caller could read from a decoded message.
func use(m *protocol.Message) {
	_ = gen.CanonHeader(m.Header)
	if m.Body != nil {
		_ = gen.CanonPayload(m.Body)
	}
}

func TestC03_Frames(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		f, kind := hostileFrame(g)
		var m protocol.Message
		var err error
		data := append([]byte(nil), f...)
		if g.Bool("key") {
			err = m.Decode(data, keys.A())
		} else {
			var none *rsa.PrivateKey
			if g.Bool("nilkey") {
				err = m.Decode(data, none)
			} else {
				err = m.Decode(data)
			}
		}
		out := "error"
		if err == nil {
			out = "header-only"
			if m.Body != nil {
				out = "body"
			}
			use(&m)
		}
		stat.Case(len(f) > 2, stat.Hash(f), func() string { return fmt.Sprintf("%s frame %x -> %s", kind, f, out) }, "frame-"+kind, "outcome-"+out)
	})
}

// every truncation of a valid body, mutated bodies and raw bytes, for every type
func TestC03_Bodies(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		id := g.AnyID()
		c := gen.Gens[id](g)
		var b []byte
		kind := ""
		switch g.Int("how", 0, 3) {
		case 0:
			b, kind = g.Mutate(c.Wire), "mutated"
		case 1:
			b, kind = g.Blob("raw", 80), "raw"
		case 2:
			b, kind = g.Any().Wire, "other-type"
		default:
			b, kind = c.Wire, "truncations"
		}
		stat.Case(len(b) > 0, stat.Hash(id, kind, b), func() string { return fmt.Sprintf("%04x %s body %x", id, kind, b) }, "body-"+kind, idLabel(id))
		lo := len(b)
		if kind == "truncations" {
			lo = 0
			if len(b) > 200 {
				lo = len(b) - 200
			}
		}
		for n := lo; n <= len(b); n++ {
			e := gen.New[id]()
			cut := append([]byte(nil), b[:n]...)
			_, err := e.Decode(cut)
			if err == nil {
				_ = gen.CanonPayload(e)
			}
			if pe, ok := gen.New[id]().(protocol.EntityPacket); ok {
				if pe.DecodePacket(cut) == nil {
					pe.GetTag()
					io.ReadAll(pe.GetReader())
				}
			}
		}
	})
}

func TestC03_Extras(t *testing.T) {
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		id := g.U8("id")
		if g.Int("known", 0, 3) > 0 {
			id = gen.ExtraIDs[g.Uniform("xid", len(gen.ExtraIDs))]
		}
		b := g.Blob("data", 20)
		stat.Case(len(b) > 0, stat.Hash(id, b), func() string { return fmt.Sprintf("extra %02x %x", id, b) }, "extra")
		e, _, err := extra.Decode(id, b)
		if err == nil {
			e.Value()
			e.Data()
		}
		// and inside a location report, with raw trailing bytes
		l := g.LocationWith(nil)
		body := append(append([]byte(nil), l.Wire...), id, g.U8("len"))
		body = append(body, b...)
		var v protocol.T808_0x0200
		if _, err := v.Decode(body); err == nil {
			_ = gen.CanonPayload(&v)
		}
	})
}

func TestC03_Stream(t *testing.T) {
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		var s []byte
		n := g.Int("frames", 1, 6)
		for i := 0; i < n; i++ {
			f, _ := hostileFrame(g)
			s = append(s, f...)
			if g.Bool("garbage") {
				s = append(s, g.Blob("g", 30)...)
			}
		}
		stat.Case(true, stat.Hash(s), func() string { return fmt.Sprintf("stream of %d bytes %.200x", len(s), s) }, "stream")
		codec, err := go808.Protocol{}.NewCodec(&pipe{r: &chunked{data: s, g: g}, w: &bytes.Buffer{}})
		if err != nil {
			t.Fatal(err)
		}
		errs := 0
		for i := 0; i < 4*len(s)+40 && errs < 10; i++ {
			v, err := codec.Receive()
			if err == io.EOF {
				errs++
				continue
			}
			if err == nil {
				m := v.(protocol.Message)
				use(&m)
			}
		}
	})
}
