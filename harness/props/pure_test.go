package props

import (
	"bytes"
	"fmt"
	"sync"
	"testing"

	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// shared is a message that several goroutines encode and decode.
type shared struct {
	c      gen.Case
	h      ref.Header
	entity protocol.Entity // nil: it carries a reader, which encoding uses up
	before string
	frame  []byte // reference frame, decoded in place by everybody
	want   string
}

func (g sharedGen) draw(t *rapid.T) *shared {
	for {
		c := g.Any()
		if !c.Fits() {
			continue
		}
		s := &shared{c: c, h: g.Header()}
		s.h.ID = c.ID
		e := c.In()
		if _, ok := e.(protocol.EntityPacket); !ok && !(g.race && gen.Marks(e)) {
			s.entity = e
		}
		s.before = view(c.In())
		s.frame = ref.Frame(s.h, c.Wire)
		s.want = gen.CanonRef(s.h) + " " + gen.Canon(c.Want())
		return s
	}
}

// view shows what encoding must leave alone.
func view(e protocol.Entity) string {
	switch a := e.(type) {
	case *protocol.T808_0x0801: // the reader is used up
		c := *a
		c.Packet = nil
		return gen.Canon(&c)
	case *protocol.T808_0x8602: // the repository's own tests want the flags set in the message
		c := *a
		c.Items = append([]protocol.RectArea(nil), a.Items...)
		for i := range c.Items {
			c.Items[i].Attribute.SetSouthLatitude(true)
			c.Items[i].Attribute.SetWestLongitude(true)
		}
		return gen.Canon(&c)
	case *protocol.T808_0x8604:
		c := *a
		c.Attribute.SetSouthLatitude(true)
		c.Attribute.SetWestLongitude(true)
		return gen.Canon(&c)
	}
	return gen.Canon(e)
}

type sharedGen struct {
	*gen.G
	race bool
}

// use encodes (the entity) or decodes (the frame) and tells what is wrong.
func (s *shared) use(enc bool) string {
	if enc {
		e := s.entity
		if e == nil {
			e = s.c.In()
		}
		b, err := gen.Message(s.h, e).Encode()
		if err != nil {
			return fmt.Sprintf("%04x does not encode: %v", s.c.ID, err)
		}
		if s.c.CheckWire != nil {
			_, _, body, err := ref.Parse(b)
			if err == nil {
				err = s.c.CheckWire(body)
			}
			if err != nil {
				return fmt.Sprintf("%04x encodes to %x: %v", s.c.ID, b, err)
			}
		} else if want := ref.Frame(s.h, s.c.Wire); !bytes.Equal(b, want) {
			return fmt.Sprintf("%04x encodes to %x, want %x", s.c.ID, b, want)
		}
		return ""
	}
	var m protocol.Message
	if err := m.Decode(s.frame); err != nil || m.Body == nil {
		return fmt.Sprintf("%x does not decode: %v", s.frame, err)
	}
	if got := gen.CanonHeader(m.Header) + " " + gen.Canon(m.Body); got != s.want {
		return fmt.Sprintf("%x decodes to %s, want %s", s.frame, got, s.want)
	}
	return ""
}

// C21: goroutines encoding and decoding the same and different messages at the
// same time get what each gets alone.
func TestC21_Codec(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		ms := make([]*shared, g.Int("messages", 1, 5))
		for i := range ms {
			ms[i] = sharedGen{g, true}.draw(t)
		}
		type op struct {
			m   int
			enc bool
		}
		plans := make([][]op, g.Int("workers", 2, 6))
		for i := range plans {
			plans[i] = make([]op, g.Int("ops", 1, 10))
			for k := range plans[i] {
				plans[i][k] = op{g.Int("m", 0, len(ms)-1), g.Bool("enc")}
			}
		}
		bad := make([]string, len(plans))
		quiet(func() {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i, plan := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, o := range plan {
						if s := ms[o.m].use(o.enc); s != "" {
							bad[i] = s
							return
						}
					}
				}()
			}
			close(start)
			wg.Wait()
		})
		for _, s := range bad {
			if s != "" {
				t.Fatalf("with %d goroutines: %s", len(plans), s)
			}
		}
		stat.Case(true, stat.Hash(fmt.Sprint(plans), ms[0].frame), func() string {
			return fmt.Sprintf("%d goroutines %v over %s", len(plans), plans, ms[0].want)
		}, "codec")
	})
}

// C22: encoding leaves its message as it is, decoding its input, and what was
// decoded or encoded stays as it is whatever happens to the input or is encoded
// or decoded later.
func TestC22_Pure(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		type decoded struct {
			m    *protocol.Message
			want string
			from *shared
		}
		type encoded struct {
			b, was []byte
			from   *shared
		}
		ms := make([]*shared, g.Int("messages", 1, 4))
		for i := range ms {
			ms[i] = sharedGen{g, false}.draw(t)
		}
		var ds []decoded
		var es []encoded
		var log []string
		n := g.Int("steps", 2, 14)
		for i := 0; i < n; i++ {
			s := ms[g.Int("m", 0, len(ms)-1)]
			switch k := g.Int("op", 0, 3); {
			case k == 0: // encode
				e := s.entity
				if e == nil {
					e = s.c.In()
				}
				b, err := encode(gen.Message(s.h, e))
				if err != nil {
					t.Fatalf("%04x does not encode: %v", s.c.ID, err)
				}
				if now := view(e); now != s.before {
					t.Fatalf("encoding changed the message\n from %s\n to   %s", s.before, now)
				}
				if s.c.CheckWire == nil && !bytes.Equal(b, ref.Frame(s.h, s.c.Wire)) {
					t.Fatalf("after %v: %04x encodes to %x, want %x", log, s.c.ID, b, ref.Frame(s.h, s.c.Wire))
				}
				es = append(es, encoded{b, append([]byte(nil), b...), s})
				log = append(log, fmt.Sprintf("encode %04x", s.c.ID))
			case k <= 2: // decode, then perhaps overwrite the input, into a fresh or an earlier message
				in := append([]byte(nil), s.frame...)
				m := &protocol.Message{}
				over := -1
				if len(ds) > 0 && g.Int("into", 0, 2) == 0 {
					over = g.Int("used", 0, len(ds)-1)
					m = ds[over].m
				}
				var err error
				quiet(func() { err = m.Decode(in) })
				if err != nil || m.Body == nil {
					t.Fatalf("%x does not decode: %v", s.frame, err)
				}
				if !bytes.Equal(in, s.frame) {
					t.Fatalf("decoding changed its input from %x to %x", s.frame, in)
				}
				if g.Bool("overwrite") {
					for j := range in {
						in[j] ^= 0x5a
					}
				}
				if over >= 0 {
					ds = append(ds[:over], ds[over+1:]...)
				}
				ds = append(ds, decoded{m, s.want, s})
				log = append(log, fmt.Sprintf("decode %04x (into used: %v)", s.c.ID, over >= 0))
			default: // a frame without a decodable body, into an earlier message
				if len(ds) == 0 {
					continue
				}
				j := g.Int("used", 0, len(ds)-1)
				h := g.Header()
				h.ID = 0xf00d
				if g.Bool("known") {
					h.ID = 0x0200
				}
				m := ds[j].m
				if err := m.Decode(ref.Frame(h, []byte{1, 2, 3})); err != nil {
					t.Fatalf("a frame of type %04x: %v", h.ID, err)
				}
				if m.Body != nil {
					t.Fatalf("a frame of type %04x with body 010203 decoded into a used message delivers %s", h.ID, gen.Canon(m.Body))
				}
				ds = append(ds[:j], ds[j+1:]...)
				log = append(log, "decode without body into used")
			}
			if out := printed(); out != "" {
				t.Fatalf("after %v: written to standard output: %q", log, out)
			}
			for _, d := range ds {
				if got := gen.CanonHeader(d.m.Header) + " " + gen.Canon(d.m.Body); got != d.want {
					t.Fatalf("after %v: what was decoded as\n %s\n is now\n %s", log, d.want, got)
				}
			}
			for _, e := range es {
				if !bytes.Equal(e.b, e.was) {
					t.Fatalf("after %v: what was encoded as %x is now %x", log, e.was, e.b)
				}
			}
		}
		stat.Case(len(log) > 1, stat.Hash(fmt.Sprint(log), ms[0].frame), func() string { return fmt.Sprintf("%v; first %s", log, ms[0].want) }, "history")
	})
}

// C22: an entity that held another message, or part of one, decodes as a fresh one.
func TestC22_UsedEntity(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		id := g.AnyID()
		var used protocol.Entity
		how := ""
		earlier := gen.Gens[id](g)
		switch g.Int("used", 0, 2) {
		case 0:
			used, how = earlier.Want(), "built"
		case 1:
			used, how = gen.New[id](), "decoded"
			used.Decode(append([]byte(nil), earlier.Wire...))
		default:
			used, how = gen.New[id](), "half decoded"
			b := g.Mutate(earlier.Wire)
			used.Decode(b)
		}
		c := gen.Gens[id](g)
		if c.Over {
			return
		}
		before := gen.Canon(used)
		fresh := gen.New[id]()
		read := func(e protocol.Entity) (err error) {
			b := append([]byte(nil), c.Wire...)
			if pe, ok := e.(protocol.EntityPacket); ok {
				return pe.DecodePacket(b)
			}
			_, err = e.Decode(b)
			return err
		}
		err1, err2 := read(fresh), read(used)
		stat.Case(before != gen.Canon(gen.New[id]()), stat.Hash(id, before, c.Wire), func() string { return fmt.Sprintf("%04x %s %s then %x", id, how, before, c.Wire) }, "used-"+how)
		if (err1 == nil) != (err2 == nil) {
			t.Fatalf("%04x %s: %v, fresh %v", id, how, err2, err1)
		}
		if a, b := gen.CanonPayload(used), gen.CanonPayload(fresh); err1 == nil && a != b {
			t.Fatalf("%04x %s: body %x decodes into a used entity as\n %s\n instead of\n %s", id, how, c.Wire, a, b)
		}
	})
}

// A used header, too, takes a new value whole, or not at all.
func TestC22_UsedHeader(t *testing.T) {
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		before := g.Header()
		m := gen.Message(before, nil)
		h := m.Header
		b := append([]byte(nil), g.Header().Bytes(g.Int("size", 0, 1023))...)
		if g.Bool("damage") {
			b = g.Mutate(b)
		}
		old := gen.CanonHeader(h)
		var fresh protocol.Header
		err1, err2 := fresh.Decode(append([]byte(nil), b...)), h.Decode(append([]byte(nil), b...))
		stat.Case(old != gen.CanonHeader(fresh), stat.Hash(old, b), func() string { return fmt.Sprintf("%s then %x: %v", old, b, err2) }, "used-header")
		if (err1 == nil) != (err2 == nil) {
			t.Fatalf("header %x: %v into a used header, %v into a fresh one", b, err2, err1)
		}
		want := gen.CanonHeader(fresh)
		if err1 != nil {
			want = old
		}
		if got := gen.CanonHeader(h); got != want {
			t.Fatalf("header %x decoded (%v) into a used header\n %s\n gives %s\n instead of %s", b, err2, old, got, want)
		}
	})
}
