package srv

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/keys"
	"verifharness/ref"
	"verifharness/stat"
)

// C03: hostile connections do not disturb the others.
func TestC03_Live(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		os.RemoveAll(filepath.Join(os.TempDir(), "go808"))
		o := go808.Options{AutoMergePacket: g.Bool("merge")}
		if g.Bool("key") {
			o.PrivateKey = keys.A()
		}
		w := serve(t, o)
		defer w.stop()
		reply := g.Bool("reply")
		for id := range gen.New {
			if id == fenceID {
				continue
			}
			w.s.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
				_ = canonMsg(m)
				if p, ok := m.Body.(protocol.EntityPacket); ok && p.GetReader() != nil {
					io.ReadAll(p.GetReader())
				}
				if reply {
					s.Reply(m, 0)
				}
			})
		}
		good := w.connect()
		good.phone = 424242
		good.fence(t)
		n := g.Int("hostile", 1, 4)
		data := make([][][]byte, n)
		size := 0
		desc := ""
		for i := range data {
			var s []byte
			for k := g.Int("frames", 1, 8); k > 0; k-- {
				f, kind := g.HostileFrame()
				if len(f) > 4 && g.Int("part", 0, 7) == 7 {
					h := ref.Header{ID: 0x0801, Phone: uint64(g.Int("phone", 0, 3)), Serial: 1, Prop: ref.BitPacket, Sum: uint16(g.Int("sum", 0, 3)), Seq: uint16(g.Int("seq", 0, 4))}
					f, kind = ref.Frame(h, mediaPart(uint32(g.Int("tag", 0, 2)), g.Blob("p", 20))), "upload-part"
				}
				s = append(s, f...)
				desc += kind + " "
			}
			size += len(s)
			data[i] = pieces(g, s)
			desc += "| "
		}
		stat.Case(size > 4, stat.Hash(fmt.Sprint(data)), func() string { return fmt.Sprintf("hostile connections: %s", desc) }, "live")
		var wg sync.WaitGroup
		for i := range data {
			c := w.dial()
			if i%2 == 0 {
				c.start()
			} // the others never read
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range data[i] {
					if c.write(p) != nil {
						break
					}
				}
			}()
		}
		good.fence(t)
		wg.Wait()
		for k := 0; k < 3; k++ {
			good.fence(t)
		}
		fresh := w.connect()
		fresh.phone = 434343
		fresh.fence(t)
		good.fence(t)
	})
}

func oaep(k *rsa.PublicKey, body []byte, chunk int) []byte {
	var out []byte
	for len(body) > 0 {
		n := min(len(body), chunk)
		c, err := rsa.EncryptOAEP(sha1.New(), rand.Reader, k, body[:n], nil)
		if err != nil {
			panic(err)
		}
		out = append(out, c...)
		body = body[n:]
	}
	return out
}

// C07: a server with a private key understands encrypted terminals.
func TestC07_Live(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		key := keys.A()
		withKey := g.Int("nokey", 0, 4) < 4
		o := go808.Options{}
		if withKey {
			o.PrivateKey = key
		}
		w := serve(t, o)
		defer w.stop()
		var mu sync.Mutex
		var got []string
		for id := range gen.New {
			if id != fenceID {
				w.s.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
					mu.Lock()
					got = append(got, canonMsg(m))
					mu.Unlock()
				})
			}
		}
		c := w.connect()
		c.phone = 99
		var want []string
		desc := ""
		enc := 0
		for n := g.Int("msgs", 1, 8); n > 0; n-- {
			m := smallCase(g)
			h := c.header(m.ID)
			body := m.Wire
			if withKey && g.Int("enc", 0, 2) > 0 && len(body) > 0 {
				chunk := g.Int("chunk", 30, 86)
				if (len(body)+chunk-1)/chunk*128 <= 1023 {
					body = oaep(&key.PublicKey, body, chunk)
					h.Prop |= ref.BitEncrypt
					enc++
				}
			}
			desc += fmt.Sprintf("%04x/%d/%v ", m.ID, len(m.Wire), h.Prop&ref.BitEncrypt != 0)
			for _, p := range pieces(g, ref.Frame(h, body)) {
				c.write(p)
			}
			want = append(want, gen.CanonRef(h)+" "+gen.Canon(m.Want()))
		}
		c.fence(t)
		stat.Case(enc > 0, stat.Hash(fmt.Sprint(want)), func() string { return "server receives " + desc }, "live")
		mu.Lock()
		defer mu.Unlock()
		for k := 0; k < len(got) || k < len(want); k++ {
			switch {
			case k >= len(got):
				t.Fatalf("not delivered: %s", want[k])
			case k >= len(want):
				t.Fatalf("surplus: %s", got[k])
			case got[k] != want[k]:
				t.Fatalf("got\n %s\nwant\n %s", got[k], want[k])
			}
		}
	})
}

// C07: what cannot be decrypted is never delivered.
func TestC07_LiveRefused(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		o := go808.Options{}
		how := g.Int("how", 0, 1)
		sender := keys.A()
		if how == 1 {
			o.PrivateKey = keys.A()
			sender = keys.B()
		}
		w := serve(t, o)
		defer w.stop()
		var delivered int32
		for id := range gen.New {
			if id != fenceID {
				w.s.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) { atomic.AddInt32(&delivered, 1) })
			}
		}
		c := w.connect()
		c.phone = 98
		c.fence(t)
		m := smallCase(g)
		h := c.header(m.ID)
		h.Prop |= ref.BitEncrypt
		body := m.Wire
		if len(body) == 0 {
			body = []byte{0}
		}
		body = oaep(&sender.PublicKey, body[:min(len(body), 86*7)], 86)
		c.write(ref.Frame(h, body))
		stat.Case(true, stat.Hash(m.ID, m.Wire, how), func() string { return fmt.Sprintf("undecryptable %04x, %d bytes", m.ID, len(m.Wire)) }, "live-refused")
		// either the connection ends or the next message gets through
		k := fenceKey{c.phone, c.serial + 1}
		c.write(ref.Frame(c.header(fenceID), nil))
		if !eventually(func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			return w.fences[k] != nil || c.ended() || c.count() > 0
		}) {
			t.Fatalf("an undecryptable message leaves the connection neither served nor closed")
		}
		if atomic.LoadInt32(&delivered) != 0 {
			t.Fatalf("a handler was given an undecryptable %04x message", m.ID)
		}
		f := w.connect()
		f.phone = 97
		f.fence(t)
	})
}

// customAnswer replaces a built-in answer type.
type customAnswer struct {
	id   uint16
	data []byte
	says uint16 // the ID it gives itself, when one type serves several IDs
}

func (c *customAnswer) MsgID() protocol.MsgID {
	if c.says != 0 {
		return protocol.MsgID(c.says)
	}
	return protocol.MsgID(c.id)
}
func (c *customAnswer) Encode() ([]byte, error) { return c.data, nil }
func (c *customAnswer) Decode(d []byte) (int, error) {
	c.data = append([]byte(nil), d...)
	return len(d), nil
}

// valueAnswer is a message that is a plain value.
type valueAnswer struct {
	id  uint16
	box *[]byte
}

func (v valueAnswer) MsgID() protocol.MsgID   { return protocol.MsgID(v.id) }
func (v valueAnswer) Encode() ([]byte, error) { return *v.box, nil }
func (v valueAnswer) Decode(d []byte) (int, error) {
	*v.box = append([]byte(nil), d...)
	return len(d), nil
}

// C19: a running server with user-defined types, also in place of built-in ones.
func TestC19_Live(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		ids := map[uint16]bool{}
		for n := g.Int("custom", 1, 4); n > 0; n-- {
			switch g.Int("which", 0, 2) {
			case 0:
				ids[answerIDs[g.Uniform("answer", len(answerIDs))]] = true
			case 1:
				id := smallCase(g).ID
				if id != fenceID {
					ids[id] = true
				}
			default:
				ids[uint16(0xf100+g.Int("new", 0, 5))] = true
			}
		}
		var list []uint16
		for id := uint16(0); id < 0xffff; id++ {
			if ids[id] {
				list = append(list, id)
				if g.Int("value", 0, 2) == 2 {
					protocol.Register(id, func() protocol.Entity { return valueAnswer{id, new([]byte)} })
					continue
				}
				says := uint16(0)
				if g.Int("shared", 0, 2) == 2 { // one type for several IDs
					says = []uint16{list[0], 0xf1fe, 0x0002}[g.Uniform("says", 3)]
				}
				protocol.Register(id, func() protocol.Entity { return &customAnswer{id: id, says: says} })
			}
		}
		defer func() {
			for id := range ids {
				if f, ok := gen.New[id]; ok {
					protocol.Register(id, f)
				} else { // a type nothing decodes
					protocol.Register(id, func() protocol.Entity { return &customAnswer{id: id} })
				}
			}
		}()
		w := serve(t, go808.Options{AutoMergePacket: g.Bool("merge")})
		defer w.stop()
		var mu sync.Mutex
		var got []string
		for id := range ids {
			w.s.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
				mu.Lock()
				defer mu.Unlock()
				c, ok := m.Body.(*customAnswer)
				if v, is := m.Body.(valueAnswer); is {
					c, ok = &customAnswer{id: v.id, data: *v.box}, true
				}
				if !ok {
					got = append(got, fmt.Sprintf("%04x: %T", uint16(m.Header.MsgID), m.Body))
					return
				}
				got = append(got, fmt.Sprintf("%04x: %04x %x", uint16(m.Header.MsgID), c.id, c.data))
			})
		}
		c := w.connect()
		c.phone = 5
		s := c.fence(t)
		if g.Bool("request") {
			s.Request(&probe{id: 0x8104}, func(*protocol.Message) {})
			c.waitFrames(1)
		}
		var want []string
		for n := g.Int("msgs", 1, 8); n > 0; n-- {
			id := list[g.Uniform("id", len(list))]
			body := g.Blob("body", 60)
			if g.Bool("serial") && len(body) > 2 {
				body[0], body[1] = 0, 1
			}
			h := c.header(id)
			if g.Int("pkt", 0, 3) == 3 {
				h.Prop |= ref.BitPacket
				h.Sum, h.Seq = 1, 1
			}
			c.write(ref.Frame(h, body))
			want = append(want, fmt.Sprintf("%04x: %04x %x", id, id, body))
		}
		c.fence(t)
		if g.Bool("send") { // and to the terminal
			before := c.count()
			body := g.Blob("body", 60)
			if _, err := s.Send(valueAnswer{0xf1ff, &body}); err != nil {
				t.Fatalf("send: %v", err)
			}
			if !c.waitFrames(before + 1) {
				t.Fatalf("own message %x did not arrive", body)
			}
			c.mu.Lock()
			f := c.got[before]
			c.mu.Unlock()
			if f.h.ID != 0xf1ff || !bytes.Equal(f.body, body) {
				t.Fatalf("own message %x arrived as %s", body, f)
			}
		}
		stat.Case(true, stat.Hash(fmt.Sprint(want)), func() string { return fmt.Sprintf("server with own types: %.300s", fmt.Sprint(want)) }, "live")
		mu.Lock()
		defer mu.Unlock()
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("handlers got\n %q\nwant\n %q", got, want)
		}
	})
}
