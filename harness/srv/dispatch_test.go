package srv

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// call is one handler invocation.
type call struct {
	handler int
	session *go808.Session
	msg     *protocol.Message
	text    string
	known   bool // the session could be looked up at that time
}

type callLog struct {
	mu    sync.Mutex
	calls []call
}

func (l *callLog) add(c call) {
	l.mu.Lock()
	l.calls = append(l.calls, c)
	l.mu.Unlock()
}

func (l *callLog) all() []call {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]call(nil), l.calls...)
}

// smallCase draws a message body of limited size.
func smallCase(g *gen.G) gen.Case {
	for {
		c := g.Any()
		if c.ID != fenceID && c.Fits() && c.CheckWire == nil && len(c.Wire) < 400 {
			return c
		}
		if c.ID == 0x0901 && c.Fits() {
			return c
		}
	}
}

// openEnded are the types of which a part of a body may be a body.
var openEnded = map[uint16]bool{0x0100: true, 0x0102: true, 0x0200: true, 0x0201: true, 0x0500: true, 0x0700: true, 0x0701: true, 0x0801: true, 0x0900: true,
	0x8900: true, 0x8100: true, 0x8105: true, 0x8108: true, 0x8300: true, 0x8302: true, 0x8400: true, 0x8700: true, 0x8701: true, 0x8800: true}

// undecodable draws a well-framed message that has no decodable body: of an
// unregistered type, or with a body its type refuses, or of another length
// than declared.
func undecodable(g *gen.G) (id uint16, bytes func(h ref.Header) []byte) {
	switch g.Int("undec", 0, 3) {
	case 3: // a body cut somewhere
		if c := smallCase(g); len(c.Wire) > 0 && !openEnded[c.ID] {
			body := c.Wire[:g.Int("cut", 0, len(c.Wire)-1)]
			return c.ID, func(h ref.Header) []byte { return ref.Frame(h, body) }
		}
		fallthrough
	case 0:
		id = g.U16("uid")
		if _, ok := gen.New[id]; ok {
			id = 0xf123
		}
		body := g.Blob("body", 60)
		return id, func(h ref.Header) []byte { return ref.Frame(h, body) }
	case 1: // too short
		ids := []uint16{0x0001, 0x0200, 0x0801, 0x0704, 0x0802, 0x0100, 0x8103}
		id = ids[g.Int("short", 0, len(ids)-1)]
		return id, func(h ref.Header) []byte { return ref.Frame(h, []byte{}) }
	default: // declared length differs
		c := smallCase(g)
		if g.Int("empty", 0, 5) == 5 { // a type without body
			c.ID, c.Wire = []uint16{0x0002, 0x0003}[g.Int("empty.id", 0, 1)], nil
		}
		d := len(c.Wire) + g.Int("d", 1, 20)
		return c.ID, func(h ref.Header) []byte { return ref.RawFrame(h.Bytes(d&0x3ff), c.Wire) }
	}
}

// C09: every message reaches its handler once, in order, isolated.
func TestC09_Dispatch(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{AutoMergePacket: g.Bool("merge")})
		defer w.stop()
		var log callLog
		registered := map[uint16]int{}
		handlers := 0
		panics := map[uint16]bool{}
		add := func(id uint16) {
			handlers++
			me := handlers
			registered[id] = me
			bad := g.Int("panicky", 0, 4) == 4
			panics[id] = bad
			var once sync.Mutex
			n := 0
			w.s.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
				got, ok := w.s.GetSession(s.ID())
				log.add(call{me, s, m, canonMsg(m), ok && got == s})
				once.Lock()
				n++
				k := n
				once.Unlock()
				if bad {
					switch k % 3 {
					case 0:
						panic("handler gives up")
					case 1:
						var p *protocol.Message
						_ = p.Header.MsgID
					}
				}
			})
		}
		drop := func(id uint16) { w.s.AddHandler(protocol.MsgID(id), nil) }

		conns := g.Int("conns", 1, 4)
		cs := make([]*client, conns)
		for i := range cs {
			cs[i] = w.connect()
			cs[i].phone = uint64(1000 + i)
		}
		type sent struct {
			handler int
			text    string
		}
		type again struct {
			h   ref.Header
			cse gen.Case
		}
		want := make([][]sent, conns)
		past := make([][]again, conns)
		shape := ""
		total := 0
		for phase := g.Int("phases", 1, 3); phase > 0; phase-- {
			// registrations
			for n := g.Int("regs", 0, 4); n > 0; n-- {
				id := smallCase(g).ID
				switch {
				case g.Int("nil", 0, 3) == 3:
					drop(id)
				default:
					add(id)
				}
			}
			var ids []uint16
			for _, id := range gen.IDs {
				if registered[id] != 0 {
					ids = append(ids, id)
				}
			}
			// what each terminal sends
			data := make([][][]byte, conns)
			for i, c := range cs {
				var all []byte
				answers := 0
				for n := g.Int("msgs", 0, 14); n > 0; n-- {
					if k := g.Int("kind", 0, 9); k >= 8 && answers < 8 {
						answers++
						id, b := undecodable(g)
						all = append(all, b(c.header(id))...)
						shape += "u"
						continue
					}
					var cse gen.Case
					if len(ids) > 0 && g.Int("known", 0, 3) > 0 {
						cse = gen.Gens[ids[g.Int("id", 0, len(ids)-1)]](g)
						if !cse.Fits() || len(cse.Wire) > 800 {
							continue
						}
					} else {
						cse = smallCase(g)
					}
					h := c.header(cse.ID)
					switch g.Int("head", 0, 5) {
					case 0: // a number and a serial number seen before, or any
						h.Serial = uint16(g.Int("serial", 0, int(c.serial)))
					case 1:
						h.Serial, h.Phone = g.U16("serial"), uint64(g.Int("phone", 0, 1003))
					}
					if g.Int("pkt", 0, 5) == 5 && cse.ID != 0x0801 {
						h.Prop |= ref.BitPacket
						h.Sum, h.Seq = g.U16("sum"), g.U16("seq")
					}
					if len(past[i]) > 0 && g.Int("repeat", 0, 4) == 4 { // the same once more, or its header with another body
						o := past[i][len(past[i])-1]
						if g.Bool("earlier") {
							o = past[i][g.Uniform("which", len(past[i]))]
						}
						h = o.h
						if g.Int("body", 0, 3) > 0 || o.cse.ID == 0x0801 {
							cse = o.cse
						} else {
							cse = gen.Gens[o.cse.ID](g)
							if !cse.Fits() || len(cse.Wire) > 800 {
								continue
							}
						}
						shape += "r"
					}
					past[i] = append(past[i], again{h, cse})
					all = append(all, ref.Frame(h, cse.Wire)...)
					if k := registered[cse.ID]; k != 0 {
						want[i] = append(want[i], sent{k, gen.CanonRef(h) + " " + gen.Canon(cse.Want())})
						shape += "h"
						total++
					} else {
						shape += "n"
					}
				}
				data[i] = pieces(g, all)
				shape += "|"
			}
			var wg sync.WaitGroup
			for i, c := range cs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, p := range data[i] {
						c.write(p)
					}
				}()
			}
			wg.Wait()
			for _, c := range cs {
				c.fence(t)
			}
		}
		sessions := map[*go808.Session]int{}
		for i, c := range cs {
			s := c.fence(t)
			if j, ok := sessions[s]; ok {
				t.Fatalf("connections %d and %d share a session", j, i)
			}
			sessions[s] = i
		}
		got := make([][]call, conns)
		for _, cl := range log.all() {
			i, ok := sessions[cl.session]
			if !ok {
				t.Fatalf("handler was given a session of no connection: %s", cl.text)
			}
			if !cl.known {
				t.Fatalf("session of a handler's message could not be looked up")
			}
			got[i] = append(got[i], cl)
		}
		stat.Case(total > 1, stat.Hash(shape, fmt.Sprint(want)), func() string { return fmt.Sprintf("%d connections, %d handled messages: %s", conns, total, shape) }, fmt.Sprintf("conns-%d", conns))
		for i := range cs {
			for k := 0; k < len(want[i]) || k < len(got[i]); k++ {
				switch {
				case k >= len(got[i]):
					t.Fatalf("connection %d: message %d was not handled: %s", i, k, want[i][k].text)
				case k >= len(want[i]):
					t.Fatalf("connection %d: extra handler call: %s", i, got[i][k].text)
				case got[i][k].text != want[i][k].text:
					t.Fatalf("connection %d: call %d got\n %s\nwant\n %s", i, k, got[i][k].text, want[i][k].text)
				case got[i][k].handler != want[i][k].handler:
					t.Fatalf("connection %d: call %d went to handler %d, want %d", i, k, got[i][k].handler, want[i][k].handler)
				}
				if now := canonMsg(got[i][k].msg); now != got[i][k].text {
					t.Fatalf("connection %d: message %d changed after it was handled\n was %s\n now %s", i, k, got[i][k].text, now)
				}
			}
		}
	})
}

// C09: a connection that has carried very many messages carries on.
func TestC09_Long(t *testing.T) {
	check(t, 0.004, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{AutoMergePacket: g.Bool("merge")})
		defer w.stop()
		c := w.connect()
		first := uint16(g.U16("first"))
		n := g.Int("messages", 66000, 140000)
		step := g.Int("step", 0, 3) // how serial numbers go on
		var got int64
		bad := int64(-1)
		w.s.AddHandler(0x0002, func(s *go808.Session, m *protocol.Message) {
			if k := atomic.AddInt64(&got, 1) - 1; m.Header.MsgSerialNo != first+uint16(k)*uint16(step) {
				atomic.CompareAndSwapInt64(&bad, -1, k)
			}
		})
		var data []byte
		for i := 0; i < n; i++ {
			data = append(data, ref.Frame(ref.Header{ID: 0x0002, Phone: 1, Serial: first + uint16(i)*uint16(step)}, nil)...)
			if i%1000 == 999 {
				c.write(data)
				data = data[:0]
			}
		}
		c.write(data)
		if !eventually(func() bool { return atomic.LoadInt64(&got) >= int64(n) || c.ended() }) || int(atomic.LoadInt64(&got)) != n {
			t.Fatalf("%d of %d messages over one connection were handled (ended %v)", atomic.LoadInt64(&got), n, c.ended())
		}
		c.fence(t)
		if k := atomic.LoadInt64(&bad); k >= 0 {
			t.Fatalf("call %d of the handler was for another message", k)
		}
		if k := atomic.LoadInt64(&got); k != int64(n) {
			t.Fatalf("%d messages, %d handler calls", n, k)
		}
		stat.Case(true, stat.Hash(first, n, step), func() string { return fmt.Sprintf("%d messages over one connection", n) }, "long-connection")
	})
}

// C10: undecodable messages are answered, replies echo the request, and every
// platform message is addressed to the terminal.
func TestC10_Replies(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{AutoMergePacket: g.Bool("merge")})
		defer w.stop()
		type todo struct {
			result  byte
			what    int // 0 reply, 1 send, 2 both, 3 none
			returns uint16
			err     error
		}
		var mu sync.Mutex
		plan := map[fenceKey]*todo{}
		act := func(s *go808.Session, m *protocol.Message) {
			mu.Lock()
			p := plan[fenceKey{m.Header.IccID, m.Header.MsgSerialNo}]
			mu.Unlock()
			if p == nil {
				return
			}
			if p.what == 0 || p.what == 2 {
				p.returns, p.err = s.Reply(m, protocol.Result(p.result))
			}
			if p.what == 1 || p.what == 2 {
				s.Send(&protocol.T808_0x8900{Type: p.result, Data: []byte{byte(m.Header.MsgSerialNo)}})
			}
		}
		handled := []uint16{0x0002, 0x0100, 0x0200, 0x0900, 0x0801, 0x0704}
		for _, id := range handled {
			w.s.AddHandler(protocol.MsgID(id), act)
		}
		conns := g.Int("conns", 1, 3)
		desc := ""
		nontrivial := false
		type link struct {
			c    *client
			want []frame
			out  uint16
			last uint64
		}
		var links []*link
		for i := 0; i < conns; i++ {
			links = append(links, &link{c: w.connect()})
		}
		for round := g.Int("rounds", 1, 4); round > 0; round-- {
			data := make([][][]byte, conns)
			for i, l := range links {
				var all []byte
				expect := func(id uint16, body []byte) {
					l.out = l.out%255 + 1
					h := ref.Header{ID: id, Phone: l.last, Serial: l.out}
					l.want = append(l.want, frame{h: h, body: body, raw: ref.Frame(h, body)})
				}
				answers := 0
				for n := g.Int("msgs", 0, 8); n > 0 && answers < 9; n-- {
					// terminal numbers: disjoint between connections
					phone := uint64(i+1)*1000000 + uint64(g.Int("phone", 1, 3))
					switch g.Int("phone.k", 0, 5) {
					case 0:
						phone = 0
					case 1:
						phone = uint64(i+1)*100000000000 + uint64(g.Int("phone", 0, 9))
					}
					l.c.phone = phone
					if g.Int("kind", 0, 2) == 0 {
						id, b := undecodable(g)
						h := l.c.header(id)
						if g.Int("pkt", 0, 4) == 4 {
							h.Prop |= ref.BitPacket
							h.Sum, h.Seq = g.U16("sum"), g.U16("seq")
						}
						if phone != 0 {
							l.last = phone
						}
						for k := max(1, g.Int("times", -3, 3)); k > 0; k-- { // every time it comes
							all = append(all, b(h)...)
							expect(0x8001, replyBody(h.Serial, id, 3))
							answers++
						}
						nontrivial = true
						desc += fmt.Sprintf("u%d ", phone)
						continue
					}
					id := handled[g.Int("hid", 0, len(handled)-1)]
					cse := gen.Gens[id](g)
					if !cse.Fits() {
						continue
					}
					h := l.c.header(id)
					h.Serial = g.U16("serial") // any serial number is echoed
					p := &todo{result: byte(g.Int("result", 0, 4)), what: g.Int("what", 0, 3)}
					if g.Int("odd", 0, 5) == 5 {
						p.result = g.U8("result")
					}
					k := fenceKey{phone, h.Serial}
					mu.Lock()
					if plan[k] != nil || phone == 0 && conns > 1 {
						p = nil
					} else {
						plan[k] = p
					}
					mu.Unlock()
					if p == nil {
						continue
					}
					if phone != 0 {
						l.last = phone
					}
					all = append(all, ref.Frame(h, cse.Wire)...)
					if p.what == 0 || p.what == 2 {
						expect(0x8001, replyBody(h.Serial, id, p.result))
						answers++
					}
					if p.what == 1 || p.what == 2 {
						expect(0x8900, []byte{p.result, byte(h.Serial)})
						answers++
					}
					desc += fmt.Sprintf("r%d/%d ", phone, p.what)
				}
				data[i] = pieces(g, all)
				desc += "| "
			}
			var wg sync.WaitGroup
			for i, l := range links {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, p := range data[i] {
						l.c.write(p)
					}
				}()
			}
			wg.Wait()
			for i, l := range links {
				l.c.waitFrames(len(l.want))
				// one more fence, so that surplus answers are noticed
				l.c.phone = uint64(i+1)*1000000 + 7
				l.last = l.c.phone
				l.c.fence(t)
			}
		}
		stat.Case(nontrivial, stat.Hash(desc), func() string { return fmt.Sprintf("%d connections: %s", conns, desc) }, "replies")
		for i, l := range links {
			got := l.c.frames()
			for k := 0; k < len(got) || k < len(l.want); k++ {
				switch {
				case k >= len(got):
					t.Fatalf("connection %d: answer %d is missing: %v (ended %v)\n%s", i, k, l.want[k], l.c.ended(), desc)
				case k >= len(l.want):
					t.Fatalf("connection %d: surplus message %v\n%s", i, got[k], desc)
				case string(got[k].raw) != string(l.want[k].raw):
					t.Fatalf("connection %d: message %d is\n %v\nwant\n %v\n%s", i, k, got[k], l.want[k], desc)
				}
			}
		}
	})
}
