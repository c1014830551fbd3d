package srv

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// probe is a platform message of any type. slow, if set, runs on every MsgID
// call but the first, so that an answer can overtake the requesting call.
type probe struct {
	id    uint16
	data  []byte
	calls int32
	slow  func()
}

func (p *probe) MsgID() protocol.MsgID {
	if p.slow != nil && atomic.AddInt32(&p.calls, 1) > 1 {
		p.slow()
	}
	return protocol.MsgID(p.id)
}
func (p *probe) Encode() ([]byte, error)      { return append([]byte(nil), p.data...), nil }
func (p *probe) Decode(b []byte) (int, error) { return len(b), nil }

var answerIDs = []uint16{0x0001, 0x0104, 0x0201, 0x0302, 0x0500, 0x0700, 0x0802, 0x0805}

// answerCase draws an answer to serial.
func answerCase(g *gen.G, serial uint16) (id uint16, wire []byte, body protocol.Entity) {
	for {
		id = answerIDs[g.Uniform("answer", len(answerIDs))]
		c := gen.Gens[id](g)
		if !c.Fits() || len(c.Wire) > 500 {
			continue
		}
		wire = append([]byte(nil), c.Wire...)
		wire[0], wire[1] = byte(serial>>8), byte(serial)
		body = c.Want()
		reflect.ValueOf(body).Elem().FieldByName("ReplyMsgSerialNo").SetUint(uint64(serial))
		return
	}
}

// request model of one session
type pendingReq struct {
	typ    uint16
	serial uint16
	cb     *callback
}

type callback struct {
	id     int
	action int // 0 nothing, 1 panic, 2 request of another type, 3 request of the same type, 4 send
	nested *callback
	typ    uint16
}

func (c *callback) String() string { return fmt.Sprintf("callback %d (action %d)", c.id, c.action) }

type reqSession struct {
	no      int
	c       *client
	s       *go808.Session
	next    uint16
	sent    int // frames the client must have got
	pending []pendingReq
	history []uint16 // serial numbers that had a request
	want    []string
	mu      sync.Mutex
	got     []string
	wantH   []string
	gotH    []string
	problem string
}

func (r *reqSession) take(serial uint16) *pendingReq {
	for i, p := range r.pending {
		if p.serial == serial {
			r.pending = append(r.pending[:i:i], r.pending[i+1:]...)
			return &p
		}
	}
	return nil
}

func (r *reqSession) modelSend() uint16 {
	r.next = r.next%255 + 1
	r.sent++
	r.take(r.next)
	return r.next
}

func (r *reqSession) modelRequest(cb *callback) uint16 {
	n := r.modelSend()
	for i, p := range r.pending {
		if p.typ == cb.typ {
			r.pending = append(r.pending[:i:i], r.pending[i+1:]...)
			break
		}
	}
	r.pending = append(r.pending, pendingReq{cb.typ, n, cb})
	r.history = append(r.history, n)
	return n
}

func (r *reqSession) modelAnswer(serial uint16, text string) bool {
	if serial == 0 {
		return false
	}
	p := r.take(serial)
	if p == nil {
		return false
	}
	r.want = append(r.want, fmt.Sprintf("%d: %s", p.cb.id, text))
	switch p.cb.action {
	case 2, 3:
		r.modelRequest(p.cb.nested)
	case 4:
		r.modelSend()
	}
	return true
}

func (r *reqSession) complain(f string, a ...interface{}) {
	r.mu.Lock()
	if r.problem == "" {
		r.problem = fmt.Sprintf(f, a...)
	}
	r.mu.Unlock()
}

// request issues a real request.
func (r *reqSession) request(cb *callback, slow func()) (uint16, error) {
	return r.s.Request(&probe{id: cb.typ, data: []byte{byte(cb.id)}, slow: slow}, func(m *protocol.Message) {
		r.mu.Lock()
		r.got = append(r.got, fmt.Sprintf("%d: %s", cb.id, canonMsg(m)))
		r.mu.Unlock()
		switch cb.action {
		case 1:
			panic("callback gives up")
		case 2, 3:
			if _, err := r.request(cb.nested, nil); err != nil {
				r.complain("request from a callback: %v", err)
			}
		case 4:
			if _, err := r.s.Send(&probe{id: 0x8999}); err != nil {
				r.complain("send from a callback: %v", err)
			}
		}
	})
}

// C12: callbacks against a model of the pending requests.
func TestC12_Requests(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{AutoMergePacket: g.Bool("merge")})
		defer w.stop()
		var all []*reqSession
		for i := g.Int("sessions", 1, 2); i > 0; i-- {
			r := &reqSession{no: len(all), c: w.connect()}
			r.c.phone = uint64(70 + len(all))
			r.s = r.c.fence(t)
			all = append(all, r)
		}
		for _, id := range answerIDs {
			w.s.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
				for _, r := range all {
					if r.s == s {
						r.mu.Lock()
						r.gotH = append(r.gotH, canonMsg(m))
						r.mu.Unlock()
					}
				}
			})
		}
		// few types, so that requests supersede each other
		types := []uint16{0x8104, 0x8201, 0x8302, 0x8500, 0x8801, 0xf001}[:g.Int("types", 1, 6)]
		pickType := func() uint16 { return types[g.Uniform("type", len(types))] }
		ids := 0
		var newCB func(depth int) *callback
		newCB = func(depth int) *callback {
			ids++
			cb := &callback{id: ids, typ: pickType()}
			if depth < 2 {
				cb.action = g.Int("action", 0, 4)
				switch cb.action {
				case 2, 3:
					cb.nested = newCB(depth + 1)
					if cb.action == 3 {
						cb.nested.typ = cb.typ
					}
				}
			}
			return cb
		}
		desc := ""
		ran, refused := 0, 0
		drain := func(r *reqSession) {
			if !r.c.waitFrames(r.sent) {
				t.Fatalf("session %d: %d of %d platform messages arrived (ended %v)\n%s", r.no, r.c.count(), r.sent, r.c.ended(), desc)
			}
		}
		for n := g.Int("ops", 1, 14); n > 0; n-- {
			r := all[g.Uniform("session", len(all))]
			switch k := g.Int("op", 0, 9); {
			case k <= 3: // request
				cb := newCB(0)
				early := g.Int("early", 0, 5) == 5
				drain(r)
				var slow func()
				answered := make(chan struct{})
				want := r.modelRequest(cb)
				desc += fmt.Sprintf("s%d request %04x -> %d %v; ", r.no, cb.typ, want, cb)
				if early { // the terminal answers at once, and the caller is slow
					id, wire, body := answerCase(g, want)
					h := r.c.header(id)
					f := ref.Frame(h, wire)
					text := gen.CanonRef(h) + " " + gen.Canon(body)
					r.modelAnswer(want, text)
					r.wantH = append(r.wantH, text)
					have := r.c.count()
					r.c.mu.Lock()
					done := false
					r.c.onRecv = func(fr frame) {
						if !done && fr.h.ID == cb.typ {
							done = true
							r.c.write(f)
							close(answered)
						}
					}
					r.c.mu.Unlock()
					slow = func() {
						for i := 0; i < 30; i++ {
							time.Sleep(200 * time.Microsecond)
							if r.c.count() > have {
								time.Sleep(5 * time.Millisecond) // let the answer be handled
								return
							}
						}
					}
					desc += "answered at once; "
				}
				got, err := r.request(cb, slow)
				if err != nil {
					t.Fatalf("request failed: %v\n%s", err, desc)
				}
				if got != want {
					t.Fatalf("request was given serial %d, want %d\n%s", got, want, desc)
				}
				if early {
					ran++
					drain(r)
					<-answered // the frame counts as received a moment before it is answered
					r.c.mu.Lock()
					r.c.onRecv = nil
					r.c.mu.Unlock()
					r.c.fence(t)
				}
			case k == 4: // other messages use up serial numbers
				count := g.Int("burn", 1, 3)
				if g.Int("burn.k", 0, 2) == 2 {
					count = g.Int("burn.n", 240, 262)
				}
				desc += fmt.Sprintf("s%d sends %d; ", r.no, count)
				for ; count > 0; count-- {
					want := r.modelSend()
					got, err := r.s.Send(&probe{id: 0x8998})
					if err != nil || got != want {
						t.Fatalf("send gave %d, %v; want %d\n%s", got, err, want, desc)
					}
					if r.sent%8 == 0 {
						drain(r)
					}
				}
				drain(r)
			case k == 5 && g.Int("flood", 0, 5) == 5: // requests of many types
				count := g.Int("flood.n", 1, 140)
				desc += fmt.Sprintf("s%d requests of %d types; ", r.no, count)
				for i := 0; i < count; i++ {
					ids++
					cb := &callback{id: ids, typ: uint16(0x9100 + i)}
					want := r.modelRequest(cb)
					got, err := r.request(cb, nil)
					if err != nil || got != want {
						t.Fatalf("request was given serial %d, %v; want %d\n%s", got, err, want, desc)
					}
					if r.sent%8 == 0 {
						drain(r)
					}
				}
				drain(r)
			default: // a batch of answers
				drain(r)
				if g.Int("gateway", 0, 9) == 9 { // in between, the connection carries another terminal
					desc += fmt.Sprintf("s%d another terminal; ", r.no)
					was := r.c.phone
					r.c.phone = 170 + uint64(r.no)
					r.c.fence(t)
					r.c.phone = was
				}
				var data []byte
				answers := g.Int("answers", 1, 4)
				if len(r.pending) > 10 && g.Int("answers.many", 0, 2) == 2 {
					answers = g.Int("answers", 5, 60)
				}
				for m := answers; m > 0; m-- {
					serial := uint16(0)
					pick := func(p []pendingReq) {
						if len(p) > 0 {
							serial = p[g.Uniform("pending", len(p))].serial
						}
					}
					switch g.Int("which", 0, 9) {
					case 0, 1, 2, 3:
						pick(r.pending)
					case 4, 5:
						if len(r.history) > 0 {
							serial = r.history[g.Uniform("past", len(r.history))]
						}
					case 6:
						pick(all[g.Uniform("other", len(all))].pending)
					case 7:
						pick(r.pending)
						serial += uint16(256 * g.Int("high", 1, 255))
					case 8:
						serial = g.U16("any")
					default:
						serial = r.next + 1
					}
					id, wire, body := answerCase(g, serial)
					h := r.c.header(id)
					if g.Int("pkt", 0, 5) == 5 {
						h.Prop |= ref.BitPacket
						h.Sum, h.Seq = g.U16("sum"), g.U16("seq")
					}
					data = append(data, ref.Frame(h, wire)...)
					text := gen.CanonRef(h) + " " + gen.Canon(body)
					r.wantH = append(r.wantH, text)
					desc += fmt.Sprintf("s%d answers %d with %04x; ", r.no, serial, id)
					if r.modelAnswer(serial, text) {
						ran++
					} else {
						refused++
					}
				}
				for _, p := range pieces(g, data) {
					r.c.write(p)
				}
				r.c.fence(t)
				drain(r)
			}
		}
		for _, r := range all {
			r.c.fence(t)
			drain(r)
			eventually(func() bool {
				r.mu.Lock()
				defer r.mu.Unlock()
				return len(r.got) >= len(r.want)
			})
			r.mu.Lock()
			got, gotH, problem := append([]string(nil), r.got...), r.gotH, r.problem
			r.mu.Unlock()
			if problem != "" {
				t.Fatalf("%s\n%s", problem, desc)
			}
			sort.Strings(got)
			sort.Strings(r.want)
			if a, b := strings.Join(got, "\n "), strings.Join(r.want, "\n "); a != b {
				t.Fatalf("session %d: callbacks ran\n %s\nwant\n %s\n%s", r.no, a, b, desc)
			}
			if a, b := strings.Join(gotH, "\n "), strings.Join(r.wantH, "\n "); a != b {
				t.Fatalf("session %d: answers dispatched to their handlers\n %s\nwant\n %s\n%s", r.no, a, b, desc)
			}
		}
		stat.Case(ran > 0, stat.Hash(desc), func() string { return desc }, fmt.Sprintf("ran-%d", min(ran, 3)), fmt.Sprintf("refused-%d", min(refused, 3)))
	})
}

// C12: concurrent requests, each answered at once by the terminal.
func TestC12_Concurrent(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{})
		defer w.stop()
		sessions := g.Int("sessions", 1, 3)
		workers := g.Int("workers", 1, 7)
		rounds := g.Int("rounds", 1, 80)
		twice := g.Bool("twice") // the terminal repeats every answer
		var stuck, surplus, wrong int32
		var wg sync.WaitGroup
		for i := 0; i < sessions; i++ {
			c := w.connect()
			c.phone = uint64(10 + i)
			s := c.fence(t)
			c.mu.Lock()
			c.onRecv = func(f frame) {
				// the general response says which message it answers
				h := ref.Header{ID: 0x0001, Phone: c.phone, Serial: 7}
				b := ref.Frame(h, replyBody(f.h.Serial, f.h.ID, f.body[0]))
				if twice {
					b = append(b, b...)
				}
				c.write(b)
			}
			c.mu.Unlock()
			for k := 0; k < workers; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := 0; n < rounds; n++ {
						var calls int32
						mark := byte(k*31 + n)
						id := uint16(0x9000 + k)
						_, err := s.Request(&probe{id: id, data: []byte{mark}}, func(m *protocol.Message) {
							a, ok := m.Body.(*protocol.T808_0x0001)
							if !ok || uint16(a.ReplyMsgID) != id || byte(a.Result) != mark {
								atomic.StoreInt32(&wrong, 1)
							}
							if atomic.AddInt32(&calls, 1) > 1 {
								atomic.StoreInt32(&surplus, 1)
							}
						})
						if err != nil || !eventually(func() bool { return atomic.LoadInt32(&calls) > 0 || atomic.LoadInt32(&stuck) != 0 }) {
							atomic.StoreInt32(&stuck, 1)
							return
						}
					}
				}()
			}
		}
		wg.Wait()
		stat.Case(workers > 1 || sessions > 1, stat.Hash(sessions, workers, rounds, twice), func() string {
			return fmt.Sprintf("%d sessions x %d workers x %d requests, answers repeated %v", sessions, workers, rounds, twice)
		}, "concurrent")
		stat.Label("concurrent-requests", int64(sessions*workers*rounds))
		switch {
		case wrong != 0:
			t.Fatalf("a callback was given the answer of another request")
		case surplus != 0:
			t.Fatalf("a callback ran twice")
		case stuck != 0:
			t.Fatalf("an answered request's callback did not run")
		}
	})
}

// C12: a request that was refused has no callback any more, whatever comes.
func TestC12_Refused(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{})
		defer w.stop()
		c := w.connect()
		before := g.Int("before", 0, 3)
		reqs := g.Int("requests", 1, 3)
		var calls, refused int32
		done := make(chan struct{}, 9)
		w.s.AddHandler(0x0002, func(s *go808.Session, m *protocol.Message) {
			for i := 0; i < before; i++ {
				s.Send(&protocol.T808_0x8104{})
			}
			s.Close()
			for i := 0; i < reqs; i++ {
				if _, err := s.Request(&probe{id: uint16(0x9000 + i)}, func(*protocol.Message) { atomic.AddInt32(&calls, 1) }); err != nil {
					atomic.AddInt32(&refused, 1)
				}
			}
			done <- struct{}{}
		})
		// all in one packet: what makes the platform hang up, and answers to what it
		// asks then
		b := ref.Frame(c.header(0x0002), nil)
		for i := 0; i < 6; i++ {
			b = append(b, ref.Frame(c.header(0x0001), replyBody(uint16(1+i), 0x9000, 0))...)
		}
		c.write(b[:min(len(b), 128)])
		if !eventually(func() bool { return len(done) == 1 }) {
			t.Fatalf("the handler was not called")
		}
		for i := 0; i < 30; i++ {
			runtime.Gosched()
		}
		time.Sleep(200 * time.Microsecond)
		n, k := atomic.LoadInt32(&calls), atomic.LoadInt32(&refused)
		stat.Case(k > 0, stat.Hash(before, reqs), func() string { return fmt.Sprintf("%d sent, then closed and %d requests", before, reqs) }, "refused")
		if int(k) == reqs && n > 0 {
			t.Fatalf("%d requests were refused, their callbacks ran %d times", k, n)
		}
	})
}
