package srv

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/keys"
	"verifharness/ref"
	"verifharness/stat"
)

// C21: every part of the server used from many goroutines at once. The oracle
// is the race detector (this test is built with it), together with what must
// hold at the end whatever happened. The goroutines deliberately share nothing
// but the server, so that nothing else orders their accesses.
func TestC21_Concurrent(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		var closing sync.Map // session -> *int32
		w := serve(t, go808.Options{AutoMergePacket: g.Bool("merge"), CloseHandler: func(s *go808.Session) {
			n, _ := closing.LoadOrStore(s, new(int32))
			atomic.AddInt32(n.(*int32), 1)
			s.GetServer().GetSession(s.ID())
		}})
		stopped := false
		defer func() {
			if !stopped {
				w.stop()
			}
		}()
		mode := g.Int("mode", 0, 4)
		var later int32
		w.s.AddHandler(0x0200, func(s *go808.Session, m *protocol.Message) {
			s.Reply(m, 0)
			atomic.AddInt32(&later, 1)
			go func() { // the application goes on with the message by itself
				defer atomic.AddInt32(&later, -1)
				canonMsg(m)
			}()
		})
		w.s.AddHandler(0x0102, func(s *go808.Session, m *protocol.Message) {
			s.SetPublicKey(&keys.A().PublicKey)
			s.Send(&protocol.T808_0x8201{})
			s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {})
		})
		w.s.AddHandler(0x0900, func(s *go808.Session, m *protocol.Message) {
			b := m.Body.(*protocol.T808_0x0900)
			atomic.AddInt32(&later, 1)
			go func() {
				defer atomic.AddInt32(&later, -1)
				sum := 0
				for _, x := range b.Data {
					sum += int(x)
				}
				atomic.AddInt64(&sink, int64(sum))
			}()
		})

		var cs []*client
		var ss []*go808.Session
		for i := g.Int("terminals", 1, 4); i > 0; i-- {
			c := w.connect()
			c.phone = uint64(len(cs) + 1)
			cs, ss = append(cs, c), append(ss, c.fence(t))
		}

		// plans are drawn before anything runs concurrently
		type op struct{ kind, arg, pause int }
		plan := func(kinds int) []op {
			ops := make([]op, g.Int("ops", 1, 14))
			for i := range ops {
				ops[i] = op{g.Uniform("kind", kinds), g.Int("arg", 0, 250), g.Int("pause", 0, 3)}
			}
			return ops
		}
		actors := make([][]op, g.Int("actors", 2, 7))
		for i := range actors {
			actors[i] = plan(13)
		}
		talks := make([][]op, len(cs))
		for i := range talks {
			talks[i] = plan(9)
		}
		frames := map[uint16][]byte{}
		for _, id := range []uint16{0x0200, 0x0900, 0x0102} {
			for {
				if c := gen.Gens[id](g); c.Fits() {
					frames[id] = c.Wire
					break
				}
			}
		}

		// entities sent to several terminals at once
		type item struct {
			e      protocol.Entity
			before string
			wire   []byte
		}
		var items []item
		for n := g.Int("entities", 1, 4); n > 0; n-- {
			c := gen.Gens[down[g.Uniform("entity", len(down))]](g)
			if e := c.In(); c.Fits() && c.CheckWire == nil && !gen.Marks(e) {
				items = append(items, item{e, gen.Canon(e), c.Wire})
			}
		}
		items = append(items, item{&protocol.T808_0x8201{}, gen.Canon(&protocol.T808_0x8201{}), nil})

		var wg sync.WaitGroup
		var start, callbacks int32
		requests := int32(0)
		wait := func() {
			for atomic.LoadInt32(&start) == 0 {
				runtime.Gosched()
			}
		}
		pause := func(o op) {
			switch o.pause {
			case 1:
				runtime.Gosched()
			case 2:
				time.Sleep(time.Duration(o.arg) * time.Microsecond)
			}
		}
		for _, ops := range actors {
			wg.Add(1)
			go func() {
				defer wg.Done()
				wait()
				for i, o := range ops {
					s := ss[o.arg%len(ss)]
					switch o.kind {
					case 0, 1:
						s.Send(items[o.arg%len(items)].e)
					case 2:
						s.Reply(&protocol.Message{Header: protocol.Header{MsgID: 2, MsgSerialNo: uint16(i)}}, 0)
					case 3, 4:
						atomic.AddInt32(&requests, 1)
						var e protocol.Entity = &protocol.T808_0x8201{}
						if o.arg%2 == 0 {
							e = &protocol.T808_0x8104{}
						}
						var once int32
						s.Request(e, func(m *protocol.Message) {
							if atomic.AddInt32(&once, 1) > 1 {
								panic("VERIF: callback ran twice")
							}
							canonMsg(m)
							atomic.AddInt32(&callbacks, 1)
						})
					case 5, 6:
						w.s.Broadcast(items[o.arg%len(items)].e)
					case 7:
						w.s.GetSession(s.ID())
						s.GetServer()
					case 8:
						w.s.AddHandler(protocol.MsgID(0x0301), func(s *go808.Session, m *protocol.Message) { s.Reply(m, 0) })
					case 9:
						k := keys.A()
						if o.arg%2 == 0 {
							k = keys.B()
						}
						s.SetPublicKey(&k.PublicKey)
					case 10:
						s.GetPublicKey()
					case 11:
						if mode == 1 && o.arg%3 == 0 {
							s.Close()
						}
					case 12:
						w.s.GetPrivateKey()
					}
					pause(o)
				}
			}()
		}
		for i, ops := range talks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := cs[i]
				c.mu.Lock()
				c.onRecv = func(f frame) { // answer what is asked
					if f.h.ID == 0x8201 || f.h.ID == 0x8104 {
						h := ref.Header{ID: 0x0001, Phone: c.phone, Serial: f.h.Serial}
						c.write(ref.Frame(h, replyBody(f.h.Serial, f.h.ID, 0)))
					}
				}
				c.mu.Unlock()
				wait()
				for k, o := range ops {
					switch o.kind {
					case 0, 1:
						c.send(0x0200, frames[0x0200])
					case 2, 3:
						c.send(0x0900, frames[0x0900])
					case 4:
						c.send(0x0102, frames[0x0102])
					case 5:
						c.send(0x0301, []byte{7})
					case 6:
						c.send(0xf00d, nil)
					case 7:
						h := c.header(0x0801)
						h.Prop |= ref.BitPacket
						h.Sum, h.Seq = 2, uint16(k%2+1)
						c.write(ref.Frame(h, mediaPart(uint32(i), []byte("data"))))
					case 8:
						if mode == 2 && o.arg%3 == 0 {
							c.conn.Close()
						}
					}
					pause(o)
				}
			}()
		}
		atomic.StoreInt32(&start, 1)
		if mode == 3 { // stop in the midst of it
			runtime.Gosched()
			w.s.Stop()
			stopped = true
		}
		wg.Wait()
		if mode != 3 {
			// a terminal that comes now is served
			c := w.connect()
			c.phone = 99
			c.fence(t)
		}
		w.stop()
		stopped = true
		for i, s := range ss {
			ok := eventually(func() bool {
				n, _ := closing.Load(s)
				return n != nil && atomic.LoadInt32(n.(*int32)) == 1
			})
			if _, still := w.s.GetSession(s.ID()); !ok || still {
				n, _ := closing.Load(s)
				t.Fatalf("session %d after the stop: registered %v, close handler calls %v", i, still, n)
			}
		}
		if !eventually(func() bool { return atomic.LoadInt32(&later) == 0 }) {
			t.Fatalf("application goroutines still busy")
		}
		for _, it := range items {
			if now := gen.Canon(it.e); now != it.before {
				t.Fatalf("sending changed the message\n from %s\n to   %s", it.before, now)
			}
		}
		for i, c := range cs {
			if s := c.malformed(); s != "" {
				t.Fatalf("terminal %d got a malformed frame: %s", i, s)
			}
			for _, f := range c.frames() {
				ok := f.h.ID == 0x8001 || f.h.ID == 0x8201 || f.h.ID == 0x8104
				for _, it := range items {
					ok = ok || uint16(it.e.MsgID()) == f.h.ID && bytes.Equal(it.wire, f.body)
				}
				if !ok {
					t.Fatalf("terminal %d got %s, which nobody sent", i, f)
				}
			}
		}
		if cb, rq := atomic.LoadInt32(&callbacks), atomic.LoadInt32(&requests); cb > rq {
			t.Fatalf("%d callbacks for %d requests", cb, rq)
		}
		total := 0
		for _, a := range actors {
			total += len(a)
		}
		stat.Case(len(actors) > 1 && total > 4, stat.Hash(fmt.Sprint(actors, talks, mode)), func() string {
			return fmt.Sprintf("%d terminals %v, %d goroutines %v, mode %d", len(cs), talks, len(actors), actors, mode)
		}, fmt.Sprintf("mode-%d", mode))
	})
}

var sink int64

// down are the messages of the platform, but for those the test answers.
var down = func() (out []uint16) {
	for _, id := range gen.IDs {
		if id >= 0x8000 && id != 0x8001 && id != 0x8104 && id != 0x8201 {
			out = append(out, id)
		}
	}
	return
}()

// C21: Run and Stop from several goroutines. At any time one Run serves at
// most, and after stopping each has returned.
func TestC21_RunStop(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		s, err := go808.NewServer(go808.Options{})
		if err != nil {
			t.Fatalf("NewServer: %v", err)
		}
		type op struct{ kind, pause int }
		plans := make([][]op, g.Int("goroutines", 2, 4))
		for i := range plans {
			plans[i] = make([]op, g.Int("ops", 1, 4))
			for k := range plans[i] {
				plans[i][k] = op{g.Int("kind", 0, 3), g.Int("pause", 0, 40)}
			}
		}
		ports := make([]int, 3)
		for i := range ports {
			ports[i] = pickPort()
		}
		var wg, runs sync.WaitGroup
		var start, done, running int32
		for i, plan := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt32(&start) == 0 {
					runtime.Gosched()
				}
				for _, o := range plan {
					switch o.kind {
					case 0, 1:
						runs.Add(1)
						atomic.AddInt32(&running, 1)
						go func() {
							defer runs.Done()
							s.Run("tcp", ports[i%len(ports)])
							atomic.AddInt32(&running, -1)
						}()
					case 2:
						s.Stop()
					case 3:
						s.Broadcast(&protocol.T808_0x8201{})
					}
					time.Sleep(time.Duration(o.pause) * 20 * time.Microsecond)
				}
			}()
		}
		atomic.StoreInt32(&start, 1)
		wg.Wait()
		go func() {
			runs.Wait()
			atomic.StoreInt32(&done, 1)
		}()
		// all but one fail at once
		if !eventually(func() bool { return atomic.LoadInt32(&running) <= 1 }) {
			t.Fatalf("%d calls of Run serve at the same time: %v", atomic.LoadInt32(&running), plans)
		}
		if !eventually(func() bool { s.Stop(); return atomic.LoadInt32(&done) == 1 }) {
			t.Fatalf("Run does not return after Stop: %v", plans)
		}
		stat.Case(true, stat.Hash(fmt.Sprint(plans)), func() string { return fmt.Sprintf("run and stop %v", plans) }, "run-stop")
	})
}
