package srv

import (
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// endings are the ways in which a connection ends.
var endings = []string{"peer-close", "peer-reset", "half-close", "session-close", "double-close", "bad-frame", "flood", "all-at-once", "close-in-handler", "close-after-send"}

// end ends the connection of c, whose session is s.
func end(how string, c *client, s *go808.Session) {
	bad := ref.Frame(ref.Header{ID: 0x0002, Phone: 5, Serial: 1}, nil)
	bad[5] ^= 0x10
	switch how {
	case "peer-close":
		c.conn.Close()
	case "peer-reset":
		c.conn.(*net.TCPConn).SetLinger(0)
		c.conn.Close()
	case "half-close":
		c.conn.(*net.TCPConn).CloseWrite()
	case "session-close":
		s.Close()
	case "double-close":
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); s.Close() }()
		}
		wg.Wait()
		s.Close()
	case "bad-frame":
		c.write(bad)
	case "flood":
		junk := make([]byte, 70000)
		for i := range junk {
			junk[i] = 0x11
		}
		junk[0] = 0x7e
		c.write(junk)
	case "all-at-once":
		go s.Close()
		c.write(bad)
		c.conn.Close()
	case "close-in-handler":
		c.send(0x0102, []byte("close"))
	case "close-after-send":
		s.Send(&protocol.T808_0x8900{Type: 9})
		s.Close()
	}
}

// C13: registered sessions and close reports.
func TestC13_Sessions(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		var problem atomic.Value
		complain := func(f string, a ...interface{}) { problem.CompareAndSwap(nil, fmt.Sprintf(f, a...)) }
		var w *world
		panicky := g.Int("panicky", 0, 3)
		closesSeen := int32(0)
		var server atomic.Value
		w = serve(t, go808.Options{CloseHandler: func(s *go808.Session) {
			if srv, ok := server.Load().(*go808.Server); ok {
				if _, ok := srv.GetSession(s.ID()); ok {
					complain("session %d can still be looked up when its close handler runs", s.ID())
				}
			}
			if n := int(atomic.AddInt32(&closesSeen, 1)); panicky > 0 && n%panicky == 0 {
				panic("close handler gives up")
			}
		}})
		defer w.stop()
		server.Store(w.s)
		w.s.AddHandler(0x0102, func(s *go808.Session, m *protocol.Message) { s.Close() })

		type live struct {
			c    *client
			s    *go808.Session
			want int // frames
		}
		var lives []*live
		var gone []*live
		phones := uint64(0)
		lowest, highest := ^uint64(0), uint64(0)
		desc := ""
		expectCloses := 0
		bcast := uint16(0)
		connect := func() {
			phones++
			c := w.connect()
			c.phone = phones
			l := &live{c: c, s: c.fence(t)}
			if got, ok := w.s.GetSession(l.s.ID()); !ok || got != l.s {
				t.Fatalf("session %d cannot be looked up (%v)\n%s", l.s.ID(), ok, desc)
			}
			for _, o := range append(append([]*live{}, lives...), gone...) {
				if o.s.ID() == l.s.ID() {
					t.Fatalf("two connections share session ID %d", l.s.ID())
				}
			}
			lowest, highest = min(lowest, l.s.ID()), max(highest, l.s.ID())
			lives = append(lives, l)
		}
		settle := func() {
			if !eventually(func() bool { return w.totalCloses() >= expectCloses }) {
				t.Fatalf("%d connections ended, the close handler ran %d times\n%s", expectCloses, w.totalCloses(), desc)
			}
			for _, l := range gone {
				if n := w.closes(l.s); n != 1 {
					t.Fatalf("close handler ran %d times for session %d\n%s", n, l.s.ID(), desc)
				}
				if _, ok := w.s.GetSession(l.s.ID()); ok {
					t.Fatalf("closed session %d can still be looked up\n%s", l.s.ID(), desc)
				}
			}
			for _, l := range lives {
				if n := w.closes(l.s); n != 0 {
					t.Fatalf("close handler ran for live session %d\n%s", l.s.ID(), desc)
				}
				if got, ok := w.s.GetSession(l.s.ID()); !ok || got != l.s {
					t.Fatalf("live session %d cannot be looked up\n%s", l.s.ID(), desc)
				}
			}
			if p := problem.Load(); p != nil {
				t.Fatalf("%s\n%s", p, desc)
			}
		}
		broadcast := func(n int) {
			settle()
			for ; n > 0; n-- {
				bcast++
				count := w.s.Broadcast(&protocol.T808_0x8203{MsgSerialNo: bcast, Type: 3})
				if count != len(lives) {
					t.Fatalf("broadcast to %d live sessions reports %d\n%s", len(lives), count, desc)
				}
				for _, l := range lives {
					l.want++
				}
			}
			for i, l := range lives {
				if !l.c.waitFrames(l.want) {
					t.Fatalf("client %d received %d of %d broadcasts (ended %v)\n%s", i, l.c.count(), l.want, l.c.ended(), desc)
				}
				l.c.fence(t)
				fs := l.c.frames()
				last := fs[len(fs)-1]
				if len(fs) != l.want || last.h.ID != 0x8203 || last.body[0] != byte(bcast>>8) || last.body[1] != byte(bcast) {
					t.Fatalf("client %d has %d frames, want %d, last %v\n%s", i, len(fs), l.want, last, desc)
				}
			}
		}
		connect()
		ends := 0
		for n := g.Int("ops", 1, 10); n > 0; n-- {
			switch g.Int("op", 0, 7) {
			case 0, 1:
				desc += "connect; "
				connect()
			case 2, 3:
				k := g.Int("count", 1, 4)
				desc += fmt.Sprintf("%d broadcasts; ", k)
				broadcast(k)
			case 4, 5: // one or more connections end together
				if len(lives) < 2 {
					break
				}
				k := g.Int("many", 1, len(lives)-1)
				for ; k > 0; k-- {
					i := g.Uniform("who", len(lives))
					l := lives[i]
					how := endings[g.Uniform("how", len(endings))]
					desc += how + "; "
					lives = append(lives[:i:i], lives[i+1:]...)
					gone = append(gone, l)
					expectCloses++
					ends++
					end(how, l.c, l.s)
				}
				settle()
			case 6: // connections that end at once
				k := g.Int("brief", 1, 8)
				how := g.Int("brief.how", 0, 2)
				desc += fmt.Sprintf("%d brief connections (%d); ", k, how)
				var wg sync.WaitGroup
				for i := 0; i < k; i++ {
					c := w.dial()
					wg.Add(1)
					go func() {
						defer wg.Done()
						if how == 1 {
							c.conn.(*net.TCPConn).SetLinger(0)
						} else if how == 2 {
							c.write(ref.Frame(ref.Header{ID: 0x0002, Phone: 1, Serial: 1}, nil))
						}
						c.conn.Close()
					}()
				}
				wg.Wait()
				expectCloses += k
				ends += k
				highest += uint64(k)
				settle()
			case 7: // broadcasts while others come and go
				settle()
				k := g.Int("churn", 1, 4)
				desc += fmt.Sprintf("churn of %d during broadcasts; ", k)
				var stop int32
				var made int32
				var wg sync.WaitGroup
				for i := 0; i < k; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for j := 0; j < 6 && atomic.LoadInt32(&stop) == 0; j++ {
							conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.port), 10*time.Second)
							if err != nil {
								complain("server does not accept connections: %v", err)
								return
							}
							atomic.AddInt32(&made, 1)
							conn.Write(ref.Frame(ref.Header{ID: 0x0002, Phone: 1, Serial: 1}, nil))
							time.Sleep(time.Duration(i*j) * 50 * time.Microsecond)
							conn.Close()
						}
					}()
				}
				var counts []int
				for j := 0; j < 8; j++ {
					bcast++
					counts = append(counts, w.s.Broadcast(&protocol.T808_0x8203{MsgSerialNo: bcast, Type: 3}))
					for _, l := range lives {
						l.want++
					}
				}
				atomic.StoreInt32(&stop, 1)
				wg.Wait()
				expectCloses += int(made)
				ends += int(made)
				highest += uint64(made)
				for _, c := range counts {
					if c < len(lives) || c > len(lives)+k+int(made) {
						t.Fatalf("broadcast reached %d sessions, %d stay live\n%s", c, len(lives), desc)
					}
				}
				broadcast(1)
			}
		}
		broadcast(1)
		// the server stops, possibly while terminals connect
		var wg sync.WaitGroup
		var dials int32
		k := g.Int("dialers", 0, 3)
		started := make(chan struct{}, 8)
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 40; j++ {
					conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.port), 10*time.Second)
					if err != nil {
						select {
						case started <- struct{}{}:
						default:
						}
						return
					}
					atomic.AddInt32(&dials, 1)
					if j == 0 {
						select {
						case started <- struct{}{}:
						default:
						}
					}
					defer conn.Close()
					if i%2 == 0 {
						conn.Write(ref.Frame(ref.Header{ID: 0x0002, Phone: 1, Serial: 1}, nil))
					}
				}
			}()
		}
		if k > 0 {
			<-started
		}
		delay := g.Int("delay", 0, 500)
		time.Sleep(time.Duration(delay) * time.Microsecond)
		desc += fmt.Sprintf("stop with %d live and %d dialing", len(lives), k)
		stopped := make(chan struct{})
		go func() { w.s.Stop(); close(stopped) }()
		if !eventually(func() bool {
			select {
			case <-stopped:
				return true
			default:
				return false
			}
		}) {
			t.Fatalf("Stop does not return\n%s", desc)
		}
		// by then all that were connected before are gone
		for i, l := range lives {
			if n := w.closes(l.s); n != 1 {
				t.Fatalf("client %d: the close handler had run %d times when Stop returned\n%s", i, n, desc)
			}
			if _, ok := w.s.GetSession(l.s.ID()); ok {
				t.Fatalf("client %d: still registered when Stop returned\n%s", i, desc)
			}
		}
		wg.Wait()
		for i, l := range lives {
			if !eventually(func() bool { return l.c.ended() }) {
				t.Fatalf("client %d still connected after the server stopped\n%s", i, desc)
			}
		}
		if !eventually(func() bool {
			for id := lowest; id <= highest+uint64(dials)+60; id++ {
				if _, ok := w.s.GetSession(id); ok {
					return false
				}
			}
			return true
		}) {
			t.Fatalf("a session is still registered after the server stopped\n%s", desc)
		}
		if n := w.s.Broadcast(&protocol.T808_0x8900{}); n != 0 {
			t.Fatalf("broadcast after stop reports %d\n%s", n, desc)
		}
		if k == 0 {
			expectCloses += len(lives)
			if n := w.totalCloses(); n != expectCloses {
				t.Fatalf("%d connections ended, the close handler ran %d times\n%s", expectCloses, n, desc)
			}
		}
		w.mu.Lock()
		for s, n := range w.closed {
			if n != 1 {
				w.mu.Unlock()
				t.Fatalf("close handler ran %d times for session %d\n%s", n, s.ID(), desc)
			}
		}
		w.mu.Unlock()
		if p := problem.Load(); p != nil {
			t.Fatalf("%s\n%s", p, desc)
		}
		stat.Case(ends > 0, stat.Hash(desc, panicky), func() string { return desc }, "stop-dialers-"+fmt.Sprint(k), "ends-"+fmt.Sprint(min(ends, 5)))
		for _, how := range endings {
			if n := strings.Count(desc, how+";"); n > 0 {
				stat.Label("end-"+how, int64(n))
			}
		}
	})
}

// C13: a broadcast reaches all of very many sessions.
func TestC13_Many(t *testing.T) {
	check(t, 0.02, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{})
		defer w.stop()
		n := g.Int("sessions", 2, 300)
		var cs []*client
		ids := map[uint64]int{}
		for i := 0; i < n; i++ {
			c := w.connect()
			c.phone = uint64(i + 1)
			cs = append(cs, c)
		}
		var ss []*go808.Session
		for i, c := range cs {
			s := c.fence(t)
			ss = append(ss, s)
			if k, dup := ids[s.ID()]; dup {
				t.Fatalf("connections %d and %d share session ID %d", k, i, s.ID())
			}
			ids[s.ID()] = i
		}
		gone := g.Int("gone", 0, n-1)
		for i := 0; i < gone; i++ {
			cs[i].conn.Close()
		}
		if !eventually(func() bool { return w.totalCloses() >= gone }) {
			t.Fatalf("%d of %d connections ended, the close handler ran %d times", gone, n, w.totalCloses())
		}
		for i, s := range ss {
			if got, ok := w.s.GetSession(s.ID()); ok != (i >= gone) || ok && got != s {
				t.Fatalf("session %d of %d, %d of which ended: lookup says %v", i, n, gone, ok)
			}
		}
		if count := w.s.Broadcast(&protocol.T808_0x8203{MsgSerialNo: 5, Type: 3}); count != n-gone {
			t.Fatalf("broadcast to %d live sessions reports %d", n-gone, count)
		}
		for i, c := range cs[gone:] {
			if !c.waitFrames(1) || c.frames()[0].h.ID != 0x8203 {
				t.Fatalf("client %d of %d did not receive the broadcast", gone+i, n)
			}
		}
		w.s.Stop()
		for i, s := range ss {
			if k := w.closes(s); k != 1 {
				t.Fatalf("session %d of %d: the close handler had run %d times when Stop returned", i, n, k)
			}
		}
		stat.Case(n > 64, stat.Hash(n, gone), func() string { return fmt.Sprintf("%d sessions, %d ended before the broadcast", n, gone) }, "many")
	})
}

// C13: a broadcast does not count a terminal that it cannot reach (one that does
// not read and whose queue is full), and still reaches all others.
func TestC13_Blocked(t *testing.T) {
	check(t, 0.006, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{})
		defer w.stop()
		var good []*client
		for n := g.Int("good", 0, 3); n > 0; n-- {
			c := w.connect()
			c.phone = uint64(10 + n)
			c.fence(t)
			good = append(good, c)
		}
		deaf := w.dial()
		deaf.conn.(*net.TCPConn).SetReadBuffer(2048)
		s := deaf.fence(t)
		payload := g.Bytes("payload", g.Int("size", 700, 1000))
		n := 0
		for ; ; n++ {
			if n > 30000 {
				t.Fatalf("a terminal that never reads takes %d messages", n)
			}
			r := w.s.Broadcast(&probe{id: 0x8900, data: payload})
			if r == len(good) {
				break
			}
			if r != len(good)+1 {
				t.Fatalf("broadcast %d to %d sessions reports %d", n, len(good)+1, r)
			}
			for t0 := time.Now(); time.Since(t0) < 60*time.Microsecond; {
				runtime.Gosched()
			}
			if _, ok := w.s.GetSession(s.ID()); !ok {
				t.Fatalf("broadcast %d counts a session whose connection it ended", n)
			}
			if n%4 == 3 {
				for i, c := range good {
					if !c.waitFrames(n + 1) {
						t.Fatalf("good terminal %d received %d of %d broadcasts", i, c.count(), n+1)
					}
				}
			}
		}
		for i, c := range good {
			if !c.waitFrames(n + 1) {
				t.Fatalf("good terminal %d received %d of %d broadcasts", i, c.count(), n+1)
			}
			c.fence(t)
			if c.count() != n+1 {
				t.Fatalf("good terminal %d received %d frames for %d broadcasts", i, c.count(), n+1)
			}
		}
		if !eventually(func() bool { return w.closes(s) == 1 }) {
			t.Fatalf("the close handler ran %d times for the blocked session", w.closes(s))
		}
		if _, ok := w.s.GetSession(s.ID()); ok {
			t.Fatalf("the blocked session is still registered after its close handler ran")
		}
		if r := w.s.Broadcast(&probe{id: 0x8900, data: payload}); r != len(good) {
			t.Fatalf("broadcast to %d sessions reports %d", len(good), r)
		}
		stat.Case(true, stat.Hash(len(good), len(payload)), func() string {
			return fmt.Sprintf("%d good terminals, one blocked after %d broadcasts of %d bytes", len(good), n, len(payload))
		}, "blocked")
	})
}
