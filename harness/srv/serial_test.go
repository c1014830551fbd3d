package srv

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/stat"
)

// sendPlan is one platform message to be sent by some goroutine.
type sendPlan struct {
	kind int    // 0 send, 1 reply, 2 request, 3 send of another type
	key  string // content, unique on the session
	n    uint16
	got  uint16
	err  error
	done bool
}

func (p *sendPlan) run(s *go808.Session) {
	hi, lo := byte(p.n>>8), byte(p.n)
	switch p.kind {
	case 0:
		p.got, p.err = s.Send(&protocol.T808_0x8900{Type: 1, Data: []byte{hi, lo}})
	case 1:
		p.got, p.err = s.Reply(&protocol.Message{Header: protocol.Header{MsgID: 0x0200, MsgSerialNo: p.n}}, 0)
	case 2:
		p.got, p.err = s.Request(&protocol.T808_0x8900{Type: 2, Data: []byte{hi, lo}}, func(*protocol.Message) {})
	case 3:
		p.got, p.err = s.Send(&protocol.T808_0x8203{MsgSerialNo: p.n, Type: 7})
	}
	p.done = true
}

func (p *sendPlan) content() string {
	hi, lo := byte(p.n>>8), byte(p.n)
	switch p.kind {
	case 0:
		return contentKey(0x8900, []byte{1, hi, lo})
	case 1:
		return contentKey(0x8001, replyBody(p.n, 0x0200, 0))
	case 2:
		return contentKey(0x8900, []byte{2, hi, lo})
	}
	return contentKey(0x8203, []byte{hi, lo, 0, 0, 0, 7})
}

func contentKey(id uint16, body []byte) string { return fmt.Sprintf("%04x:%x", id, body) }

// C11: serial numbers of platform messages.
func TestC11_Serials(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{})
		defer w.stop()
		type link struct {
			c     *client
			s     *go808.Session
			next  int // messages sent so far
			seen  int // frames judged so far
			plans []*sendPlan
		}
		var links []*link
		for i := g.Int("sessions", 1, 3); i > 0; i-- {
			l := &link{c: w.connect()}
			l.c.phone = uint64(len(links) + 1)
			l.s = l.c.fence(t)
			links = append(links, l)
		}
		desc := ""
		counter := uint16(g.U16("base"))
		wraps, conc := 0, false
		// round sends totals[i] messages on session i from the given number of goroutines
		round := func(workers int, totals []int, burst, terminalToo bool) {
			// the work of every goroutine of every session
			var wg sync.WaitGroup
			var ready, stuck int32
			var errs atomic.Value
			goal := int32(workers * len(links))
			replies := make([]int, len(links))
			work := make([][][]*sendPlan, len(links))
			for i, l := range links {
				work[i] = make([][]*sendPlan, workers)
				for k := 0; k < totals[i]; k++ {
					counter++
					p := &sendPlan{kind: int(counter) % 4, n: counter}
					if counter%5 == 0 {
						p.kind = int(counter/5) % 4
					}
					work[i][k%workers] = append(work[i][k%workers], p)
					l.plans = append(l.plans, p)
				}
			}
			for i, l := range links {
				base := l.c.count()
				var sent int32
				for _, mine := range work[i] {
					wg.Add(1)
					go func() {
						defer wg.Done()
						atomic.AddInt32(&ready, 1)
						for atomic.LoadInt32(&ready) < goal {
							runtime.Gosched()
						}
						for _, p := range mine {
							if !burst { // keep the send queue short
								n := atomic.AddInt32(&sent, 1)
								t0 := atomic.LoadInt64(&beats)
								for int(n)-(l.c.count()-base) > 9 {
									if atomic.LoadInt64(&beats)-t0 > patience() || atomic.LoadInt32(&stuck) != 0 {
										atomic.StoreInt32(&stuck, 1)
										return
									}
									time.Sleep(20 * time.Microsecond)
								}
							}
							p.run(l.s)
							if p.err != nil {
								errs.Store(p.err)
								return
							}
						}
					}()
				}
				if terminalToo {
					for k := g.Int("unsupp", 1, 6); k > 0; k-- {
						id := uint16(0xf000 + k)
						serial := l.c.send(id, nil)
						p := &sendPlan{kind: 9, done: true, key: contentKey(0x8001, replyBody(serial, id, 3))}
						l.plans = append(l.plans, p)
						replies[i]++
					}
				}
			}
			wg.Wait()
			if e := errs.Load(); e != nil {
				t.Fatalf("sending failed: %v", e)
			}
			for i, l := range links {
				n := totals[i] + replies[i]
				if !l.c.waitFrames(l.seen+n) || stuck != 0 {
					t.Fatalf("session %d: %d of %d messages arrived (%s)", i, l.c.count()-l.seen, n, desc)
				}
				got := l.c.frames()[l.seen : l.seen+n]
				want := map[string]*sendPlan{}
				for _, p := range l.plans {
					k := p.key
					if k == "" {
						k = p.content()
					}
					want[k] = p
				}
				serials := map[uint16]int{}
				for _, f := range got {
					k := contentKey(f.h.ID, f.body)
					p := want[k]
					if p == nil {
						t.Fatalf("session %d: message that was never sent, or a second time: %v", i, f)
					}
					delete(want, k)
					serials[f.h.Serial]++
					if p.kind != 9 && p.got != f.h.Serial {
						t.Fatalf("session %d: caller was told serial %d, the message has %v (%s)", i, p.got, f, desc)
					}
				}
				if len(want) > 0 {
					t.Fatalf("session %d: messages missing: %v", i, want)
				}
				// exactly the next n numbers of the cycle 1..255
				expect := map[uint16]int{}
				for k := 0; k < n; k++ {
					x := uint16((l.next+k)%255 + 1)
					expect[x]++
					if got[k].h.Serial != x {
						t.Fatalf("session %d: message %d has serial %d, want %d (%s)", i, l.next+k, got[k].h.Serial, x, desc)
					}
					if x == 255 {
						wraps++
					}
				}
				for x := range serials {
					if serials[x] != expect[x] {
						t.Fatalf("session %d: after %d messages, serial %d was used %d times, want %d (%s)", i, l.next, x, serials[x], expect[x], desc)
					}
				}
				l.next += n
				l.seen += n
				l.plans = nil
			}
		}
		same := func(n int) []int {
			totals := make([]int, len(links))
			for i := range totals {
				totals[i] = n
			}
			return totals
		}
		for phase := g.Int("phases", 1, 6); phase > 0; phase-- {
			workers := g.Int("workers", 1, 6)
			switch g.Int("shape", 0, 5) {
			case 0, 1: // paced
				total := g.Int("total", 1, 60)
				if g.Int("long", 0, 5) == 5 {
					total = g.Int("long.n", 200, 530)
				}
				desc += fmt.Sprintf("%dx%d ", workers, total)
				round(workers, same(total), false, g.Int("unsupported", 0, 3) == 3)
			case 2, 3: // all at once
				total, repeat := g.Int("burst.n", 2, 20), g.Int("repeat", 1, 30)
				desc += fmt.Sprintf("burst %dx%d/%d ", workers, total, repeat)
				for ; repeat > 0; repeat-- {
					round(workers, same(total), true, false)
				}
			default: // all at once, where the numbers wrap
				workers = g.Int("workers", 3, 8)
				total, repeat := workers*g.Int("each", 1, 2), g.Int("repeat", 1, 6)
				desc += fmt.Sprintf("wrap %dx%d/%d ", workers, total, repeat)
				for ; repeat > 0; repeat-- {
					fill := make([]int, len(links))
					for i, l := range links {
						fill[i] = (255 + 254 - g.Int("before", 0, 3) - l.next%255) % 255
					}
					round(1, fill, false, false)
					round(workers, same(total), true, false)
				}
			}
			conc = conc || workers > 1
		}
		for i, l := range links {
			l.c.fence(t)
			if l.c.count() != l.seen {
				t.Fatalf("session %d: surplus message %v", i, l.c.frames()[l.seen])
			}
		}
		label := "no-wrap"
		if wraps > 0 {
			label = "wrapped"
		}
		stat.Case(conc || wraps > 0, stat.Hash(desc, fmt.Sprint(len(links))), func() string {
			return fmt.Sprintf("%d sessions: workers x messages / repeats %s, %d wraps", len(links), desc, wraps)
		}, label)
	})
}
