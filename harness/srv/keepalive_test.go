package srv

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// stalls measures how long this process stood still: the time by which 10 ms
// naps overran.
var stalledNs int64

func stallMeter() {
	last := time.Now()
	for {
		time.Sleep(10 * time.Millisecond)
		now := time.Now()
		if over := now.Sub(last) - 60*time.Millisecond; over > 0 {
			atomic.AddInt64(&stalledNs, int64(over))
		}
		last = now
	}
}

var meterOnce sync.Once

// one message of a talking terminal, by kind
var talkKinds = []string{"handled", "unhandled", "unregistered", "undecodable", "wrong-length", "part", "answer", "panicking", "packet-flagged"}

func talk(c *client, kind string, n int) []byte {
	switch kind {
	case "handled":
		return ref.Frame(c.header(0x0002), nil)
	case "unhandled":
		return ref.Frame(c.header(0x0102), []byte("abc"))
	case "unregistered":
		return ref.Frame(c.header(0xf0f0), []byte{1, 2, 3})
	case "undecodable":
		return ref.Frame(c.header(0x0801), []byte{1})
	case "wrong-length":
		return ref.RawFrame(c.header(0x0200).Bytes(7), []byte{1, 2})
	case "part":
		h := c.header(0x0801)
		h.Prop |= ref.BitPacket
		h.Sum, h.Seq = 900, uint16(n+1)
		return ref.Frame(h, mediaPart(3, []byte{byte(n)}))
	case "answer":
		return ref.Frame(c.header(0x0001), replyBody(77, 0x8103, 0))
	case "panicking":
		return ref.Frame(c.header(0x0900), []byte{1, 2})
	case "packet-flagged":
		h := c.header(0x0002)
		h.Prop |= ref.BitPacket
		h.Sum, h.Seq = 3, 2
		return ref.Frame(h, nil)
	}
	panic(kind)
}

// mediaPart is the body of one part of a media upload.
func mediaPart(tag uint32, payload []byte) []byte {
	head := []byte{byte(tag >> 24), byte(tag >> 16), byte(tag >> 8), byte(tag), 0, 0, 1, 2}
	loc := make([]byte, 22)
	loc = append(loc, 0x20, 0x01, 0x02, 0x03, 0x04, 0x05)
	return append(append(head, loc...), payload...)
}

// terminal is the script of one connection.
type terminal struct {
	class string
	gaps  []time.Duration // before each message
	kinds []string
	push  bool // the platform keeps sending to it

	c       *client
	start   time.Time // before connecting
	sends   []time.Time
	starved bool // a gap got longer than allowed
}

// C14: silent connections end in time, talking ones stay.
func TestC14_Keepalive(t *testing.T) {
	meterOnce.Do(func() { go stallMeter() })
	check(t, 1, func(t *rapid.T, g *gen.G) {
		K := g.Int("keepalive", 2, 4)
		keep := time.Duration(K) * time.Second
		length := 2*keep + keep/2
		safe := keep - time.Second // longest gap that must keep a connection alive
		merge := g.Bool("merge")
		var script []*terminal
		n := 40 + g.Int("terminals", 0, 50)
		desc := fmt.Sprintf("K=%d:", K)
		count := map[string]int{}
		for i := 0; i < n; i++ {
			tm := &terminal{class: []string{"talker", "talker", "stops", "silent", "dribbler"}[g.Uniform("class", 5)], push: g.Int("push", 0, 3) == 3}
			if tm.class != "silent" {
				only := ""
				if g.Bool("one-kind") {
					only = talkKinds[g.Uniform("kind", len(talkKinds))]
				}
				total := time.Duration(0)
				until := length
				if tm.class == "stops" {
					until = time.Duration(g.Int("until", 0, int(length/time.Millisecond)/2)) * time.Millisecond
				}
				for {
					gap := time.Duration(g.Int("gap", 20, int(safe/time.Millisecond)-150)) * time.Millisecond
					if g.Int("far", 0, 1) == 1 { // close to the limit
						gap = safe - 150*time.Millisecond - gap/20
					}
					total += gap
					if total > until {
						break
					}
					k := only
					if k == "" {
						k = talkKinds[g.Uniform("kind", len(talkKinds))]
					}
					tm.gaps = append(tm.gaps, gap)
					tm.kinds = append(tm.kinds, k)
					if tm.class == "talker" {
						count["talk-"+k]++
					}
				}
			}
			count[tm.class]++
			desc += fmt.Sprintf(" %s", tm.class)
			if tm.push {
				desc += "+push"
			}
			script = append(script, tm)
		}
		w := serve(t, go808.Options{Keepalive: int64(K), AutoMergePacket: merge})
		defer w.stop()
		w.s.AddHandler(0x0002, func(*go808.Session, *protocol.Message) {})
		w.s.AddHandler(0x0900, func(*go808.Session, *protocol.Message) { panic("handler gives up") })
		for r := g.Int("restarts", 0, 2); r > 0; r-- { // the same holds for a server run again
			count["restarts"]++
			desc += " restarted"
			w.restart(g.Int("before", 0, 3))
		}
		stall0 := atomic.LoadInt64(&stalledNs)
		begin := time.Now()
		if g.Bool("broadcasts") { // also to terminals that never say anything
			count["broadcasts"]++
			done := make(chan struct{})
			defer close(done)
			go func() {
				for {
					w.s.Broadcast(&protocol.T808_0x8900{Type: 2})
					select {
					case <-done:
						return
					case <-time.After(300 * time.Millisecond):
					}
				}
			}()
		}
		var wg sync.WaitGroup
		for i, tm := range script {
			tm.start = time.Now()
			tm.c = w.connect()
			tm.c.phone = uint64(1 + i)
			if !tm.push && i%5 == 4 {
				tm.c.phone = 0 // goes without a number
			}
			if tm.push { // the platform talks, the terminal does not have to
				s := tm.c.fence(t)
				tm.sends = append(tm.sends, time.Now())
				go func() {
					for j := 0; j < int(length/time.Millisecond/400); j++ {
						if _, err := s.Send(&protocol.T808_0x8900{Type: 1}); err != nil {
							return
						}
						time.Sleep(400 * time.Millisecond)
					}
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				last := tm.start
				if tm.class == "dribbler" { // an unfinished frame is no message
					tm.c.write([]byte{0x7e})
					for _, gap := range tm.gaps {
						time.Sleep(gap)
						if tm.c.ended() || tm.c.write([]byte{0x11, 0x22}) != nil {
							break
						}
					}
					return
				}
				for j, gap := range tm.gaps {
					time.Sleep(gap)
					if tm.c.ended() {
						break
					}
					b := talk(tm.c, tm.kinds[j], j)
					at := time.Now()
					if tm.c.write(b) != nil {
						break
					}
					if time.Since(last) > safe-100*time.Millisecond {
						tm.starved = true
					}
					last = at
					tm.sends = append(tm.sends, at)
				}
			}()
		}
		wg.Wait()
		// everyone is silent now and has to go
		for i, tm := range script {
			last := lastSend(tm)
			for {
				lost := time.Duration(atomic.LoadInt64(&stalledNs) - stall0)
				limit := keep + 2*time.Second + 1500*time.Millisecond + 2*lost
				if tm.c.ended() {
					tm.c.mu.Lock()
					at := tm.c.eofAt
					tm.c.mu.Unlock()
					first := last
					if tm.push && len(tm.sends) == 1 {
						first = tm.start // the time of the fence is only known from both sides
					}
					if d := at.Sub(first); d < keep-time.Second-time.Millisecond {
						if !tm.starved && lost < 50*time.Millisecond {
							t.Fatalf("K=%d: terminal %d (%s, gaps %v, kinds %v) was disconnected %v after start and only %v after its last message", K, i, tm.class, tm.gaps, tm.kinds, at.Sub(tm.start), d)
						}
						stat.Label("starved-excused", 1)
					}
					if d := at.Sub(last); d > limit {
						t.Fatalf("K=%d: terminal %d (%s, push %v) was disconnected only %v after its last message (%v stalled)", K, i, tm.class, tm.push, d, lost)
					}
					break
				}
				if time.Since(last) > limit+2*time.Second {
					t.Fatalf("K=%d: terminal %d (%s, push %v) is still connected %v after its last message (%v stalled)", K, i, tm.class, tm.push, time.Since(last), lost)
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
		for k, v := range count {
			stat.Label(k, int64(v))
		}
		stat.Case(count["talker"] > 0 && count["talker"] < n, stat.Hash(desc), func() string { return fmt.Sprintf("%.400s (%v)", desc, time.Since(begin)) }, fmt.Sprintf("K-%d", K))
	})
}

func lastSend(tm *terminal) time.Time {
	if len(tm.sends) == 0 {
		return tm.start
	}
	return tm.sends[len(tm.sends)-1]
}

// C14: long keepalives. One of zero or less means 60 seconds; one far beyond
// any clock never runs out.
func TestC14_Long(t *testing.T) {
	meterOnce.Do(func() { go stallMeter() })
	check(t, 1, func(t *rapid.T, g *gen.G) {
		type line struct {
			K     int64
			c     *client
			start time.Time
			talks bool
			told  time.Time
		}
		var lines []*line
		settings := []int64{0, -1, -int64(g.Int("neg", 2, 100000)), 60, int64(g.Int("K", 40, 59)), 100000, 1 << 33, 1 << 40, 1 << 62, 1<<63 - 1}
		stall0 := atomic.LoadInt64(&stalledNs)
		for i, K := range settings {
			w := serve(t, go808.Options{Keepalive: K})
			defer w.stop()
			for j := 0; j < 4; j++ {
				l := &line{K: K, start: time.Now(), talks: j%2 == 1}
				if l.K <= 0 {
					l.K = 60
				}
				l.c = w.connect()
				l.c.phone = uint64(100*i + j + 1)
				if j >= 2 { // known to the server by its number
					l.c.fence(t)
				}
				lines = append(lines, l)
				time.Sleep(time.Duration(g.Int("pause", 0, 200)) * time.Millisecond)
			}
		}
		desc := fmt.Sprint(settings)
		stat.Case(true, stat.Hash(desc), func() string { return "long keepalives " + desc }, "long")
		for busy := true; busy; {
			time.Sleep(20 * time.Millisecond)
			busy = false
			lost := time.Duration(atomic.LoadInt64(&stalledNs) - stall0)
			for _, l := range lines {
				now := time.Now()
				if l.c.ended() {
					l.c.mu.Lock()
					now = l.c.eofAt
					l.c.mu.Unlock()
				}
				first, last := now.Sub(l.start), now.Sub(l.start)
				if !l.told.IsZero() {
					first = now.Sub(l.told)
					last = first
				}
				keep := time.Duration(min(l.K, 1<<32)) * time.Second
				if l.c.ended() {
					if first < keep-time.Second-time.Millisecond && lost < 50*time.Millisecond {
						t.Fatalf("keepalive %d: a terminal was disconnected %v after its last message", l.K, first)
					}
				} else if last > keep+5*time.Second+2*lost {
					t.Fatalf("keepalive %d: a terminal is still connected %v after its last message (%v stalled)", l.K, last, lost)
				} else if l.K <= 60 && l.told.IsZero() {
					busy = true
				}
				if l.talks && l.told.IsZero() && !l.c.ended() && first > min(keep, 60*time.Second)-4*time.Second {
					l.told = time.Now()
					l.c.write(talk(l.c, "handled", 0))
				}
			}
		}
	})
}
