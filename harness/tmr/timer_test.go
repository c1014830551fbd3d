// Package tmr checks the countdown timer on a virtual clock.
package tmr

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"gitee.com/coco/go808"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/kit"
	"verifharness/stat"
)

func TestMain(m *testing.M) { kit.Main(m) }

// reporter ends the process instead of the bubble: timer goroutines never end,
// so a bubble would never be left.
type reporter struct {
	name   string
	failed bool
}

func (r *reporter) Helper()                   {}
func (r *reporter) Name() string              { return r.name }
func (r *reporter) Logf(f string, a ...any)   { fmt.Printf("    "+f+"\n", a...) }
func (r *reporter) Log(a ...any)              { fmt.Println(a...) }
func (r *reporter) Skipf(f string, a ...any)  {}
func (r *reporter) Skip(a ...any)             {}
func (r *reporter) SkipNow()                  {}
func (r *reporter) Errorf(f string, a ...any) { r.Logf(f, a...); r.Fail() }
func (r *reporter) Error(a ...any)            { r.Log(a...); r.Fail() }
func (r *reporter) Fatalf(f string, a ...any) { r.Logf(f, a...); r.FailNow() }
func (r *reporter) Fatal(a ...any)            { r.Log(a...); r.FailNow() }
func (r *reporter) Failed() bool              { return r.failed }
func (r *reporter) Fail()                     { r.failed = true }
func (r *reporter) FailNow() {
	r.failed = true
	r.exit()
}
func (r *reporter) exit() {
	if r.failed {
		fmt.Printf("--- FAIL: %s\n", r.name)
		stat.Dump()
		os.Exit(1)
	}
	stat.Dump()
	fmt.Println("PASS")
	syscall.Exit(0) // os.Exit(0) is refused inside a test
}

// bubble runs prop on generated cases under a virtual clock and ends the
// process: one test per process.
func bubble(t *testing.T, weight float64, prop func(t *rapid.T, g *gen.G)) {
	stat.Guard(t.Name, func() {}) // start the watchdog on the real clock
	synctest.Test(t, func(t *testing.T) {
		r := &reporter{name: t.Name()}
		// rapid gives up after 24 hours of (virtual) time: several rounds
		n := int(float64(kit.Checks()) * weight)
		seed, _ := strconv.ParseUint(flag.Lookup("rapid.seed").Value.String(), 10, 64)
		replay := flag.Lookup("rapid.failfile").Value.String() != ""
		for round := uint64(0); n > 0 && !r.failed; round++ {
			if seed != 0 && round > 0 {
				flag.Set("rapid.seed", strconv.FormatUint(seed+round*1000000007, 10))
			}
			k := min(n, 500)
			kit.Check(r, (float64(k)+0.5)/float64(kit.Checks()), prop)
			n -= k
			if replay {
				break
			}
		}
		r.exit()
	})
}

type event struct {
	at   time.Duration
	key  string
	op   string // update, remove, fire
	secs int64  // expiration in force (update)
	inCB bool   // done by a callback
}

const (
	sec   = time.Second
	early = 1 * sec
	late  = 2 * sec
)

// due is when a key refreshed at from for secs expires: never, as far as these
// histories go, for more seconds than a Duration holds.
func due(from time.Duration, secs int64) time.Duration {
	if secs > 1<<32 {
		return 1<<63 - 1 - 10*sec
	}
	return from + time.Duration(secs)*sec
}

// expirations too long to be seen running out
var huge = []int64{1 << 33, 1 << 40, 1 << 62, 1<<63 - 1, 1<<63 - 1 - 1<<31, 9223372036, 9223372037, 9223372036854775}

// judge checks a history. It allows a fire at the very instant of an operation
// that a callback performs, since that expiry may be under way already.
func judge(evs []event, end time.Duration) error {
	byKey := map[string][]event{}
	for _, e := range evs {
		byKey[e.key] = append(byKey[e.key], e)
	}
	for key, es := range byKey {
		type armed struct {
			from time.Duration
			secs int64
		}
		var cur, prev *armed
		var prevAt time.Duration // when prev was overtaken
		for _, e := range es {
			switch e.op {
			case "update", "remove":
				if cur != nil {
					if e.at > due(cur.from, cur.secs)+late {
						return fmt.Errorf("key %s refreshed at %v for %d s has not fired by %v", key, cur.from, cur.secs, e.at)
					}
				}
				if e.at != prevAt {
					prev, prevAt = nil, 0
				}
				if e.inCB && cur != nil && prev == nil {
					prev, prevAt = cur, e.at
				}
				cur = nil
				if e.op == "update" {
					cur = &armed{e.at, e.secs}
				}
			case "fire":
				fits := func(a *armed) bool {
					if a == nil {
						return false
					}
					due := due(a.from, a.secs)
					return e.at >= due-early && e.at <= due+late
				}
				switch {
				case prev != nil && e.at == prevAt && fits(prev):
					prev = nil
				case fits(cur):
					cur = nil
				case cur == nil:
					return fmt.Errorf("key %s fired at %v though it was not pending", key, e.at)
				default:
					return fmt.Errorf("key %s refreshed at %v for %d s fired at %v", key, cur.from, cur.secs, e.at)
				}
			}
		}
		if cur != nil && end > due(cur.from, cur.secs)+late {
			return fmt.Errorf("key %s refreshed at %v for %d s has not fired by %v", key, cur.from, cur.secs, end)
		}
	}
	return nil
}

type world struct {
	mu    sync.Mutex
	t0    time.Time
	evs   []event
	timer *go808.CountdownTimer
	secs  int64
	react map[string]func()
	dead  chan struct{}
}

func newWorld(secs int64) *world {
	w := &world{t0: time.Now(), secs: secs, react: map[string]func(){}, dead: make(chan struct{})}
	w.timer = go808.NewCountdownTimer(secs, func(key string) {
		if key == "end of this timer" {
			close(w.dead)
			runtime.Goexit() // the timer's goroutine
		}
		w.log(event{key: key, op: "fire"})
		w.mu.Lock()
		f := w.react[key]
		delete(w.react, key)
		w.mu.Unlock()
		if f != nil {
			f()
		}
	})
	return w
}

func (w *world) log(e event) {
	w.mu.Lock()
	e.at = time.Since(w.t0)
	w.evs = append(w.evs, e)
	w.mu.Unlock()
}

func (w *world) update(key string, inCB bool) {
	w.log(event{key: key, op: "update", secs: w.secs, inCB: inCB})
	w.timer.Update(key)
}

func (w *world) remove(key string, inCB bool) {
	w.timer.Remove(key)
	w.log(event{key: key, op: "remove", inCB: inCB})
}

// finish waits until everything must have fired and ends the timer's goroutine.
func (w *world) finish() time.Duration {
	if w.secs > 1<<20 {
		w.secs = 3
		w.timer.SetExpiration(w.secs)
	}
	time.Sleep(time.Duration(w.secs+64+4) * sec)
	synctest.Wait()
	end := time.Since(w.t0)
	w.timer.Update("end of this timer")
	select {
	case <-w.dead:
	case <-time.After(time.Duration(w.secs+10) * sec):
	}
	return end
}

func (w *world) text() string {
	var b strings.Builder
	for _, e := range w.evs {
		fmt.Fprintf(&b, "%v %s %s", e.at, e.op, e.key)
		if e.op == "update" {
			fmt.Fprintf(&b, "(%d)", e.secs)
		}
		b.WriteString("; ")
	}
	return b.String()
}

// align moves off the whole-second phase of the timer, so that no operation
// coincides with a tick.
func (w *world) align(g *gen.G) {
	d := time.Since(w.t0) % sec
	next := time.Duration(g.Int("ms", 1, 999)) * time.Millisecond
	if next <= d {
		next += sec
	}
	time.Sleep(next - d)
	synctest.Wait()
}

// C15: histories of refreshes, removals and changed expirations.
func TestC15_History(t *testing.T) {
	bubble(t, 1, func(t *rapid.T, g *gen.G) {
		secs := int64(g.Int("secs", 1, 12))
		if g.Int("huge", 0, 14) == 14 {
			secs = huge[g.Uniform("huge", len(huge))]
		}
		w := newWorld(secs)
		if g.Int("long", 0, 4) == 4 {
			w.secs = int64(g.Int("secs", 13, 60))
			w.timer.SetExpiration(w.secs)
		}
		time.Sleep(time.Duration(g.Int("skew", 0, 999)) * time.Millisecond)
		keys := g.Int("keys", 1, 8)
		if g.Int("many", 0, 3) == 3 {
			keys = g.Int("keys", 8, 60)
		}
		key := func() string { return fmt.Sprintf("k%d", g.Int("key", 0, keys-1)) }
		for n := g.Int("ops", 1, 40); n > 0; n-- {
			switch g.Int("op", 0, 9) {
			case 0, 1, 2:
				w.align(g)
				w.update(key(), false)
			case 3: // all in a generated order
				w.align(g)
				step := g.Int("step", 1, keys)
				for gcd(step, keys) != 1 {
					step++
				}
				for i, k := 0, g.Int("first", 0, keys-1); i < keys; i++ {
					w.update(fmt.Sprintf("k%d", k), false)
					k = (k + step) % keys
				}
			case 4:
				w.align(g)
				w.remove(key(), false)
			case 5:
				w.align(g)
				s := int64(g.Int("secs", 1, 20))
				if g.Int("huge", 0, 9) == 9 {
					s = huge[g.Uniform("huge", len(huge))]
				}
				w.secs = s
				w.timer.SetExpiration(s)
			case 6: // ignored settings
				w.timer.SetExpiration(-int64(g.Int("neg", 0, 50)))
			case 7: // what a key does when it fires
				a, b := key(), key()
				kind := g.Int("react", 0, 2)
				w.mu.Lock()
				w.react[a] = func() {
					switch kind {
					case 0:
						w.update(a, true)
					case 1:
						w.update(b, true)
					default:
						w.remove(b, true)
					}
				}
				w.mu.Unlock()
			default:
				time.Sleep(time.Duration(g.Int("sleep", 1, 6000)) * time.Millisecond)
				synctest.Wait()
			}
		}
		end := w.finish()
		fires := 0
		for _, e := range w.evs {
			if e.op == "fire" {
				fires++
			}
		}
		stat.Case(fires > 0 && len(w.evs) > 2, stat.Hash(w.text()), w.text, fmt.Sprintf("fires-%d", min(fires, 9)))
		if err := judge(w.evs, end); err != nil {
			t.Fatalf("%v\n%s", err, w.text())
		}
	})
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// C15: concurrent operations at one instant. After them each key has one
// pending expiry if only refreshed, none if only removed, at most one else.
func TestC15_Concurrent(t *testing.T) {
	bubble(t, 0.3, func(t *rapid.T, g *gen.G) {
		w := newWorld(int64(g.Int("secs", 2, 6)))
		keys := g.Int("keys", 1, 6)
		workers := g.Int("workers", 2, 8)
		ops := make([][]int, workers) // key, or -1-key for a removal
		both := map[int]int{}
		for i := range ops {
			for n := g.Int("n", 1, 12); n > 0; n-- {
				k := g.Int("key", 0, keys-1)
				if g.Int("rm", 0, 5) == 5 {
					ops[i] = append(ops[i], -1-k)
					both[k] |= 2
				} else {
					ops[i] = append(ops[i], k)
					both[k] |= 1
				}
			}
		}
		rounds := g.Int("rounds", 1, 3)
		desc := fmt.Sprint(w.secs, ops, rounds)
		stat.Case(workers > 1, stat.Hash(desc), func() string { return "concurrent " + desc }, "concurrent")
		for r := 0; r < rounds; r++ {
			w.align(g)
			at := time.Since(w.t0)
			w.mu.Lock()
			w.evs = nil
			w.mu.Unlock()
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, list := range ops {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, k := range list {
						if k >= 0 {
							w.timer.Update(fmt.Sprintf("k%d", k))
						} else {
							w.timer.Remove(fmt.Sprintf("k%d", -1-k))
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			if g.Bool("before") { // look before anything is due, too
				time.Sleep(time.Duration(w.secs)*sec - 1100*time.Millisecond)
				synctest.Wait()
				w.mu.Lock()
				early := len(w.evs)
				w.mu.Unlock()
				if early > 0 {
					t.Fatalf("fired early after concurrent refreshes at %v: %s\n%s", at, w.text(), desc)
				}
			}
			time.Sleep(time.Duration(w.secs+8) * sec)
			synctest.Wait()
			w.mu.Lock()
			fired := map[string]int{}
			for _, e := range w.evs {
				fired[e.key]++
				due := at + time.Duration(w.secs)*sec
				if e.at < due-early || e.at > due+late {
					t.Fatalf("%s refreshed at %v for %d s fired at %v\n%s", e.key, at, w.secs, e.at, desc)
				}
			}
			w.mu.Unlock()
			var ks []int
			for k := range both {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				n := fired[fmt.Sprintf("k%d", k)]
				if both[k] == 1 && n != 1 || both[k] == 2 && n != 0 || n > 1 {
					t.Fatalf("after concurrent operations key k%d (kinds %d) fired %d times\n%s", k, both[k], n, desc)
				}
			}
		}
		w.finish()
	})
}
