// Package stat counts generated cases and guards against hangs.
package stat

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

type collector struct {
	mu       sync.Mutex
	evals    int64
	nontriv  int64
	distinct map[uint64]struct{}
	labels   map[string]int64
	samples  []string
	sampleAt int64
}

var c = collector{distinct: map[uint64]struct{}{}, labels: map[string]int64{}, sampleAt: 1}

// Hash of arbitrary parts.
func Hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xfe})
	}
	return h.Sum64()
}

// Case records one generated case. The sample text is only built when kept.
func Case(nontrivial bool, key uint64, sample func() string, labels ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	for _, l := range labels {
		c.labels[l]++
	}
	if !nontrivial {
		return
	}
	c.nontriv++
	if len(c.distinct) < 3000000 {
		c.distinct[key] = struct{}{}
	}
	if c.nontriv == c.sampleAt && len(c.samples) < 12 {
		c.sampleAt = c.sampleAt*3 + 7
		s := sample()
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// Label adds to a label counter.
func Label(l string, n int64) {
	c.mu.Lock()
	c.labels[l] += n
	c.mu.Unlock()
}

// Dump writes the statistics next to the path in VERIF_STATS.
func Dump() {
	path := os.Getenv("VERIF_STATS")
	if path == "" {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	out := map[string]interface{}{
		"evaluations": c.evals, "nontrivial": c.nontriv, "distinct": len(c.distinct),
		"labels": c.labels, "samples": c.samples,
	}
	b, _ := json.Marshal(out)
	os.WriteFile(path, b, 0644)
	hs := make([]uint64, 0, len(c.distinct))
	for h := range c.distinct {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	buf := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(buf[i*8:], h)
	}
	os.WriteFile(path+".hashes", buf, 0644)
}

// --- hang watchdog -------------------------------------------------------

var (
	guardOn    int32
	guardTicks int64
	guardOnce  sync.Once
	guardDesc  atomic.Value
)

// HangTicks is the number of 100 ms scheduler ticks a single guarded step may
// take. Steps are micro- to milliseconds long; ticks only pass while this
// process is being scheduled, so a stalled machine does not count.
var HangTicks int64 = 600

// Alive tells the guard that a long step is making progress.
func Alive() { atomic.StoreInt64(&guardTicks, 0) }

// Guard runs f and reports a hang (marker line + stacks, exit status 3) when it
// does not come back.
func Guard(desc func() string, f func()) {
	guardOnce.Do(func() {
		go func() {
			for {
				time.Sleep(100 * time.Millisecond)
				if atomic.LoadInt32(&guardOn) == 0 {
					continue
				}
				if atomic.AddInt64(&guardTicks, 1) > HangTicks {
					d, _ := guardDesc.Load().(func() string)
					fmt.Printf("\nVERIF-HANG: step did not terminate: %s\n", d())
					buf := make([]byte, 1<<20)
					fmt.Printf("%s\n", buf[:runtime.Stack(buf, true)])
					Dump()
					os.Exit(3)
				}
			}
		}()
	})
	guardDesc.Store(desc)
	atomic.StoreInt64(&guardTicks, 0)
	atomic.StoreInt32(&guardOn, 1)
	defer atomic.StoreInt32(&guardOn, 0)
	f()
}
