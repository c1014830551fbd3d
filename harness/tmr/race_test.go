package tmr

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"gitee.com/coco/go808"
	"pgregory.net/rapid"

	"runtime"
	"verifharness/gen"
	"verifharness/stat"
)

// C21: goroutines using one timer at the instants at which it fires, under the
// race detector. A key never fires more often than it was refreshed.
func TestC21_Timer(t *testing.T) {
	bubble(t, 1, func(t *rapid.T, g *gen.G) {
		type op struct{ kind, key, pause int }
		nkeys := g.Int("keys", 1, 5)
		plans := make([][]op, g.Int("workers", 2, 6))
		for i := range plans {
			plans[i] = make([]op, g.Int("ops", 1, 10))
			for k := range plans[i] {
				plans[i][k] = op{g.Int("kind", 0, 7), g.Int("key", 0, nkeys-1), g.Int("pause", 0, 4)}
			}
		}
		again := g.Int("again", 0, 3)
		fired, updated := make([]int32, nkeys), make([]int32, nkeys)
		dead := make(chan struct{})
		var timer *go808.CountdownTimer
		ready := make(chan struct{})
		left := int32(again)
		timer = go808.NewCountdownTimer(int64(g.Int("secs", 1, 3)), func(key string) {
			if key == "end of this timer" {
				close(dead)
				runtime.Goexit()
			}
			<-ready
			var k int
			fmt.Sscanf(key, "k%d", &k)
			atomic.AddInt32(&fired[k], 1)
			if atomic.AddInt32(&left, -1) >= 0 {
				atomic.AddInt32(&updated[k], 1)
				timer.Update(key)
			}
		})
		close(ready)
		var wg sync.WaitGroup
		for _, plan := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range plan {
					key := fmt.Sprintf("k%d", o.key)
					switch o.kind {
					case 0, 1, 2, 3:
						atomic.AddInt32(&updated[o.key], 1)
						timer.Update(key)
					case 4, 5:
						timer.Remove(key)
					default:
						timer.SetExpiration(int64(o.key + 1))
					}
					if o.pause > 1 { // meets the ticks
						time.Sleep(time.Duration(o.pause-1) * 500 * time.Millisecond)
					}
				}
			}()
		}
		wg.Wait()
		time.Sleep(30 * time.Second)
		synctest.Wait()
		timer.SetExpiration(1)
		timer.Update("end of this timer")
		select {
		case <-dead:
		case <-time.After(10 * time.Second):
			t.Fatalf("a refreshed key did not fire")
		}
		for k := range fired {
			if f, u := atomic.LoadInt32(&fired[k]), atomic.LoadInt32(&updated[k]); f > u {
				t.Fatalf("key %d fired %d times for %d refreshes", k, f, u)
			}
		}
		stat.Case(true, stat.Hash(fmt.Sprint(plans, again)), func() string { return fmt.Sprintf("timer: %d goroutines %v", len(plans), plans) }, "timer")
	})
}
