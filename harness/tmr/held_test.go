package tmr

import (
	"fmt"
	"runtime"
	"strings"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/stat"
)

func heap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// C28: a timer holds its pending keys, and nothing of those that fired or were
// removed.
func TestC28_Timer(t *testing.T) {
	bubble(t, 1, func(t *rapid.T, g *gen.G) {
		fired := 0
		dead := make(chan struct{})
		timer := go808.NewCountdownTimer(int64(g.Int("secs", 1, 3)), func(key string) {
			if key == "end of this timer" {
				close(dead)
				runtime.Goexit()
			}
			fired++
		})
		pad := strings.Repeat("x", g.Int("pad", 1, 40))
		alive := g.Int("alive", 40, 300)
		how := g.Int("how", 0, 3)
		rounds := 12000
		serial := 0
		round := func(n int) {
			for i := 0; i < n; i += alive {
				for k := 0; k < alive; k++ {
					serial++
					timer.Update(fmt.Sprint(serial, pad))
				}
				for k := 0; k < alive; k++ {
					if how == 0 || how == 1 && k%2 == 0 {
						timer.Remove(fmt.Sprint(serial-k, pad))
					} else if how == 2 {
						timer.Update(fmt.Sprint(serial-k, pad))
					}
				}
				if how != 0 {
					time.Sleep(5 * time.Second) // they fire
				}
			}
		}
		round(300)
		before := heap()
		round(rounds)
		after := heap()
		stat.Case(true, stat.Hash(len(pad), alive, how), func() string {
			return fmt.Sprintf("timer: %d keys, %d at a time, way %d: %d -> %d bytes held, %d fired", rounds, alive, how, before, after, fired)
		}, fmt.Sprintf("timer-%d", how))
		timer.SetExpiration(1)
		timer.Update("end of this timer")
		select {
		case <-dead:
		case <-time.After(10 * time.Second):
			t.Fatalf("a refreshed key did not fire")
		}
		if after > before+160<<10 {
			t.Fatalf("after %d keys that came and went, %d at a time, %d bytes are held instead of %d", rounds, alive, after, before)
		}
	})
}
