// Package kit holds what the test packages share.
package kit

import (
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"gitee.com/coco/go808"
	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/stat"
)

// Main is the body of every TestMain.
func Main(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard)
	if Shard()%4 == 3 { // what is logged changes nothing
		go808.SetLogLevel(go808.TraceLevel)
	} else {
		go808.SetLogLevel(go808.PanicLevel)
	}
	rc := m.Run()
	stat.Dump()
	os.Exit(rc)
}

// Checks is the number of cases asked for.
func Checks() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_CHECKS"))
	if err != nil || n <= 0 {
		n = 200
	}
	return n
}

// Thorough tells the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Shard is this process's number among those of one check.
func Shard() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	return n
}

var (
	start  = time.Now()
	failed int32
)

// Failed tells whether a case has failed (the rest is shrinking).
func Failed() bool { return atomic.LoadInt32(&failed) != 0 }

// Late reports that the time given to this process is used up; the remaining
// cases are skipped and counted as such.
func Late() bool {
	if Failed() { // shrinking
		return false
	}
	n, err := strconv.Atoi(os.Getenv("VERIF_SECONDS"))
	return err == nil && n > 0 && time.Since(start) > time.Duration(n)*time.Second
}

// Check runs prop on weight*VERIF_CHECKS generated cases.
func Check(t rapid.TB, weight float64, prop func(t *rapid.T, g *gen.G)) {
	t.Helper()
	n := int(float64(Checks()) * weight)
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	rapid.Check(t, func(rt *rapid.T) {
		if Late() {
			stat.Label("skipped-out-of-time", 1)
			return
		}
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprintf("%T", r)
				if !strings.Contains(s, "invalidData") {
					atomic.StoreInt32(&failed, 1)
				}
				if !strings.Contains(s, "rapid.") {
					buf := make([]byte, 16384)
					fmt.Fprintf(os.Stderr, "panic in case: %v\n%s\n", r, buf[:runtime.Stack(buf, false)])
				}
				panic(r)
			}
		}()
		races := Races()
		stat.Guard(func() string { return t.Name() }, func() {
			prop(rt, &gen.G{T: rt})
		})
		if n := Races() - races; n > 0 {
			rt.Fatalf("VERIF-RACE: the race detector reported %d data race(s) during this case", n)
		}
	})
}
