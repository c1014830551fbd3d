package props

import (
	"fmt"
	"strings"
	"testing"

	"gitee.com/coco/go808"
	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/stat"
)

// C18: each level's name, in any case, sets that level; any other text is
// refused and changes nothing.
func TestC18_LogLevel(t *testing.T) {
	old := log.GetLevel()
	defer log.SetLevel(old)
	names := map[go808.Level]log.Level{
		go808.PanicLevel: log.PanicLevel, go808.FatalLevel: log.FatalLevel, go808.ErrorLevel: log.ErrorLevel, go808.WarnLevel: log.WarnLevel,
		go808.InfoLevel: log.InfoLevel, go808.DebugLevel: log.DebugLevel, go808.TraceLevel: log.TraceLevel,
	}
	order := []go808.Level{go808.PanicLevel, go808.FatalLevel, go808.ErrorLevel, go808.WarnLevel, go808.InfoLevel, go808.DebugLevel, go808.TraceLevel}
	if len(names) != 7 {
		t.Fatalf("[rapid] failed: only %d different levels", len(names))
	}
	check(t, 0.1, func(t *rapid.T, g *gen.G) {
		log.SetLevel(log.Level(g.Int("start", 0, 6)))
		var did []string
		for k := g.Int("calls", 1, 5); k > 0; k-- {
			before := log.GetLevel()
			lv := order[g.Uniform("level", 7)]
			want, ok := names[lv], true
			switch g.Int("how", 0, 4) {
			case 0:
				lv = go808.Level(strings.ToUpper(string(lv)))
			case 1:
				lv = go808.Level(g.Text("junk", 6))
				if lv == "warning" {
					lv = ""
				}
				want, ok = names[go808.Level(strings.ToLower(string(lv)))]
			case 2:
				lv, ok = lv+" ", false
			}
			err := go808.SetLogLevel(lv)
			did = append(did, fmt.Sprintf("%q", string(lv)))
			if (err == nil) != ok {
				t.Fatalf("SetLogLevel(%q): %v", string(lv), err)
			}
			if !ok {
				want = before
			}
			if got := log.GetLevel(); got != want {
				t.Fatalf("SetLogLevel(%q) (%v) at level %v gives level %v, want %v", string(lv), err, before, got, want)
			}
		}
		stat.Case(len(did) > 1, stat.Hash(did), func() string { return strings.Join(did, " ") }, "levels")
	})
}
