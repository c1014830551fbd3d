package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/stat"
)

// withLimits runs f while this process may not make files larger than size bytes
// (as on a full disk: what fits is written, the rest fails) or, with fds >= 0,
// may not open more than that many further files.
func withLimits(size, fds int, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	set := func(what int, n uint64) func() {
		var old syscall.Rlimit
		if err := syscall.Getrlimit(what, &old); err != nil {
			panic(err)
		}
		if n > old.Max {
			n = old.Max
		}
		if err := syscall.Setrlimit(what, &syscall.Rlimit{Cur: n, Max: old.Max}); err != nil {
			panic(err)
		}
		return func() {
			if err := syscall.Setrlimit(what, &old); err != nil {
				panic(err)
			}
		}
	}
	if size >= 0 {
		defer set(syscall.RLIMIT_FSIZE, uint64(size))()
	}
	if fds >= 0 {
		// descriptors are numbers below the limit: find the highest that leaves fds free ones
		used := map[int]bool{}
		l, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			panic(err)
		}
		for _, e := range l {
			n := 0
			fmt.Sscan(e.Name(), &n)
			if _, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil { // not the one used for listing
				used[n] = true
			}
		}
		limit, free := 0, fds
		for ; free > 0 || used[limit]; limit++ {
			if !used[limit] {
				free--
			}
		}
		defer set(syscall.RLIMIT_NOFILE, uint64(limit))()
	}
	f()
}

// withModes runs f while nothing under root may be listed (1), written (2) or
// read (3). Without effect for root.
func withModes(root string, kind int, f func()) {
	type old struct {
		path string
		mode os.FileMode
	}
	var all []old
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err == nil && path != root {
			all = append(all, old{path, info.Mode().Perm()})
		}
		return nil
	})
	for i := len(all) - 1; i >= 0; i-- {
		o := all[i]
		info, err := os.Stat(o.path)
		if err != nil {
			continue
		}
		mode := o.mode
		switch {
		case kind == 1 && info.IsDir():
			mode &^= 0444
		case kind == 2:
			mode &^= 0222
		case kind == 3 && !info.IsDir():
			mode &^= 0444
		}
		os.Chmod(o.path, mode)
	}
	defer func() {
		for _, o := range all {
			os.Chmod(o.path, o.mode)
		}
	}()
	f()
}

func scratchRoot(t *testing.T) string {
	root := os.Getenv("TMPDIR")
	if root == "" || os.Getenv("VERIF_SCRATCH") != root {
		t.Fatal("needs a scratch TMPDIR (VERIF_SCRATCH)")
	}
	return root
}

func clean(root string) {
	l, _ := os.ReadDir(root)
	for _, e := range l {
		os.RemoveAll(filepath.Join(root, e.Name()))
	}
}

// partData is recognisable: every position tells part and version.
func partData(seq, version, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seq*37 + version*11 + i)
	}
	return b
}

// C23: writes and merges that fail half-way change nothing.
func TestC23_Faults(t *testing.T) {
	root := scratchRoot(t)
	check(t, 1, func(t *rapid.T, g *gen.G) {
		clean(root)
		ids := []uploadID{{138, 0x0801, 1}, {138, 0x0801, 2}}[:g.Int("uploads", 1, 2)]
		sums := map[uploadID]int{}
		model := map[uploadID]map[int][]byte{}
		for _, id := range ids {
			sums[id] = g.Int("sum", 1, 5)
			if g.Int("many", 0, 30) == 30 {
				sums[id] = g.Int("sum", 30, 150)
			}
			model[id] = map[int][]byte{}
		}
		hist, faults, version, merges := "", 0, 0, 0
		file := func(id uploadID) go808.MultipartFile {
			return go808.MultipartFile{IccID: id.icc, MsgID: id.msg, Tag: id.tag, Sum: uint16(sums[id])}
		}
		full := func(id uploadID) bool { return len(model[id]) == sums[id] }
		ask := func(id uploadID) {
			if got := file(id).IsFull(); got != full(id) {
				t.Fatalf("upload %v of %d parts: full %v, want %v (written %v)\n%s", id, sums[id], got, full(id), keysOf(model[id]), hist)
			}
		}
		merge := func(id uploadID, size, fds, modes int) {
			var r io.ReadCloser
			var err error
			if modes > 0 {
				withModes(root, modes, func() { r, err = file(id).Merge() })
			} else if size < 0 && fds < 0 {
				r, err = file(id).Merge()
				if err != nil {
					t.Fatalf("merging full upload %v: %v\n%s", id, err, hist)
				}
			} else {
				withLimits(size, fds, func() { r, err = file(id).Merge() })
			}
			hist += fmt.Sprintf("merge%v limits %d,%d,%d: %v; ", id, size, fds, modes, err)
			if err != nil {
				if size < 0 && fds >= 24 {
					t.Fatalf("merging upload %v of %d parts while %d files may be opened: %v", id, sums[id], fds, err)
				}
				faults++
				stat.Label("failed-merge", 1)
				return
			}
			got, err := io.ReadAll(r)
			r.Close()
			var want []byte
			for s := 1; s <= sums[id]; s++ {
				want = append(want, model[id][s]...)
			}
			if err != nil || !bytes.Equal(got, want) {
				t.Fatalf("merged upload %v has %d bytes, want %d (%v)\n got  %.100x\n want %.100x\n%s", id, len(got), len(want), err, got, want, hist)
			}
			model[id] = map[int][]byte{}
			merges++
		}
		for n := g.Int("ops", 2, 20); n > 0; n-- {
			id := ids[g.Int("who", 0, len(ids)-1)]
			size, fds := -1, -1
			if k := g.Int("fault", 0, 3); k == 2 {
				size = g.Size("limit", 60, 1100)
			} else if k == 3 {
				fds = g.Int("fds", 0, 7)
			}
			modes := 0
			if size < 0 && fds < 0 && os.Geteuid() != 0 && g.Int("perm", 0, 3) == 3 {
				modes = g.Int("modes", 1, 3)
			}
			if full(id) && g.Int("merge", 0, 2) > 0 {
				merge(id, size, fds, modes)
				ask(id)
				continue
			}
			seq := g.Int("seq", 1, sums[id])
			version++
			data := partData(seq, version, g.Size("len", 60, 1000))
			var err error
			if modes > 0 {
				withModes(root, modes, func() { err = file(id).Write(uint16(seq), data) })
			} else if size < 0 && fds < 0 {
				if err = file(id).Write(uint16(seq), data); err != nil {
					t.Fatalf("writing part %d of %v: %v\n%s", seq, id, err, hist)
				}
			} else {
				withLimits(size, fds, func() { err = file(id).Write(uint16(seq), data) })
			}
			hist += fmt.Sprintf("%v#%d %d bytes, limits %d,%d,%d: %v; ", id, seq, len(data), size, fds, modes, err)
			if err == nil {
				model[id][seq] = data
			} else {
				faults++
				stat.Label("failed-write", 1)
			}
			for _, id := range ids {
				ask(id)
			}
		}
		for _, id := range ids { // the uploads can be completed after all
			for s := 1; s <= sums[id]; s++ {
				if _, ok := model[id][s]; !ok {
					version++
					model[id][s] = partData(s, version, 20)
					if err := file(id).Write(uint16(s), model[id][s]); err != nil {
						t.Fatalf("writing part %d of %v: %v\n%s", s, id, err, hist)
					}
				}
			}
			ask(id)
			if sums[id] >= 30 {
				merge(id, -1, 24, 0)
				stat.Label("more-parts-than-handles", 1)
			} else {
				merge(id, -1, -1, 0)
			}
		}
		stat.Case(faults > 0, stat.Hash(hist), func() string { return fmt.Sprintf("%d faults, %d merges: %.500s", faults, merges, hist) }, fmt.Sprintf("faults-%d", min(faults, 5)))
	})
}

// --- crashes -------------------------------------------------------------

type crashOp struct {
	Seq, Version, Len int // Seq 0: merge when full
}

type crashPlan struct {
	Sum int
	Ops []crashOp
}

const crashEnv = "VERIF_CRASH_PLAN"

// TestCrashChild is the process that gets killed.
func TestCrashChild(t *testing.T) {
	plan := os.Getenv(crashEnv)
	if plan == "" {
		t.Skip()
	}
	var p crashPlan
	if err := json.Unmarshal([]byte(plan), &p); err != nil {
		t.Fatal(err)
	}
	m := go808.MultipartFile{IccID: 7, MsgID: 0x0801, Tag: 9, Sum: uint16(p.Sum)}
	say := func(f string, a ...interface{}) { os.Stdout.WriteString(fmt.Sprintf("@"+f+"\n", a...)) }
	say("ready")
	for i, op := range p.Ops {
		if op.Seq > 0 {
			if err := m.Write(uint16(op.Seq), partData(op.Seq, op.Version, op.Len)); err != nil {
				say("fail %d %v", i, err)
				return
			}
		} else if m.IsFull() {
			say("merging %d", i)
			r, err := m.Merge()
			if err != nil {
				say("fail %d %v", i, err)
				return
			}
			r.Close()
		}
		say("done %d", i)
	}
	say("end")
}

// C23: a process killed at any point leaves only whole parts.
func TestC23_Crash(t *testing.T) {
	root := scratchRoot(t)
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	check(t, 0.05, func(t *rapid.T, g *gen.G) {
		clean(root)
		p := crashPlan{Sum: g.Int("sum", 1, 4)}
		big := g.Int("big", 0, 2)
		version := 0
		for n := g.Int("ops", 20, 300); n > 0; n-- {
			if g.Int("k", 0, 9) == 9 {
				p.Ops = append(p.Ops, crashOp{})
				continue
			}
			version++
			l := g.Int("len", 1, 1000)
			if big > 0 {
				l *= big * 60
			}
			p.Ops = append(p.Ops, crashOp{g.Uniform("seq", p.Sum) + 1, version, l})
		}
		last := g.Uniform("after", len(p.Ops))
		delay := time.Duration(g.Uniform("delay", 200)) * time.Microsecond
		js, _ := json.Marshal(p)
		cmd := exec.Command(self, "-test.run", "^TestCrashChild$", "-test.v=false")
		cmd.Env = append(os.Environ(), crashEnv+"="+string(js), "VERIF_STATS=")
		out, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		if err := cmd.Start(); err != nil {
			fmt.Printf("VERIF-HARNESS: cannot start the child process: %v\n", err)
			os.Exit(4)
		}
		done, merging, fail, ended := -1, -1, "", false
		killed := false
		sc := bufio.NewScanner(out)
		ready := false
		for sc.Scan() {
			line := sc.Text()
			switch {
			case line == "@ready":
				ready = true
			case strings.HasPrefix(line, "@done "):
				fmt.Sscanf(line, "@done %d", &done)
				if !killed && done >= last {
					killed = true
					for t0 := time.Now(); time.Since(t0) < delay; {
					}
					cmd.Process.Kill()
				}
			case strings.HasPrefix(line, "@merging "):
				fmt.Sscanf(line, "@merging %d", &merging)
			case strings.HasPrefix(line, "@fail "):
				fail = line
			case line == "@end":
				ended = true
			}
		}
		cmd.Wait()
		if fail != "" {
			t.Fatalf("an operation of the child failed: %s", fail)
		}
		if !ready || (!killed && !ended) {
			fmt.Printf("VERIF-HARNESS: the child process did not run\n")
			os.Exit(4)
		}
		// what may be there now: for each part the data of the last completed
		// write (must), or of the one under way
		type state struct{ must, may []byte }
		parts := make([]state, p.Sum+1)
		merged := false // a merge was under way: its parts may be gone
		count := func() int {
			n := 0
			for _, s := range parts[1:] {
				if s.must != nil {
					n++
				}
			}
			return n
		}
		for i := 0; i <= done; i++ {
			op := p.Ops[i]
			if op.Seq > 0 {
				parts[op.Seq].must = partData(op.Seq, op.Version, op.Len)
			} else if count() == p.Sum {
				parts = make([]state, p.Sum+1)
			}
		}
		under := "nothing"
		if done+1 < len(p.Ops) {
			op := p.Ops[done+1]
			if op.Seq > 0 {
				parts[op.Seq].may = partData(op.Seq, op.Version, op.Len)
				under = "write"
			} else if count() == p.Sum {
				merged = true
				under = "merge"
			}
		}
		m := go808.MultipartFile{IccID: 7, MsgID: 0x0801, Tag: 9, Sum: uint16(p.Sum)}
		// for each part taken alone (the others written anew), what is merged must be whole
		probe := g.Uniform("probe", p.Sum) + 1
		var want []byte
		at := 0
		for s := 1; s <= p.Sum; s++ {
			if s == probe {
				at = len(want)
				continue
			}
			d := partData(s, 99, 5)
			if err := m.Write(uint16(s), d); err != nil {
				t.Fatalf("after the crash: writing part %d: %v", s, err)
			}
			want = append(want, d...)
		}
		head, tail := want[:at:at], want[at:]
		st := parts[probe]
		is := m.IsFull()
		desc := fmt.Sprintf("killed %v after operation %d of %d (%v later), during %s; %d parts", killed, done, len(p.Ops), delay, under, p.Sum)
		if !is {
			if st.must != nil && !merged {
				t.Fatalf("part %d, completely written before the process was killed, is gone\n%s", probe, desc)
			}
		} else {
			if st.must == nil && st.may == nil {
				t.Fatalf("part %d, never written, counts as written after the process was killed\n%s", probe, desc)
			}
			r, err := m.Merge()
			if err != nil {
				t.Fatalf("merging after the crash: %v\n%s", err, desc)
			}
			got, err := io.ReadAll(r)
			r.Close()
			ok := false
			for _, d := range [][]byte{st.must, st.may} {
				ok = ok || d != nil && bytes.Equal(got, append(append(append([]byte(nil), head...), d...), tail...))
			}
			if err != nil || !ok {
				t.Fatalf("after the crash, part %d is neither the data of the last completed write (%d bytes) nor of the one under way (%d bytes): merged %d bytes, others %d (%v)\n%s",
					probe, len(st.must), len(st.may), len(got), len(head)+len(tail), err, desc)
			}
		}
		stat.Case(killed && !ended, stat.Hash(string(js), last, int(delay)), func() string { return desc }, "crash-during-"+under)
	})
}
