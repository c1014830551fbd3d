package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"gitee.com/coco/go808"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/stat"
)

// C21: goroutines writing parts of the same and of different uploads, some of
// them asking and merging meanwhile.
func TestC21_Parts(t *testing.T) {
	root := os.Getenv("TMPDIR")
	if root == "" || os.Getenv("VERIF_SCRATCH") != root {
		t.Fatal("needs a scratch TMPDIR (VERIF_SCRATCH)")
	}
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		os.RemoveAll(filepath.Join(root, "go808"))
		type part struct {
			up, seq int
			data    []byte
		}
		ups := make([]go808.MultipartFile, g.Int("uploads", 1, 4))
		whole := make([][]byte, len(ups))
		var parts []part
		for i := range ups {
			ups[i] = go808.MultipartFile{IccID: 1, MsgID: 0x0801, Tag: uint32(i), Sum: uint16(g.Int("sum", 1, 6))}
			if g.Int("other", 0, 3) == 3 {
				ups[i].IccID = 2
			}
			for s := 1; s <= int(ups[i].Sum); s++ {
				b := bytes.Repeat([]byte{byte(i*16 + s)}, g.Size("len", 20, 3000))
				parts = append(parts, part{i, s, b})
				whole[i] = append(whole[i], b...)
			}
		}
		for i := len(parts) - 1; i > 0; i-- {
			j := g.Uniform("perm", i+1)
			parts[i], parts[j] = parts[j], parts[i]
		}
		workers := g.Int("workers", 2, 6)
		plans := make([][]part, workers)
		desc := ""
		for _, p := range parts {
			k := g.Uniform("worker", workers)
			plans[k] = append(plans[k], p)
			desc += fmt.Sprintf("%d: %d/%d of %d; ", k, p.up, p.seq, len(p.data))
		}
		left := make([]sync.WaitGroup, len(ups))
		for _, p := range parts {
			left[p.up].Add(1)
		}
		var mu sync.Mutex
		problem := ""
		complain := func(f string, a ...interface{}) {
			mu.Lock()
			if problem == "" {
				problem = fmt.Sprintf(f, a...)
			}
			mu.Unlock()
		}
		var wg sync.WaitGroup
		for _, plan := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range plan {
					if err := ups[p.up].Write(uint16(p.seq), p.data); err != nil {
						complain("writing part %d of upload %d: %v", p.seq, p.up, err)
					}
					left[p.up].Done()
				}
			}()
		}
		for i, u := range ups { // merged as soon as complete, while others are written
			wg.Add(1)
			go func() {
				defer wg.Done()
				left[i].Wait()
				if !u.IsFull() {
					complain("upload %d has all its parts and is not full", i)
				}
				r, err := u.Merge()
				if err != nil {
					complain("merging upload %d: %v", i, err)
					return
				}
				defer r.Close()
				if b, err := io.ReadAll(r); err != nil || !bytes.Equal(b, whole[i]) {
					complain("upload %d: merged %d bytes (%v), want %d", i, len(b), err, len(whole[i]))
				}
			}()
		}
		wg.Wait()
		stat.Case(len(parts) > 1, stat.Hash(desc), func() string { return desc }, "parts")
		if problem != "" {
			t.Fatalf("%s\n%s", problem, desc)
		}
	})
}
