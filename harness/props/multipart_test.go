package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/stat"
)

type uploadID struct {
	icc uint64
	msg protocol.MsgID
	tag uint32
}

// identities whose decimal spellings resemble each other
var (
	iccs = []uint64{1, 11, 111, 12, 13800138000, 138001380001, 0}
	msgs = []protocol.MsgID{0x0801, 0x0100, 1, 12, 205, 20, 2049}
	tags = []uint32{0, 1, 2, 11, 12, 21, 111, 0x7fffffff, 0x80000000, 0xffffffff}
)

func TestC16_Model(t *testing.T) {
	// one scratch directory for the whole process, like a server's
	root := os.Getenv("TMPDIR")
	if root == "" || os.Getenv("VERIF_SCRATCH") != root {
		t.Fatal("needs a scratch TMPDIR (VERIF_SCRATCH)")
	}
	if os.Geteuid() != 0 {
		stat.Label("unprivileged-process", 1)
	}
	fresh := uint64(500000000000)
	cases := 0
	check(t, 1, func(t *rapid.T, g *gen.G) {
		// remnants of a failed case (a passing one leaves no parts behind)
		filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
			if err == nil && i.Mode().IsRegular() {
				os.Remove(p)
			}
			return nil
		})

		if cases++; cases%100 == 0 { // keep the walk above short
			if l, err := os.ReadDir(root); err == nil {
				for _, e := range l {
					os.RemoveAll(filepath.Join(root, e.Name()))
				}
			}
		}

		// a few look-alike identities
		var ids []uploadID
		base := uploadID{iccs[g.Int("icc", 0, len(iccs)-1)], msgs[g.Int("msg", 0, len(msgs)-1)], tags[g.Int("tag", 0, len(tags)-1)]}
		if g.Int("new", 0, 3) == 3 { // a terminal never seen before
			fresh++
			base.icc = fresh
		}
		ids = append(ids, base)
		for i := g.Int("more", 0, 3); i > 0; i-- {
			x := base
			switch g.Int("vary", 0, 6) {
			case 4: // identities that differ in a single bit
				x.tag ^= 1 << g.Uniform("tag.bit", 32)
			case 5:
				x.icc ^= 1 << g.Uniform("icc.bit", 37)
			case 6:
				x.msg ^= 1 << g.Uniform("msg.bit", 16)
			case 0:
				x.icc = iccs[g.Int("icc", 0, len(iccs)-1)]
			case 1:
				x.msg = msgs[g.Int("msg", 0, len(msgs)-1)]
			case 2:
				x.tag = tags[g.Int("tag", 0, len(tags)-1)]
			default:
				x.icc, x.tag = iccs[g.Int("icc", 0, len(iccs)-1)], tags[g.Int("tag", 0, len(tags)-1)]
			}
			ids = append(ids, x)
		}
		sums := map[uploadID]int{}
		for _, id := range ids {
			sums[id] = g.Size("sum", 12, 300)
			if sums[id] == 0 {
				sums[id] = 1
			}
		}
		model := map[uploadID]map[int][]byte{}
		file := func(id uploadID, sum int) go808.MultipartFile {
			return go808.MultipartFile{IccID: id.icc, MsgID: id.msg, Tag: id.tag, Sum: uint16(sum)}
		}
		write := func(id uploadID, sum, seq int, data []byte) {
			in := append([]byte(nil), data...)
			if err := file(id, sum).Write(uint16(seq), in); err != nil {
				t.Fatalf("writing part %d of %v: %v", seq, id, err)
			}
			for i := range in { // the caller may reuse its buffer
				in[i] ^= 0xff
			}
			if model[id] == nil {
				model[id] = map[int][]byte{}
			}
			model[id][seq] = data
		}
		full := func(id uploadID, sum int) bool {
			for s := 1; s <= sum; s++ {
				if _, ok := model[id][s]; !ok {
					return false
				}
			}
			return true
		}
		data := func(seq int) []byte {
			switch g.Int("data.k", 0, 3) {
			case 0:
				return g.Bytes("data", g.Int("data.n", 0, 3))
			case 1:
				return []byte(fmt.Sprintf("<%d>", seq))
			default:
				return g.Blob("data", 1000)
			}
		}
		merges, hist := 0, ""
		type held struct { // a merged upload whose reading goes on later
			id   uploadID
			r    io.ReadCloser
			want []byte
		}
		var holds []held
		defer func() {
			for _, h := range holds {
				h.r.Close()
			}
		}()
		read := func(id uploadID, r io.ReadCloser, want []byte, when string) {
			got, err := io.ReadAll(r)
			if err != nil {
				t.Fatalf("reading merged upload %v%s: %v", id, when, err)
			}
			if err := r.Close(); err != nil {
				t.Fatalf("closing merged upload %v%s: %v", id, when, err)
			}
			if !bytes.Equal(got, want) {
				t.Fatalf("merged upload %v has wrong content%s (%d bytes, want %d)\n got  %.200q\n want %.200q\n%s", id, when, len(got), len(want), got, want, hist)
			}
		}
		checkFull := func(id uploadID, sum int) bool {
			want := full(id, sum)
			if got := file(id, sum).IsFull(); got != want {
				t.Fatalf("upload %v with %d parts: full %v, want %v (written %v)\n%s", id, sum, got, want, keysOf(model[id]), hist)
			}
			return want
		}
		mergeAndCheck := func(id uploadID, sum int) {
			merges++
			hist += fmt.Sprintf("merge%v/%d ", id, sum)
			r, err := file(id, sum).Merge()
			if err != nil {
				t.Fatalf("merging full upload %v: %v", id, err)
			}
			var want []byte
			for s := 1; s <= sum; s++ {
				want = append(want, model[id][s]...)
			}
			switch k := g.Int("read", 0, 3); {
			case k == 2: // later
				holds = append(holds, held{id, r, want})
				hist += "(held) "
			case k == 3 && len(want) > 1: // a little now, the rest later
				head := make([]byte, g.Int("head", 1, len(want)-1))
				if _, err := io.ReadFull(r, head); err != nil || !bytes.Equal(head, want[:len(head)]) {
					t.Fatalf("merged upload %v of %d parts begins %.200q, want %.200q (%v)\n%s", id, sum, head, want, err, hist)
				}
				holds = append(holds, held{id, r, want[len(head):]})
				hist += "(begun) "
			default:
				read(id, r, want, fmt.Sprintf(" of %d parts", sum))
			}
			delete(model, id)
			if checkFull(id, sum) {
				t.Fatal("model error")
			}
		}
		ops := g.Int("ops", 1, 25)
		for i := 0; i < ops; i++ {
			id := ids[g.Int("who", 0, len(ids)-1)]
			sum := sums[id]
			switch g.Int("op", 0, 8) {
			case 8: // read on
				if len(holds) > 0 {
					k := g.Int("held", 0, len(holds)-1)
					h := holds[k]
					holds = append(holds[:k:k], holds[k+1:]...)
					read(h.id, h.r, h.want, " when read later")
				}
			case 0: // ask
				checkFull(id, sum)
			case 1: // ask about another total
				checkFull(id, max(1, sum+g.Int("d", -2, 2)))
				if g.Int("huge", 0, 5) == 5 {
					checkFull(id, []int{255, 256, 32767, 32768, 65534, 65535}[g.Uniform("huge.n", 6)])
				}
			case 2, 3: // one part, possibly beyond the total or repeated
				seq := g.Int("seq", 1, sum)
				if g.Int("beyond", 0, 5) == 5 {
					seq = sum + g.Int("by", 1, 30)
				} else if g.Int("far", 0, 5) == 5 {
					// far beyond, also where a narrower number would come back into 1..N
					seq = min(65535, seq+[]int{256, 512, 32768, 65280, 65535}[g.Uniform("far.by", 5)])
				}
				hist += fmt.Sprintf("w%v#%d ", id, seq)
				write(id, sum, seq, data(seq))
			case 4: // the rest in some order, then merge
				var missing []int
				for s := 1; s <= sum; s++ {
					if _, ok := model[id][s]; !ok {
						missing = append(missing, s)
					}
				}
				if g.Bool("rev") {
					sort.Sort(sort.Reverse(sort.IntSlice(missing)))
				} else if len(missing) > 1 {
					k := g.Int("rot", 0, len(missing)-1)
					missing = append(missing[k:len(missing):len(missing)], missing[:k]...)
				}
				var fill []byte
				if len(missing) > 12 {
					fill = g.Blob("fill", 60)
				}
				for k, s := range missing {
					if k == len(missing)-1 || k == len(missing)/2 {
						if checkFull(id, sum) {
							t.Fatal("model error")
						}
					}
					if fill != nil {
						write(id, sum, s, append([]byte(fmt.Sprintf("%d:", s)), fill...))
					} else {
						write(id, sum, s, data(s))
					}
				}
				hist += fmt.Sprintf("fill%v/%d ", id, sum)
				if !checkFull(id, sum) {
					t.Fatal("model error")
				}
				mergeAndCheck(id, sum)
			case 5: // new total for the next upload
				if len(model[id]) == 0 {
					sums[id] = max(1, g.Size("sum", 12, 40))
				}
			default: // merge when complete
				if checkFull(id, sum) {
					mergeAndCheck(id, sum)
				}
			}
		}
		for _, id := range ids {
			checkFull(id, sums[id])
		}
		// finish what is pending
		for _, id := range ids {
			if len(model[id]) == 0 {
				continue
			}
			for s := 1; s <= sums[id]; s++ {
				if _, ok := model[id][s]; !ok {
					write(id, sums[id], s, []byte{byte(s)})
				}
			}
			mergeAndCheck(id, sums[id])
		}
		late := len(holds)
		for ; len(holds) > 0; holds = holds[1:] {
			read(holds[0].id, holds[0].r, holds[0].want, " when read last")
		}
		if late > 0 {
			stat.Label("read-after-later-operations", 1)
		}
		stat.Case(merges > 0, stat.Hash(hist, fmt.Sprint(ids)), func() string { return fmt.Sprintf("%d uploads, %d merges: %s", len(ids), merges, hist) }, fmt.Sprintf("merges-%d", min(merges, 5)))
	})
}

// Uploads of any number of parts up to the 65535 the header can express.
func TestC16_Large(t *testing.T) {
	root := os.Getenv("TMPDIR")
	if root == "" || os.Getenv("VERIF_SCRATCH") != root {
		t.Fatal("needs a scratch TMPDIR (VERIF_SCRATCH)")
	}
	check(t, 0.0001, func(t *rapid.T, g *gen.G) {
		n := []int{65535, 32768, 32767, 32769, 40000, 256, 255, 257}[g.Uniform("n", 8)]
		if g.Int("any", 0, 2) == 2 {
			n = 1 + g.Uniform("n.any", 65535)
		}
		m := go808.MultipartFile{IccID: 900000000000 + uint64(g.Uniform("icc", 1000)), MsgID: 0x0801, Tag: g.U32("tag"), Sum: uint16(n)}
		dir := filepath.Join(root, "go808", fmt.Sprint(m.IccID))
		defer os.RemoveAll(dir)
		step := g.Int("step", 1, 97)
		for n%step == 0 && step > 1 || gcd(n, step) != 1 {
			step++
		}
		last := g.Uniform("last", n)
		part := func(seq int) []byte { return []byte{byte(seq >> 8), byte(seq)}[:1+seq%2] }
		var want []byte
		for s := 1; s <= n; s++ {
			want = append(want, part(s)...)
		}
		for k := 0; k < n; k++ {
			seq := (last+(k+1)*step)%n + 1
			stat.Alive()
			if k == n-1 && m.IsFull() {
				t.Fatalf("upload of %d parts is full without part %d", n, seq)
			}
			if err := m.Write(uint16(seq), part(seq)); err != nil {
				t.Fatalf("part %d of %d: %v", seq, n, err)
			}
		}
		if !m.IsFull() {
			t.Fatalf("upload of %d parts is not full", n)
		}
		stat.Alive()
		r, err := m.Merge()
		if err != nil {
			t.Fatalf("merging %d parts: %v", n, err)
		}
		got, err := io.ReadAll(r)
		r.Close()
		if err != nil || !bytes.Equal(got, want) {
			t.Fatalf("merged upload of %d parts has wrong content (%d bytes, want %d; %v)", n, len(got), len(want), err)
		}
		if m.IsFull() {
			t.Fatalf("upload of %d parts is still full after merging", n)
		}
		stat.Case(true, stat.Hash(n, step, last), func() string { return fmt.Sprintf("upload of %d parts", n) }, "large-upload")
	})
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func keysOf(m map[int][]byte) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
