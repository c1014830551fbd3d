package srv

import (
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"sync"
	"syscall"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// fileLimit makes writes beyond n bytes of a file fail, as on a full disk.
func fileLimit(n uint64) (restore func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		harnessTrouble("getrlimit: %v", err)
	}
	if n > old.Max {
		n = old.Max
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}); err != nil {
		harnessTrouble("setrlimit: %v", err)
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			harnessTrouble("setrlimit: %v", err)
		}
	}
}

// C23: parts that cannot be stored are refused and do not spoil the upload.
func TestC23_Server(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		os.RemoveAll(filepath.Join(os.TempDir(), "go808"))
		w := serve(t, go808.Options{AutoMergePacket: true})
		defer w.stop()
		var mu sync.Mutex
		var got []string
		w.s.AddHandler(0x0801, func(s *go808.Session, m *protocol.Message) {
			b := m.Body.(*protocol.T808_0x0801)
			text := fmt.Sprintf("tag %d: no reader", b.MediaID)
			if b.Packet != nil {
				data, err := io.ReadAll(b.Packet)
				text = fmt.Sprintf("tag %d: %x %v", b.MediaID, data, err)
			}
			mu.Lock()
			got = append(got, text)
			mu.Unlock()
		})
		c := w.connect()
		c.phone = 138
		sum := g.Int("sum", 1, 4)
		have := map[int][]byte{}
		faults, completed, desc := 0, 0, ""
		version := byte(0)
		send := func(seq, n int, limit int) {
			version++
			payload := make([]byte, n)
			for i := range payload {
				payload[i] = version
			}
			h := c.header(0x0801)
			h.Prop |= ref.BitPacket
			h.Sum, h.Seq = uint16(sum), uint16(seq)
			before := c.count()
			mu.Lock()
			calls := len(got)
			mu.Unlock()
			func() {
				if limit >= 0 {
					defer fileLimit(uint64(limit))()
				}
				c.write(ref.Frame(h, mediaPart(5, payload)))
				c.waitFrames(before + 1)
				c.fence(t)
			}()
			desc += fmt.Sprintf("part %d of %d, %d bytes, limit %d", seq, sum, n, limit)
			fs := c.frames()[before:]
			if len(fs) != 1 || fs[0].h.ID != 0x8001 || len(fs[0].body) != 5 {
				t.Fatalf("the part was answered %v\n%s", fs, desc)
			}
			serial, id, result := uint16(fs[0].body[0])<<8|uint16(fs[0].body[1]), uint16(fs[0].body[2])<<8|uint16(fs[0].body[3]), fs[0].body[4]
			desc += fmt.Sprintf(": result %d; ", result)
			if serial != h.Serial || id != h.ID {
				t.Fatalf("the part %d was answered with serial number %d of %x\n%s", h.Serial, serial, id, desc)
			}
			switch {
			case result == 0:
				have[seq] = payload
			case limit < 0:
				t.Fatalf("the part was answered with result %d\n%s", result, desc)
			case result != 1:
				t.Fatalf("a part that could not be stored was answered with result %d, want 1 (failure)\n%s", result, desc)
			default:
				faults++
			}
			mu.Lock()
			new := append([]string(nil), got[calls:]...)
			mu.Unlock()
			full := len(have) == sum
			var whole []byte
			for i := 1; i <= sum; i++ {
				whole = append(whole, have[i]...)
			}
			want := fmt.Sprintf("tag 5: %x <nil>", whole)
			switch {
			case len(new) == 0 && full && result == 0 && limit < 0:
				t.Fatalf("the upload is complete and was not delivered\n%s", desc)
			case len(new) == 0 && full:
				faults++ // merging failed
				stat.Label("failed-merge", 1)
			case len(new) == 0:
			case !full:
				t.Fatalf("an incomplete upload was delivered: %.300s\n%s", new[0], desc)
			case len(new) > 1 || new[0] != want:
				t.Fatalf("delivered %.300s\nwant %.300s\n%s", new, want, desc)
			default:
				have = map[int][]byte{}
				completed++
			}
		}
		for n := g.Int("parts", 2, 10); n > 0; n-- {
			limit := -1
			if g.Int("fault", 0, 1) == 1 {
				limit = g.Size("limit", 100, 1200)
			}
			seq := g.Int("seq", 1, sum)
			if g.Int("missing", 0, 2) > 0 { // rather one that is missing
				for s := 1; s <= sum; s++ {
					if _, ok := have[s]; !ok {
						seq = s
						break
					}
				}
			}
			send(seq, g.Size("len", 100, 980), limit)
		}
		for s := 1; s <= sum; s++ {
			if _, ok := have[s]; !ok || len(have) == sum {
				send(s, 3, -1)
				if len(have) == 0 {
					break
				}
			}
		}
		stat.Case(faults > 0, stat.Hash(desc), func() string { return fmt.Sprintf("%d faults, %d delivered: %.400s", faults, completed, desc) }, fmt.Sprintf("faults-%d", min(faults, 5)))
	})
}
