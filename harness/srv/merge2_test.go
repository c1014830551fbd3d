package srv

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// C17: the parts of an upload arrive over several connections of the terminal
// at the same time (it reconnects while the old connection still delivers), and
// a connection carries the uploads of several terminals (it is a gateway).
func TestC17_Connections(t *testing.T) {
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		os.RemoveAll(filepath.Join(os.TempDir(), "go808"))
		w := serve(t, go808.Options{AutoMergePacket: true})
		defer w.stop()
		var mu sync.Mutex
		got := map[string]int{}
		w.s.AddHandler(0x0801, func(s *go808.Session, m *protocol.Message) {
			b := m.Body.(*protocol.T808_0x0801)
			text := fmt.Sprintf("tag %d: no reader", b.MediaID)
			if b.Packet != nil {
				data, err := io.ReadAll(b.Packet)
				text = fmt.Sprintf("tag %d: %x %v", b.MediaID, data, err)
			}
			text = fmt.Sprintf("terminal %d ", m.Header.IccID) + text
			mu.Lock()
			got[text]++
			mu.Unlock()
		})
		cs := make([]*client, g.Int("connections", 1, 4))
		for i := range cs {
			cs[i] = w.connect()
			cs[i].phone, cs[i].serial = 138, uint16(i*10000) // fences are told apart by serial number
			cs[i].fence(t)
		}
		desc := ""
		want := map[string]int{}
		total := 0
		for round := g.Int("rounds", 1, 5); round > 0; round-- {
			out := make([][][]byte, len(cs))
			sent := make([]int, len(cs))
			type piece struct {
				phone    uint64
				tag      uint32
				sum, seq int
				payload  []byte
			}
			var parts []piece
			for up := g.Int("uploads", 1, 3); up > 0; up-- {
				tag := uint32(100*up + 7) // the same tags again in every round
				phone := uint64(138)      // connections may carry several terminals
				if g.Int("phone", 0, 2) == 2 {
					phone = 138 + uint64(up)
					tag = 107
				} else if g.Int("phone", 0, 5) == 5 {
					phone = 0 // the header of a terminal without a number
				}
				sum := g.Int("sum", 1, 6)
				if up == 1 && round == 1 && g.Int("large", 0, 7) == 7 {
					sum = g.Int("sum", 250, 520)
				}
				var whole []byte
				for seq := 0; seq < sum; seq++ {
					payload := append([]byte{byte(round), byte(seq >> 8), byte(seq)}, g.Blob("payload", 20)...)
					whole = append(whole, payload...)
					parts = append(parts, piece{phone, tag, sum, seq, payload})
				}
				want[fmt.Sprintf("terminal %d tag %d: %x <nil>", phone, tag, whole)]++
				total++
			}
			for i := len(parts) - 1; i > 0; i-- {
				j := g.Uniform("perm", i+1)
				parts[i], parts[j] = parts[j], parts[i]
			}
			for _, p := range parts {
				k := g.Uniform("over", len(cs))
				h := cs[k].header(0x0801)
				h.Prop |= ref.BitPacket
				h.Sum, h.Seq = uint16(p.sum), uint16(p.seq+1)
				h.Phone = p.phone
				out[k] = append(out[k], ref.Frame(h, mediaPart(p.tag, p.payload)))
				sent[k]++
				desc += fmt.Sprintf("%d/%d/%d of %d on %d; ", p.phone, p.tag, p.seq+1, p.sum, k)
			}
			var wg sync.WaitGroup
			before := make([]int, len(cs))
			for k, c := range cs {
				before[k] = c.count()
				wg.Add(1)
				go func() {
					defer wg.Done()
					// the platform hangs up on a terminal with more than 24 answers to come
					for n, f := 0, out[k]; len(f) > 0; {
						m := min(len(f), 18)
						c.write(bytes.Join(f[:m], nil))
						f = f[m:]
						if n += m; !c.waitFrames(before[k] + n) {
							return
						}
					}
				}()
			}
			wg.Wait()
			for k, c := range cs {
				c.waitFrames(before[k] + sent[k])
				c.fence(t)
				fs := c.frames()[before[k]:]
				if len(fs) != sent[k] {
					t.Fatalf("connection %d: %d answers to %d parts\n%s", k, len(fs), sent[k], desc)
				}
				for _, f := range fs {
					if f.h.ID != 0x8001 || len(f.body) != 5 || f.body[4] != 0 {
						t.Fatalf("connection %d: a part was answered %v\n%s", k, f, desc)
					}
				}
			}
			mu.Lock()
			a, b := fmt.Sprint(got), fmt.Sprint(want)
			mu.Unlock()
			if a != b {
				t.Fatalf("handler calls %s\nwant %s\n%s", a, b, desc)
			}
		}
		stat.Case(total > 0, stat.Hash(desc), func() string { return fmt.Sprintf("%d connections: %.400s", len(cs), desc) }, "several-connections")
	})
}
