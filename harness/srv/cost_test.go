package srv

import (
	"bufio"
	"bytes"
	"fmt"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// forgetful is a terminal that answers requests and keeps nothing.
type forgetful struct {
	*client
	got int64
}

func (w *world) forgetful() *forgetful {
	f := &forgetful{client: w.dial()}
	go func() {
		r := bufio.NewReader(f.conn)
		var frame []byte
		for {
			b, err := r.ReadByte()
			if err != nil {
				f.mu.Lock()
				f.eof = true
				f.mu.Unlock()
				return
			}
			frame = append(frame, b)
			if b != 0x7e || len(frame) == 1 {
				continue
			}
			h, _, _, err := ref.Parse(frame)
			frame = frame[:0]
			if err == nil && h.ID == 0x8104 {
				f.write(ref.Frame(ref.Header{ID: 0x0001, Phone: h.Phone, Serial: h.Serial}, replyBody(h.Serial, h.ID, 0)))
			}
			atomic.AddInt64(&f.got, 1)
		}
	}()
	return f
}

// held is what the process holds on to, looked at until it is no more than
// enough (ended connections take a moment to go).
func held(enough uint64) uint64 {
	var m runtime.MemStats
	low := ^uint64(0)
	for i := 0; i < 60 && (i < 3 || low > enough); i++ {
		if i > 0 {
			time.Sleep(time.Duration(min(i, 10)) * 5 * time.Millisecond)
		}
		runtime.GC()
		runtime.ReadMemStats(&m)
		if m.HeapAlloc < low {
			low = m.HeapAlloc
		}
	}
	return low
}

// C28: what a server holds depends on its connections, not on what they have sent.
func TestC28_Held(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		var answered int64
		w := serve(t, go808.Options{Keepalive: 600})
		defer w.stop()
		w.s.AddHandler(0x0002, func(s *go808.Session, m *protocol.Message) { s.Reply(m, 0) })
		w.s.AddHandler(0x0200, func(s *go808.Session, m *protocol.Message) {})
		w.s.AddHandler(0x0004, func(s *go808.Session, m *protocol.Message) {})
		w.s.AddHandler(0x0102, func(s *go808.Session, m *protocol.Message) {
			s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) { atomic.AddInt64(&answered, 1) })
		})
		kinds := []string{"heartbeat", "location", "undecodable", "unknown", "request", "fragments", "changing numbers", "unfinished", "noise", "connections"}
		n := g.Int("connections", 1, 4)
		plan := ""
		total, endless := 0, 0
		type burst struct {
			kind   string
			frames int
			size   int
		}
		var plans [][]burst
		for i := 0; i < n; i++ {
			var bs []burst
			for k := g.Int("bursts", 2, 5); k > 0; k-- {
				b := burst{kinds[g.Uniform("kind", len(kinds))], g.Int("frames", 1000, 5000), 0}
				switch b.kind {
				case "unfinished", "noise":
					b.size = g.Int("KB", 300, 3000) << 10
					endless++
				case "connections":
					b.frames = b.frames/40 + 10
				default:
					total += b.frames
				}
				bs = append(bs, b)
				plan += fmt.Sprintf("%d:%s x%d+%d; ", i, b.kind, b.frames, b.size)
			}
			plans = append(plans, bs)
		}
		loc := g.LocationWith(nil)
		run := func(f *forgetful, b burst, warm bool) *forgetful {
			if warm {
				b.frames, b.size = min(b.frames, 60), min(b.size, 70000)
			}
			again := func() {
				f.conn.Close()
				phone := f.phone
				f = w.forgetful()
				f.phone = phone
			}
			if b.kind == "unfinished" || b.kind == "noise" {
				chunk := bytes.Repeat([]byte{g.U8("fill") | 1}, 8192)
				if b.kind == "unfinished" {
					f.write([]byte{0x7e})
				}
				for sent := 0; sent < b.size; sent += len(chunk) {
					f.conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
					if _, err := f.conn.Write(chunk); err != nil {
						break
					}
				}
				return f
			}
			for done := 0; done < b.frames; {
				if f.ended() {
					again()
				}
				if b.kind == "connections" {
					f.send(0x0002, nil)
					again()
					done++
					continue
				}
				var out []byte
				before := atomic.LoadInt64(&f.got)
				k, want := 12, int64(0)
				for i := 0; i < k; i++ {
					h := f.header(0x0002)
					var body []byte
					switch b.kind {
					case "heartbeat":
						want++
					case "location":
						h.ID, body = 0x0200, loc.Wire
					case "undecodable":
						h.ID, body = 0x0200, []byte{1, 2, byte(i)}
						want++
					case "unknown":
						h.ID, body = 0x0fff-uint16(i), []byte{1, 2, 3}
						want++
					case "request":
						h.ID, body = 0x0102, []byte("key")
						want++
					case "fragments":
						h.ID, body = 0x0801, append([]byte{0, 0, 0, byte(i), 0, 0, 0, 0}, loc.Wire...)
						h.Prop, h.Sum, h.Seq = ref.BitPacket, 50, uint16(i)+1
					case "changing numbers":
						h.Phone = uint64(done+i) % 1000
						want++
					}
					out = append(out, ref.Frame(h, body)...)
				}
				f.write(out)
				eventually(func() bool { return atomic.LoadInt64(&f.got) >= before+want || f.ended() })
				done += k
			}
			return f
		}
		var fs []*forgetful
		for i := 0; i < n; i++ {
			f := w.forgetful()
			f.phone = uint64(i + 1)
			fs = append(fs, f)
		}
		settle := func() {
			for i, f := range fs {
				if f.ended() {
					f.conn.Close()
					fs[i] = w.forgetful()
					fs[i].phone = f.phone
				}
			}
			for i := range fs {
				for try := 0; ; try++ {
					f := fs[i]
					h := f.header(fenceID)
					f.write(ref.Frame(h, nil))
					ok := eventually(func() bool {
						w.mu.Lock()
						defer w.mu.Unlock()
						return w.fences[fenceKey{h.Phone, h.Serial}] != nil || f.ended()
					})
					w.mu.Lock()
					s := w.fences[fenceKey{h.Phone, h.Serial}]
					w.fences = map[fenceKey]*go808.Session{}
					w.mu.Unlock()
					if s != nil {
						break
					}
					if try > 3 {
						t.Fatalf("connection %d is not served any more (in time %v)", i, ok)
					}
					f.conn.Close()
					fs[i] = w.forgetful()
					fs[i].phone = f.phone
				}
			}
			w.mu.Lock()
			w.closed = map[*go808.Session]int{}
			w.clients = nil
			for _, f := range fs {
				w.clients = append(w.clients, f.client)
			}
			w.mu.Unlock()
		}
		for i := range fs {
			for _, k := range kinds {
				fs[i] = run(fs[i], burst{k, 60, 70000}, true)
			}
		}
		settle()
		before := held(^uint64(0))
		for i := range fs {
			for _, b := range plans[i] {
				fs[i] = run(fs[i], b, false)
			}
		}
		settle()
		limit := before + 160<<10
		after := held(limit)
		stat.Case(total > 1000, stat.Hash(plan), func() string { return fmt.Sprintf("%s held %d -> %d", plan, before, after) }, "held")
		if after > limit {
			t.Fatalf("after %d more messages and %d endless streams on %d connections, %d bytes are held instead of %d: %s", total, endless, n, after, before, plan)
		}
	})
}
