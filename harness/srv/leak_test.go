package srv

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// openFiles lists the sockets and upload files this process has open (not what
// the Go runtime opens for itself at times).
func openFiles() map[string]int {
	out := map[string]int{}
	tmp := os.TempDir()
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		harnessTrouble("/proc/self/fd: %v", err)
	}
	for _, e := range l {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (strings.HasPrefix(s, "socket:") || strings.HasPrefix(s, tmp)) {
			out[s]++
		}
	}
	return out
}

// more tells what is open now and was not before.
func more(before map[string]int) []string {
	var out []string
	for s, n := range openFiles() {
		if n > before[s] {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func settledGoroutines() int {
	n, same := runtime.NumGoroutine(), 0
	for i := 0; i < 400 && same < 8; i++ {
		time.Sleep(time.Millisecond)
		if k := runtime.NumGoroutine(); k == n {
			same++
		} else {
			n, same = k, 0
		}
	}
	return n
}

// C24: connections and uploads that are over leave no goroutines and no open files.
func TestC24_Leaks(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		defer debug.SetGCPercent(debug.SetGCPercent(-1)) // the collector would close forgotten files
		defer runtime.GC()
		os.RemoveAll(filepath.Join(os.TempDir(), "go808"))
		atRest := openFiles()
		var calls int64
		upload := g.Int("upload-handler", 0, 3)
		w := serve(t, go808.Options{AutoMergePacket: g.Int("merge", 0, 3) > 0})
		stopped := false
		defer func() {
			if !stopped {
				w.stop()
			}
		}()
		w.s.AddHandler(0x0801, func(s *go808.Session, m *protocol.Message) {
			atomic.AddInt64(&calls, 1)
			b := m.Body.(*protocol.T808_0x0801)
			switch {
			case b.Packet == nil || upload == 1: // not read
			case upload == 2: // read a little
				b.Packet.Read(make([]byte, 3))
			case upload == 3:
				panic("upload handler gives up")
			default:
				io.ReadAll(b.Packet)
			}
		})
		w.s.AddHandler(0x0002, func(s *go808.Session, m *protocol.Message) { s.Reply(m, 0) })
		// one connection that has come and gone
		warm := w.connect()
		warm.phone = 1
		s := warm.fence(t)
		warm.conn.Close()
		if !eventually(func() bool { return w.closes(s) == 1 && warm.ended() }) {
			t.Fatalf("the close handler ran %d times", w.closes(s))
		}
		steady := settledGoroutines()
		files := openFiles()
		desc := ""
		kinds := []string{"client closes", "session closed", "bad frame", "noise", "half a frame", "flood", "pending requests", "unread", "close twice", "upload", "failed upload", "silent"}
		closed := 0
		n := g.Int("connections", 1, 8)
		var open []*client
		end := func(c *client, s *go808.Session, what string) {
			desc += what + "; "
			closed++
			switch what {
			case "client closes", "silent":
				c.conn.Close()
			case "session closed":
				s.Close()
			case "close twice":
				go s.Close()
				c.conn.Close()
				s.Close()
			case "bad frame":
				f := ref.Frame(c.header(0x0002), nil)
				f[5] ^= 0x55
				c.write(f)
			case "noise":
				c.write([]byte{1, 2, 3})
			case "half a frame":
				f := ref.Frame(c.header(0x0002), nil)
				c.write(f[:7])
				c.conn.Close()
			case "flood", "unread": // until the queue overflows
				for i := 0; i < 200000; i++ {
					if _, err := s.Send(&protocol.T808_0x8300{Text: strings.Repeat("x", 900)}); err != nil {
						break
					}
				}
				c.conn.Close()
			case "pending requests":
				for i := 0; i < 5; i++ {
					s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {})
					s.Request(&protocol.T808_0x8201{}, func(*protocol.Message) {})
				}
				c.conn.Close()
			case "upload", "failed upload":
				func() {
					if what == "failed upload" {
						defer fileLimit(uint64(g.Int("limit", 0, 60)))()
					}
					for up := g.Int("uploads", 1, 3); up > 0; up-- {
						sum := g.Int("sum", 1, 4)
						for i := 1; i <= sum; i++ {
							h := c.header(0x0801)
							h.Prop |= ref.BitPacket
							h.Sum, h.Seq = uint16(sum), uint16(i)
							c.write(ref.Frame(h, mediaPart(uint32(up), make([]byte, g.Int("len", 0, 100)))))
						}
						c.fence(t)
					}
				}()
				c.conn.Close()
			}
		}
		for i := 0; i < n; i++ {
			what := kinds[g.Uniform("ending", len(kinds))]
			c := w.dial()
			c.phone = uint64(100 + i)
			if what == "silent" {
				end(c, nil, what)
				continue
			}
			if what != "unread" {
				c.start()
			}
			s := c.fence(t)
			for k := g.Int("beats", 0, 3); k > 0; k-- {
				c.send(0x0002, nil)
			}
			if g.Int("stays", 0, 4) == 4 {
				open = append(open, c)
				desc += "stays; "
				continue
			}
			end(c, s, what)
			if !eventually(func() bool { return w.closes(s) > 0 }) {
				t.Fatalf("a connection that ended (%s) was not reported closed\n%s", what, desc)
			}
			c.conn.Close() // in case the server closed first
		}
		for _, c := range open {
			c.fence(t)
		}
		if g.Bool("close-all") {
			for _, c := range open {
				c.conn.Close()
			}
			if !eventually(func() bool { return runtime.NumGoroutine() <= steady }) {
				buf := make([]byte, 1<<18)
				t.Fatalf("after %d connections have ended, %d goroutines are left over\n%s\n%s", n, runtime.NumGoroutine()-steady, desc, buf[:runtime.Stack(buf, true)])
			}
			if !eventually(func() bool { return len(more(files)) == 0 }) {
				t.Fatalf("after %d connections have ended, these files are left open: %v\n%s", n, more(files), desc)
			}
			desc += "all closed; "
		}
		stopped = true
		w.s.Stop()
		for _, c := range open {
			c.conn.Close()
		}
		if !eventually(func() bool { return runtime.NumGoroutine() <= steady && len(more(atRest)) == 0 }) {
			t.Fatalf("after stopping the server, these files are left open: %v, and %d goroutines more than before\n%s", more(atRest), runtime.NumGoroutine()-steady, desc)
		}
		stat.Case(closed > 0, stat.Hash(desc, upload), func() string { return fmt.Sprintf("%d connections, %d uploads handled: %s", n, calls, desc) }, fmt.Sprintf("connections-%d", n))
	})
}
