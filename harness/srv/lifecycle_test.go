package srv

import (
	"crypto/rsa"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/keys"
	"verifharness/ref"
	"verifharness/stat"
)

// returned waits for the end of a Run.
func returned(c chan error) (err error, ok bool) {
	ok = eventually(func() bool {
		select {
		case err = <-c:
			return true
		default:
			return false
		}
	})
	return
}

// try runs a server that is expected to refuse.
func try(s *go808.Server, network string, port int) (err error, ok bool) {
	c := make(chan error, 1)
	go func() { c <- s.Run(network, port) }()
	return returned(c)
}

// C30: servers started, stopped and started again, and started in vain.
func TestC30_Lifecycle(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		type link struct {
			c *client
			s *go808.Session
		}
		type life struct {
			w        *world
			running  bool
			lives    []link
			gone     []*go808.Session
			handlers map[uint16]int
			closes   int
			merge    bool
			key      bool
		}
		var mu sync.Mutex
		calls := map[fenceKey]string{}
		var servers []*life
		for i := g.Int("servers", 1, 2); i > 0; i-- {
			l := &life{running: true, handlers: map[uint16]int{}, merge: g.Bool("merge"), key: g.Bool("key")}
			o := go808.Options{AutoMergePacket: l.merge}
			if l.key {
				o.PrivateKey = keys.A()
			}
			l.w = serve(t, o)
			defer l.w.stop()
			l.w.s.AddHandler(0x0801, func(s *go808.Session, m *protocol.Message) {
				b := m.Body.(*protocol.T808_0x0801)
				data, err := io.ReadAll(b.Packet)
				mu.Lock()
				calls[fenceKey{m.Header.IccID, m.Header.MsgSerialNo}] += fmt.Sprintf("upload %d %x %v ", b.MediaID, data, err)
				mu.Unlock()
			})
			servers = append(servers, l)
		}
		desc := ""
		version, phones, restarts := 0, uint64(0), 0
		tag, wants := uint32(0), map[fenceKey]string{}
		os.RemoveAll(filepath.Join(os.TempDir(), "go808"))
		// settled: what a server shows is what it should be
		settled := func() {
			for i, l := range servers {
				for _, x := range l.lives {
					if got, ok := l.w.s.GetSession(x.s.ID()); !ok || got != x.s || l.w.closes(x.s) != 0 {
						t.Fatalf("server %d: live session %d can be looked up: %v, closed %d times\n%s", i, x.s.ID(), ok, l.w.closes(x.s), desc)
					}
				}
				for _, s := range l.gone {
					for j, o := range servers {
						if _, ok := o.w.s.GetSession(s.ID()); ok {
							t.Fatalf("server %d: session %d of an ended connection of server %d can be looked up\n%s", j, s.ID(), i, desc)
						}
					}
				}
				for j, o := range servers {
					if i == j {
						continue
					}
					for _, x := range l.lives {
						if _, ok := o.w.s.GetSession(x.s.ID()); ok {
							t.Fatalf("session %d of server %d can be looked up at server %d\n%s", x.s.ID(), i, j, desc)
						}
					}
				}
				if n := l.w.totalCloses(); n != l.closes {
					t.Fatalf("server %d: %d connections ended, the close handler ran %d times\n%s", i, l.closes, n, desc)
				}
			}
		}
		for n := g.Int("ops", 2, 9); n > 0; n-- {
			k := g.Uniform("server", len(servers))
			l := servers[k]
			say := func(f string, a ...interface{}) { desc += fmt.Sprintf("%d: ", k) + fmt.Sprintf(f, a...) + "; " }
			switch op := g.Int("op", 0, 9); {
			case op <= 1: // stop, or stop again
				again := g.Bool("twice")
				say("stop (running %v, twice %v)", l.running, again)
				done := make(chan error, 2)
				go func() { l.w.s.Stop(); done <- nil }()
				if again {
					go func() { l.w.s.Stop(); done <- nil }()
					if _, ok := returned(done); !ok {
						t.Fatalf("Stop does not return\n%s", desc)
					}
				}
				if _, ok := returned(done); !ok {
					t.Fatalf("Stop does not return\n%s", desc)
				}
				if !l.running {
					break
				}
				l.running = false
				if err, ok := returned(l.w.runErr); !ok || err == nil {
					t.Fatalf("Run has not returned with an error after Stop: %v %v\n%s", err, ok, desc)
				}
				for _, x := range l.lives {
					if !eventually(func() bool { return x.c.ended() }) {
						t.Fatalf("a client is still connected after the server stopped\n%s", desc)
					}
					if no, err := x.s.Send(&protocol.T808_0x8104{}); err == nil {
						t.Fatalf("a session of a stopped server sends: %d\n%s", no, desc)
					}
					if _, err := x.s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {}); err == nil {
						t.Fatalf("a session of a stopped server makes requests\n%s", desc)
					}
					l.gone = append(l.gone, x.s)
					l.closes++
				}
				l.lives = nil
				// its port is free again
				var ln net.Listener
				var err error
				if !eventually(func() bool { ln, err = net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", l.w.port)); return err == nil }) {
					t.Fatalf("the port is still taken after Stop: %v\n%s", err, desc)
				}
				ln.Close()
			case op == 2 && !l.running || op == 3 && !l.running: // start again
				say("start")
				restarts++
				if g.Bool("same") && len(l.gone) > 0 {
					errs := make(chan error, 1)
					port := l.w.port
					go func() { errs <- l.w.s.Run("tcp", port) }()
					l.w.runErr = errs
					if !l.w.listening() {
						l.w.run() // someone else was faster
					}
				} else {
					l.w.run()
				}
				l.running = true
			case op == 4 && l.running: // start twice
				say("start while running")
				if err, ok := try(l.w.s, "tcp", pickPort()); !ok || err == nil {
					t.Fatalf("the second Run of a running server: returned %v, %v\n%s", ok, err, desc)
				}
			case op == 5 && !l.running: // start in vain
				ln, err := net.Listen("tcp", "0.0.0.0:0")
				if err != nil {
					harnessTrouble("listen: %v", err)
				}
				port, network := ln.Addr().(*net.TCPAddr).Port, "tcp"
				switch g.Int("vain", 0, 2) {
				case 1:
					port = 65536 + g.Int("port", 0, 1000)
				case 2:
					network, port = "nothing", 1
				}
				say("start on %s %v in vain", network, port > 65535)
				err, ok := try(l.w.s, network, port)
				ln.Close()
				if !ok || err == nil {
					t.Fatalf("Run on %s port %d: returned %v, %v\n%s", network, port, ok, err, desc)
				}
			case op == 6: // a handler, whether running or not
				id := []uint16{0x0002, 0x0102, 0x0100}[g.Uniform("id", 3)]
				version++
				me := version
				l.handlers[id] = me
				say("handler %d for %04x", me, id)
				l.w.s.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
					mu.Lock()
					calls[fenceKey{m.Header.IccID, m.Header.MsgSerialNo}] += fmt.Sprintf("server %d handler %d ", k, me)
					mu.Unlock()
				})
			case op == 7 && len(l.lives) > 0 && l.running:
				i := g.Uniform("who", len(l.lives))
				x := l.lives[i]
				say("connection %d ends", i)
				l.lives = append(l.lives[:i:i], l.lives[i+1:]...)
				l.closes++
				l.gone = append(l.gone, x.s)
				if g.Bool("close") {
					x.s.Close()
				} else {
					x.c.conn.Close()
				}
				if !eventually(func() bool { return l.w.closes(x.s) == 1 }) {
					t.Fatalf("a connection ended, the close handler ran %d times\n%s", l.w.closes(x.s), desc)
				}
			case l.running: // a terminal connects
				say("connect")
				c := l.w.connect()
				phones++
				c.phone = phones
				l.lives = append(l.lives, link{c, c.fence(t)})
			}
			settled()
			// all that are connected are served, by the handlers of their server
			for i, l := range servers {
				if !l.running {
					if r := l.w.s.Broadcast(&protocol.T808_0x8104{}); r != 0 {
						t.Fatalf("broadcast of a stopped server reaches %d\n%s", r, desc)
					}
					continue
				}
				if r := l.w.s.Broadcast(&protocol.T808_0x8104{}); r != len(l.lives) {
					t.Fatalf("server %d: broadcast to %d terminals reaches %d\n%s", i, len(l.lives), r, desc)
				}
				for _, x := range l.lives {
					before := x.c.serial
					ids := []uint16{0x0002, 0x0102, 0x0100}
					for _, id := range ids {
						body := []byte{}
						if id != 0x0002 {
							body = gen.Gens[id](g).Wire
						}
						h := x.c.header(id)
						if l.key && len(body) > 0 && len(body) <= 600 && g.Bool("encrypted") {
							body = oaep(&keys.A().PublicKey, body, 86)
							h.Prop |= ref.BitEncrypt
						}
						x.c.write(ref.Frame(h, body))
					}
					// an upload, merged where that is asked for
					tag++
					whole := ""
					for seq, pay := range [][]byte{{1, byte(tag)}, {2}} {
						h := x.c.header(0x0801)
						h.Prop |= ref.BitPacket
						h.Sum, h.Seq = 2, uint16(seq+1)
						x.c.write(ref.Frame(h, mediaPart(tag, pay)))
						whole += fmt.Sprintf("%x", pay)
						want := fmt.Sprintf("upload %d %x <nil> ", tag, pay)
						if l.merge && seq == 0 {
							want = ""
						} else if l.merge {
							want = fmt.Sprintf("upload %d %s <nil> ", tag, whole)
						}
						wants[fenceKey{h.Phone, h.Serial}] = want
					}
					// a request and its answer
					answered := int32(0)
					no, err := x.s.Request(&protocol.T808_0x8107{}, func(m *protocol.Message) { atomic.AddInt32(&answered, 1) })
					if err != nil {
						t.Fatalf("server %d: request: %v\n%s", i, err, desc)
					}
					x.c.send(0x0001, []byte{byte(no >> 8), byte(no), 0x81, 0x07, 0})
					if s := x.c.fence(t); s != x.s {
						t.Fatalf("server %d: a connection changed its session\n%s", i, desc)
					}
					if n := atomic.LoadInt32(&answered); n != 1 {
						t.Fatalf("server %d: a request was answered, its callback ran %d times\n%s", i, n, desc)
					}
					mu.Lock()
					for k, want := range wants {
						if got := calls[k]; got != want {
							mu.Unlock()
							t.Fatalf("server %d (merging %v): a part of an upload led to %q, want %q\n%s", i, l.merge, got, want, desc)
						}
						delete(wants, k)
					}
					for j, id := range ids {
						want := ""
						if v := l.handlers[id]; v != 0 {
							want = fmt.Sprintf("server %d handler %d ", i, v)
						}
						if got := calls[fenceKey{x.c.phone, before + 1 + uint16(j)}]; got != want {
							mu.Unlock()
							t.Fatalf("server %d: message %04x went to %q, want %q\n%s", i, id, got, want, desc)
						}
					}
					mu.Unlock()
				}
			}
		}
		stat.Case(restarts > 0, stat.Hash(desc, len(servers)), func() string { return desc }, fmt.Sprintf("restarts-%d", min(restarts, 3)))
	})
}

// C30: a server takes no private key that the protocol cannot use.
func TestC30_Key(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		size := g.Int("size", 1, 520)
		if g.Bool("near") {
			size = []int{64, 127, 128, 129, 256, 512}[g.Uniform("at", 6)]
		}
		b := g.Bytes("n", size)
		b[0] |= byte(1) << g.Uniform("top", 8)
		k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).SetBytes(b), E: 65537}}
		s, err := go808.NewServer(go808.Options{PrivateKey: k, Keepalive: int64(g.Int("keepalive", -3, 3))})
		stat.Case(size != 128, stat.Hash(b), func() string { return fmt.Sprintf("%d bytes: %v", size, err) }, fmt.Sprintf("key-%v", size == 128))
		switch {
		case size == 128 && (err != nil || s == nil || s.GetPrivateKey() != k):
			t.Fatalf("a key of 1024 bits is not taken: %v", err)
		case size != 128 && err == nil:
			t.Fatalf("a key of %d bytes is taken", size)
		}
	})
}
