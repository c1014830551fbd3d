package srv

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// returns runs f and tells whether it comes back.
func returns(f func()) bool {
	var done int32
	go func() {
		f()
		atomic.StoreInt32(&done, 1)
	}()
	return eventually(func() bool { return atomic.LoadInt32(&done) == 1 })
}

// C26: handlers, callbacks and close handlers that do not return and terminals
// that do not read hold up nobody else.
func TestC26_Slow(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		os.RemoveAll(filepath.Join(os.TempDir(), "go808"))
		gate := make(chan struct{})
		var once sync.Once
		open := func() { once.Do(func() { close(gate) }) }
		var mu sync.Mutex
		slowClose := map[*go808.Session]bool{}
		stuck := map[string]int{} // where something waits, by terminal
		freed := 0
		wait := func(what string, phone uint64) {
			mu.Lock()
			stuck[fmt.Sprint(what, phone)]++
			mu.Unlock()
			<-gate
			mu.Lock()
			freed++
			mu.Unlock()
		}
		isStuck := func(what string, phone uint64) bool {
			return eventually(func() bool {
				mu.Lock()
				defer mu.Unlock()
				return stuck[fmt.Sprint(what, phone)] > 0
			})
		}
		closing := map[*go808.Session]uint64{}
		o := go808.Options{AutoMergePacket: true, CloseHandler: func(s *go808.Session) {
			mu.Lock()
			slow, phone := slowClose[s], closing[s]
			mu.Unlock()
			if slow {
				wait("close", phone)
			}
		}}
		idle := g.Int("idle", 0, 19) == 19 // a short keepalive, and someone silent
		if idle {
			o.Keepalive = 5
		}
		w := serve(t, o)
		defer w.stop()
		defer open()
		slow := func(phone uint64) bool { return phone >= 1000 }
		w.s.AddHandler(0x0900, func(s *go808.Session, m *protocol.Message) {
			if slow(m.Header.IccID) {
				wait("handler", m.Header.IccID)
			}
		})
		uploads := map[uint64][][]byte{}
		w.s.AddHandler(0x0801, func(s *go808.Session, m *protocol.Message) {
			b := m.Body.(*protocol.T808_0x0801)
			if slow(m.Header.IccID) {
				b.Packet.Read(make([]byte, 3))
				wait("upload", m.Header.IccID)
			}
			data, _ := io.ReadAll(b.Packet)
			mu.Lock()
			uploads[m.Header.IccID] = append(uploads[m.Header.IccID], data)
			mu.Unlock()
		})
		upload := func(c *client, tag uint32, parts ...[]byte) {
			for i, p := range parts {
				h := c.header(0x0801)
				h.Prop |= ref.BitPacket
				h.Sum, h.Seq = uint16(len(parts)), uint16(i+1)
				c.write(ref.Frame(h, mediaPart(tag, p)))
			}
		}
		desc := ""
		var good []*client
		var goodS []*go808.Session
		for n := g.Int("good", 2, 3); n > 0; n-- {
			c := w.connect()
			c.phone = uint64(n)
			good = append(good, c)
			goodS = append(goodS, c.fence(t))
		}
		var silent *client
		if idle {
			silent = w.connect()
		}
		// some get stuck
		kinds := []string{"handler", "callback", "close", "upload", "deaf"}
		waits := 0
		var quiet []*client // to be served when the gate opens
		stopDeaf := make(chan struct{})
		defer close(stopDeaf)
		for n := g.Int("slow", 1, 4); n > 0; n-- {
			kind := kinds[g.Uniform("kind", len(kinds))]
			desc += kind + " "
			c := w.dial()
			c.phone = uint64(1000 + n)
			if kind != "deaf" {
				c.start()
				waits++
			}
			s := c.fence(t)
			switch kind {
			case "handler":
				c.send(0x0900, []byte{1, 2})
				quiet = append(quiet, c)
			case "upload":
				upload(c, 5, []byte("abcdef"), []byte("ghi"))
				quiet = append(quiet, c)
			case "callback":
				c.mu.Lock()
				c.onRecv = func(f frame) {
					if f.h.ID == 0x8104 {
						c.write(ref.Frame(ref.Header{ID: 0x0001, Phone: c.phone, Serial: 9}, replyBody(f.h.Serial, f.h.ID, 0)))
					}
				}
				c.mu.Unlock()
				if _, err := s.Request(&probe{id: 0x8104}, func(*protocol.Message) { wait("callback", c.phone) }); err != nil {
					t.Fatalf("request: %v", err)
				}
				quiet = append(quiet, c)
			case "close":
				mu.Lock()
				slowClose[s], closing[s] = true, c.phone
				mu.Unlock()
				if g.Bool("ours") {
					if !returns(func() { s.Close() }) {
						t.Fatalf("Close does not return while its close handler waits (%s)", desc)
					}
				} else {
					c.conn.Close()
				}
			case "deaf": // gets more than it can hold, bit by bit
				payload := bytes.Repeat([]byte{0x41}, 900)
				go func() {
					for i := 0; i < 20000; i++ {
						select {
						case <-stopDeaf:
							return
						default:
						}
						if _, err := s.Send(&probe{id: 0x8900, data: payload}); err != nil {
							return
						}
						if i%8 == 7 {
							time.Sleep(100 * time.Microsecond)
						}
					}
				}()
				if g.Bool("soon") {
					time.Sleep(20 * time.Millisecond)
				}
				continue
			}
			if !isStuck(kind, c.phone) {
				t.Fatalf("a %s is not called any more (%s)", kind, desc)
			}
		}
		// everyone else carries on
		answered := map[uint64]int{}
		for _, c := range good {
			c.mu.Lock()
			c.onRecv = func(f frame) {
				if f.h.ID == 0x8201 {
					c.write(ref.Frame(ref.Header{ID: 0x0001, Phone: c.phone, Serial: 9}, replyBody(f.h.Serial, f.h.ID, 0)))
				}
			}
			c.mu.Unlock()
		}
		tag := uint32(0)
		ops := g.Int("ops", 2, 8)
		if idle { // the others would have to keep talking
			ops = 0
		}
		for n := ops; n > 0; n-- {
			k := g.Uniform("who", len(good))
			c, s := good[k], goodS[k]
			switch op := g.Int("op", 0, 7); op {
			case 0:
				desc += "message "
				c.fence(t)
			case 1:
				desc += "request "
				before := answered[c.phone]
				if !returns(func() {
					s.Request(&probe{id: 0x8201}, func(*protocol.Message) {
						mu.Lock()
						answered[c.phone]++
						mu.Unlock()
					})
				}) {
					t.Fatalf("Request does not return (%s)", desc)
				}
				if !eventually(func() bool { mu.Lock(); defer mu.Unlock(); return answered[c.phone] > before }) {
					t.Fatalf("a request's callback does not run while others wait (%s)", desc)
				}
			case 2:
				desc += "upload "
				tag++
				mu.Lock()
				before := len(uploads[c.phone])
				mu.Unlock()
				upload(c, tag, []byte{1, 2}, []byte{3, byte(tag)}, []byte{5})
				if !eventually(func() bool { mu.Lock(); defer mu.Unlock(); return len(uploads[c.phone]) > before }) {
					t.Fatalf("an upload is not delivered while others wait (%s)", desc)
				}
				mu.Lock()
				data := uploads[c.phone][before]
				mu.Unlock()
				if !bytes.Equal(data, []byte{1, 2, 3, byte(tag), 5}) {
					t.Fatalf("an upload was delivered as %x (%s)", data, desc)
				}
			case 3:
				desc += "broadcast "
				reached := 0
				mark := []byte{0x55, byte(n)}
				if !returns(func() { reached = w.s.Broadcast(&probe{id: 0x8999, data: mark}) }) {
					t.Fatalf("Broadcast does not return (%s)", desc)
				}
				if reached < len(good) {
					t.Fatalf("a broadcast reached %d of %d good terminals (%s)", reached, len(good), desc)
				}
				for _, c := range good {
					if !eventually(func() bool {
						c.mu.Lock()
						defer c.mu.Unlock()
						for _, f := range c.got {
							if f.h.ID == 0x8999 && bytes.Equal(f.body, mark) {
								return true
							}
						}
						return false
					}) {
						t.Fatalf("a broadcast does not arrive while others wait (%s)", desc)
					}
				}
			case 4:
				desc += "lookup "
				ok := false
				if !returns(func() { _, ok = w.s.GetSession(s.ID()) }) || !ok {
					t.Fatalf("GetSession: %v (%s)", ok, desc)
				}
			case 5:
				desc += "handler-added "
				var called int32
				if !returns(func() {
					w.s.AddHandler(0x0102, func(*go808.Session, *protocol.Message) { atomic.AddInt32(&called, 1) })
				}) {
					t.Fatalf("AddHandler does not return (%s)", desc)
				}
				c.send(0x0102, []byte("abc"))
				if !eventually(func() bool { return atomic.LoadInt32(&called) == 1 }) {
					t.Fatalf("a new handler is not called while others wait (%s)", desc)
				}
			case 6:
				desc += "visitor "
				v := w.connect()
				v.phone = uint64(100 + n)
				vs := v.fence(t)
				ours := g.Bool("ours")
				if ours {
					if !returns(func() { vs.Close() }) {
						t.Fatalf("Close does not return (%s)", desc)
					}
				} else {
					v.conn.Close()
				}
				if !eventually(func() bool { return w.closes(vs) == 1 && (!ours || v.ended()) }) {
					t.Fatalf("a closed connection is reported %d times while others wait (%s)", w.closes(vs), desc)
				}
				if _, ok := w.s.GetSession(vs.ID()); ok {
					t.Fatalf("a closed session is still registered (%s)", desc)
				}
			default:
				desc += "send "
				before := c.count()
				if !returns(func() { s.Send(&probe{id: 0x8998}) }) || !c.waitFrames(before+1) {
					t.Fatalf("a message does not arrive while others wait (%s)", desc)
				}
			}
		}
		if idle && !eventually(silent.ended) {
			t.Fatalf("a silent terminal is not disconnected while others wait (%s)", desc)
		}
		open()
		if !eventually(func() bool { mu.Lock(); defer mu.Unlock(); return freed >= waits }) {
			t.Fatalf("%d of %d waiting handlers came back (%s)", freed, waits, desc)
		}
		if !idle {
			for _, c := range quiet {
				c.fence(t)
			}
			for _, c := range good {
				c.fence(t)
			}
		}
		if !returns(w.s.Stop) {
			t.Fatalf("Stop does not return (%s)", desc)
		}
		stat.Case(true, stat.Hash(desc), func() string { return "slow: " + desc }, "slow")
	})
}

// what a handler may do
var inHandler = []string{"send", "reply", "request", "close", "lookup", "broadcast", "addhandler", "keys", "send-other", "request-other", "close-other", "panic", "stop"}

// C26: handlers, callbacks and close handlers may use the server and sessions.
func TestC26_Reentrant(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		var w *world
		var mu sync.Mutex
		var other *go808.Session
		begun, ended := 0, 0
		at := map[string]int{} // actions under way
		var act func(place string, list []string, s *go808.Session, m *protocol.Message)
		act = func(place string, list []string, s *go808.Session, m *protocol.Message) {
			for i, a := range list {
				k := place + " " + a
				mu.Lock()
				begun++
				at[k]++
				mu.Unlock()
				done := func() {
					mu.Lock()
					ended++
					at[k]--
					mu.Unlock()
				}
				rest := list[i+1:]
				switch a {
				case "send":
					s.Send(&probe{id: 0x8998})
				case "reply":
					if m != nil {
						s.Reply(m, 0)
					}
				case "request", "request-other":
					to := s
					if a == "request-other" {
						to = other
					}
					done()
					to.Request(&probe{id: 0x8201}, func(m *protocol.Message) { act("callback", rest, to, m) })
					return
				case "close":
					s.Close()
				case "lookup":
					w.s.GetSession(s.ID())
					s.GetServer().GetSession(other.ID())
				case "broadcast":
					w.s.Broadcast(&probe{id: 0x8997})
				case "addhandler":
					w.s.AddHandler(0x0102, func(*go808.Session, *protocol.Message) {})
					w.s.AddHandler(0x0900, nil)
				case "keys":
					s.SetPublicKey(s.GetPublicKey())
					w.s.GetPrivateKey()
				case "send-other":
					other.Send(&probe{id: 0x8998})
				case "close-other":
					other.Close()
				case "stop":
					if place != "close" { // Stop waits for the close handlers
						w.s.Stop()
					}
				case "panic":
					done()
					panic("given up")
				}
				done()
			}
		}
		draw := func(name string) []string {
			var l []string
			for n := g.Int(name, 0, 4); n > 0; n-- {
				a := inHandler[g.Uniform("action", len(inHandler))]
				if a == "stop" && g.Int("really", 0, 2) > 0 {
					a = "broadcast"
				}
				l = append(l, a)
			}
			return l
		}
		onMsg, onClose, onAnswer := draw("handler"), draw("closing"), draw("answer")
		desc := fmt.Sprintf("handler %v, close handler %v, callback %v", onMsg, onClose, onAnswer)
		w = serve(t, go808.Options{CloseHandler: func(s *go808.Session) {
			act("close", onClose, s, nil)
		}})
		defer w.stop()
		w.s.AddHandler(0x0900, func(s *go808.Session, m *protocol.Message) { act("handler", onMsg, s, m) })
		oc := w.connect()
		oc.phone = 2
		answer := func(c *client) {
			c.mu.Lock()
			c.onRecv = func(f frame) {
				if f.h.ID == 0x8201 || f.h.ID == 0x8104 {
					c.write(ref.Frame(ref.Header{ID: 0x0001, Phone: c.phone, Serial: 9}, replyBody(f.h.Serial, f.h.ID, 0)))
				}
			}
			c.mu.Unlock()
		}
		other = oc.fence(t)
		answer(oc)
		c := w.connect()
		c.phone = 1
		s := c.fence(t)
		answer(c)
		how := g.Int("start", 0, 4)
		for n := g.Int("messages", 1, 3); n > 0; n-- {
			c.send(0x0900, []byte{1, 2, 3})
		}
		if how < 2 && !returns(func() {
			s.Request(&probe{id: 0x8104}, func(m *protocol.Message) { act("callback", onAnswer, s, m) })
		}) {
			t.Fatalf("Request does not return\n%s", desc)
		}
		if how == 2 {
			c.conn.Close()
		}
		busy := func() string {
			mu.Lock()
			defer mu.Unlock()
			for k, n := range at {
				if n > 0 {
					return k
				}
			}
			return ""
		}
		settle := func() {
			t.Helper()
			still := 0
			if !eventually(func() bool {
				if busy() != "" {
					still = 0
					return false
				}
				still++
				return still > 20
			}) {
				t.Fatalf("a call made by a handler does not return: %s\n%s", busy(), desc)
			}
		}
		settle()
		if !returns(func() {
			w.s.GetSession(s.ID())
			w.s.Broadcast(&probe{id: 0x8997})
			s.Send(&probe{id: 0x8998})
			w.s.AddHandler(0x0002, func(*go808.Session, *protocol.Message) {})
		}) {
			t.Fatalf("the server does not respond any more\n%s", desc)
		}
		mayStop := false // a call of Stop may be under way
		for _, a := range append(append(append([]string{}, onMsg...), onClose...), onAnswer...) {
			mayStop = mayStop || a == "stop"
		}
		if !mayStop {
			v := w.connect()
			v.phone = 3
			v.fence(t)
		}
		if !returns(w.s.Stop) {
			t.Fatalf("Stop does not return\n%s", desc)
		}
		if !eventually(func() bool { return w.closes(s) == 1 && w.closes(other) == 1 }) {
			t.Fatalf("the sessions are reported closed %d and %d times\n%s", w.closes(s), w.closes(other), desc)
		}
		settle()
		stat.Case(begun > 0, stat.Hash(desc, how), func() string { return desc }, fmt.Sprintf("calls-%d", min(begun, 9)))
	})
}
