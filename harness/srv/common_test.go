// Package srv checks the running server over real loopback connections.
package srv

import (
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	_ "unsafe"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/kit"
	"verifharness/ref"
	"verifharness/stat"
)

//go:linkname linkSessionID github.com/funny/link.globalSessionId
var linkSessionID uint64

func TestMain(m *testing.M) {
	stat.HangTicks = 3000
	go heartbeat()
	// sessions are numbered through all servers of a process: start just below
	// the numbers at which something may change
	linkSessionID = []uint64{0, 1<<8 - 6, 1<<16 - 6, 1<<31 - 6, 1<<32 - 6, 1<<15 - 6, 1 << 40, 99990}[kit.Shard()%8]
	kit.Main(m)
}

func check(t *testing.T, weight float64, prop func(t *rapid.T, g *gen.G)) {
	t.Helper()
	kit.Check(t, weight, prop)
}

// --- patience ------------------------------------------------------------

// beats counts 50 ms naps of this process, so that a machine that stands still
// is not mistaken for a server that does nothing.
var beats int64

func heartbeat() {
	for {
		time.Sleep(50 * time.Millisecond)
		atomic.AddInt64(&beats, 1)
	}
}

// patience is how long something that must happen may take, in beats.
func patience() int64 {
	if kit.Failed() {
		return 60 // shrinking
	}
	return 400
}

// eventually waits for cond.
func eventually(cond func() bool) bool {
	limit := patience()
	t0 := atomic.LoadInt64(&beats)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if atomic.LoadInt64(&beats)-t0 > limit {
			return cond()
		}
		if i < 50 {
			runtime.Gosched()
		} else if i < 200 {
			time.Sleep(50 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

// --- server --------------------------------------------------------------

type world struct {
	t      *rapid.T
	s      *go808.Server
	port   int
	runErr chan error

	mu      sync.Mutex
	past    bool // in a life before the test
	clients []*client
	closed  map[*go808.Session]int
	fences  map[fenceKey]*go808.Session
}

var nextPort int32 = -1

func pickPort() int {
	n := atomic.AddInt32(&nextPort, 1)
	return 10000 + (kit.Shard()%8)*2400 + (int(n)*7+os.Getpid()%311)%2400
}

// serve starts a server with the given options.
func serve(t *rapid.T, o go808.Options) *world {
	w := &world{t: t, closed: map[*go808.Session]int{}, fences: map[fenceKey]*go808.Session{}}
	user := o.CloseHandler
	o.CloseHandler = func(s *go808.Session) {
		w.mu.Lock()
		w.closed[s]++
		past := w.past
		w.mu.Unlock()
		if user != nil && !past {
			user(s)
		}
	}
	s, err := go808.NewServer(o)
	if err != nil {
		t.Fatalf("NewServer: %v", err)
	}
	w.s = s
	s.AddHandler(fenceID, func(s *go808.Session, m *protocol.Message) {
		w.mu.Lock()
		w.fences[fenceKey{m.Header.IccID, m.Header.MsgSerialNo}] = s
		w.mu.Unlock()
	})
	w.run()
	if rapid.IntRange(0, 4).Draw(t, "restarted") == 4 {
		w.restart(rapid.IntRange(0, 3).Draw(t, "earlier"))
	}
	return w
}

// restart gives the server an earlier life with n connections. What holds for
// a server holds for one that is run again.
func (w *world) restart(n int) {
	w.mu.Lock()
	w.past = true
	w.mu.Unlock()
	var ended []*go808.Session
	for i := 0; i < n; i++ {
		c := w.connect()
		c.phone = uint64(i) * 1e10
		ended = append(ended, c.fence(w.t))
		defer c.conn.Close()
	}
	w.s.Stop()
	if _, ok := returned(w.runErr); !ok {
		w.t.Fatalf("Run has not returned after Stop")
	}
	for _, s := range ended {
		if !eventually(func() bool { return w.closes(s) > 0 }) {
			w.t.Fatalf("Stop: a session is not reported closed")
		}
	}
	w.mu.Lock()
	w.closed = map[*go808.Session]int{}
	w.fences = map[fenceKey]*go808.Session{}
	w.past = false
	w.mu.Unlock()
	stat.Label("restarted", 1)
	w.run()
}

func harnessTrouble(f string, a ...interface{}) {
	fmt.Printf("VERIF-HARNESS: "+f+"\n", a...)
	os.Exit(4)
}

// run starts listening on a free port and waits until it accepts.
func (w *world) run() {
	refused := 0
	for try := 0; try < 200; try++ {
		port := pickPort()
		l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", port))
		if err != nil {
			continue
		}
		l.Close()
		errs := make(chan error, 1)
		go func() { errs <- w.s.Run("tcp", port) }()
		w.port, w.runErr = port, errs
		if w.listening() {
			return
		}
		if l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", port)); err == nil {
			l.Close()
			if refused++; refused > 20 {
				w.t.Fatalf("Run does not serve, although its port %d is free", port)
			}
		}
	}
	harnessTrouble("no port to listen on")
}

// listening waits until the port is bound by this process, without connecting.
// A listener of another process, which took the port first, does not count.
func (w *world) listening() bool {
	for i := 0; i < 20000; i++ {
		select {
		case <-w.runErr:
			return false
		default:
		}
		for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			for _, line := range strings.Split(string(b), "\n") {
				x := strings.Fields(line)
				if len(x) > 9 && x[3] == "0A" && strings.HasSuffix(x[1], fmt.Sprintf(":%04X", w.port)) && ownSocket(x[9]) {
					return true
				}
			}
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// ownSocket tells whether the socket with this inode is open here.
func ownSocket(inode string) bool {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && to == "socket:["+inode+"]" {
			return true
		}
	}
	return false
}

func (w *world) closes(s *go808.Session) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.closed[s]
}

func (w *world) totalCloses() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := 0
	for _, k := range w.closed {
		n += k
	}
	return n
}

// stop ends the server and all clients.
func (w *world) stop() {
	w.mu.Lock()
	cs := append([]*client(nil), w.clients...)
	w.mu.Unlock()
	for _, c := range cs {
		c.conn.Close()
	}
	w.s.Stop()
}

// --- client --------------------------------------------------------------

type frame struct {
	h    ref.Header
	body []byte
	raw  []byte
}

func (f frame) String() string {
	return fmt.Sprintf("%s body=%x", gen.CanonRef(f.h), f.body)
}

// client is a terminal: it writes reference frames and collects what it gets.
type client struct {
	w      *world
	conn   net.Conn
	phone  uint64
	serial uint16

	mu     sync.Mutex
	got    []frame
	bad    string // malformed bytes from the server
	eof    bool
	eofAt  time.Time
	onRecv func(frame)
}

func (w *world) dial() *client {
	var conn net.Conn
	var err error
	ok := eventually(func() bool {
		conn, err = net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.port), 10*time.Second)
		return err == nil
	})
	if !ok {
		w.t.Fatalf("server does not accept connections: %v", err)
	}
	c := &client{w: w, conn: conn, phone: 1}
	w.mu.Lock()
	w.clients = append(w.clients, c)
	w.mu.Unlock()
	return c
}

// start begins collecting.
func (c *client) start() *client {
	go c.collect()
	return c
}

func (w *world) connect() *client { return w.dial().start() }

func (c *client) collect() {
	var pending []byte
	buf := make([]byte, 4096)
	for {
		n, err := c.conn.Read(buf)
		pending = append(pending, buf[:n]...)
		for len(pending) > 0 {
			end := -1
			for i := 1; i < len(pending); i++ {
				if pending[i] == 0x7e {
					end = i
					break
				}
			}
			if end < 0 {
				break
			}
			raw := append([]byte(nil), pending[:end+1]...)
			pending = pending[end+1:]
			h, size, body, perr := ref.Parse(raw)
			c.mu.Lock()
			if perr != nil || size != len(body) {
				if c.bad == "" {
					c.bad = fmt.Sprintf("%x: %v, declared %d, has %d", raw, perr, size, len(body))
				}
				c.mu.Unlock()
				continue
			}
			f := frame{h, body, raw}
			c.got = append(c.got, f)
			on := c.onRecv
			c.mu.Unlock()
			if on != nil {
				on(f)
			}
		}
		if err != nil {
			c.mu.Lock()
			c.eof = true
			c.eofAt = time.Now()
			c.mu.Unlock()
			return
		}
	}
}

func (c *client) count() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.got)
}

func (c *client) frames() []frame {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]frame(nil), c.got...)
}

func (c *client) ended() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.eof
}

func (c *client) malformed() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.bad
}

// write sends raw bytes; it fails only when the connection is gone.
func (c *client) write(b []byte) error {
	c.conn.SetWriteDeadline(time.Now().Add(60 * time.Second))
	_, err := c.conn.Write(b)
	return err
}

// header gives the header of this client's next message.
func (c *client) header(id uint16) ref.Header {
	c.serial++
	return ref.Header{ID: id, Phone: c.phone, Serial: c.serial}
}

// send writes one message in a frame and returns its serial number.
func (c *client) send(id uint16, body []byte) uint16 {
	h := c.header(id)
	c.write(ref.Frame(h, body))
	return h.Serial
}

// waitFrames waits until n frames were received.
func (c *client) waitFrames(n int) bool {
	return eventually(func() bool { return c.count() >= n || c.ended() }) && c.count() >= n
}

// reply is the body of a platform general response.
func replyBody(serial, id uint16, result byte) []byte {
	return []byte{byte(serial >> 8), byte(serial), byte(id >> 8), byte(id), result}
}

// fenceID is the message type (logout, no body) whose handler tells that the
// server has dealt with everything before. Tests leave it alone.
const fenceID = 0x0003

type fenceKey struct {
	phone  uint64
	serial uint16
}

// fence waits until the server has dealt with everything this client sent.
func (c *client) fence(t *rapid.T) *go808.Session {
	t.Helper()
	h := c.header(fenceID)
	k := fenceKey{h.Phone, h.Serial}
	c.write(ref.Frame(h, nil))
	var s *go808.Session
	ok := eventually(func() bool {
		c.w.mu.Lock()
		s = c.w.fences[k]
		c.w.mu.Unlock()
		return s != nil || c.ended()
	})
	if s == nil {
		t.Fatalf("connection of terminal %d is not served any more (ended %v, in time %v): a message with handler was not delivered", c.phone, c.ended(), ok)
	}
	if s := c.malformed(); s != "" {
		t.Fatalf("the server sent a malformed frame: %s", s)
	}
	return s
}

func canonMsg(m *protocol.Message) string {
	if m.Body == nil {
		return gen.CanonHeader(m.Header) + " nobody"
	}
	return gen.CanonHeader(m.Header) + " " + gen.Canon(m.Body)
}

// pieces cuts data into generated chunks.
func pieces(g *gen.G, data []byte) [][]byte {
	var out [][]byte
	for len(data) > 0 {
		n := len(data)
		if len(out) < 40 && g.Int("split", 0, 2) == 2 {
			n = g.Int("piece", 1, min(len(data), 300))
		}
		out = append(out, data[:n])
		data = data[n:]
	}
	return out
}
