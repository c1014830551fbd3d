package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

type pipe struct {
	r io.Reader
	w io.Writer
}

func (p *pipe) Read(b []byte) (int, error)  { return p.r.Read(b) }
func (p *pipe) Write(b []byte) (int, error) { return p.w.Write(b) }

// chunked delivers data in generated pieces.
type chunked struct {
	data []byte
	g    *gen.G
	mode int // 0 undecided
	read int
	max  int
	cuts []int // preferred cut positions (absolute)
}

func (c *chunked) Read(p []byte) (int, error) {
	if c.mode == 0 {
		c.mode = c.g.Int("chunk.mode", 1, 4)
		c.max = c.g.Int("chunk.max", 1, 40)
	}
	if c.read >= len(c.data) {
		return 0, io.EOF
	}
	n := len(p)
	switch c.mode {
	case 1: // as much as fits
	case 2: // one byte at a time
		n = 1
	case 3: // constant size
		n = c.max
	default: // random, with empty reads
		n = c.g.Int("chunk", 0, 30)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data)-c.read {
		n = len(c.data) - c.read
	}
	for _, cut := range c.cuts {
		if cut > c.read && cut < c.read+n {
			n = cut - c.read
			break
		}
	}
	copy(p[:n], c.data[c.read:c.read+n])
	// scribble beyond what was delivered, as a real reader may
	for i := n; i < len(p); i++ {
		p[i] = 0x7e
	}
	c.read += n
	if c.read == len(c.data) && n > 0 && c.mode%2 == 0 {
		return n, io.EOF
	}
	return n, nil
}

type streamItem struct {
	bytes []byte
	want  string // canonical message, "" when none is expected
	kind  string
}

func canonMsg(m *protocol.Message) string {
	s := gen.CanonHeader(m.Header)
	if m.Body == nil {
		return s + " -"
	}
	return s + " " + gen.Canon(m.Body)
}

func drawItem(g *gen.G) streamItem {
	h := g.Header()
	switch g.Int("item", 0, 9) {
	case 0: // unregistered type: header only
		h.ID = []uint16{0x0f31, 0x7e7d, 0x7d02, 0xffff, 0x0004}[g.Int("uid", 0, 4)]
		b := g.Blob("body", 60)
		return streamItem{ref.Frame(h, b), gen.CanonRef(h) + " -", "unregistered"}
	case 1: // bad checksum
		c := g.Any()
		h.ID = c.ID
		content := append(h.Bytes(len(clip(c.Wire))), clip(c.Wire)...)
		sum := ref.XOR(content) ^ byte(g.Int("flip", 1, 255))
		return streamItem{ref.Wrap(append(content, sum)), "", "bad-sum"}
	case 2: // broken escape or too short
		if g.Bool("short") {
			n := g.Int("n", 0, 11)
			b := g.Bytes("b", n)
			return streamItem{ref.Wrap(append(b, ref.XOR(b))), "", "too-short"}
		}
		b := noDelim(g.Blob("b", 60))
		b = append(b, 0x7d, byte(g.Int("e", 3, 0x7c)))
		b = append(b, noDelim(g.Blob("b2", 20))...)
		return streamItem{append(append([]byte{0x7e}, b...), 0x7e), "", "bad-escape"}
	case 3: // stray bytes
		return streamItem{noDelim(g.Bytes("s", g.Size("sn", 5, 200))), "", "stray"}
	case 4:
		if g.Int("empty", 0, 2) == 0 {
			return streamItem{[]byte{0x7e, 0x7e}, "", "empty-frame"}
		}
		if g.Int("long", 0, 3) == 0 { // overlong bad frame, below the limit
			content := bytes.Repeat([]byte{0x41}, g.Int("ln", 3000, 60000))
			if ref.XOR(content) == 0 { // make the checksum wrong
				content[20] = 0x42
			}
			return streamItem{append(append([]byte{0x7e}, content...), 0x7e), "", "long-bad"}
		}
		fallthrough
	default:
		c := g.Any()
		if !c.Fits() {
			c = gen.Gens[0x0001](g)
		}
		h.ID = c.ID
		m := gen.Message(h, c.Want())
		m.Header.MsgID = protocol.MsgID(c.ID)
		return streamItem{ref.Frame(h, c.Wire), gen.CanonRef(h) + " " + gen.Canon(c.Want()), "valid"}
	}
}

func noDelim(b []byte) []byte {
	for i := range b {
		if b[i] == 0x7e {
			b[i] = 0x7f
		}
	}
	return b
}

func TestC08_Receive(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		var s []byte
		var want []string
		var cuts []int
		kinds := ""
		clean := true
		n := g.Int("items", 1, 8)
		for i := 0; i < n; i++ {
			it := drawItem(g)
			if g.Bool("cut") {
				cuts = append(cuts, len(s)+g.Int("cutat", 0, 3))
			}
			s = append(s, it.bytes...)
			if it.want != "" {
				want = append(want, it.want)
			} else if len(it.bytes) > 0 {
				clean = false
			}
			kinds += it.kind + " "
			stat.Label("item-"+it.kind, 1)
		}
		stat.Case(n > 1 || len(want) == 1, stat.Hash(s), func() string { return fmt.Sprintf("%d bytes: %s", len(s), kinds) }, "stream")
		codec, err := go808.Protocol{}.NewCodec(&pipe{r: &chunked{data: s, g: g, cuts: cuts}, w: io.Discard})
		if err != nil {
			t.Fatal(err)
		}
		var got []protocol.Message
		var gotS []string
		eofs := 0
		for i := 0; i < n+2*len(s)+50 && eofs < 10; i++ {
			v, err := codec.Receive()
			if err != nil {
				if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
					eofs++
				} else if clean {
					t.Fatalf("Receive failed on a stream of valid frames only: %v (%s)", err, kinds)
				}
				continue
			}
			m, ok := v.(protocol.Message)
			if !ok {
				t.Fatalf("Receive returned %T", v)
			}
			got = append(got, m)
			gotS = append(gotS, canonMsg(&m))
		}
		if len(gotS) != len(want) {
			t.Fatalf("%d messages received, %d valid frames sent (%s)\n stream %.3000x", len(gotS), len(want), kinds, s)
		}
		for i := range want {
			if gotS[i] != want[i] {
				t.Fatalf("message %d of %s\n want %s\n got  %s", i, kinds, want[i], gotS[i])
			}
			if again := canonMsg(&got[i]); again != want[i] {
				t.Fatalf("message %d changed by later reads\n was %s\n is  %s", i, want[i], again)
			}
		}
	})
}

// endless delivers bytes forever and counts them.
type endless struct {
	head []byte
	fill byte
	n    int
	step int
}

func (e *endless) Read(p []byte) (int, error) {
	n := e.step
	if n > len(p) {
		n = len(p)
	}
	for i := 0; i < n; i++ {
		if e.n < len(e.head) {
			p[i] = e.head[e.n]
		} else {
			p[i] = e.fill
		}
		e.n++
	}
	return n, nil
}

func TestC08_Limit(t *testing.T) {
	check(t, 0.005, func(t *rapid.T, g *gen.G) {
		e := &endless{head: append([]byte{0x7e}, noDelim(g.Blob("head", 40))...), fill: noDelim(g.Bytes("f", 1))[0], step: g.Int("step", 50, 200)}
		stat.Case(true, stat.Hash(e.head, e.fill, e.step), func() string { return fmt.Sprintf("endless %x.. step %d", e.head, e.step) }, "endless")
		codec, _ := go808.Protocol{}.NewCodec(&pipe{r: &limited{e, 4 * 65536}, w: io.Discard})
		_, err := codec.Receive()
		if err == nil {
			t.Fatalf("a message out of an endless frame")
		}
		if e.n > 2*65536 {
			t.Fatalf("%d bytes buffered before giving up (%v)", e.n, err)
		}
		if e.n < 65535-200 {
			t.Fatalf("gave up after %d bytes: %v", e.n, err)
		}
	})
}

type limited struct {
	e   *endless
	max int
}

func (l *limited) Read(p []byte) (int, error) {
	if l.e.n > l.max {
		return 0, io.EOF
	}
	return l.e.Read(p)
}

type failing struct {
	at  int
	n   int
	buf bytes.Buffer
}

var errWrite = errors.New("write failed")

func (f *failing) Write(p []byte) (int, error) {
	f.n++
	if f.n == f.at {
		return 0, errWrite
	}
	return f.buf.Write(p)
}

func TestC08_Send(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		w := &failing{at: -1}
		codec, _ := go808.Protocol{}.NewCodec(&pipe{r: bytes.NewReader(nil), w: w})
		n := g.Int("sends", 1, 5)
		desc := ""
		var want []byte
		for i := 0; i < n; i++ {
			before := w.buf.Len()
			var err error
			switch k := g.Int("what", 0, 7); k {
			case 0: // not a message
				v := []interface{}{"text", 42, nil, []byte{0x7e}, &protocol.T808_0x0002{}, struct{}{}, protocol.Header{}}[g.Int("v", 0, 6)]
				quiet(func() { err = codec.Send(v) })
				desc += fmt.Sprintf("%T ", v)
				if err == nil {
					t.Fatalf("sending %T succeeded", v)
				}
				if w.buf.Len() != before {
					t.Fatalf("sending %T wrote bytes", v)
				}
			case 1: // cannot be encoded
				var m protocol.Message
				switch g.Int("bad", 0, 2) {
				case 0:
					m = *gen.Message(g.Header(), &protocol.T808_0x8900{Data: make([]byte, g.Int("n", 1023, 3000))})
				case 1:
					m = *gen.Message(g.Header(), &failEntity{})
				default:
					m = *gen.Message(g.Header(), &protocol.T808_0x0002{})
					m.Header.Packet = nil
					m.Header.Property |= 1 << 13
				}
				quiet(func() { err = codec.Send(m) })
				desc += "unencodable "
				if err == nil {
					t.Fatalf("sending an unencodable message succeeded: %+v", m.Header)
				}
				if w.buf.Len() != before {
					t.Fatalf("an unencodable message wrote %d bytes", w.buf.Len()-before)
				}
			case 2: // the connection fails
				w.at = w.n + 1
				quiet(func() { err = codec.Send(*gen.Message(g.Header(), &protocol.T808_0x0003{})) })
				w.at = -1
				desc += "write-error "
				if err == nil {
					t.Fatalf("a failed write was not reported")
				}
			default:
				h := g.Header()
				c := g.Any()
				if !c.Fits() || c.CheckWire != nil {
					c = gen.Gens[0x8001](g)
				}
				h.ID = c.ID
				m := *gen.Message(h, c.In())
				quiet(func() { err = codec.Send(m) })
				desc += fmt.Sprintf("%04x ", c.ID)
				if err != nil {
					t.Fatalf("sending %04x: %v", c.ID, err)
				}
				want = append(want, ref.Frame(h, c.Wire)...)
			}
			if !bytes.Equal(w.buf.Bytes(), want) {
				t.Fatalf("after %s\n want %x\n got  %x", desc, want, w.buf.Bytes())
			}
		}
		stat.Case(true, stat.Hash(desc, want), func() string { return "send " + desc }, "send")
	})
}

type failEntity struct{}

func (*failEntity) MsgID() protocol.MsgID      { return 0x8900 }
func (*failEntity) Encode() ([]byte, error)    { return nil, errors.New("cannot encode") }
func (*failEntity) Decode([]byte) (int, error) { return 0, errors.New("cannot decode") }
