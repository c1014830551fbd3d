package props

import (
	"fmt"
	"os"
	"testing"

	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/kit"
	"verifharness/ref"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_VERBOSE") == "" {
		if f, err := os.CreateTemp("", "stdout"); err == nil {
			os.Remove(f.Name())
			libStdout = f
		}
	}
	kit.Main(m)
}

var libStdout *os.File

// printed tells what the library has written to standard output since the last
// call (by what ran inside quiet).
func printed() string {
	if libStdout == nil {
		return ""
	}
	var b [200]byte
	n, _ := libStdout.ReadAt(b[:], 0)
	if n > 0 {
		libStdout.Truncate(0)
		libStdout.Seek(0, 0)
	}
	return string(b[:n])
}

// quiet runs f with the library's prints to standard output kept aside.
func quiet(f func()) {
	if libStdout == nil {
		f()
		return
	}
	old := os.Stdout
	os.Stdout = libStdout
	defer func() { os.Stdout = old }()
	f()
}

func check(t *testing.T, weight float64, prop func(t *rapid.T, g *gen.G)) {
	t.Helper()
	kit.Check(t, weight, prop)
}

// decode decodes a frame into a fresh message.
func decode(frame []byte) (*protocol.Message, error) {
	var m protocol.Message
	err := m.Decode(append([]byte(nil), frame...))
	return &m, err
}

func encode(m *protocol.Message) (b []byte, err error) {
	quiet(func() { b, err = m.Encode() })
	return
}

func encodeEntity(e protocol.Entity) (b []byte, err error) {
	quiet(func() { b, err = e.Encode() })
	return
}

func sample(h ref.Header, c gen.Case) func() string {
	return func() string { return fmt.Sprintf("%s body=%s", gen.CanonRef(h), gen.Canon(c.Want())) }
}

func idLabel(id uint16) string { return fmt.Sprintf("type-%04x", id) }

func hasEscape(frame []byte) bool {
	for _, b := range frame {
		if b == 0x7d {
			return true
		}
	}
	return false
}

// bodyNil reports whether a decoded message has no body.
func bodyNil(m *protocol.Message) bool { return m.Body == nil }
