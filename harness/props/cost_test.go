package props

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"testing"

	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// allocated tells how many bytes f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// spend is what decoding n bytes may allocate.
func spend(n int) uint64 { return 128<<10 + 10000*uint64(n) }

// inflate writes large numbers somewhere into a body, where counts and lengths may be.
func inflate(g *gen.G, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := g.Int("inflations", 1, 3); k > 0 && len(b) > 0; k-- {
		at := 0
		if g.Bool("front") {
			at = g.Uniform("at", min(len(b), 30))
		} else {
			at = g.Uniform("at", len(b))
		}
		v := []uint64{1<<64 - 1, 1<<63 - 1, 0x7fff7fff7fff7fff, 0x8000800080008000}[g.Uniform("v", 4)]
		switch w := []int{1, 2, 4}[g.Uniform("w", 3)]; {
		case at+w > len(b):
		case w == 1:
			b[at] = byte(v)
		case w == 2:
			binary.BigEndian.PutUint16(b[at:], uint16(v))
		default:
			binary.BigEndian.PutUint32(b[at:], uint32(v))
		}
	}
	return b
}

// C28: what a body says about itself does not decide what it costs.
func TestC28_Bodies(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		id := g.AnyID()
		c := gen.Gens[id](g)
		b, kind := c.Wire, "whole"
		switch g.Int("how", 0, 9) {
		case 0:
		case 1:
			b, kind = g.Mutate(b), "mutated"
		case 2:
			b, kind = g.Blob("raw", 80), "raw"
		default:
			b, kind = inflate(g, b), "inflated"
			if g.Bool("cut") && len(b) > 0 {
				b = b[:g.Int("n", 1, len(b))]
			}
		}
		framed := len(b) <= 1023 && g.Bool("framed")
		data := b
		if framed {
			h := g.Header()
			h.ID = id
			h.Prop &^= 1 << 10
			data = ref.Frame(h, b)
		}
		var err error
		use := allocated(func() {
			if framed {
				var m protocol.Message
				err = m.Decode(data)
			} else {
				_, err = gen.New[id]().Decode(data)
			}
		})
		stat.Case(kind != "whole", stat.Hash(id, framed, data), func() string {
			return fmt.Sprintf("%04x %s body %x: %d bytes allocated (%v)", id, kind, b, use, err)
		}, kind, idLabel(id))
		if limit := spend(len(data)); use > limit {
			t.Fatalf("%04x: decoding %d bytes allocates %d bytes (%v): %x", id, len(data), use, err, data)
		}
	})
}
