package gen

import "encoding/binary"

// Mutate applies a few random edits to a byte string.
func (g *G) Mutate(b []byte) []byte {
	out := append([]byte(nil), b...)
	for n := g.Int("muts", 1, 4); n > 0; n-- {
		out = g.mutate1(out)
	}
	return out
}

func (g *G) mutate1(b []byte) []byte {
	pos := func(name string) int { return g.Int(name, 0, len(b)-1) }
	k := g.Int("mut", 0, 9)
	if len(b) == 0 {
		k = 9
	}
	switch k {
	case 0:
		b[pos("at")] = g.U8("v")
	case 1:
		b[pos("at")] ^= 1 << g.Int("bit", 0, 7)
	case 2:
		return b[:g.Int("cut", 0, len(b))]
	case 3:
		i := pos("at")
		return append(append(append([]byte{}, b[:i]...), g.Bytes("ins", g.Int("n", 1, 6))...), b[i:]...)
	case 4:
		i := pos("at")
		j := i + g.Int("n", 1, 6)
		if j > len(b) {
			j = len(b)
		}
		return append(append([]byte{}, b[:i]...), b[j:]...)
	case 5:
		b[pos("at")]++
	case 6:
		b[pos("at")]--
	case 7: // set a 16-bit field
		if len(b) >= 2 {
			i := g.Int("at", 0, len(b)-2)
			binary.BigEndian.PutUint16(b[i:], []uint16{0, 1, 255, 256, 0x7fff, 0xffff}[g.Int("w", 0, 5)])
		}
	case 8: // set a 32-bit field
		if len(b) >= 4 {
			i := g.Int("at", 0, len(b)-4)
			binary.BigEndian.PutUint32(b[i:], []uint32{0, 1, 255, 65536, 0x7fffffff, 0x80000000, 0xffffffff}[g.Int("d", 0, 6)])
		}
	default:
		return append(b, g.Bytes("tail", g.Int("n", 1, 12))...)
	}
	return b
}
