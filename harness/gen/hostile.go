package gen

import "verifharness/ref"

// HostileFrame draws a frame: garbage, damaged, or structurally broken with a
// correct checksum.
func (g *G) HostileFrame() (frame []byte, kind string) {
	h := g.Header()
	switch k := g.Int("hostile", 0, 7); k {
	case 0: // raw bytes
		return g.Blob("raw", 60), "raw"
	case 1: // delimited garbage
		b := g.Blob("raw", 60)
		return append(append([]byte{0x7e}, b...), 0x7e), "delimited"
	case 2: // well-formed content of arbitrary bytes
		b := g.Blob("raw", 60)
		return ref.Wrap(append(b, ref.XOR(b))), "summed"
	case 3: // valid frame, edited on the wire
		c := g.Any()
		h.ID = c.ID
		return g.Mutate(ref.Frame(h, Clip(c.Wire))), "edited"
	case 4: // body of one type sent as another
		c := g.Any()
		h.ID = g.AnyID()
		return ref.Frame(h, Clip(c.Wire)), "retyped"
	case 5: // random ID
		c := g.Any()
		h.ID = g.U16("id")
		return ref.Frame(h, Clip(c.Wire)), "unknown-type"
	case 6: // header edited
		c := g.Any()
		h.ID = c.ID
		b := Clip(c.Wire)
		head := g.Mutate(h.Bytes(len(b)))
		return ref.RawFrame(head, b), "header"
	default: // body edited, header and checksum right
		c := g.Any()
		h.ID = c.ID
		if g.Int("enc", 0, 5) == 5 {
			h.Prop |= ref.BitEncrypt
		}
		return ref.Frame(h, Clip(g.Mutate(c.Wire))), "body"
	}
}

// Clip cuts a body to what a frame can declare.
func Clip(b []byte) []byte {
	if len(b) > 1023 {
		return b[:1023]
	}
	return b
}
