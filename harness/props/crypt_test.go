package props

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha1"
	"fmt"
	"io"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/keys"
	"verifharness/ref"
	"verifharness/stat"
)

func refDecrypt(k *rsa.PrivateKey, body []byte) ([]byte, error) {
	var out []byte
	for len(body) > 0 {
		if len(body) < k.Size() {
			return nil, fmt.Errorf("%d bytes left over", len(body))
		}
		p, err := rsa.DecryptOAEP(sha1.New(), nil, k, body[:k.Size()], nil)
		if err != nil {
			return nil, err
		}
		out = append(out, p...)
		body = body[k.Size():]
	}
	return out, nil
}

func refEncrypt(k *rsa.PublicKey, body []byte, rnd io.Reader, chunk int) []byte {
	var out []byte
	for len(body) > 0 {
		n := min(len(body), chunk)
		c, err := rsa.EncryptOAEP(sha1.New(), rnd, k, body[:n], nil)
		if err != nil {
			panic(err)
		}
		out = append(out, c...)
		body = body[n:]
	}
	return out
}

// cryptBody draws a message whose size sits around block boundaries.
func cryptBody(g *gen.G, chunk int) (id uint16, wire []byte, in, want func() protocol.Entity) {
	if g.Int("any", 0, 2) == 0 {
		c := g.Any()
		if c.CheckWire == nil && !c.Over {
			return c.ID, c.Wire, c.In, c.Want
		}
	}
	n := g.Int("blocks", 0, 9)*chunk + g.Int("off", -2, 2)
	if n < 1 {
		n = 1
	}
	data := g.Bytes("data", n-1)
	typ := g.U8("typ")
	id = 0x8900
	in = func() protocol.Entity {
		return &protocol.T808_0x8900{Type: typ, Data: append([]byte(nil), data...)}
	}
	return id, append([]byte{typ}, data...), in, in
}

func TestC07_Messages(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		key, other := keys.A(), keys.B()
		switch g.Int("key", 0, 5) {
		case 4:
			key, other = keys.B(), keys.A()
		case 5:
			key, other = keys.C(), keys.A()
			if g.Bool("other") {
				key, other = keys.A(), keys.C()
			}
		}
		chunk := key.Size() - 42
		id, wire, in, want := cryptBody(g, chunk)
		h := g.Header()
		h.ID = id
		blocks := (len(wire) + chunk - 1) / chunk
		m := gen.Message(h, in())
		if g.Bool("preset") { // the flag may already be set by the caller
			m.Header.Property |= 1 << 10
		}
		var frame []byte
		var err error
		quiet(func() { frame, err = m.Encode(&key.PublicKey) })
		stat.Case(len(wire) > 0, stat.Hash(id, wire, key.Size()), func() string {
			return fmt.Sprintf("%04x body %d bytes, %d-bit key, %d blocks", id, len(wire), key.Size()*8, blocks)
		}, fmt.Sprintf("blocks-%d", blocks))
		if blocks*key.Size() > 1023 {
			if err == nil {
				t.Fatalf("%04x: %d encrypted bytes were not refused", id, blocks*key.Size())
			}
			return
		}
		if err != nil {
			t.Fatalf("%04x: body of %d bytes refused: %v", id, len(wire), err)
		}
		rh, size, body, err := ref.Parse(frame)
		if err != nil || size != len(body) {
			t.Fatalf("%04x: malformed frame: %v, declared %d actual %d", id, err, size, len(body))
		}
		h.Prop |= ref.BitEncrypt
		if gen.CanonRef(rh) != gen.CanonRef(h) {
			t.Fatalf("header %s, want %s", gen.CanonRef(rh), gen.CanonRef(h))
		}
		if len(body) != blocks*key.Size() {
			t.Fatalf("%04x: %d bytes encrypted to %d, want %d blocks of %d", id, len(wire), len(body), blocks, key.Size())
		}
		if len(wire) >= 8 && bytes.Contains(body, wire[:8]) {
			t.Fatalf("%04x: plain bytes on the wire", id)
		}
		plain, err := refDecrypt(key, body)
		if err != nil || !bytes.Equal(plain, wire) {
			t.Fatalf("%04x: reference decryption: %v\n got  %x\n want %x", id, err, plain, wire)
		}
		dec := func(k ...*rsa.PrivateKey) (*protocol.Message, error) {
			var m protocol.Message
			err := m.Decode(append([]byte(nil), frame...), k...)
			return &m, err
		}
		got, err := dec(key)
		if err != nil || got.Body == nil || gen.Canon(got.Body) != gen.Canon(want()) || gen.CanonHeader(got.Header) != gen.CanonRef(h) {
			t.Fatalf("%04x: not decrypted (%v): %s", id, err, canonMsg(got))
		}
		if len(wire) == 0 {
			return
		}
		for name, k := range map[string][]*rsa.PrivateKey{"no key": nil, "nil key": {nil}, "other key": {other}} {
			if got, err := dec(k...); err == nil || got.Body != nil {
				t.Fatalf("%04x: decoded with %s: %v %s", id, name, err, canonMsg(got))
			}
		}
	})
}

// frames encrypted by a reference terminal, with any chunking it likes
func TestC07_Foreign(t *testing.T) {
	check(t, 0.4, func(t *rapid.T, g *gen.G) {
		key := keys.A()
		c := g.Any()
		if len(c.Wire) == 0 || len(c.Wire) > 600 || c.Over {
			c = gen.Gens[0x0200](g)
		}
		if len(c.Wire) > 600 {
			return
		}
		chunk := 86
		if len(c.Wire) < 300 && g.Bool("small") {
			chunk = g.Int("chunk", 43, 86)
		}
		enc := refEncrypt(&key.PublicKey, c.Wire, rndReader{g}, chunk)
		if len(enc) > 1023 {
			return
		}
		h := g.Header()
		h.ID = c.ID
		h.Prop |= ref.BitEncrypt
		frame := ref.Frame(h, enc)
		stat.Case(true, stat.Hash("foreign", c.Wire, chunk), func() string { return fmt.Sprintf("%04x %d bytes in chunks of %d", c.ID, len(c.Wire), chunk) }, "foreign")
		var m protocol.Message
		if err := m.Decode(append([]byte(nil), frame...), key); err != nil || m.Body == nil || gen.Canon(m.Body) != gen.Canon(c.Want()) {
			t.Fatalf("%04x: %v %s\n want %s", c.ID, err, canonMsg(&m), gen.Canon(c.Want()))
		}
		// one cipher bit changed: nothing comes out
		bad := append([]byte(nil), enc...)
		bad[g.Int("at", 0, len(bad)-1)] ^= 1 << g.Int("bit", 0, 7)
		var m2 protocol.Message
		if err := m2.Decode(ref.Frame(h, bad), key); err == nil || m2.Body != nil {
			t.Fatalf("%04x: damaged cipher text decoded: %s", c.ID, canonMsg(&m2))
		}
	})
}

type rndReader struct{ g *gen.G }

func (r rndReader) Read(p []byte) (int, error) {
	s := rapid.Uint64().Draw(r.g.T, "rnd")
	for i := range p {
		s = s*6364136223846793005 + 1442695040888963407
		p[i] = byte(s >> 56)
	}
	return len(p), nil
}

// unencrypted messages do not care about keys; flagged ones without a key are
// refused, not sent in the clear
func TestC07_Plain(t *testing.T) {
	check(t, 0.5, func(t *rapid.T, g *gen.G) {
		frame, _, h, c := validFrame(g)
		stat.Case(true, stat.Hash("plain", frame), func() string { return fmt.Sprintf("plain %04x", c.ID) }, "plain")
		a, err1 := decode(frame)
		var b protocol.Message
		err2 := b.Decode(append([]byte(nil), frame...), keys.A())
		if err1 != nil || err2 != nil || canonMsg(a) != canonMsg(&b) {
			t.Fatalf("%04x decodes differently with a key: %v %v\n %s\n %s", c.ID, err1, err2, canonMsg(a), canonMsg(&b))
		}
		if len(c.Wire) == 0 || c.CheckWire != nil {
			return
		}
		m := gen.Message(h, c.In())
		m.Header.Property |= 1 << 10
		if f, err := encode(m); err == nil {
			t.Fatalf("%04x: marked for encryption without a key and not refused: %x", c.ID, f)
		}
	})
}

// the codec encrypts flagged messages with the terminal's public key
func TestC07_Codec(t *testing.T) {
	check(t, 0.3, func(t *rapid.T, g *gen.G) {
		var w bytes.Buffer
		lc, err := go808.Protocol{}.NewCodec(&pipe{r: bytes.NewReader(nil), w: &w})
		if err != nil {
			t.Fatal(err)
		}
		codec := lc.(*go808.ProtocolCodec)
		var cur *rsa.PrivateKey
		for i := g.Int("sends", 1, 4); i > 0; i-- {
			switch g.Int("setkey", 0, 3) {
			case 0:
				cur = nil
				codec.SetPublicKey(nil)
			case 1:
				cur = keys.A()
				codec.SetPublicKey(&cur.PublicKey)
			case 2:
				cur = keys.B()
				codec.SetPublicKey(&cur.PublicKey)
			}
			if cur != nil && codec.GetPublicKey() != &cur.PublicKey || cur == nil && codec.GetPublicKey() != nil {
				t.Fatalf("GetPublicKey does not return the key that was set")
			}
			id, wire, in, _ := cryptBody(g, 86)
			h := g.Header()
			h.ID = id
			flag := g.Bool("flag")
			m := *gen.Message(h, in())
			if flag {
				m.Header.Property |= 1 << 10
				h.Prop |= ref.BitEncrypt
			}
			size := len(wire)
			if flag {
				size = (len(wire) + 85) / 86 * 128
			}
			w.Reset()
			quiet(func() { err = codec.Send(m) })
			stat.Case(flag, stat.Hash("codec", id, wire, flag, cur == nil), func() string {
				return fmt.Sprintf("codec %04x %d bytes flag %v key %v", id, len(wire), flag, cur != nil)
			}, "codec")
			if flag && cur == nil {
				if bytes.Contains(w.Bytes(), ref.Escape(wire)) && len(wire) >= 8 {
					t.Fatalf("%04x: marked encrypted, but written in the clear (%v)", id, err)
				}
				continue
			}
			if size > 1023 {
				if err == nil {
					t.Fatalf("%04x: body of %d bytes sent", id, size)
				}
				continue
			}
			if err != nil {
				t.Fatalf("%04x: %v", id, err)
			}
			rh, _, body, err := ref.Parse(w.Bytes())
			if err != nil || gen.CanonRef(rh) != gen.CanonRef(h) {
				t.Fatalf("%04x: %v header %s want %s", id, err, gen.CanonRef(rh), gen.CanonRef(h))
			}
			if flag {
				if body, err = refDecrypt(cur, body); err != nil {
					t.Fatalf("%04x: %v", id, err)
				}
			}
			if !bytes.Equal(body, wire) {
				t.Fatalf("%04x: body %x, want %x", id, body, wire)
			}
		}
	})
}
