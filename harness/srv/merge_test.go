package srv

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// upload is what one terminal is sending under one tag.
type upload struct {
	phone uint64
	tag   uint32
	sum   int
	have  map[int][]byte // since the last merge
	todo  []int          // parts still to be sent, in sending order
}

// C17: uploads over a server that merges automatically.
func TestC17_Merging(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		os.RemoveAll(filepath.Join(os.TempDir(), "go808"))
		w := serve(t, go808.Options{AutoMergePacket: true})
		defer w.stop()
		type event struct {
			phone uint64
			text  string
		}
		var mu sync.Mutex
		var got []event
		panicky := g.Int("panicky", 0, 3)
		calls := 0
		w.s.AddHandler(0x0801, func(s *go808.Session, m *protocol.Message) {
			b := m.Body.(*protocol.T808_0x0801)
			text := fmt.Sprintf("upload tag %d: no reader", b.MediaID)
			if b.Packet != nil {
				data, err := io.ReadAll(b.Packet)
				text = fmt.Sprintf("upload tag %d: %x %v", b.MediaID, data, err)
			}
			mu.Lock()
			calls++
			bad := panicky > 0 && calls%panicky == 0
			got = append(got, event{m.Header.IccID, text})
			mu.Unlock()
			if bad {
				panic("upload handler gives up")
			}
		})
		plain := func(s *go808.Session, m *protocol.Message) {
			mu.Lock()
			got = append(got, event{m.Header.IccID, canonMsg(m)})
			mu.Unlock()
		}
		for _, id := range []uint16{0x0002, 0x0200, 0x0102} {
			w.s.AddHandler(protocol.MsgID(id), plain)
		}
		type term struct {
			c       *client
			phone   uint64
			out     uint16
			wire    []frame // expected from the platform on this connection
			want    []string
			uploads []*upload
		}
		var terms []*term
		phones := []uint64{1, 11, 111, 138}
		tags := []uint32{1, 11, 111, 0, 0xffffffff, 2049}
		for i := range tags { // tags and terminals that differ in a single bit only
			if i > 0 && g.Int("near", 0, 2) == 2 {
				tags[i] = tags[g.Uniform("of", i)] ^ 1<<g.Uniform("bit", 32)
			}
		}
		for i := range phones {
			if i > 0 && g.Int("near", 0, 2) == 2 {
				if p := phones[i-1] ^ 1<<g.Uniform("bit", 37); p != 0 {
					phones[i] = p
				}
			}
		}
		if phones[3] == phones[1] || phones[2] == phones[0] || phones[3] == phones[0] {
			phones = []uint64{1, 11, 111, 138}
		}
		for i := g.Int("terminals", 1, 3); i > 0; i-- {
			tm := &term{c: w.connect(), phone: phones[len(terms)]}
			tm.c.phone = tm.phone
			terms = append(terms, tm)
		}
		begin := func(tm *term) *upload {
			tag := tags[g.Uniform("tag", len(tags))]
			var u *upload
			for _, o := range tm.uploads {
				if o.tag == tag {
					u = o
				}
			}
			if u != nil && len(u.todo) > 0 {
				return u
			}
			if u == nil {
				u = &upload{phone: tm.phone, tag: tag, have: map[int][]byte{}}
				tm.uploads = append(tm.uploads, u)
			}
			if len(u.have) == 0 {
				u.sum = g.Int("sum", 1, 5)
				if g.Int("many", 0, 9) == 9 {
					u.sum = g.Int("sum", 9, 13)
				}
			}
			perm := make([]int, u.sum)
			for i := range perm {
				perm[i] = i + 1
			}
			switch g.Int("order", 0, 2) {
			case 0:
			case 1:
				for i, j := 0, len(perm)-1; i < j; i, j = i+1, j-1 {
					perm[i], perm[j] = perm[j], perm[i]
				}
			default:
				for i := len(perm) - 1; i > 0; i-- {
					j := g.Uniform("perm", i+1)
					perm[i], perm[j] = perm[j], perm[i]
				}
			}
			u.todo = perm
			return u
		}
		desc := ""
		completed := 0
		for round := g.Int("rounds", 1, 7); round > 0; round-- {
			data := make([][][]byte, len(terms))
			for i, tm := range terms {
				var all []byte
				reply := func(h ref.Header, result byte) {
					tm.out = tm.out%255 + 1
					rh := ref.Header{ID: 0x8001, Phone: tm.phone, Serial: tm.out}
					tm.wire = append(tm.wire, frame{h: rh, raw: ref.Frame(rh, replyBody(h.Serial, h.ID, result))})
				}
				part := func(u *upload, seq int) {
					h := tm.c.header(0x0801)
					h.Prop |= ref.BitPacket
					h.Sum, h.Seq = uint16(u.sum), uint16(seq)
					n := g.Int("len", 0, 30)
					if g.Int("long", 0, 5) == 5 {
						n = g.Int("len", 900, 987)
					}
					payload := g.Bytes("payload", n)
					all = append(all, ref.Frame(h, mediaPart(u.tag, payload))...)
					reply(h, 0)
					if seq >= 1 && seq <= u.sum {
						u.have[seq] = payload
						full := true
						var whole []byte
						for k := 1; k <= u.sum; k++ {
							p, ok := u.have[k]
							full = full && ok
							whole = append(whole, p...)
						}
						desc += fmt.Sprintf("%d/%d part %d of %d", u.phone, u.tag, seq, u.sum)
						if full {
							u.have = map[int][]byte{}
							tm.want = append(tm.want, fmt.Sprintf("upload tag %d: %x <nil>", u.tag, whole))
							completed++
							desc += " complete"
						}
						desc += "; "
					}
				}
				for n := g.Int("msgs", 0, 8); n > 0; n-- {
					switch k := g.Int("what", 0, 11); {
					case k <= 6: // the next part of an upload
						u := begin(tm)
						seq := u.todo[0]
						u.todo = u.todo[1:]
						part(u, seq)
					case k == 7 && len(tm.uploads) > 0: // a retransmission, or a part outside the upload
						u := tm.uploads[g.Uniform("which", len(tm.uploads))]
						if len(u.have) == 0 || len(u.have) >= u.sum {
							continue
						}
						var sent []int
						for s := 1; s <= u.sum; s++ {
							if _, ok := u.have[s]; ok {
								sent = append(sent, s)
							}
						}
						if g.Int("outside", 0, 3) == 3 {
							part(u, u.sum+g.Int("over", 1, 3))
							desc += "surplus part; "
						} else {
							part(u, sent[g.Uniform("again", len(sent))])
						}
					case k == 8: // an upload that fits one message
						h := tm.c.header(0x0801)
						payload := g.Blob("payload", 40)
						tag := tags[g.Uniform("tag", len(tags))]
						all = append(all, ref.Frame(h, mediaPart(tag, payload))...)
						tm.want = append(tm.want, fmt.Sprintf("upload tag %d: %x <nil>", tag, payload))
						desc += "whole; "
					case k == 9: // a damaged part
						h := tm.c.header(0x0801)
						h.Prop |= ref.BitPacket
						h.Sum, h.Seq = uint16(g.Int("sum", 1, 3)), uint16(g.Int("seq", 1, 3))
						all = append(all, ref.Frame(h, mediaPart(1, nil)[:g.Int("cut", 0, 35)])...)
						reply(h, 3)
						desc += "short part; "
					default: // other messages, sub-packaged or not
						id := []uint16{0x0002, 0x0200, 0x0102}[g.Int("other", 0, 2)]
						c := gen.Gens[id](g)
						if !c.Fits() {
							continue
						}
						h := tm.c.header(id)
						if g.Bool("pkt") {
							h.Prop |= ref.BitPacket
							h.Sum, h.Seq = uint16(g.Int("sum", 0, 3)), uint16(g.Int("seq", 0, 3))
						}
						all = append(all, ref.Frame(h, c.Wire)...)
						tm.want = append(tm.want, gen.CanonRef(h)+" "+gen.Canon(c.Want()))
						desc += "other; "
					}
				}
				data[i] = pieces(g, all)
			}
			var wg sync.WaitGroup
			for i, tm := range terms {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, p := range data[i] {
						tm.c.write(p)
					}
				}()
			}
			wg.Wait()
			for i, tm := range terms {
				tm.c.waitFrames(len(tm.wire))
				tm.c.fence(t)
				fs := tm.c.frames()
				for k := 0; k < len(fs) || k < len(tm.wire); k++ {
					switch {
					case k >= len(fs):
						t.Fatalf("terminal %d: no answer %x\n%s", i, tm.wire[k].raw, desc)
					case k >= len(tm.wire):
						t.Fatalf("terminal %d: surplus message %v\n%s", i, fs[k], desc)
					case string(fs[k].raw) != string(tm.wire[k].raw):
						t.Fatalf("terminal %d: answer %d is %x, want %x\n%s", i, k, fs[k].raw, tm.wire[k].raw, desc)
					}
				}
				if g.Int("reconnect", 0, 9) == 9 { // uploads go on over a new connection
					desc += "reconnect; "
					tm.c.conn.Close()
					serial := tm.c.serial
					tm.c = w.connect()
					tm.c.phone, tm.c.serial = tm.phone, serial
					tm.out, tm.wire = 0, nil
				}
			}
		}
		mu.Lock()
		events := append([]event(nil), got...)
		mu.Unlock()
		for i, tm := range terms {
			var mine []string
			for _, e := range events {
				if e.phone == tm.phone {
					mine = append(mine, e.text)
				}
			}
			for k := 0; k < len(mine) || k < len(tm.want); k++ {
				switch {
				case k >= len(mine):
					t.Fatalf("terminal %d: handler was not called for %s\n%s", i, tm.want[k], desc)
				case k >= len(tm.want):
					t.Fatalf("terminal %d: surplus handler call %s\n%s", i, mine[k], desc)
				case mine[k] != tm.want[k]:
					t.Fatalf("terminal %d: handler call %d is\n %s\nwant\n %s\n%s", i, k, mine[k], tm.want[k], desc)
				}
			}
		}
		stat.Case(completed > 0, stat.Hash(desc, len(terms)), func() string { return fmt.Sprintf("%d terminals: %.500s", len(terms), desc) }, fmt.Sprintf("completed-%d", min(completed, 5)))
	})
}
