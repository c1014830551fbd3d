package srv

import (
	"fmt"
	"reflect"
	"testing"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"
	"verifharness/stat"
)

// C25: whatever an application sends, terminals receive only well-formed frames
// and the server and its other connections carry on.
func TestC25_Live(t *testing.T) {
	check(t, 1, func(t *rapid.T, g *gen.G) {
		w := serve(t, go808.Options{})
		defer w.stop()
		good := w.connect()
		good.phone = 424242
		gs := good.fence(t)
		var cs []*client
		desc := ""
		refused := 0
		for n := g.Int("terminals", 1, 3); n > 0; n-- {
			c := w.connect()
			c.phone = uint64(n)
			s := c.fence(t)
			cs = append(cs, c)
			for k := g.Int("sends", 1, 6); k > 0; k-- {
				id := gen.IDs[g.Uniform("type", len(gen.IDs))]
				e := g.Wild(id)
				if g.Int("nil", 0, 9) == 9 {
					e = reflect.Zero(reflect.TypeOf(e)).Interface().(protocol.Entity)
				}
				desc += fmt.Sprintf("%04x ", id)
				var err error
				switch g.Int("how", 0, 3) {
				case 0:
					_, err = s.Request(e, func(*protocol.Message) {})
				case 1:
					_, err = s.Reply(&protocol.Message{Header: protocol.Header{MsgID: protocol.MsgID(g.U16("id")), MsgSerialNo: g.U16("no")}, Body: e}, protocol.Result(g.U8("result")))
				default:
					_, err = s.Send(e)
				}
				if err != nil {
					refused++
					break
				}
				desc += "ok "
			}
		}
		stat.Case(true, stat.Hash(desc), func() string { return "sent: " + desc }, "live")
		good.fence(t)
		before := good.count()
		if _, err := gs.Send(&protocol.T808_0x8900{Type: 7}); err != nil || !good.waitFrames(before+1) {
			t.Fatalf("another terminal is not reached any more (%v) after sending %s", err, desc)
		}
		for _, c := range cs {
			// the connection is served or ended
			k := fenceKey{c.phone, c.serial + 1}
			h := c.header(fenceID)
			c.write(ref.Frame(h, nil))
			if !eventually(func() bool {
				w.mu.Lock()
				defer w.mu.Unlock()
				return w.fences[k] != nil || c.ended()
			}) {
				t.Fatalf("a connection is neither served nor closed after sending %s", desc)
			}
			c.mu.Lock()
			bad := c.bad
			c.mu.Unlock()
			if bad != "" {
				t.Fatalf("a terminal received a malformed frame: %s\nsent %s", bad, desc)
			}
		}
		fresh := w.connect()
		fresh.phone = 434343
		fresh.fence(t)
		good.fence(t)
	})
}
