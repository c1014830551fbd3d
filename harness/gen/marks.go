package gen

import (
	"gitee.com/coco/go808/protocol"
	"github.com/shopspring/decimal"
)

// Marks tells whether encoding the area sets its hemisphere flags, in the
// message as well as in the bytes.
func Marks(e protocol.Entity) bool {
	neg := func(ds ...decimal.Decimal) bool {
		for _, d := range ds {
			if d.Sign() < 0 {
				return true
			}
		}
		return false
	}
	switch a := e.(type) {
	case *protocol.T808_0x8602:
		for _, i := range a.Items {
			if neg(i.LeftTopLat, i.LeftTopLon, i.RightBottomLat, i.RightBottomLon) {
				return true
			}
		}
	case *protocol.T808_0x8604:
		for _, v := range a.Vertexes {
			if neg(v.Lat, v.Lng) {
				return true
			}
		}
	}
	return false
}
