package gen

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"time"

	p "gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"
)

var (
	decimalType = reflect.TypeOf(decimal.Decimal{})
	timeType    = reflect.TypeOf(time.Time{})
	paramType   = reflect.TypeOf(p.Param{})
	extraType   = reflect.TypeOf((*extra.Entity)(nil)).Elem()
)

type badReader struct{}

func (badReader) Read([]byte) (int, error) { return 0, errors.New("broken reader") }

// Wild draws an entity of the given type as an application might build it:
// every exported field arbitrary, fitting the wire or not.
func (g *G) Wild(id uint16) p.Entity {
	e := New[id]()
	if g.Int("zero", 0, 19) == 19 {
		return e
	}
	g.wild(reflect.ValueOf(e).Elem(), 3)
	return e
}

func (g *G) wildLen(depth int) int {
	switch g.Int("len", 0, 9) {
	case 9:
		return g.Int("n", 0, 300)
	case 8:
		return g.Int("n", 4, 40)
	default:
		return g.Int("n", 0, depth)
	}
}

func (g *G) wild(v reflect.Value, depth int) {
	switch v.Type() {
	case decimalType:
		n := new(big.Int).SetInt64(int64(g.wildInt(64)))
		if g.Int("big", 0, 9) == 9 {
			n.Mul(n, n).Mul(n, big.NewInt(int64(g.Int("sgn", -1, 1))))
		}
		v.Set(reflect.ValueOf(decimal.NewFromBigInt(n, int32(g.Int("exp", -40, 30)))))
		return
	case timeType:
		switch g.Int("time", 0, 5) {
		case 0:
		case 1:
			v.Set(reflect.ValueOf(time.Unix(int64(g.wildInt(64)), 0)))
		default:
			t := time.Unix(int64(int32(g.wildInt(32))), int64(g.Int("ns", 0, 999999999)))
			if g.Bool("utc") {
				t = t.UTC()
			}
			v.Set(reflect.ValueOf(t))
		}
		return
	case paramType:
		prm := v.Addr().Interface().(*p.Param)
		id := uint32(g.wildInt(32))
		switch g.Int("param", 0, 5) {
		case 0: // never set
		case 1:
			prm.SetByte(id, g.U8("v"))
		case 2:
			prm.SetBytes(id, g.Bytes("v", g.wildLen(5)))
		case 3:
			prm.SetUint16(id, g.U16("v"))
		case 4:
			prm.SetUint32(id, g.U32("v"))
		default:
			prm.SetString(id, g.wildText())
		}
		return
	case extraType:
		if x := g.wildExtra(); x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return
	case readerType:
		switch g.Int("reader", 0, 4) {
		case 0:
		case 1:
			v.Set(reflect.ValueOf(badReader{}))
		default:
			v.Set(reflect.ValueOf(bytes.NewReader(g.Bytes("media", g.wildLen(20)))))
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.Bool("b"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.wildInt(v.Type().Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.wildInt(v.Type().Bits()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1.5, -1, math.MaxFloat64, math.NaN(), math.Inf(1), math.Inf(-1)}[g.Uniform("float", 7)])
	case reflect.String:
		v.SetString(g.wildText())
	case reflect.Slice:
		n := g.wildLen(depth)
		if n == 0 && g.Bool("nil") {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(g.Bytes("bytes", n))
			return
		}
		if depth <= 1 && n > 3 {
			n = 3
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		same := g.Bool("same") && n > 4
		for i := 0; i < n; i++ {
			if same && i > 0 {
				s.Index(i).Set(s.Index(0))
			} else {
				g.wild(s.Index(i), depth-1)
			}
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.wild(v.Index(i), depth-1)
		}
	case reflect.Ptr:
		if g.Int("nil", 0, 5) == 5 {
			return
		}
		x := reflect.New(v.Type().Elem())
		g.wild(x.Elem(), depth)
		v.Set(x)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				g.wild(v.Field(i), depth)
			}
		}
	default:
		panic(fmt.Sprintf("wild: %v", v.Type()))
	}
}

func (g *G) wildInt(bits int) uint64 {
	switch g.Int("int", 0, 4) {
	case 0:
		return uint64(g.Int("v", 0, 300))
	case 1:
		return 1<<uint(bits-1) + uint64(g.Int("v", -2, 2))
	case 2:
		return math.MaxUint64 - uint64(g.Int("v", 0, 3))
	case 3:
		return 1 << uint(g.Int("bit", 0, bits-1))
	default:
		return uint64(g.U32("hi"))<<32 | uint64(g.U32("lo"))
	}
}

func (g *G) wildText() string {
	switch g.Int("text", 0, 6) {
	case 0:
		return ""
	case 1: // no text at all
		return string(g.Bytes("text", g.wildLen(6)))
	case 2:
		return strings.Repeat([]string{"a", "车", "\x00", "😀", "\xff", "\u00a5"}[g.Uniform("char", 6)], g.wildLen(6))
	case 3:
		return "123456789012345678"[:g.Int("digits", 0, 18)]
	default:
		return g.Text("text", 12)
	}
}

func (g *G) wildExtra() extra.Entity {
	x := g.DrawExtra().Build()
	switch g.Int("extra", 0, 5) {
	case 0: // never given a value
		return reflect.New(reflect.TypeOf(x).Elem()).Interface().(extra.Entity)
	case 1:
		return nil
	case 2:
		return reflect.Zero(reflect.TypeOf(x)).Interface().(extra.Entity)
	}
	return x
}
