package gen

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"io"
	"io/ioutil"
	"reflect"
	"strings"
	"time"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"

	"verifharness/ref"
)

// Canon renders a value in a canonical form in which exactly the observable
// content matters: instants as Unix seconds, decimals by value, parameters by
// ID and bytes, extras by ID and value, empty and nil lists alike, readers by
// content (the reader is rewound or replaced by the caller's entity where
// possible).
func Canon(v interface{}) string {
	var b strings.Builder
	canon(&b, reflect.ValueOf(v), false)
	return b.String()
}

// CanonPayload also renders each extra's payload bytes.
func CanonPayload(v interface{}) string {
	var b strings.Builder
	canon(&b, reflect.ValueOf(v), true)
	return b.String()
}

func canon(b *strings.Builder, v reflect.Value, payload bool) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			fmt.Fprintf(b, "T%d", x.Unix())
			return
		case decimal.Decimal:
			b.WriteString("D" + x.StringFixed(9))
			return
		case *protocol.Param:
			if x == nil {
				b.WriteString("nil")
				return
			}
			d, err := x.GetBytes()
			fmt.Fprintf(b, "P%x:%x:%v", x.ID(), d, err)
			return
		case protocol.Param:
			p := x
			d, err := p.GetBytes()
			fmt.Fprintf(b, "P%x:%x:%v", p.ID(), d, err)
			return
		case *rsa.PublicKey:
			if x == nil {
				b.WriteString("nil")
				return
			}
			fmt.Fprintf(b, "K%x:%d", x.N, x.E)
			return
		case []byte:
			fmt.Fprintf(b, "x%x", x)
			return
		case extra.Entity:
			if x == nil || reflect.ValueOf(x).Kind() == reflect.Ptr && reflect.ValueOf(x).IsNil() {
				b.WriteString("nil")
				return
			}
			fmt.Fprintf(b, "E%02x=", x.ID())
			canon(b, reflect.ValueOf(x.Value()), payload)
			if payload {
				fmt.Fprintf(b, "/%x", x.Data())
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		canon(b, v.Elem(), payload)
	case reflect.Interface:
		if v.IsNil() {
			if v.Type() == readerType {
				b.WriteString("R")
				return
			}
			b.WriteString("nil")
			return
		}
		if v.Type() == readerType {
			r := v.Interface().(io.Reader)
			data, err := ioutil.ReadAll(r)
			fmt.Fprintf(b, "R%x", data)
			if err != nil {
				fmt.Fprintf(b, "!%v", err)
			}
			if v.CanSet() { // leave a fresh reader behind
				v.Set(reflect.ValueOf(bytes.NewReader(data)))
			}
			return
		}
		canon(b, v.Elem(), payload)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			b.WriteString(f.Name + ":")
			canon(b, v.Field(i), payload)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Array && v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString("x")
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(b, "%02x", v.Index(i).Uint())
			}
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			canon(b, v.Index(i), payload)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

var readerType = reflect.TypeOf((*io.Reader)(nil)).Elem()

// CanonHeader renders a decoded header; the size bits are not included.
func CanonHeader(h protocol.Header) string {
	s := fmt.Sprintf("id=%04x prop=%04x phone=%d serial=%d", uint16(h.MsgID), uint16(h.Property)&0xfc00, h.IccID, h.MsgSerialNo)
	if h.Packet != nil {
		s += fmt.Sprintf(" packet=%d/%d", h.Packet.Seq, h.Packet.Sum)
	}
	return s
}

// CanonRef renders a reference header the same way.
func CanonRef(h ref.Header) string {
	s := fmt.Sprintf("id=%04x prop=%04x phone=%d serial=%d", h.ID, h.Prop&0xfc00, h.Phone, h.Serial)
	if h.Packet() {
		s += fmt.Sprintf(" packet=%d/%d", h.Seq, h.Sum)
	}
	return s
}
