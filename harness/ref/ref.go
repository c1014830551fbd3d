// Package ref is an independent reference implementation of the JT/T 808 wire
// format. It never calls go808.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"time"

	"golang.org/x/text/encoding/simplifiedchinese"
)

// Header of a frame, as on the wire.
type Header struct {
	ID     uint16
	Prop   uint16 // flag bits (10..15); the size is filled in by Bytes
	Phone  uint64
	Serial uint16
	Sum    uint16
	Seq    uint16
}

const (
	BitEncrypt = 1 << 10
	BitPacket  = 1 << 13
)

func (h Header) Packet() bool { return h.Prop&BitPacket != 0 }

// Bytes lays the header out for a body of the given size.
func (h Header) Bytes(size int) []byte {
	out := []byte{byte(h.ID >> 8), byte(h.ID)}
	prop := h.Prop&0xfc00 | uint16(size)
	out = append(out, byte(prop>>8), byte(prop))
	out = append(out, BCD(fmt.Sprintf("%012d", h.Phone))...)
	out = append(out, byte(h.Serial>>8), byte(h.Serial))
	if h.Packet() {
		out = append(out, byte(h.Sum>>8), byte(h.Sum), byte(h.Seq>>8), byte(h.Seq))
	}
	return out
}

// BCD packs an even number of decimal digits.
func BCD(digits string) []byte {
	if len(digits)%2 != 0 {
		panic("ref.BCD: odd " + digits)
	}
	out := make([]byte, 0, len(digits)/2)
	for i := 0; i < len(digits); i += 2 {
		out = append(out, (digits[i]-'0')<<4|(digits[i+1]-'0'))
	}
	return out
}

// Time is the 6-byte local YYMMDDhhmmss form.
func Time(t time.Time) []byte {
	l := t.In(time.Local)
	return BCD(fmt.Sprintf("%02d%02d%02d%02d%02d%02d", l.Year()%100, int(l.Month()), l.Day(), l.Hour(), l.Minute(), l.Second()))
}

// GB encodes text as GB18030.
func GB(s string) []byte {
	b, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return b
}

// XOR checksum.
func XOR(p []byte) byte {
	var c byte
	for _, b := range p {
		c ^= b
	}
	return c
}

// Escape escapes delimiters.
func Escape(p []byte) []byte {
	out := make([]byte, 0, len(p)+8)
	for _, b := range p {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 0x02)
		case 0x7d:
			out = append(out, 0x7d, 0x01)
		default:
			out = append(out, b)
		}
	}
	return out
}

// Wrap escapes raw content (checksum already included) and adds delimiters.
func Wrap(content []byte) []byte {
	out := append([]byte{0x7e}, Escape(content)...)
	return append(out, 0x7e)
}

// Frame builds a full frame from a header and a body.
func Frame(h Header, body []byte) []byte { return RawFrame(h.Bytes(len(body)), body) }

// RawFrame builds a frame with a correct checksum from arbitrary header bytes.
func RawFrame(head, body []byte) []byte {
	c := append(append([]byte{}, head...), body...)
	return Wrap(append(c, XOR(c)))
}

var (
	ErrDelim  = errors.New("ref: delimiter")
	ErrEscape = errors.New("ref: escape")
	ErrSum    = errors.New("ref: checksum")
	ErrShort  = errors.New("ref: too short")
	ErrBCD    = errors.New("ref: phone digits")
)

// Content unescapes a frame and verifies delimiters, escapes and checksum.
// The result excludes the checksum byte.
func Content(frame []byte) ([]byte, error) { return content(frame, false) }

// LaxContent is Content, but takes an unescaped delimiter inside literally.
func LaxContent(frame []byte) ([]byte, error) { return content(frame, true) }

func content(frame []byte, lax bool) ([]byte, error) {
	if len(frame) < 2 || frame[0] != 0x7e || frame[len(frame)-1] != 0x7e {
		return nil, ErrDelim
	}
	in := frame[1 : len(frame)-1]
	out := make([]byte, 0, len(in))
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case 0x7e:
			if !lax {
				return nil, ErrDelim
			}
			out = append(out, in[i])
		case 0x7d:
			i++
			if i >= len(in) {
				return nil, ErrEscape
			}
			switch in[i] {
			case 1:
				out = append(out, 0x7d)
			case 2:
				out = append(out, 0x7e)
			default:
				return nil, ErrEscape
			}
		default:
			out = append(out, in[i])
		}
	}
	if len(out) == 0 {
		return nil, ErrShort
	}
	if XOR(out) != 0 {
		return nil, ErrSum
	}
	return out[:len(out)-1], nil
}

// Parse splits a valid frame into header and body. size is the declared length.
func Parse(frame []byte) (h Header, size int, body []byte, err error) {
	return parse(frame, false)
}

// LaxParse is Parse with LaxContent.
func LaxParse(frame []byte) (h Header, size int, body []byte, err error) {
	return parse(frame, true)
}

func parse(frame []byte, lax bool) (h Header, size int, body []byte, err error) {
	c, err := content(frame, lax)
	if err != nil {
		return
	}
	if len(c) < 12 {
		err = ErrShort
		return
	}
	h.ID = binary.BigEndian.Uint16(c)
	prop := binary.BigEndian.Uint16(c[2:])
	size = int(prop & 0x3ff)
	h.Prop = prop & 0xfc00
	for _, b := range c[4:10] {
		if b>>4 > 9 || b&15 > 9 {
			err = ErrBCD
			return
		}
		h.Phone = h.Phone*100 + uint64(b>>4)*10 + uint64(b&15)
	}
	h.Serial = binary.BigEndian.Uint16(c[10:])
	body = c[12:]
	if h.Packet() {
		if len(c) < 16 {
			err = ErrShort
			return
		}
		h.Sum = binary.BigEndian.Uint16(c[12:])
		h.Seq = binary.BigEndian.Uint16(c[14:])
		body = c[16:]
	}
	return
}

// ValidTime tells whether six bytes are a date and time of day, YYMMDDhhmmss
// in binary coded decimal, that the calendar has.
func ValidTime(b []byte) bool {
	if len(b) != 6 {
		return false
	}
	var v [6]int
	for i, x := range b {
		if x>>4 > 9 || x&15 > 9 {
			return false
		}
		v[i] = int(x>>4)*10 + int(x&15)
	}
	if v[1] < 1 || v[1] > 12 || v[2] < 1 || v[3] > 23 || v[4] > 59 || v[5] > 59 {
		return false
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[v[1]-1]
	if v[1] == 2 && v[0]%4 == 0 { // 2000 to 2099
		days++
	}
	return v[2] <= days
}
