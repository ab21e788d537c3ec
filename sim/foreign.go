package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// A peer of another implementation: its own encoders and decoders for JSON,
// CBOR and MessagePack, which know the formats and the WAMP message layouts
// from their specifications and share nothing with the code under test.

// ---------------------------------------------------------------- decoders

var errShort = errors.New("short")

// foreignDecode is strict: anything the format does not allow, or left over, is an error.
func foreignDecode(kind int, b []byte) (any, error) {
	var v any
	var rest []byte
	var err error
	switch kind {
	case serCBOR:
		v, rest, err = decCBOR(b, 0)
	case serMsgPack:
		v, rest, err = decMsgPack(b, 0)
	default:
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if !utf8.Valid(b) {
			return nil, errors.New("not UTF-8")
		}
		if err = d.Decode(&v); err != nil {
			return nil, err
		}
		rest = bytes.TrimSpace(b[d.InputOffset():])
		v, err = jsonNumbers(v)
	}
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, fmt.Errorf("%d bytes left over", len(rest))
	}
	return v, nil
}

func jsonNumbers(v any) (any, error) {
	switch x := v.(type) {
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return i, nil
		}
		if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			return u, nil
		}
		return strconv.ParseFloat(string(x), 64)
	case []any:
		for i := range x {
			e, err := jsonNumbers(x[i])
			if err != nil {
				return nil, err
			}
			x[i] = e
		}
	case map[string]any:
		for k := range x {
			e, err := jsonNumbers(x[k])
			if err != nil {
				return nil, err
			}
			x[k] = e
		}
	}
	return v, nil
}

func decCBOR(b []byte, depth int) (any, []byte, error) {
	if depth > 200 {
		return nil, nil, errors.New("nested too deep")
	}
	if len(b) == 0 {
		return nil, nil, errShort
	}
	major, info := b[0]>>5, b[0]&31
	b = b[1:]
	var n uint64
	switch {
	case info < 24:
		n = uint64(info)
	case info <= 27:
		size := 1 << (info - 24)
		if len(b) < size {
			return nil, nil, errShort
		}
		for _, c := range b[:size] {
			n = n<<8 | uint64(c)
		}
		b = b[size:]
	default:
		return nil, nil, fmt.Errorf("item head %d/%d", major, info)
	}
	switch major {
	case 0:
		return n, b, nil
	case 1:
		if n > math.MaxInt64 {
			return nil, nil, errors.New("negative integer out of range")
		}
		return -1 - int64(n), b, nil
	case 2, 3:
		if uint64(len(b)) < n {
			return nil, nil, errShort
		}
		if major == 2 {
			return append([]byte{}, b[:n]...), b[n:], nil
		}
		if !utf8.Valid(b[:n]) {
			return nil, nil, errors.New("text is not UTF-8")
		}
		return string(b[:n]), b[n:], nil
	case 4:
		list := []any{}
		for ; n > 0; n-- {
			v, rest, err := decCBOR(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			list, b = append(list, v), rest
		}
		return list, b, nil
	case 5:
		m := map[string]any{}
		for ; n > 0; n-- {
			k, rest, err := decCBOR(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			name, ok := k.(string)
			if !ok {
				return nil, nil, fmt.Errorf("dictionary key %T", k)
			}
			v, rest, err := decCBOR(rest, depth+1)
			if err != nil {
				return nil, nil, err
			}
			if _, dup := m[name]; dup {
				return nil, nil, errors.New("duplicate key")
			}
			m[name], b = v, rest
		}
		return m, b, nil
	case 6:
		return nil, nil, fmt.Errorf("tag %d", n)
	}
	switch info {
	case 20:
		return false, b, nil
	case 21:
		return true, b, nil
	case 22:
		return nil, b, nil
	case 25:
		return half(uint16(n)), b, nil
	case 26:
		return float64(math.Float32frombits(uint32(n))), b, nil
	case 27:
		return math.Float64frombits(n), b, nil
	}
	return nil, nil, fmt.Errorf("simple value %d", info)
}

func half(h uint16) float64 {
	exp, mant := int(h>>10)&31, float64(h&1023)
	var v float64
	switch exp {
	case 0:
		v = math.Ldexp(mant, -24)
	case 31:
		v = math.Inf(1)
		if mant != 0 {
			v = math.NaN()
		}
	default:
		v = math.Ldexp(mant+1024, exp-25)
	}
	if h&0x8000 != 0 {
		v = -v
	}
	return v
}

func decMsgPack(b []byte, depth int) (any, []byte, error) {
	if depth > 200 {
		return nil, nil, errors.New("nested too deep")
	}
	if len(b) == 0 {
		return nil, nil, errShort
	}
	c := b[0]
	b = b[1:]
	uintOf := func(size int) (uint64, bool) {
		if len(b) < size {
			return 0, false
		}
		var n uint64
		for _, x := range b[:size] {
			n = n<<8 | uint64(x)
		}
		b = b[size:]
		return n, true
	}
	text := func(n uint64, bin bool) (any, []byte, error) {
		if uint64(len(b)) < n {
			return nil, nil, errShort
		}
		if bin {
			return append([]byte{}, b[:n]...), b[n:], nil
		}
		if !utf8.Valid(b[:n]) {
			return nil, nil, errors.New("str is not UTF-8")
		}
		return string(b[:n]), b[n:], nil
	}
	list := func(n uint64) (any, []byte, error) {
		l := []any{}
		for ; n > 0; n-- {
			v, rest, err := decMsgPack(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			l, b = append(l, v), rest
		}
		return l, b, nil
	}
	dict := func(n uint64) (any, []byte, error) {
		m := map[string]any{}
		for ; n > 0; n-- {
			k, rest, err := decMsgPack(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			name, ok := k.(string)
			if !ok {
				return nil, nil, fmt.Errorf("dictionary key %T", k)
			}
			v, rest, err := decMsgPack(rest, depth+1)
			if err != nil {
				return nil, nil, err
			}
			if _, dup := m[name]; dup {
				return nil, nil, errors.New("duplicate key")
			}
			m[name], b = v, rest
		}
		return m, b, nil
	}
	switch {
	case c < 0x80:
		return uint64(c), b, nil
	case c >= 0xe0:
		return int64(int8(c)), b, nil
	case c>>4 == 8:
		return dict(uint64(c & 15))
	case c>>4 == 9:
		return list(uint64(c & 15))
	case c>>5 == 5:
		return text(uint64(c&31), false)
	}
	sized := func(size int, f func(n uint64) (any, []byte, error)) (any, []byte, error) {
		n, ok := uintOf(size)
		if !ok {
			return nil, nil, errShort
		}
		return f(n)
	}
	value := func(f func(n uint64) any) func(n uint64) (any, []byte, error) {
		return func(n uint64) (any, []byte, error) { return f(n), b, nil }
	}
	switch c {
	case 0xc0:
		return nil, b, nil
	case 0xc2:
		return false, b, nil
	case 0xc3:
		return true, b, nil
	case 0xc4, 0xc5, 0xc6:
		return sized(1<<(c-0xc4), func(n uint64) (any, []byte, error) { return text(n, true) })
	case 0xca:
		return sized(4, value(func(n uint64) any { return float64(math.Float32frombits(uint32(n))) }))
	case 0xcb:
		return sized(8, value(func(n uint64) any { return math.Float64frombits(n) }))
	case 0xcc, 0xcd, 0xce, 0xcf:
		return sized(1<<(c-0xcc), value(func(n uint64) any { return n }))
	case 0xd0:
		return sized(1, value(func(n uint64) any { return int64(int8(n)) }))
	case 0xd1:
		return sized(2, value(func(n uint64) any { return int64(int16(n)) }))
	case 0xd2:
		return sized(4, value(func(n uint64) any { return int64(int32(n)) }))
	case 0xd3:
		return sized(8, value(func(n uint64) any { return int64(n) }))
	case 0xd9, 0xda, 0xdb:
		return sized(1<<(c-0xd9), func(n uint64) (any, []byte, error) { return text(n, false) })
	case 0xdc, 0xdd:
		return sized(2<<(c-0xdc), list)
	case 0xde, 0xdf:
		return sized(2<<(c-0xde), dict)
	}
	return nil, nil, fmt.Errorf("format byte %#x", c)
}

// ---------------------------------------------------------------- encoders

// foreignEncode uses any of the forms in which the format can say the same.
func foreignEncode(kind int, v any, r *rt.PRNG) []byte {
	switch kind {
	case serCBOR:
		return politeCBOR(nil, v, r)
	case serMsgPack:
		return politeMsgPack(nil, v, r)
	}
	return politeJSON(nil, v, r)
}

func sortedNames(m map[string]any, r *rt.PRNG) []string {
	names := make([]string, 0, len(m))
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	for i := len(names) - 1; i > 0; i-- {
		j := r.N(i + 1)
		names[i], names[j] = names[j], names[i]
	}
	return names
}

func politeJSONString(b []byte, s string, r *rt.PRNG) []byte {
	b = append(b, '"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', byte(c))
		case c == '/' && r.N(2) == 0:
			b = append(b, '\\', '/')
		case c == '\n' && r.N(2) == 0:
			b = append(b, '\\', 'n')
		case c < 0x20, c < 0x10000 && r.N(8) == 0:
			b = append(b, fmt.Sprintf([]string{"\\u%04x", "\\u%04X"}[r.N(2)], c)...)
		case c >= 0x10000 && r.N(2) == 0:
			c -= 0x10000
			b = append(b, fmt.Sprintf("\\u%04x\\u%04x", 0xd800+c>>10, 0xdc00+c&0x3ff)...)
		default:
			b = utf8.AppendRune(b, c)
		}
	}
	return append(b, '"')
}

func politeJSON(b []byte, v any, r *rt.PRNG) []byte {
	space := func() {
		if r.N(12) == 0 {
			b = append(b, " \t\n\r"[r.N(4)])
		}
	}
	space()
	switch x := v.(type) {
	case nil:
		b = append(b, "null"...)
	case bool:
		b = strconv.AppendBool(b, x)
	case string:
		b = politeJSONString(b, x, r)
	case int64:
		if x%10 == 0 && x != 0 && r.N(4) == 0 {
			b = append(strconv.AppendInt(b, x/10, 10), "e1"...)
		} else {
			b = strconv.AppendInt(b, x, 10)
			if r.N(8) == 0 {
				b = append(b, ".0"...)
			}
		}
	case uint64:
		b = strconv.AppendUint(b, x, 10)
	case float64:
		b = strconv.AppendFloat(b, x, "eEg"[r.N(3)], -1, 64)
	case []any:
		b = append(b, '[')
		for i, e := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = politeJSON(b, e, r)
		}
		space()
		b = append(b, ']')
	case map[string]any:
		b = append(b, '{')
		for i, k := range sortedNames(x, r) {
			if i > 0 {
				b = append(b, ',')
			}
			space()
			b = politeJSONString(b, k, r)
			space()
			b = append(b, ':')
			b = politeJSON(b, x[k], r)
		}
		space()
		b = append(b, '}')
	default:
		panic(fmt.Sprintf("foreign JSON: %T", v))
	}
	space()
	return b
}

func politeCBOR(b []byte, v any, r *rt.PRNG) []byte {
	switch x := v.(type) {
	case nil:
		return append(b, 0xf6)
	case bool:
		if x {
			return append(b, 0xf5)
		}
		return append(b, 0xf4)
	case int64:
		if x < 0 {
			return cborHead(b, 1, uint64(-(x + 1)), r)
		}
		return cborHead(b, 0, uint64(x), r)
	case uint64:
		return cborHead(b, 0, x, r)
	case float64:
		if float64(float32(x)) == x && r.N(2) == 0 {
			return binary.BigEndian.AppendUint32(append(b, 0xfa), math.Float32bits(float32(x)))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xfb), math.Float64bits(x))
	case string:
		if r.N(12) == 0 { // in pieces
			b = append(b, 0x7f)
			for _, c := range x {
				if r.N(3) == 0 {
					b = append(b, 0x60)
				}
				s := string(c)
				b = append(cborHead(b, 3, uint64(len(s)), r), s...)
			}
			return append(b, 0xff)
		}
		return append(cborHead(b, 3, uint64(len(x)), r), x...)
	case []byte:
		return append(cborHead(b, 2, uint64(len(x)), r), x...)
	case []any:
		indef := r.N(8) == 0
		if indef {
			b = append(b, 0x9f)
		} else {
			b = cborHead(b, 4, uint64(len(x)), r)
		}
		for _, e := range x {
			b = politeCBOR(b, e, r)
		}
		if indef {
			b = append(b, 0xff)
		}
		return b
	case map[string]any:
		indef := r.N(8) == 0
		if indef {
			b = append(b, 0xbf)
		} else {
			b = cborHead(b, 5, uint64(len(x)), r)
		}
		for _, k := range sortedNames(x, r) {
			b = politeCBOR(b, k, r)
			b = politeCBOR(b, x[k], r)
		}
		if indef {
			b = append(b, 0xff)
		}
		return b
	}
	panic(fmt.Sprintf("foreign CBOR: %T", v))
}

func politeMsgPack(b []byte, v any, r *rt.PRNG) []byte {
	head := func(fix byte, fixMax int, c8, c16, c32 byte, n int) {
		w := r.N(6)
		switch {
		case fixMax > 0 && n < fixMax && w < 3:
			b = append(b, fix|byte(n))
		case c8 != 0 && n < 1<<8 && w < 4:
			b = append(b, c8, byte(n))
		case n < 1<<16 && w < 5:
			b = binary.BigEndian.AppendUint16(append(b, c16), uint16(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, c32), uint32(n))
		}
	}
	switch x := v.(type) {
	case nil:
		return append(b, 0xc0)
	case bool:
		if x {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case int64:
		if x >= 0 && r.N(2) == 0 {
			return politeMsgPack(b, uint64(x), r)
		}
		w := r.N(6)
		switch {
		case x >= -32 && x < 128 && w < 2:
			return append(b, byte(x))
		case x >= -128 && x < 128 && w < 4:
			return append(b, 0xd0, byte(x))
		case x >= -32768 && x < 32768 && w < 5:
			return binary.BigEndian.AppendUint16(append(b, 0xd1), uint16(x))
		case x >= math.MinInt32 && x <= math.MaxInt32:
			return binary.BigEndian.AppendUint32(append(b, 0xd2), uint32(x))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xd3), uint64(x))
	case uint64:
		w := r.N(6)
		switch {
		case x < 128 && w < 2:
			return append(b, byte(x))
		case x < 1<<8 && w < 4:
			return append(b, 0xcc, byte(x))
		case x < 1<<16 && w < 5:
			return binary.BigEndian.AppendUint16(append(b, 0xcd), uint16(x))
		case x < 1<<32:
			return binary.BigEndian.AppendUint32(append(b, 0xce), uint32(x))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xcf), x)
	case float64:
		if float64(float32(x)) == x && r.N(2) == 0 {
			return binary.BigEndian.AppendUint32(append(b, 0xca), math.Float32bits(float32(x)))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xcb), math.Float64bits(x))
	case string:
		head(0xa0, 32, 0xd9, 0xda, 0xdb, len(x))
		return append(b, x...)
	case []byte:
		head(0, 0, 0xc4, 0xc5, 0xc6, len(x))
		return append(b, x...)
	case []any:
		head(0x90, 16, 0, 0xdc, 0xdd, len(x))
		for _, e := range x {
			b = politeMsgPack(b, e, r)
		}
		return b
	case map[string]any:
		head(0x80, 16, 0, 0xde, 0xdf, len(x))
		for _, k := range sortedNames(x, r) {
			b = politeMsgPack(b, k, r)
			b = politeMsgPack(b, x[k], r)
		}
		return b
	}
	panic(fmt.Sprintf("foreign MessagePack: %T", v))
}

// plainString is plain with string keys throughout.
func plainString(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = plainString(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = plainString(x[i])
		}
		return l
	case []string:
		l := make([]any, len(x))
		for i := range x {
			l[i] = x[i]
		}
		return l
	case int:
		return int64(x)
	case uint64, int64, nil, bool, string, float64, []byte:
		return v
	}
	panic(fmt.Sprintf("no plain form for %T", v))
}

// ---------------------------------------------------------------- layouts

// argsAt is where a message's payload begins.
var argsAt = map[uint64]int{3: 3, 8: 5, 16: 4, 36: 4, 48: 4, 50: 3, 68: 4, 70: 3}

// specList is the list that the WAMP specification prescribes for a message,
// made from what the message says about itself.
func specList(m messages.Message) []any {
	pay := func(list []any, args []any, kwargs map[string]any) []any { return append(list, args, kwargs) }
	switch x := m.(type) {
	case *messages.Hello:
		return []any{1, x.Realm(), map[string]any{"authid": x.AuthID(), "authmethods": x.AuthMethods(), "authextra": x.AuthExtra(), "roles": x.Roles()}}
	case *messages.Welcome:
		return []any{2, x.SessionID(), x.Details()}
	case *messages.Abort:
		return pay([]any{3, x.Details(), x.Reason()}, x.Args(), x.KwArgs())
	case *messages.Challenge:
		return []any{4, x.AuthMethod(), x.Extra()}
	case *messages.Authenticate:
		return []any{5, x.Signature(), x.Extra()}
	case *messages.GoodBye:
		return []any{6, x.Details(), x.Reason()}
	case *messages.Error:
		return pay([]any{8, x.MessageType(), x.RequestID(), x.Details(), x.URI()}, x.Args(), x.KwArgs())
	case *messages.Publish:
		return pay([]any{16, x.RequestID(), x.Options(), x.Topic()}, x.Args(), x.KwArgs())
	case *messages.Published:
		return []any{17, x.RequestID(), x.PublicationID()}
	case *messages.Subscribe:
		return []any{32, x.RequestID(), x.Options(), x.Topic()}
	case *messages.Subscribed:
		return []any{33, x.RequestID(), x.SubscriptionID()}
	case *messages.Unsubscribe:
		return []any{34, x.RequestID(), x.SubscriptionID()}
	case *messages.Unsubscribed:
		return []any{35, x.RequestID()}
	case *messages.Event:
		return pay([]any{36, x.SubscriptionID(), x.PublicationID(), x.Details()}, x.Args(), x.KwArgs())
	case *messages.Call:
		return pay([]any{48, x.RequestID(), x.Options(), x.Procedure()}, x.Args(), x.KwArgs())
	case *messages.Cancel:
		return []any{49, x.RequestID(), x.Options()}
	case *messages.Result:
		return pay([]any{50, x.RequestID(), x.Details()}, x.Args(), x.KwArgs())
	case *messages.Register:
		return []any{64, x.RequestID(), x.Options(), x.Procedure()}
	case *messages.Registered:
		return []any{65, x.RequestID(), x.RegistrationID()}
	case *messages.Unregister:
		return []any{66, x.RequestID(), x.RegistrationID()}
	case *messages.Unregistered:
		return []any{67, x.RequestID()}
	case *messages.Invocation:
		return pay([]any{68, x.RequestID(), x.RegistrationID(), x.Details()}, x.Args(), x.KwArgs())
	case *messages.Interrupt:
		return []any{69, x.RequestID(), x.Options()}
	case *messages.Yield:
		return pay([]any{70, x.RequestID(), x.Options()}, x.Args(), x.KwArgs())
	}
	return []any{fmt.Sprintf("%T", m)}
}

func emptyContainer(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case []any:
		return len(x) == 0
	case map[string]any:
		return len(x) == 0
	case []string:
		return len(x) == 0
	}
	return false
}

// normList writes a message list in a form in which the same message is the
// same string: an empty payload is an absent one, and so are the empty fields
// of a HELLO's details.
func normList(list []any) string {
	if len(list) == 0 {
		return "[]"
	}
	list = append([]any(nil), list...)
	code, _ := strconv.ParseUint(norm(list[0]), 10, 64)
	if at, ok := argsAt[code]; ok {
		for len(list) > at && emptyContainer(list[len(list)-1]) {
			list = list[:len(list)-1]
		}
		if len(list) > at+1 && list[at] == nil {
			list[at] = []any{}
		}
		if len(list) > at && emptyContainer(list[at]) {
			list[at] = []any{}
		}
	}
	if code == 1 && len(list) == 3 {
		if d, ok := list[2].(map[string]any); ok {
			m := map[string]any{}
			for k, v := range d {
				if !emptyContainer(v) && v != "" {
					m[k] = v
				}
			}
			list[2] = m
		}
	}
	return norm(list)
}

// ---------------------------------------------------------------- rich values

var richStrings = []string{"", "a", "é", "\x00", "\x7f", "\u2028", "😀", "a\"b\\c/d", "\n\t\r", "<>&", "\ufeff", "0", "null", "x\x00y", "\u0000é😀"}

// richValue is any value that an encoder of the kind can express.
func richValue(r *rt.PRNG, kind, depth int) any {
	n := 14
	if depth <= 0 {
		n = 11
	}
	edge := []int64{0, 1, 23, 24, 31, 32, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53}
	switch r.N(n) {
	case 0:
		return nil
	case 1:
		return r.N(2) == 0
	case 2:
		return edge[r.N(len(edge))]
	case 3:
		return -edge[r.N(len(edge))] - int64(r.N(2))*int64(r.N(2))*0
	case 4:
		if kind == serJSON {
			return int64(r.U64() >> 11)
		}
		switch r.N(3) {
		case 0:
			return r.U64()
		case 1:
			return int64(r.U64())
		}
		return []any{uint64(math.MaxUint64), int64(math.MaxInt64), int64(math.MinInt64), uint64(1) << 63}[r.N(4)]
	case 5:
		return []float64{0.5, -0.5, 1.1, 1e300, -1e-300, 3.14159, float64(math.MaxFloat32), math.SmallestNonzeroFloat64, math.MaxFloat64, 1e21, 123456789.125}[r.N(11)]
	case 6, 7:
		return richStrings[r.N(len(richStrings))]
	case 8:
		return strings.Repeat("s", []int{23, 24, 31, 32, 33, 255, 256, 257}[r.N(8)])
	case 9:
		if kind == serJSON {
			return "text"
		}
		b := make([]byte, []int{0, 1, 5, 23, 24, 255, 256, 300}[r.N(8)])
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	case 10:
		return fmt.Sprint("v", r.N(1000))
	case 11:
		k := r.N(4)
		if r.N(10) == 0 {
			k = 14 + r.N(12)
		}
		l := []any{}
		for ; k > 0; k-- {
			l = append(l, richValue(r, kind, depth-1))
		}
		return l
	}
	return richDict(r, kind, depth-1)
}

func richDict(r *rt.PRNG, kind, depth int) map[string]any {
	m := map[string]any{}
	k := r.N(4)
	if r.N(12) == 0 {
		k = 14 + r.N(12)
	}
	for ; k > 0; k-- {
		name := fmt.Sprint("k", r.N(100))
		if r.N(6) == 0 {
			name = richStrings[r.N(len(richStrings))]
		}
		m[name] = richValue(r, kind, depth)
	}
	return m
}

// bulk makes a payload large now and then: longer than any one length field.
func bulk(r *rt.PRNG, v any) any {
	if r.N(200) != 0 {
		return v
	}
	switch r.N(5) {
	case 3, 4: // deep; 32 levels are what the CBOR library takes, the message's own and the payload's included
		for k := 4 + r.N(22); k > 0; k-- {
			if r.N(2) == 0 {
				v = []any{v}
			} else {
				v = map[string]any{"n": v}
			}
		}
		return v
	case 0:
		return strings.Repeat("é", 32766+r.N(5))
	case 1:
		return strings.Repeat("b", 65533+r.N(6))
	}
	if r.N(3) == 0 { // many keys
		d := map[string]any{}
		for k := []int{14, 255, 3000, 65533}[r.N(4)] + r.N(5); k > 0; k-- {
			d[fmt.Sprint("k", k)] = int64(k)
		}
		return d
	}
	l := make([]any, 65533+r.N(6))
	for i := range l {
		l[i] = int64(i & 1)
	}
	return l
}

// ---------------------------------------------------------------- the wire engine

const wireKinds = 24

// wireMessage makes one message of the numbered kind: what the constructors
// of the library make of some fields, and the list that those fields are.
func wireMessage(which int, r *rt.PRNG, kind int) (messages.Message, []any) {
	id := func() uint64 {
		switch r.N(4) {
		case 0:
			return []uint64{1, 2, 23, 24, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53}[r.N(17)]
		case 1:
			return 1 + r.U64()>>(11+r.N(52))
		}
		return uint64(1 + r.N(1000))
	}
	uri := func() string {
		return []string{"a", "com.example.proc", "com.myapp.é", "", "x..y", "com.x." + strings.Repeat("long", 80), "a b#c"}[r.N(7)]
	}
	args := func() []any {
		switch r.N(4) {
		case 0:
			return nil
		case 1:
			return []any{}
		}
		l := []any{}
		for k := 1 + r.N(4); k > 0; k-- {
			l = append(l, bulk(r, richValue(r, kind, 2)))
		}
		return l
	}
	kwargs := func() map[string]any {
		switch r.N(4) {
		case 0:
			return nil
		case 1:
			return map[string]any{}
		}
		return richDict(r, kind, 2)
	}
	dict := func() map[string]any { // nil stands for an empty one
		if r.N(4) == 0 {
			return nil
		}
		m := richDict(r, kind, 1)
		for _, k := range []string{"progress", "acknowledge", "receive_progress", "exclude_me"} {
			if r.N(6) == 0 {
				m[k] = r.N(2) == 0
			}
		}
		return m
	}
	dictOf := func(m map[string]any) map[string]any {
		out := map[string]any{}
		for k, v := range m {
			out[k] = v
		}
		return out
	}
	i, j, d, u, a, k := id(), id(), dict(), uri(), args(), kwargs()
	// what the library is given is a copy: it may put things of its own into it.
	given := d
	if d != nil {
		given = dictOf(d)
	}
	switch which {
	case 0:
		methods := [][]string{nil, {}, {"anonymous"}, {"ticket", "wampcra", "cryptosign"}}[r.N(4)]
		roles := map[string]any{"caller": map[string]any{"features": map[string]any{"progressive_call_results": true}}, "x": richValue(r, kind, 1)}
		if r.N(6) == 0 {
			roles = nil
		}
		extra := dict()
		return messages.NewHello(u, "joe", extra, roles, methods), []any{1, u, map[string]any{"authid": "joe", "authmethods": methods, "authextra": dictOf(extra), "roles": dictOf(roles)}}
	case 1:
		return messages.NewWelcome(i, given), []any{2, i, dictOf(d)}
	case 2:
		return messages.NewAbort(given, u, a, k), []any{3, dictOf(d), u, a, k}
	case 3:
		return messages.NewChallenge(u, given), []any{4, u, dictOf(d)}
	case 4:
		return messages.NewAuthenticate(u, given), []any{5, u, dictOf(d)}
	case 5:
		return messages.NewGoodBye(u, given), []any{6, dictOf(d), u}
	case 6:
		t := []uint64{48, 64, 66, 32, 34, 16, 68}[r.N(7)]
		return messages.NewError(t, i, given, u, a, k), []any{8, t, i, dictOf(d), u, a, k}
	case 7:
		return messages.NewPublish(i, given, u, a, k), []any{16, i, dictOf(d), u, a, k}
	case 8:
		return messages.NewPublished(i, j), []any{17, i, j}
	case 9:
		return messages.NewSubscribe(i, given, u), []any{32, i, dictOf(d), u}
	case 10:
		return messages.NewSubscribed(i, j), []any{33, i, j}
	case 11:
		return messages.NewUnsubscribe(i, j), []any{34, i, j}
	case 12:
		return messages.NewUnsubscribed(i), []any{35, i}
	case 13:
		return messages.NewEvent(i, j, given, a, k), []any{36, i, j, dictOf(d), a, k}
	case 14:
		return messages.NewCall(i, given, u, a, k), []any{48, i, dictOf(d), u, a, k}
	case 15:
		return messages.NewCancel(i, given), []any{49, i, dictOf(d)}
	case 16:
		return messages.NewResult(i, given, a, k), []any{50, i, dictOf(d), a, k}
	case 17:
		return messages.NewRegister(i, given, u), []any{64, i, dictOf(d), u}
	case 18:
		return messages.NewRegistered(i, j), []any{65, i, j}
	case 19:
		return messages.NewUnregister(i, j), []any{66, i, j}
	case 20:
		return messages.NewUnregistered(i), []any{67, i}
	case 21:
		return messages.NewInvocation(i, j, given, a, k), []any{68, i, j, dictOf(d), a, k}
	case 22:
		return messages.NewInterrupt(i, given), []any{69, i, dictOf(d)}
	}
	return messages.NewYield(i, given, a, k), []any{70, i, dictOf(d), a, k}
}

// fromFields makes the message again, of the same fields.
func fromFields(m messages.Message) messages.Message {
	switch x := m.(type) {
	case *messages.Hello:
		return messages.NewHelloWithFields(x.HelloFields)
	case *messages.Welcome:
		return messages.NewWelcomeWithFields(x.WelcomeFields)
	case *messages.Abort:
		return messages.NewAbortWithFields(x.AbortFields)
	case *messages.Challenge:
		return messages.NewChallengeWithFields(x.ChallengeFields)
	case *messages.Authenticate:
		return messages.NewAuthenticateWithFields(x.AuthenticateFields)
	case *messages.GoodBye:
		return messages.NewGoodByeWithFields(x.GoodByeFields)
	case *messages.Error:
		return messages.NewErrorWithFields(x.ErrorFields)
	case *messages.Publish:
		return messages.NewPublishWithFields(x.PublishFields)
	case *messages.Published:
		return messages.NewPublishedWithFields(x.PublishedFields)
	case *messages.Subscribe:
		return messages.NewSubscribeWithFields(x.SubscribeFields)
	case *messages.Subscribed:
		return messages.NewSubscribedWithFields(x.SubscribedFields)
	case *messages.Unsubscribe:
		return messages.NewUnsubscribeWithFields(x.UnsubscribeFields)
	case *messages.Unsubscribed:
		return messages.NewUnsubscribedWithFields(x.UnsubscribedFields)
	case *messages.Event:
		return messages.NewEventWithFields(x.EventFields)
	case *messages.Call:
		return messages.NewCallWithFields(x.CallFields)
	case *messages.Cancel:
		return messages.NewCancelWithFields(x.CancelFields)
	case *messages.Result:
		return messages.NewResultWithFields(x.ResultFields)
	case *messages.Register:
		return messages.NewRegisterWithFields(x.RegisterFields)
	case *messages.Registered:
		return messages.NewRegisteredWithFields(x.RegisteredFields)
	case *messages.Unregister:
		return messages.NewUnregisterWithFields(x.UnregisterFields)
	case *messages.Unregistered:
		return messages.NewUnregisteredWithFields(x.UnregisteredFields)
	case *messages.Invocation:
		return messages.NewInvocationWithFields(x.InvocationFields)
	case *messages.Interrupt:
		return messages.NewInterruptWithFields(x.InterruptFields)
	case *messages.Yield:
		return messages.NewYieldWithFields(x.YieldFields)
	}
	return m
}

// trimmed leaves an empty payload out, as a peer may.
func trimmed(list []any, r *rt.PRNG) []any {
	code, _ := strconv.ParseUint(norm(list[0]), 10, 64)
	at, ok := argsAt[code]
	if !ok {
		return list
	}
	list = append([]any(nil), list...)
	for i := at; i < len(list); i++ {
		if emptyContainer(list[i]) {
			if i == at {
				list[i] = []any{}
			} else {
				list[i] = map[string]any{}
			}
		}
	}
	for len(list) > at && emptyContainer(list[len(list)-1]) && r.N(3) > 0 {
		list = list[:len(list)-1]
	}
	return list
}

// spoiled makes of a message something that is not one: a number that is no id
// in the place of an id, a value of the wrong type, a field left out or one too
// many, a type that does not exist, or no list at all.
func spoiled(list []any, r *rt.PRNG) (any, string) {
	list = append([]any(nil), list...)
	code, _ := strconv.ParseUint(norm(list[0]), 10, 64)
	at, ok := argsAt[code]
	if !ok {
		at = len(list)
	}
	notNumber := []any{nil, true, false, "", "1", "x", []any{}, []any{int64(1)}, map[string]any{}}
	notID := []any{int64(-1), int64(-1 - r.N(70000)), -1 * int64(r.U64()>>11), float64(1+r.N(300)) + 0.5, -0.5, 1e300, 1e19 * 2, 0.25}
	if d, isDict := list[len(list)-1].(map[string]any); code == 1 && isDict && r.N(4) == 0 { // HELLO
		ms := []any{}
		for k := r.N(4); k > 0; k-- {
			ms = append(ms, "ticket")
		}
		at := r.N(len(ms) + 1)
		ms = append(ms[:at], append([]any{[]any{nil, int64(7), true, []any{"ticket"}, map[string]any{}}[r.N(5)]}, ms[at:]...)...)
		e := map[string]any{}
		for k, v := range d {
			e[k] = v
		}
		e["authmethods"] = ms
		list[len(list)-1] = e
		return list, "a method is not a string"
	}
	switch r.N(8) {
	case 0: // something else in place of the type
		switch r.N(3) {
		case 0:
			list[0] = notNumber[r.N(len(notNumber))]
			return list, "its type is not a number"
		case 1:
			list[0] = float64(code) + []float64{0.5, 0.25, 0.001}[r.N(3)]
			return list, "its type has a fraction"
		}
		list[0] = []any{int64(0), int64(7), int64(9), int64(15), int64(71), int64(256 + code), int64(1<<32 + code), -int64(code), int64(code) - 256}[r.N(9)]
		return list, "there is no such type"
	case 1: // too short
		return list[:r.N(at)], "it is too short"
	case 2: // too long
		if ok {
			if len(list) == at {
				list = append(list, []any{})
			}
			if len(list) == at+1 {
				list = append(list, map[string]any{})
			}
		}
		for k := 1 + r.N(3); k > 0; k-- {
			list = append(list, []any{nil, int64(1), "x", []any{}, map[string]any{}}[r.N(5)])
		}
		return list, "it is too long"
	case 3:
		return []any{nil, true, "x", int64(code), map[string]any{"0": int64(code)}, ""}[r.N(6)], "it is not a list"
	}
	k := 1
	if len(list) > 1 {
		k += r.N(len(list) - 1)
	}
	if k >= len(list) {
		return []any{}, "it is too short"
	}
	switch list[k].(type) {
	case string:
		list[k] = []any{nil, true, int64(1), 0.5, []any{}, []any{"x"}, map[string]any{}}[r.N(7)]
		return list, fmt.Sprintf("field %d is not a string", k)
	case []any:
		list[k] = []any{nil, false, int64(0), "", "x", map[string]any{}, map[string]any{"0": "x"}}[r.N(7)]
		return list, fmt.Sprintf("field %d is not a list", k)
	case map[string]any:
		list[k] = []any{nil, false, int64(0), "", "{}", []any{}, []any{"x"}}[r.N(7)]
		return list, fmt.Sprintf("field %d is not a dictionary", k)
	}
	if r.N(2) == 0 {
		list[k] = notNumber[r.N(len(notNumber))]
		return list, fmt.Sprintf("field %d is not a number", k)
	}
	list[k] = notID[r.N(len(notID))]
	if v, isInt := list[k].(int64); isInt && v >= 0 {
		list[k] = int64(-1)
	}
	return list, fmt.Sprintf("field %d is a number that is no id", k)
}

type wireDir struct {
	stream []byte // in flight or arrived
	at     int    // how much of it has arrived
	expect []wireItem
}

type wireItem struct {
	msg  messages.Message
	list []any
	ours bool
	bad  string // why it is no message, when it is none
	raw  string // what it is then
}

func runWire(p *Plan, trace bool) *Result {
	c := newCtx(p.Prop, trace)
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SeedMaps(rt.Mix(p.Seed, 2))
	rt.SetClock(1_700_000_000_000_000_000, nil)
	rt.SingleTask(true)
	defer rt.SingleTask(false)
	kind := p.cfg("ser")
	ser := serializerOf(kind)
	name := []string{"JSON", "CBOR", "MessagePack"}[kind]
	var dirs [2]wireDir // 0: ours to theirs, 1: theirs to ours
	arrive := func(d *wireDir, n int, ours bool) {
		d.at = min(len(d.stream), d.at+n)
		for !c.failed() && d.at >= 4 {
			size := int(d.stream[1])<<16 | int(d.stream[2])<<8 | int(d.stream[3])
			if !ours { // the library reads its own way
				h, err := transports.ReceiveMessageHeader(d.stream[:4])
				if err != nil || h.Length() != size || h.Kind() != transports.MessageWamp {
					c.violate("C29", "header", "the header %x of a message of another implementation is not understood (%v)", d.stream[:4], err)
					return
				}
			}
			if d.at < 4+size {
				return
			}
			body := append([]byte(nil), d.stream[4:4+size]...)
			d.stream, d.at = d.stream[4+size:], d.at-4-size
			it := d.expect[0]
			d.expect = d.expect[1:]
			want := normList(it.list)
			c.check("C29")
			if ours {
				v, err := foreignDecode(kind, body)
				if err != nil {
					c.violate("C29", "not-"+name, "%s %s goes out as %s, which is not %s: %v", typeName(it.msg), want, hexOf(body), name, err)
					return
				}
				list, ok := v.([]any)
				if !ok || normList(list) != want {
					c.violate("C29", "sent", "%s should go out in %s as %s, and goes out as %s", typeName(it.msg), name, want, norm(v))
					return
				}
				if why := badShape(list); why != "" {
					c.violate("C29", "null", "%s goes out in %s as %s: %s", typeName(it.msg), name, norm(v), why)
					return
				}
				c.event("ours " + want)
				continue
			}
			var m messages.Message
			var err error
			if crash := protect(func() { m, err = ser.Deserialize(body) }); crash != "" {
				c.violate("C29", "crash", "the %s decoder crashes on %s, which is %s: %s", name, hexOf(body), want, crash)
				return
			}
			if it.bad != "" {
				if err == nil {
					c.violate("C29", "taken", "%s, in %s as %s, is no message (%s), and is taken for %s %s", it.raw, name, hexOf(body), it.bad, typeName(m), normList(specList(m)))
					return
				}
				c.event("refused " + it.raw)
				continue
			}
			if err != nil {
				c.violate("C29", "refused", "%s, in %s as %s, is refused: %v", want, name, hexOf(body), err)
				return
			}
			if got := normList(specList(m)); got != want || norm(m.Type()) != norm(it.list[0]) || typeName(m) != typeName(it.msg) {
				c.violate("C29", "received", "%s, in %s as %s, is received as %s %s", want, name, hexOf(body), typeName(m), got)
				return
			}
			c.event("theirs " + want)
		}
	}
	for _, s := range p.Steps {
		if c.failed() {
			break
		}
		c.now = s.At
		r := rt.NewPRNG(rt.Mix(p.Seed^0xf0e1, uint64(s.I)))
		switch s.Op {
		case "arrive":
			c.count("fault:segmented-delivery")
			arrive(&dirs[s.A], s.B, s.A == 0)
		case "ours":
			m, list := wireMessage(s.A, &r, kind)
			if r.N(4) == 0 { // made of fields that somebody else keeps
				m = fromFields(m)
			}
			c.count("sent")
			var data []byte
			var err error
			if crash := protect(func() { data, err = ser.Serialize(m) }); crash != "" {
				c.violate("C29", "crash", "the %s encoder crashes on %s: %s", name, normList(list), crash)
				break
			}
			if err != nil {
				c.violate("C29", "not-sent", "%s cannot be sent in %s: %v", normList(list), name, err)
				break
			}
			dirs[0].stream = append(dirs[0].stream, transports.SendMessageHeader(transports.NewMessageHeader(transports.MessageWamp, len(data)))...)
			dirs[0].stream = append(dirs[0].stream, data...)
			dirs[0].expect = append(dirs[0].expect, wireItem{msg: m, list: list, ours: true})
			if s.B == 0 {
				arrive(&dirs[0], len(dirs[0].stream), true)
			}
		case "theirs":
			m, list := wireMessage(s.A, &r, kind)
			c.count("received")
			list, _ = plainString(trimmed(list, &r)).([]any)
			if which := list[0]; norm(which) == "1" { // and what it need not say
				d := list[2].(map[string]any)
				for _, k := range []string{"authid", "authmethods", "authextra"} {
					if emptyContainer(d[k]) && r.N(2) == 0 {
						delete(d, k)
					}
				}
			}
			item := wireItem{msg: m, list: list}
			var data []byte
			if s.C > 0 {
				c.count("fault:malformed-message")
				v, why := spoiled(list, &r)
				item.bad, item.raw = why, norm(v)
				data = foreignEncode(kind, v, &r)
				switch r.N(6) {
				case 0: // only part of it came
					data = foreignEncode(kind, list, &r)
					if kind == serJSON { // blanks at the end mean nothing
						data = bytes.TrimRight(data, " \t\r\n")
					}
					data = data[:r.N(len(data))]
					item.bad, item.raw = "it is cut short", normList(list)
				case 1: // and there is more
					more := foreignEncode(kind, list, &r)
					data = append([]byte(nil), more...)
					if r.N(2) == 0 {
						more = [][]byte{[]byte("]"), []byte("}"), []byte("1"), []byte("null"), []byte(",[]"), {0x80}, {0xc1}, {0xff}, {0xf6}, {0xc0}}[r.N(10)]
					}
					data = append(data, more...)
					item.bad, item.raw = "something follows it", normList(list)
				}
			} else {
				data = foreignEncode(kind, list, &r)
			}
			dirs[1].stream = append(append(dirs[1].stream, refHeader(0, len(data))...), data...)
			dirs[1].expect = append(dirs[1].expect, item)
			if s.B == 0 {
				arrive(&dirs[1], len(dirs[1].stream), false)
			}
		case "payload":
			wirePayload(c, s, &r)
		case "cut": // what had not arrived is lost, and nothing of it may be taken for a message
			c.count("fault:cut")
			dirs = [2]wireDir{}
		}
	}
	for i := range dirs {
		if !c.failed() {
			arrive(&dirs[i], len(dirs[i].stream), i == 0)
		}
		if !c.failed() && len(dirs[i].expect) > 0 {
			c.violate("C29", "lost", "%d messages were sent whole and did not come out", len(dirs[i].expect))
		}
	}
	return c.done()
}

// badShape says what is wrong with a list that goes out, whatever its values:
// there is a null, or a payload that is not one.
func badShape(list []any) string {
	for i, v := range list {
		if v == nil {
			return fmt.Sprintf("element %d is null", i)
		}
	}
	code, _ := strconv.ParseUint(norm(list[0]), 10, 64)
	at, ok := argsAt[code]
	if !ok {
		at = len(list)
	}
	for i, v := range list {
		_, isList := v.([]any)
		_, isDict := v.(map[string]any)
		if isList != (i == at) || i > at && !isDict {
			return fmt.Sprintf("element %d is %s", i, norm(v))
		}
	}
	if len(list) > at+2 {
		return "it is too long"
	}
	if code == 1 && len(list) == 3 {
		d := dictOf(list[2])
		for _, k := range []string{"authid", "authmethods", "authextra", "roles"} {
			if v, ok := d[k]; ok && v == nil {
				return k + " is null"
			}
		}
	}
	return ""
}

// binaryMessages makes messages with a payload that stays encoded, and reads
// them the way a static serializer and the router do.
func binaryMessages(c *ctx, codec uint64, r *rt.PRNG) {
	id, reg, uri := 1+r.U64()>>12, 1+r.U64()>>12, "com.example.é"
	payload := make([]byte, r.N(20))
	for i := range payload {
		payload[i] = byte(r.U64())
	}
	var given map[string]any
	d := map[string]any{}
	if r.N(3) > 0 {
		d = richDict(r, serMsgPack, 1)
		given = map[string]any{}
		for k, v := range d {
			given[k] = v
		}
	}
	d["x_payload_serializer"] = codec
	what := []string{"CALL", "YIELD", "INVOCATION", "RESULT"}[r.N(4)]
	var got, want []any
	crash := protect(func() {
		var b messages.BinaryPayload
		switch what {
		case "CALL":
			m := messages.NewCallBinary(id, given, uri, payload, codec)
			b, got, want = m, []any{m.Type(), m.RequestID(), m.Options(), m.Procedure(), m.Args(), m.KwArgs()}, []any{48, id, d, uri}
		case "YIELD":
			m := messages.NewYieldBinary(id, given, payload, codec)
			b, got, want = m, []any{m.Type(), m.RequestID(), m.Options(), m.Args(), m.KwArgs()}, []any{70, id, d}
		case "INVOCATION":
			m := messages.NewInvocationBinary(id, reg, given, payload, codec)
			b, got, want = m, []any{m.Type(), m.RequestID(), m.RegistrationID(), m.Details(), m.Args(), m.KwArgs()}, []any{68, id, reg, d}
		case "RESULT":
			m := messages.NewResultBinary(id, given, payload, codec)
			b, got, want = m, []any{m.Type(), m.RequestID(), m.Details(), m.Args(), m.KwArgs()}, []any{50, id, d}
		}
		got = append(got, b.PayloadIsBinary(), b.Payload(), b.PayloadSerializer())
		want = append(want, []any(nil), map[string]any(nil), true, payload, codec)
	})
	if crash != "" || norm(got) != norm(want) {
		c.violate(c.prop, "binary-message", "a binary %s of %s says %s %s", what, norm(want), norm(got), crash)
	}
}

// wirePayload has the library encode a payload on its own, as binary payloads
// are carried, and decode one that another implementation encoded.
func wirePayload(c *ctx, s Step, r *rt.PRNG) {
	codec := uint64(s.A % 4)
	kind := map[uint64]int{serializers.NoneSerializerID: serMsgPack, serializers.JSONSerializerID: serJSON, serializers.CBORSerializerID: serCBOR, serializers.MsgPackSerializerID: serMsgPack}[codec]
	old := s.A == 4 // the older functions, for CBOR alone
	if old {
		kind = serCBOR
	}
	encode := func(args []any, kwargs map[string]any) ([]byte, error) {
		return serializers.SerializePayload(codec, args, kwargs)
	}
	decode := func(b []byte) ([]any, map[string]any, error) { return serializers.DeserializePayload(codec, b) }
	name := fmt.Sprint("serializer ", codec)
	if old {
		encode, decode, name = serializers.EncodeCBOR, serializers.DecodeCBOR, "EncodeCBOR and DecodeCBOR"
	}
	var args []any
	if r.N(3) > 0 {
		args = []any{}
		for k := r.N(4); k > 0; k-- {
			args = append(args, bulk(r, richValue(r, kind, 2)))
		}
	}
	var kwargs map[string]any
	if r.N(2) > 0 {
		kwargs = richDict(r, kind, 2)
	}
	if codec == serializers.NoneSerializerID && !old { // one thing that only its ends understand
		b := make([]byte, r.N(40))
		for i := range b {
			b[i] = byte(r.U64())
		}
		args, kwargs = []any{b}, nil
	}
	want := normPayload(args, kwargs)
	c.check(c.prop)
	take := func(b []byte, whose string) {
		var a []any
		var k map[string]any
		var err error
		if crash := protect(func() { a, k, err = decode(b) }); crash != "" || err != nil || normPayload(a, k) != want {
			c.violate(c.prop, "payload-decoding", "the payload %s, which %s encoded with %s as %s, is decoded as %s (%v) %s", want, whose, name, hexOf(b), normPayload(a, k), err, crash)
		}
	}
	refuse := func(b []byte, codec uint64, why string) {
		var a []any
		var k map[string]any
		var err error
		if crash := protect(func() {
			if old {
				a, k, err = decode(b)
			} else {
				a, k, err = serializers.DeserializePayload(codec, b)
			}
		}); crash != "" || err == nil {
			c.violate(c.prop, "payload-taken", "%s is no payload of %s (%s) and is decoded as %s %s", hexOf(b), name, why, normPayload(a, k), crash)
		}
	}
	if s.C == 1 {
		binaryMessages(c, codec, r)
	}
	var ours []byte
	var err error
	if crash := protect(func() { ours, err = encode(args, kwargs) }); crash != "" || err != nil {
		c.violate(c.prop, "payload-refused", "the payload %s cannot be encoded with %s: %v %s", want, name, err, crash)
		return
	}
	take(ours, "the library itself")
	if codec == serializers.NoneSerializerID && !old {
		if string(ours) != string(args[0].([]byte)) {
			c.violate(c.prop, "payload-encoding", "the binary payload %x is encoded without a serializer as %x", args[0], ours)
		}
		for _, none := range []func() ([]byte, error){
			func() ([]byte, error) { return encode([]any{[]byte("x"), []byte("y")}, nil) },
			func() ([]byte, error) { return encode([]any{[]byte("x")}, map[string]any{"k": 1}) },
			func() ([]byte, error) { return encode([]any{"text"}, nil) },
			func() ([]byte, error) { return encode(nil, map[string]any{"k": 1}) },
		} {
			if b, err := none(); err == nil {
				c.violate(c.prop, "payload-lost", "what is not one binary payload is encoded without a serializer as %x", b)
			}
		}
		for _, nothing := range [][]any{nil, {}} {
			if b, err := encode(nothing, nil); err != nil || len(b) != 0 {
				c.violate(c.prop, "payload-refused", "no payload at all is encoded without a serializer as %x (%v)", b, err)
			}
		}
		c.event("binary payload " + want)
		return
	}
	if !old && s.C == 0 {
		id := []uint64{4, 5, 99, 1 << 32, 1<<32 + codec, 256 + codec}[r.N(6)]
		refuse(ours, id, fmt.Sprintf("there is no serializer %d", id))
		if b, err := serializers.SerializePayload(id, args, kwargs); err == nil {
			c.violate(c.prop, "payload-encoding", "there is no serializer %d, and it encodes %s as %s", id, want, hexOf(b))
		}
	}
	if len(ours) > 0 || old || len(args)+len(kwargs) > 0 {
		v, err := foreignDecode(kind, ours)
		list, ok := v.([]any)
		var a, k any = []any{}, map[string]any{}
		if len(list) > 0 {
			a = list[0]
		}
		if len(list) > 1 {
			k = list[1]
		}
		_, aOK := a.([]any)
		_, kOK := k.(map[string]any)
		if err != nil || !ok || len(list) > 2 || !aOK && !(old && a == nil) || !kOK && !(old && k == nil) || normPayload(listOf(a), dictOf(k)) != want {
			c.violate(c.prop, "payload-encoding", "the payload %s is encoded with %s as %s, which is %s (%v)", want, name, hexOf(ours), norm(v), err)
			return
		}
	}
	if args == nil {
		args = []any{}
	}
	if kwargs == nil {
		kwargs = map[string]any{}
	}
	list := []any{args, kwargs}
	if !old && len(kwargs) == 0 && r.N(2) == 0 {
		if list = list[:1]; len(args) == 0 && r.N(2) == 0 {
			list = list[:0]
		}
	}
	theirs := foreignEncode(kind, plainString(list), r)
	take(theirs, "another implementation")
	if s.C > 0 {
		c.event("payload " + name + want)
		return
	}
	c.count("fault:malformed-payload")
	bad, why := any(nil), ""
	switch r.N(5) {
	case 0:
		bad, why = []any{args, kwargs, []any{nil, []any{}, map[string]any{}}[r.N(3)]}, "it is too long"
	case 1:
		bad, why = []any{[]any{true, int64(1), "x", map[string]any{}}[r.N(4)], kwargs}, "its arguments are no list"
	case 2:
		bad, why = []any{args, []any{true, int64(1), "x", []any{}}[r.N(4)]}, "its keyword arguments are no dictionary"
	case 3:
		bad, why = []any{true, int64(1), "x", map[string]any{"0": []any{}}}[r.N(4)], "it is no list"
	}
	b := theirs[:len(theirs)-1]
	if why != "" {
		b = foreignEncode(kind, plainString(bad), r)
	} else if why = "it is cut short"; kind == serJSON {
		b = bytes.TrimRight(theirs, " \t\r\n")
		b = b[:len(b)-1]
	} else if r.N(2) == 0 {
		b, why = append(append([]byte(nil), theirs...), 0), "something follows it"
	}
	if len(b) == 0 { // which is an empty payload
		if !old {
			return
		}
	}
	refuse(b, codec, why)
	c.event("bad payload " + name + want + why)
}

func genWire(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0x31e))
	p := &Plan{Prop: prop, Engine: "wire", Seed: seed, Cfg: map[string]int{"ser": r.N(3)}}
	n := 4 + r.N(24)
	if prop != "C29" {
		for i := 0; i < n; i++ {
			p.Steps = append(p.Steps, Step{I: i, At: int64(i), Op: "payload", A: r.N(5), C: r.N(6)})
		}
		return p
	}
	cut := r.N(3)
	var t int64
	for i := 0; i < n; i++ {
		s := Step{I: i, At: t, Op: []string{"ours", "theirs"}[r.N(2)], A: r.N(wireKinds), B: cut}
		if s.Op == "theirs" && r.N(4) == 0 {
			s.C = 1
		}
		p.Steps = append(p.Steps, s)
		t += int64(r.N(50))
		if cut > 0 && r.N(2) == 0 {
			for k := 1 + r.N(4); k > 0; k-- {
				i++
				p.Steps = append(p.Steps, Step{I: i, At: t, Op: "arrive", A: r.N(2), B: 1 + r.N([]int{3, 10, 200}[r.N(3)])})
			}
		}
		if r.N(60) == 0 {
			i++
			p.Steps = append(p.Steps, Step{I: i, At: t, Op: "cut"})
		}
	}
	return p
}
