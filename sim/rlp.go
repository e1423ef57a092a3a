package sim

import "fmt"

// A small RLP, independent of the code under test. Items are []byte or []item.
type item struct {
	list bool
	b    []byte
	l    []item
}

func rlpHead(base byte, n int) []byte {
	if n <= 55 {
		return []byte{base + byte(n)}
	}
	var s []byte
	for v := n; v > 0; v >>= 8 {
		s = append([]byte{byte(v)}, s...)
	}
	return append([]byte{base + 55 + byte(len(s))}, s...)
}

// enc encodes []byte, string, ints (two's complement) and []interface{}.
func enc(v interface{}) []byte {
	switch t := v.(type) {
	case nil:
		return []byte{0xf8, 0}
	case []byte:
		if t == nil {
			return []byte{0xf8, 0}
		}
		if len(t) == 1 && t[0] < 0x80 {
			return []byte{t[0]}
		}
		return append(rlpHead(0x80, len(t)), t...)
	case string:
		return enc([]byte(t))
	case int:
		return enc(int64(t))
	case int64:
		return enc(intBytes(t))
	case []interface{}:
		var body []byte
		for _, x := range t {
			body = append(body, enc(x)...)
		}
		return append(rlpHead(0xc0, len(body)), body...)
	}
	panic(fmt.Sprintf("enc %T", v))
}

func intBytes(v int64) []byte {
	var b []byte
	for {
		b = append([]byte{byte(v)}, b...)
		top := v >> 7
		if top == 0 || top == -1 {
			return b
		}
		v >>= 8
	}
}

func (i item) int() int64 {
	if len(i.b) == 0 {
		return 0
	}
	v := int64(int8(i.b[0]))
	for _, c := range i.b[1:] {
		v = v<<8 | int64(c)
	}
	return v
}

func (i item) uint() uint64 {
	var v uint64
	for _, c := range i.b {
		v = v<<8 | uint64(c)
	}
	return v
}

func dec(b []byte) (item, error) {
	i, rest, err := decOne(b)
	if err == nil && len(rest) > 0 {
		err = fmt.Errorf("rlp: %d trailing bytes", len(rest))
	}
	return i, err
}

func decOne(b []byte) (item, []byte, error) {
	bad := func(s string) (item, []byte, error) { return item{}, nil, fmt.Errorf("rlp: %s", s) }
	if len(b) == 0 {
		return bad("empty")
	}
	t := b[0]
	size := func(n int) (int, []byte, bool) {
		if len(b) < 1+n {
			return 0, nil, false
		}
		v := 0
		for _, c := range b[1 : 1+n] {
			v = v<<8 | int(c)
			if v < 0 || v > 1<<40 {
				return 0, nil, false
			}
		}
		return v, b[1+n:], true
	}
	var n int
	var rest []byte
	ok := true
	list := false
	switch {
	case t < 0x80:
		return item{b: b[:1]}, b[1:], nil
	case t <= 0xb7:
		n, rest = int(t-0x80), b[1:]
	case t < 0xc0:
		n, rest, ok = size(int(t - 0xb7))
	case t <= 0xf7:
		n, rest, list = int(t-0xc0), b[1:], true
	default:
		n, rest, ok = size(int(t - 0xf7))
		list = true
	}
	if !ok || n > len(rest) {
		return bad("short")
	}
	if !list {
		return item{b: rest[:n]}, rest[n:], nil
	}
	body := rest[:n]
	it := item{list: true}
	for len(body) > 0 {
		x, r, err := decOne(body)
		if err != nil {
			return item{}, nil, err
		}
		it.l = append(it.l, x)
		body = r
	}
	return it, rest[n:], nil
}
