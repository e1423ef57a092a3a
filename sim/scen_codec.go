package sim

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"runtime"

	"github.com/icon-project/btp/chain/icon/btp2"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/mbt"
)

func init() { register("codec", runCodec) }

type cdInner struct {
	Seq  int64
	Name string
	Data []byte
}

type cdOuter struct {
	A  int64
	B  uint64
	C  string
	D  []byte
	E  bool
	F  [4]byte
	G  []cdInner
	H  *cdInner
	I  []*cdInner
	J  [][]byte
	K  int8
	L  uint16
	M  []int32
	N  *int64
	O  [2]cdInner
	P  map[string]int64
	Q  map[int32][]byte
	R  *common.HexInt
	S  common.HexInt64
	T  *common.Address
	U  []string
	V  *cdOuter
	W  map[uint16]cdInner
	X  [][]cdInner
	Y  []bool
	Z  []common.HexInt
	AA []*common.HexInt
	AB common.HexInt16
	AC common.HexUint16
	AD common.HexInt32
	AE common.HexUint32
	AF common.HexUint64
	AG cdRaw
	AH []cdRaw
	cdHidden
	AI cdInner
}

type cdHidden struct {
	BA string
	BB []int64
}

// cdRaw keeps the encoded bytes of a value.
type cdRaw struct {
	B []byte
}

func (r *cdRaw) MarshalRLP() ([]byte, error) { return r.B, nil }
func (r *cdRaw) UnmarshalRLP(b []byte) error { r.B = b; return nil }

// cdCodec is the codec of the run; runs do not overlap in a process.
var cdCodec codec.Codec

var cdTypes = []reflect.Type{
	reflect.TypeOf(cdOuter{}), reflect.TypeOf(cdInner{}), reflect.TypeOf([]cdInner{}), reflect.TypeOf([][]byte{}),
	reflect.TypeOf([]byte{}), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(""), reflect.TypeOf(false),
	reflect.TypeOf([]int64{}), reflect.TypeOf([][][]byte{}), reflect.TypeOf(map[string]int64{}), reflect.TypeOf([]string{}),
	reflect.TypeOf(common.HexInt{}), reflect.TypeOf(btp2.BTPRelayMessage{}), reflect.TypeOf(mbt.MerkleBinaryTreeProof{}),
	reflect.TypeOf([3]int32{}), reflect.TypeOf([32]byte{}), reflect.TypeOf(common.Address{}), reflect.TypeOf(int16(0)), reflect.TypeOf(uint8(0)),
	reflect.TypeOf([]cdRaw{}), reflect.TypeOf(map[uint16]cdInner{}), reflect.TypeOf([]map[string]int64{}), reflect.TypeOf([]*cdInner{}),
}

var hexIntType = reflect.TypeOf(common.HexInt{})
var rawType = reflect.TypeOf(cdRaw{})
var addressType = reflect.TypeOf(common.Address{})

func cdInt(c *Chooser, bits int) int64 {
	v := int64(c.N(1<<30))<<34 ^ int64(c.N(1<<30))<<8 ^ int64(c.N(256))
	switch c.N(5) {
	case 0:
		v = int64(c.N(300)) - 150
	case 1:
		v = int64(1)<<uint(c.N(63)) - int64(c.N(3))
	case 2:
		v = -(int64(1) << uint(c.N(63))) + int64(c.N(3))
	case 3:
		v = 0
	}
	return v << uint(64-bits) >> uint(64-bits)
}

func cdLen(c *Chooser, max int) int {
	switch c.Pick(6, 2, 1, 1) {
	case 0:
		return c.N(4)
	case 1:
		return c.N(20)
	case 2:
		return []int{54, 55, 56, 57}[c.N(4)]
	}
	return []int{255, 256, 257, 300, 65535, 65536, 70000}[c.N(max)]
}

// cdGen makes a value of a type.
func cdGen(c *Chooser, v reflect.Value, depth int) {
	switch v.Type() {
	case hexIntType:
		h := v.Addr().Interface().(*common.HexInt)
		h.SetBytes(c.Bytes(c.N(12)))
		if c.P(400) {
			h.SetInt64(cdInt(c, 64))
		}
		return
	case rawType:
		x := reflect.New([]reflect.Type{reflect.TypeOf([]byte{}), reflect.TypeOf(int64(0)), reflect.TypeOf(cdInner{}), reflect.TypeOf([][]byte{}), reflect.TypeOf("")}[c.N(5)])
		cdGen(c, x.Elem(), 2)
		v.Addr().Interface().(*cdRaw).B = cdCodec.MustMarshalToBytes(x.Interface())
		return
	case addressType:
		b := c.Bytes(21)
		b[0] &= 1
		if err := v.Addr().Interface().(*common.Address).SetBytes(b); err != nil {
			panic(err)
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(c.P(500))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(cdInt(c, v.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(cdInt(c, 64)) << uint(64-v.Type().Bits()) >> uint(64-v.Type().Bits()))
	case reflect.String:
		v.SetString(string(c.Bytes(cdLen(c, 4))))
	case reflect.Slice:
		if c.P(150) {
			return // nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(c.Bytes(cdLen(c, 7)))
			return
		}
		n := c.N(4)
		if depth <= 0 {
			n = 0
		} else if c.P(30) {
			n = c.N(40)
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			cdGen(c, v.Index(i), depth-1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if v.Type().Elem().Kind() == reflect.Uint8 {
				v.Index(i).SetUint(uint64(c.N(256)))
			} else {
				cdGen(c, v.Index(i), depth-1)
			}
		}
	case reflect.Ptr:
		if depth <= 0 || c.P(300) {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		cdGen(c, v.Elem(), depth-1)
	case reflect.Map:
		if c.P(200) {
			return
		}
		n := c.N(4)
		if depth <= 0 {
			n = 0
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < n; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			cdGen(c, k, depth-1)
			cdGen(c, e, depth-1)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				cdGen(c, f, depth-1)
			} else if v.Type().Field(i).Anonymous {
				for j := 0; j < f.NumField(); j++ {
					cdGen(c, f.Field(j), depth-1)
				}
			}
		}
	}
}

func cdEqual(a, b reflect.Value) bool {
	if a.Type() == hexIntType {
		x, y := a.Interface().(common.HexInt), b.Interface().(common.HexInt)
		return (*big.Int)(&x.Int).Cmp(&y.Int) == 0
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !cdEqual(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return cdEqual(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.PkgPath != "" && !f.Anonymous {
				continue // not exported, not encoded
			}
			if !cdEqual(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !cdEqual(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

var errStream = errors.New("simulated stream error")

// cdReader delivers bytes in pieces and ends as it is told.
type cdReader struct {
	c     *Chooser
	b     []byte
	how   int // 0: whole, 1: pieces, 2: single bytes
	end   error
	with  bool // the end comes together with the last bytes
	empty int
	n     int
}

func (r *cdReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, r.end
	}
	if r.empty > 0 && r.c.P(100) {
		r.empty--
		return 0, nil
	}
	n := len(p)
	if n > len(r.b) {
		n = len(r.b)
	}
	switch r.how {
	case 1:
		n = 1 + r.c.N(n)
	case 2:
		n = 1
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	r.n += n
	if len(r.b) == 0 && r.with {
		return n, r.end
	}
	return n, nil
}

// cdWriter fails once it has taken so many bytes.
type cdWriter struct {
	b    bytes.Buffer
	room int // <0: no limit
}

func (x *cdWriter) Write(p []byte) (int, error) {
	if x.room < 0 || x.room >= len(p) {
		if x.room >= 0 {
			x.room -= len(p)
		}
		return x.b.Write(p)
	}
	n := x.room
	x.b.Write(p[:n])
	x.room = 0
	return n, errStream
}

// cdTree is what a lenient, independent RLP reader makes of bytes.
type cdTree struct {
	list, null bool
	b          []byte
	l          []*cdTree
}

func cdParse(b []byte) (*cdTree, int, bool) {
	if len(b) == 0 {
		return nil, 0, false
	}
	t := int(b[0])
	size := func(n int) (int, bool) {
		if len(b) < 1+n {
			return 0, false
		}
		v := uint64(0)
		for _, x := range b[1 : 1+n] {
			if v>>48 != 0 {
				return 0, false
			}
			v = v<<8 | uint64(x)
		}
		return int(v), v < 1<<40
	}
	h, n, ok := 1, 0, true
	list := t >= 0xc0
	switch {
	case t < 0x80:
		return &cdTree{b: b[:1]}, 1, true
	case t <= 0xb7:
		n = t - 0x80
	case t < 0xc0:
		h = 1 + t - 0xb7
		n, ok = size(t - 0xb7)
	case t <= 0xf7:
		n = t - 0xc0
	default:
		h = 1 + t - 0xf7
		n, ok = size(t - 0xf7)
		if ok && t == 0xf8 && n == 0 {
			return &cdTree{null: true, list: true}, 2, true
		}
	}
	if !ok || len(b) < h+n {
		return nil, 0, false
	}
	r := &cdTree{list: list}
	if !list {
		r.b = b[h : h+n]
		return r, h + n, true
	}
	for p := h; p < h+n; {
		e, k, ok := cdParse(b[p : h+n])
		if !ok {
			return nil, 0, false
		}
		r.l = append(r.l, e)
		p += k
	}
	return r, h + n, true
}

// cdCanon tells whether every length in an RLP encoding has its shortest form;
// f800 is null.
func cdCanon(b []byte) bool {
	for len(b) > 0 {
		t, h, n := int(b[0]), 1, 0
		switch {
		case t < 0x80:
			b = b[1:]
			continue
		case t <= 0xb7:
			n = t - 0x80
			if n == 1 && b[1] < 0x80 {
				return false
			}
		case t >= 0xc0 && t <= 0xf7:
			n = t - 0xc0
		default:
			k := t - 0xb7
			if t >= 0xc0 {
				k = t - 0xf7
			}
			if t == 0xf8 && b[1] == 0 {
				b = b[2:]
				continue
			}
			for _, x := range b[1 : 1+k] {
				n = n<<8 | int(x)
			}
			h += k
			if b[1] == 0 || n <= 55 {
				return false
			}
		}
		if t >= 0xc0 && !cdCanon(b[h:h+n]) {
			return false
		}
		b = b[h+n:]
	}
	return true
}

// cdWalk reads a tree of known shape through the decoder.
func cdWalk(d codec.Decoder, t *cdTree) error {
	if t.null || !t.list {
		b, err := d.DecodeBytes()
		if t.null {
			if err != codec.ErrNilValue {
				return fmt.Errorf("null read as %x, %v", b, err)
			}
			return nil
		}
		if err != nil {
			return err
		}
		if !bytes.Equal(b, t.b) {
			return fmt.Errorf("bytes read as %x, they are %x", b, t.b)
		}
		return nil
	}
	d2, err := d.DecodeList()
	if err != nil {
		return err
	}
	for _, e := range t.l {
		if err := cdWalk(d2, e); err != nil {
			return err
		}
	}
	if _, err := d2.DecodeBytes(); err != io.EOF {
		return fmt.Errorf("the end of a list gives %v", err)
	}
	return nil
}

// memGuard runs f and tells how much it allocated.
func memGuard(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func runCodec(w *World) {
	c := w.C
	name, cd := "RLP", codec.Codec(codec.RLP)
	if c.P(400) {
		name, cd = "MessagePack", codec.MP
	}
	cdCodec = cd
	n := 1 + c.N(5)
	var vals []reflect.Value // pointers
	for i := 0; i < n; i++ {
		v := reflect.New(cdTypes[c.N(len(cdTypes))])
		cdGen(c, v.Elem(), 3)
		vals = append(vals, v)
	}
	wr := &cdWriter{room: -1}
	var ends []int
	enc := cd.NewEncoder(wr)
	for i, v := range vals {
		var err error
		w.guard(name+" encoding", func() { err = enc.Encode(v.Interface()) })
		if err != nil {
			w.Fail("encode", "%s: encoding value %d (%v) fails: %v", name, i, v.Type(), err)
		}
		ends = append(ends, wr.b.Len())
		var one []byte
		w.guard(name+" encoding", func() { one, err = cd.MarshalToBytes(v.Interface()) })
		st := 0
		if i > 0 {
			st = ends[i-1]
		}
		if err != nil || !bytes.Equal(one, wr.b.Bytes()[st:]) {
			w.Fail("encode", "%s: value %d (%v) encodes differently alone: %v", name, i, v.Type(), err)
		}
	}
	full := append([]byte{}, wr.b.Bytes()...)
	if name == "RLP" {
		ok := false
		w.guard("reading the encoding", func() { ok = cdCanon(full) })
		if !ok {
			w.Fail("canonical", "RLP: an encoding has a length that is not in its shortest form: %s", hexShort(full))
		}
	}
	w.Tracef("%s %d values %d bytes %x", name, n, len(full), sha3256(full)[:4])
	w.nontrivial = true
	var types string
	for _, v := range vals {
		types += v.Type().String() + " "
	}
	w.State("%s %s", name, types)

	// decode reads the stream; want is the number of values that are whole in it
	decode := func(what string, r io.Reader, want int, cut bool) {
		var d codec.SimpleDecoder
		w.guard(name, func() { d = cd.NewDecoder(r) })
		for i := 0; i <= want; i++ {
			if i == len(vals) {
				var x []byte
				var err error
				w.guard(name+" decoding "+what, func() { err = d.Decode(&x) })
				if err == nil {
					w.Fail("beyond", "%s, %s: something is decoded after the last value: %x", name, what, x)
				}
				return
			}
			v := reflect.New(vals[i].Type().Elem())
			var err error
			w.guard(name+" decoding "+what, func() { err = d.Decode(v.Interface()) })
			if i == want {
				if err == nil {
					w.Fail("cut", "%s, %s: value %d (%v) is decoded although the stream ended %d bytes before its end: %+v", name, what, i, v.Type(), ends[i]-cutAt(r), v.Elem().Interface())
				}
				w.Count("cut noticed")
				return
			}
			if err != nil {
				w.Fail("decode", "%s, %s: value %d (%v) is not decoded: %v", name, what, i, v.Type(), err)
			}
			if !cdEqual(vals[i].Elem(), v.Elem()) {
				w.Fail("differs", "%s, %s: value %d (%v) is decoded as %+v, it was %+v", name, what, i, v.Type(), v.Elem().Interface(), vals[i].Elem().Interface())
			}
			again, err := cd.MarshalToBytes(v.Interface())
			st := 0
			if i > 0 {
				st = ends[i-1]
			}
			if err != nil || !bytes.Equal(again, full[st:ends[i]]) {
				w.Fail("reencode", "%s, %s: value %d (%v) does not re-encode to the bytes it was decoded from: %v", name, what, i, v.Type(), err)
			}
			w.Count("value decoded")
		}
	}
	for k := 0; k < 2; k++ {
		r := &cdReader{c: c, b: full, how: k * (1 + c.N(2)), end: io.EOF, with: c.P(500), empty: c.N(3)}
		if len(full) > 3000 && r.how == 2 {
			r.how = 1
		}
		if r.how > 0 {
			w.Fault("stream in pieces")
		}
		if r.with {
			w.Fault("end of file with the last bytes")
		}
		decode("whole stream", r, n, false)
	}
	// byte slices, one value after another
	rest := full
	for i, v := range vals {
		x := reflect.New(v.Type().Elem())
		var err error
		w.guard(name+" decoding", func() { rest, err = cd.UnmarshalFromBytes(rest, x.Interface()) })
		if err != nil || !cdEqual(v.Elem(), x.Elem()) || !bytes.Equal(rest, full[ends[i]:]) {
			w.Fail("bytes", "%s: value %d (%v) decoded from bytes: %v, %d bytes left of %d", name, i, v.Type(), err, len(rest), len(full)-ends[i])
		}
	}
	// cut and failing streams
	whole := func(k int) int {
		i := 0
		for i < n && ends[i] <= k {
			i++
		}
		return i
	}
	for k := 2 + c.N(4); k > 0 && len(full) > 0; k-- {
		at := c.N(len(full))
		r := &cdReader{c: c, b: full[:at], how: c.N(2), end: io.EOF, with: c.P(300)}
		what := fmt.Sprintf("cut at byte %d", at)
		w.Fault("stream cut")
		if c.P(400) {
			r.end = errStream
			what = fmt.Sprintf("stream error at byte %d", at)
			w.Fault("stream error")
		} else if c.P(200) {
			r.end = io.ErrUnexpectedEOF
		}
		decode(what, r, whole(at), true)
	}
	// every cut of one value
	i := c.N(n)
	st := 0
	if i > 0 {
		st = ends[i-1]
	}
	if ln := ends[i] - st; ln <= 300 {
		for k := 0; k < ln; k++ {
			x := reflect.New(vals[i].Type().Elem())
			var err error
			w.guard(name+" decoding", func() { _, err = cd.UnmarshalFromBytes(full[st:st+k:st+k], x.Interface()) })
			if err == nil {
				w.Fail("cut", "%s: a value (%v) is decoded from the first %d of its %d bytes %x: %+v", name, x.Type(), k, ln, full[st:ends[i]], x.Elem().Interface())
			}
		}
		w.Count("every cut of a value")
	}
	// a failing writer
	if len(full) > 0 {
		room := c.N(len(full))
		w.Fault("writer fails")
		fw := &cdWriter{room: room}
		e2 := cd.NewEncoder(fw)
		for j, v := range vals {
			var err error
			w.guard(name+" encoding", func() { err = e2.Encode(v.Interface()) })
			if (err != nil) != (ends[j] > room) {
				w.Fail("writer", "%s: the writer takes %d bytes, value %d ends at %d, encoding it gives %v", name, room, j, ends[j], err)
			}
			if err != nil {
				break
			}
		}
		if !bytes.Equal(fw.b.Bytes(), full[:fw.b.Len()]) {
			w.Fail("writer", "%s: what reached a failing writer is not a prefix of the encoding", name)
		}
	}
	// lists put together by hand
	if c.P(300) {
		a, b, s := cdInt(c, 64), c.Bytes(cdLen(c, 5)), string(c.Bytes(c.N(60)))
		buf := bytes.NewBuffer(nil)
		le := cd.NewEncoder(buf).(codec.Encoder)
		var err error
		w.guard(name, func() {
			if err = le.EncodeListOf(a, b, s); err == nil {
				err = le.EncodeMulti(s, a, b)
			}
		})
		if err != nil {
			w.Fail("encode", "%s: EncodeListOf and EncodeMulti: %v", name, err)
		}
		ld := cd.NewDecoder(&cdReader{c: c, b: buf.Bytes(), how: 1, end: io.EOF, with: c.P(500)}).(codec.Decoder)
		var a1, a2 int64
		var b1, b2 []byte
		var s1, s2 string
		w.guard(name, func() {
			if err = ld.DecodeListOf(&a1, &b1, &s1); err == nil {
				_, err = ld.DecodeMulti(&s2, &a2, &b2)
			}
		})
		if err != nil || a1 != a || a2 != a || s1 != s || s2 != s || !bytes.Equal(b1, b) || !bytes.Equal(b2, b) {
			w.Fail("differs", "%s: DecodeListOf and DecodeMulti of %d %x %q: %v, %d %x %q, %d %x %q", name, a, b, s, err, a1, b1, s1, a2, b2, s2)
		}
	}
	// a map whose last key has no value
	if c.P(300) {
		buf := bytes.NewBuffer(nil)
		le := cd.NewEncoder(buf).(codec.Encoder)
		var items []interface{}
		for j := c.N(3); j >= 0; j-- {
			items = append(items, fmt.Sprint("k", j))
			if j > 0 {
				items = append(items, cdInt(c, 64))
			}
		}
		w.guard(name, func() {
			l, err := le.EncodeList()
			for _, it := range items {
				if err == nil {
					err = l.Encode(it)
				}
			}
			if err == nil {
				err = le.Encode(1)
			}
			if err != nil {
				w.Fail("encode", "%s: encoding a list: %v", name, err)
			}
		})
		var m map[string]int64
		var err error
		w.guard(name, func() { _, err = cd.UnmarshalFromBytes(buf.Bytes(), &m) })
		w.Fault("map key without a value")
		if err == nil {
			w.Fail("malformed", "%s: a list of %d elements is decoded as the map %v", name, len(items), m)
		}
	}
	// a list of which only some elements are read
	if c.P(500) {
		m, nested := c.N(5), c.N(4)
		var items [][]byte
		for j := 0; j < m; j++ {
			items = append(items, c.Bytes(cdLen(c, 5)))
		}
		after := cdInt(c, 64)
		buf := bytes.NewBuffer(nil)
		le := cd.NewEncoder(buf).(codec.Encoder)
		var err error
		w.guard(name, func() {
			var l1, l2 codec.Encoder
			if l1, err = le.EncodeList(); err != nil {
				return
			}
			for j, it := range items {
				if j == nested {
					if l2, err = l1.EncodeList(); err != nil {
						return
					}
					if err = l2.EncodeMulti(after, it); err != nil {
						return
					}
				}
				if err = l1.Encode(it); err != nil {
					return
				}
			}
			err = le.Encode(after)
		})
		if err != nil {
			w.Fail("encode", "%s: encoding a list: %v", name, err)
		}
		b := buf.Bytes()
		cut := c.P(300)
		if cut {
			b = b[:c.N(len(b))]
			w.Fault("stream cut")
		}
		ld := cd.NewDecoder(&cdReader{c: c, b: b, how: c.N(2), end: io.EOF, with: c.P(500)}).(codec.Decoder)
		take := c.N(m + 2)
		var got [][]byte
		var last int64
		w.guard(name, func() {
			var l1, l2 codec.Decoder
			if l1, err = ld.DecodeList(); err != nil {
				return
			}
			for j := 0; j < take; j++ {
				if j == nested && j < m {
					if l2, err = l1.DecodeList(); err != nil {
						return
					}
					var x int64
					if c.P(500) {
						if err = l2.Decode(&x); err != nil || x != after {
							return
						}
					}
				}
				var it []byte
				if err = l1.Decode(&it); err != nil {
					if err == io.EOF && j == m && !cut {
						err = nil
					}
					break
				}
				got = append(got, it)
			}
			if err == nil {
				err = ld.Decode(&last)
			}
		})
		switch {
		case cut && err == nil:
			w.Fail("cut", "%s: a list and a value are read from a stream that ends before their end (%x)", name, b)
		case !cut && err != nil:
			w.Fail("decode", "%s: reading %d of the %d elements of a list (%x) and the value after it: %v", name, take, m, b, err)
		case !cut:
			if take > m {
				take = m
			}
			if last != after || len(got) != take {
				w.Fail("differs", "%s: the value after a list of which %d of %d elements were read is %d, it was %d; %d elements", name, take, m, last, after, len(got))
			}
		}
		for j := range got {
			if !bytes.Equal(got[j], items[j]) || (got[j] == nil) != (items[j] == nil) {
				w.Fail("differs", "%s: element %d of a list is read as %x, it was %x", name, j, got[j], items[j])
			}
		}
	}
	// corruption
	for k := c.N(4); k > 0 && ends[i]-st > 0; k-- {
		b := append([]byte{}, full[st:ends[i]]...)
		for m := 1 + c.N(3); m > 0 && len(b) > 0; m-- {
			p := c.N(len(b))
			if c.P(400) && p > 8 {
				p = c.N(8)
			}
			switch c.N(4) {
			case 0:
				b[p] ^= 1 << uint(c.N(8))
			case 1:
				b[p] = []byte{0xb8, 0xbf, 0xf8, 0xff, 0xbb, 0xfb, 0xc0, 0x80, 0xdd, 0xc6, 0xdf, 0xde, 0xd9, 0xdb}[c.N(14)]
			case 2:
				b = append(b[:p], b[p+1:]...)
			default:
				x := c.Bytes(1 + c.N(9))
				b = append(b[:p:p], append(x, b[p:]...)...)
			}
		}
		w.Fault("corrupted bytes")
		x := reflect.New(vals[i].Type().Elem())
		if c.P(200) {
			w.Fault("bytes of another type")
			x = reflect.New(cdTypes[c.N(len(cdTypes))])
			if c.P(500) {
				b = append([]byte{}, full[st:ends[i]]...)
			}
		}
		var err error
		var left []byte
		used := memGuard(func() {
			w.guard(fmt.Sprintf("%s decoding %v from corrupted bytes %s", name, x.Type(), hexShort(b)), func() { left, err = cd.UnmarshalFromBytes(b, x.Interface()) })
		})
		if used > 48<<20+uint64(len(b))*2000 {
			w.Fail("alloc", "%s: decoding %d corrupted bytes %s as %v allocates %d MB", name, len(b), hexShort(b), x.Type(), used>>20)
		}
		if err == nil {
			w.Count("corrupted value decoded")
			if !bytes.HasSuffix(b, left) {
				w.Fail("bytes", "%s: what is left of corrupted bytes is not their end", name)
			}
			if name == "RLP" {
				if t, m, ok := cdParseShallow(b); !ok || len(b)-len(left) != m {
					w.Fail("malformed", "RLP: %s, whose first item is not whole or not %d bytes long, is decoded as %v %+v", hexShort(b), len(b)-len(left), x.Type(), x.Elem().Interface())
				} else {
					_ = t
				}
				if _, ok := x.Interface().(*[][]byte); ok {
					if _, _, ok := cdParse(b); !ok {
						w.Fail("malformed", "RLP: malformed list %s is decoded as %x", hexShort(b), x.Elem().Interface())
					}
				}
			}
		} else {
			w.Count("corruption noticed")
		}
		if name == "RLP" {
			if t, _, ok := cdParse(b); ok {
				d := cd.NewDecoder(&cdReader{c: c, b: b, how: 1, end: io.EOF}).(codec.Decoder)
				var err error
				w.guard("RLP", func() { err = cdWalk(d, t) })
				if err != nil {
					w.Fail("walk", "RLP: the well-formed item at the start of %s is not read: %v", hexShort(b), err)
				}
				w.Count("well-formed after corruption")
			}
		}
	}
	w.steps += n
}

func cutAt(r io.Reader) int { return r.(*cdReader).n }

// cdParseShallow gives the extent of the first item.
func cdParseShallow(b []byte) (int, int, bool) {
	if len(b) == 0 {
		return 0, 0, false
	}
	t := int(b[0])
	var h, n int
	switch {
	case t < 0x80:
		return t, 1, true
	case t <= 0xb7:
		h, n = 1, t-0x80
	case t >= 0xc0 && t <= 0xf7:
		h, n = 1, t-0xc0
	default:
		k := t - 0xb7
		if t > 0xf7 {
			k = t - 0xf7
		}
		if len(b) < 1+k {
			return 0, 0, false
		}
		for _, x := range b[1 : 1+k] {
			if n>>40 != 0 {
				return 0, 0, false
			}
			n = n<<8 | int(x)
		}
		h = 1 + k
	}
	return t, h + n, h+n <= len(b)
}

func hexShort(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x..(%d)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}
