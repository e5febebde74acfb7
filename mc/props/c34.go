package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/vf"
)

// C34: binary encodings

func init() {
	fw.Register(&fw.Check{ID: "C34", Level: "model_checking", Run: runC34,
		Rule: "every byte string of up to 2 bytes (3 in the thorough tier) and every text of up to N characters over an alphabet of valid, invalid, padding and line break characters is encoded and decoded in every format and compared with a reference implementation of RFC 4648 and of UTF-8; every reader behaviour of up to 4 reads; every size constraint"})
}

const b64std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
const b64url = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

func refEncode(bs []byte, alpha string) string {
	var sb strings.Builder
	for i := 0; i < len(bs); i += 3 {
		n, v := 0, 0
		for j := 0; j < 3; j++ {
			v <<= 8
			if i+j < len(bs) {
				v |= int(bs[i+j])
				n++
			}
		}
		for j := 0; j < 4; j++ {
			if j <= n {
				sb.WriteByte(alpha[v>>uint(18-6*j)&63])
			} else {
				sb.WriteByte('=')
			}
		}
	}
	return sb.String()
}

// refDecode decodes padded base64. Line breaks are ignored. The strict form insists on zero trailing bits
func refDecode(s string, alpha string, strict bool) ([]byte, bool) {
	s = strings.NewReplacer("\n", "", "\r", "").Replace(s)
	if len(s)%4 != 0 {
		return nil, false
	}
	var out []byte
	for i := 0; i < len(s); i += 4 {
		q := s[i : i+4]
		n := 4
		if i+4 == len(s) {
			if strings.HasSuffix(q, "==") {
				n = 2
			} else if strings.HasSuffix(q, "=") {
				n = 3
			}
		}
		v := 0
		for j := 0; j < n; j++ {
			k := strings.IndexByte(alpha, q[j])
			if k < 0 {
				return nil, false
			}
			v |= k << uint(18-6*j)
		}
		if strict && n < 4 && v&(1<<uint(8*(4-n))-1) != 0 {
			return nil, false
		}
		for j := 0; j < n-1; j++ {
			out = append(out, byte(v>>uint(16-8*j)))
		}
	}
	return out, true
}

// refUTF8 follows table 3-7 of the Unicode standard
func refUTF8(s string) bool {
	for i := 0; i < len(s); {
		b := s[i]
		in := func(k int, lo, hi byte) bool { return i+k < len(s) && s[i+k] >= lo && s[i+k] <= hi }
		switch {
		case b <= 0x7f:
			i++
		case b >= 0xc2 && b <= 0xdf && in(1, 0x80, 0xbf):
			i += 2
		case b == 0xe0 && in(1, 0xa0, 0xbf) && in(2, 0x80, 0xbf),
			(b >= 0xe1 && b <= 0xec || b == 0xee || b == 0xef) && in(1, 0x80, 0xbf) && in(2, 0x80, 0xbf),
			b == 0xed && in(1, 0x80, 0x9f) && in(2, 0x80, 0xbf):
			i += 3
		case b == 0xf0 && in(1, 0x90, 0xbf) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf),
			b >= 0xf1 && b <= 0xf3 && in(1, 0x80, 0xbf) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf),
			b == 0xf4 && in(1, 0x80, 0x8f) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf):
			i += 4
		default:
			return false
		}
	}
	return true
}

// a reader with a scripted behaviour
type scriptReader struct {
	data  []byte
	steps []int // bytes to return; -1 is an error, -2 is EOF together with the remaining data
}

var errScript = errors.New("scripted error")

func (r *scriptReader) Read(p []byte) (int, error) {
	if len(r.steps) == 0 {
		if len(r.data) == 0 {
			return 0, io.EOF
		}
		n := copy(p, r.data)
		r.data = r.data[n:]
		return n, nil
	}
	s := r.steps[0]
	r.steps = r.steps[1:]
	switch {
	case s == -1:
		return 0, errScript
	case s == -2:
		n := copy(p, r.data)
		r.data = r.data[n:]
		return n, io.EOF
	}
	if s > len(r.data) {
		s = len(r.data)
	}
	n := copy(p, r.data[:s])
	r.data = r.data[n:]
	return n, nil
}

func runC34(c *fw.C) {
	formats := []string{"%B", "%b", "%u", "%s", "%r"}

	// decode by all available ways
	decode := func(t *fw.T, text, enc string, want []byte, ok bool) {
		key := fmt.Sprintf("%q %s", text, enc)
		ways := []struct {
			name string
			f    func() dgo.Value
		}{
			{"BinaryFromEncoded", func() dgo.Value { return vf.BinaryFromEncoded(text, enc) }},
			{"New(text, format)", func() dgo.Value { return vf.New(typ.Binary, vf.Arguments(text, enc)) }},
		}
		if enc == "%B" {
			ways = append(ways, struct {
				name string
				f    func() dgo.Value
			}{"BinaryFromString", func() dgo.Value { return vf.BinaryFromString(text) }})
			ways = append(ways, struct {
				name string
				f    func() dgo.Value
			}{"New(text)", func() dgo.Value { return vf.New(typ.Binary, vf.String(text)) }})
		}
		for _, w := range ways {
			var v dgo.Value
			e, rt := fw.Try(func() { v = w.f() })
			t.Count("transitions", 1)
			switch {
			case rt:
				t.Failf("runtime", w.name+key, "%s of %s: %v", w.name, key, e)
			case (e == nil) != ok:
				t.Failf("acceptance", w.name+key, "%s of %s gives %v %v, valid: %v", w.name, key, v, e, ok)
			case e == nil:
				b := v.(dgo.Binary)
				if !bytes.Equal(b.GoBytes(), want) {
					t.Failf("bytes", w.name+key, "%s of %s gives % x instead of % x", w.name, key, b.GoBytes(), want)
				}
				if !b.Frozen() {
					t.Failf("frozen", w.name+key, "%s of %s isn't frozen", w.name, key)
				}
			}
		}
	}
	reference := func(text, enc string) ([]byte, bool) {
		switch enc {
		case "%B":
			return refDecode(text, b64std, true)
		case "%b":
			return refDecode(text, b64std, false)
		case "%u":
			return refDecode(text, b64url, false)
		case "%s":
			return []byte(text), refUTF8(text)
		default:
			return []byte(text), true
		}
	}
	roundTrip := func(t *fw.T, bs []byte) {
		t.State(string(bs))
		for _, frozen := range []bool{true, false} {
			b := vf.Binary(append([]byte{}, bs...), frozen)
			want := refEncode(bs, b64std)
			if s := b.Encode(); s != want {
				t.Failf("encode", string(bs), "% x is encoded as %q instead of %q", bs, s, want)
			}
			if s := b.String(); s != want {
				t.Failf("string", string(bs), "% x has the text %q instead of %q", bs, s, want)
			}
			if !vf.BinaryFromString(b.Encode()).Equals(b) {
				t.Failf("inverse", string(bs), "% x isn't equal to what its text decodes to", bs)
			}
		}
		decode(t, refEncode(bs, b64std), "%B", bs, true)
		decode(t, refEncode(bs, b64std), "%b", bs, true)
		decode(t, refEncode(bs, b64url), "%u", bs, true)
		decode(t, string(bs), "%r", bs, true)
		decode(t, string(bs), "%s", bs, refUTF8(string(bs)))
		// decoding what was encoded for the other alphabet
		if s := refEncode(bs, b64url); strings.ContainsAny(s, "-_") {
			decode(t, s, "%B", nil, false)
			decode(t, s, "%b", nil, false)
		}
		if s := refEncode(bs, b64std); strings.ContainsAny(s, "+/") {
			decode(t, s, "%u", nil, false)
		}
		// the list of bytes
		vals := make([]interface{}, len(bs))
		for i, x := range bs {
			vals[i] = x
		}
		var v dgo.Value
		if e, _ := fw.Try(func() { v = vf.New(typ.Binary, vf.Values(vals...)) }); e != nil || !bytes.Equal(v.(dgo.Binary).GoBytes(), bs) {
			t.Failf("list", string(bs), "the list of % x gives %v %v", bs, v, e)
		}
	}

	c.Stage("bytes")
	c.Case(func() string { return "empty" }, func(t *fw.T) { roundTrip(t, nil) })
	for i := 0; i < 256; i++ {
		i := i
		c.Case(func() string { return itoa(i) }, func(t *fw.T) {
			roundTrip(t, []byte{byte(i)})
			for j := 0; j < 256; j++ {
				roundTrip(t, []byte{byte(i), byte(j)})
				if c.Thorough {
					for k := 0; k < 256; k++ {
						roundTrip(t, []byte{byte(i), byte(j), byte(k)})
					}
					t.Touch()
				}
			}
		})
	}
	c.Stage("longer")
	set := []byte{0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xfb, 0xff}
	for _, a := range set {
		for _, b := range set {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("%x%x", a, b) }, func(t *fw.T) {
				var rec func(bs []byte, n int)
				rec = func(bs []byte, n int) {
					roundTrip(t, bs)
					if n > 0 {
						for _, x := range set {
							rec(append(bs[:len(bs):len(bs)], x), n-1)
						}
					}
				}
				n := 3
				if c.Thorough {
					n = 4
				}
				rec([]byte{a, b}, n)
			})
		}
	}
	c.Stage("long")
	for n := 0; n < 300; n++ {
		n := n
		c.Case(func() string { return itoa(n) }, func(t *fw.T) {
			bs := make([]byte, n)
			for i := range bs {
				bs[i] = byte(i*7 + n)
			}
			roundTrip(t, bs)
		})
	}

	c.Stage("texts")
	alpha := []string{"A", "Q", "w", "8", "+", "/", "-", "_", "=", "\n", "\r", " ", "\xff", "é", "\x00"}
	n := 5
	if c.Thorough {
		n = 6
	}
	var rec func(t *fw.T, s string, n int)
	rec = func(t *fw.T, s string, n int) {
		for _, enc := range formats {
			b, ok := reference(s, enc)
			decode(t, s, enc, b, ok)
		}
		if n > 0 {
			for _, a := range alpha {
				rec(t, s+a, n-1)
			}
		}
	}
	c.Case(func() string { return "short" }, func(t *fw.T) { rec(t, "", 1) })
	for _, a := range alpha {
		for _, b := range alpha {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("%q", a+b) }, func(t *fw.T) { rec(t, a+b, n-2) })
		}
	}
	c.Stage("quantums")
	for i := 0; i < 64; i++ {
		i := i
		c.Case(func() string { return itoa(i) }, func(t *fw.T) {
			for _, al := range []string{b64std, b64url} {
				for j := 0; j < 64; j++ {
					for k := 0; k < 64; k++ {
						for _, s := range []string{al[i:i+1] + al[j:j+1] + "==", al[i:i+1] + al[j:j+1] + al[k:k+1] + "=", al[i:i+1] + al[j:j+1] + al[k:k+1]} {
							for _, enc := range formats[:3] {
								b, ok := reference(s, enc)
								decode(t, s, enc, b, ok)
							}
						}
					}
				}
			}
			t.Touch()
		})
	}

	c.Stage("utf8")
	ua := []byte{0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff}
	for _, a := range ua {
		a := a
		c.Case(func() string { return itoa(int(a)) }, func(t *fw.T) {
			var rec func(bs []byte, n int)
			rec = func(bs []byte, n int) {
				decode(t, string(bs), "%s", bs, refUTF8(string(bs)))
				if n > 0 {
					for _, x := range ua {
						rec(append(bs[:len(bs):len(bs)], x), n-1)
					}
				}
			}
			n := 3
			if c.Thorough {
				n = 4
			}
			rec([]byte{a}, n)
		})
	}

	c.Stage("formats")
	known := map[string]bool{}
	for _, f := range formats {
		known[f] = true
	}
	fa := []string{"%", "B", "b", "u", "s", "r", "U", "x", " ", "é"}
	c.Case(func() string { return "all" }, func(t *fw.T) {
		var rec func(s string, n int)
		rec = func(s string, n int) {
			if !known[s] {
				for _, text := range []string{"", "QQ==", "abc"} {
					decode(t, text, s, nil, false)
				}
			}
			if n > 0 {
				for _, a := range fa {
					rec(s+a, n-1)
				}
			}
		}
		rec("", 3)
	})

	c.Stage("sizes")
	for l := 0; l < 5; l++ {
		l := l
		c.Case(func() string { return itoa(l) }, func(t *fw.T) {
			bs := make([]byte, l)
			for min := 0; min < 5; min++ {
				for max := min; max < 6; max++ {
					tp := tf.Binary(min, max)
					for _, a := range []dgo.Value{vf.String(refEncode(bs, b64std)), vf.Arguments(refEncode(bs, b64std), "%b"), vf.Arguments(string(bs), "%r"), vf.Binary(bs, true), vf.Binary(bs, false)} {
						var v dgo.Value
						e, rt := fw.Try(func() { v = vf.New(tp, a) })
						want := min <= l && l <= max
						if rt || (e == nil) != want || e == nil && !bytes.Equal(v.(dgo.Binary).GoBytes(), bs) {
							t.Failf("size", fmt.Sprint(min, max, l, a.Type()), "new %s from %s gives %v %v", tp, a, v, e)
						}
						t.Count("transitions", 1)
					}
				}
			}
		})
	}
	c.Stage("lists")
	els := []dgo.Value{vf.Integer(0), vf.Integer(255), vf.Integer(256), vf.Integer(-1), vf.Integer(257), vf.Float(1), vf.String("1"), vf.Boolean(true), vf.Nil, vf.Integer(1 << 40), vf.Array([]interface{}{1})}
	okb := []int{0, 255, -1, -1, -1, -1, -1, -1, -1, -1, -1}
	c.Case(func() string { return "all" }, func(t *fw.T) {
		var rec func(ix []int, n int)
		rec = func(ix []int, n int) {
			vs := []interface{}{}
			var want []byte
			ok := true
			for _, i := range ix {
				vs = append(vs, els[i])
				if okb[i] < 0 {
					ok = false
				} else {
					want = append(want, byte(okb[i]))
				}
			}
			var v dgo.Value
			e, rt := fw.Try(func() { v = vf.New(typ.Binary, vf.Arguments(vf.Array(vs))) })
			if rt || (e == nil) != ok || e == nil && !bytes.Equal(v.(dgo.Binary).GoBytes(), want) {
				t.Failf("list", fmt.Sprint(vs...), "binary of %v gives %v %v", vs, v, e)
			}
			if n > 0 {
				for i := range els {
					rec(append(ix[:len(ix):len(ix)], i), n-1)
				}
			}
		}
		rec(nil, 3)
	})

	c.Stage("readers")
	steps := []int{0, 1, 2, 5, -1, -2}
	c.Case(func() string { return "all" }, func(t *fw.T) {
		for _, size := range []int{0, 1, 4, 600, 5000} {
			data := make([]byte, size)
			for i := range data {
				data[i] = byte(i)
			}
			var rec func(st []int, n int)
			rec = func(st []int, n int) {
				var want []byte
				rest := data
				ok, done := true, false
				for _, s := range st {
					if done {
						break
					}
					switch {
					case s == -1:
						ok, done = false, true
					case s == -2:
						// The reader is given a buffer of at least 512 bytes: only decided for data that fits
						if len(rest) > 500 {
							return
						}
						want = append(want, rest...)
						done = true
					default:
						k := s
						if k > len(rest) {
							k = len(rest)
						}
						want = append(want, rest[:k]...)
						rest = rest[k:]
					}
				}
				if !done {
					want = append(want, rest...)
				}
				var b dgo.Binary
				e, rt := fw.Try(func() { b = vf.BinaryFromData(&scriptReader{data: data, steps: append([]int{}, st...)}) })
				if rt || (e == nil) != ok || e == nil && (!bytes.Equal(b.GoBytes(), want) || !b.Frozen()) {
					t.Failf("reader", fmt.Sprint(size, st), "reading %d bytes with steps %v gives %v", size, st, e)
				}
				if n > 0 {
					for _, s := range steps {
						rec(append(st[:len(st):len(st)], s), n-1)
					}
				}
			}
			rec(nil, 4)
		}
	})
}
