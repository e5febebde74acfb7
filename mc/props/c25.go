package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C25: Go values round trip and conversions to Go types

func init() {
	fw.Register(&fw.Check{ID: "C25", Level: "model_checking", Run: runC25,
		Rule: "every Go type of a grammar up to the stated nesting, and every Go value of it built from boundary values, is converted to a dgo value and back; every dgo value of a universe is converted to every Go type of the grammar and compared with a reference of what that type can represent"})
}

type (
	mcInt    int
	mcInt8   int8
	mcInt16  int16
	mcInt32  int32
	mcInt64  int64
	mcUint   uint
	mcUint8  uint8
	mcUint32 uint32
	mcUint64 uint64
	mcFlt32  float32
	mcUint16 uint16
	mcFloat  float64
	mcString string
	mcBool   bool
	mcBytes  []byte
	mcInts   []int
	mcSMap   map[string]int
	mcStruct struct {
		A int
		B string
		c []int
	}
	mcEmpty struct{}
	mcErr   struct{ S string }
)

func (e *mcErr) Error() string { return e.S }

var (
	rtValue   = reflect.TypeOf((*dgo.Value)(nil)).Elem()
	rtError   = reflect.TypeOf((*error)(nil)).Elem()
	rtAny     = reflect.TypeOf((*interface{})(nil)).Elem()
	rtTime    = reflect.TypeOf(time.Time{})
	rtRx      = reflect.TypeOf((*regexp.Regexp)(nil))
	rtByte    = reflect.TypeOf(byte(0))
	dgoIfaces = map[model.Kind][]reflect.Type{
		model.Str:  {reflect.TypeOf((*dgo.String)(nil)).Elem()},
		model.Int:  {reflect.TypeOf((*dgo.Integer)(nil)).Elem(), reflect.TypeOf((*dgo.Number)(nil)).Elem()},
		model.Arr:  {reflect.TypeOf((*dgo.Array)(nil)).Elem()},
		model.Map:  {reflect.TypeOf((*dgo.Map)(nil)).Elem()},
		model.Typ:  {reflect.TypeOf((*dgo.Type)(nil)).Elem()},
		model.Sens: {reflect.TypeOf((*dgo.Sensitive)(nil)).Elem()},
	}
)

// scalarGoTypes are the Go types that aren't composed of other types of the grammar
func scalarGoTypes() []reflect.Type {
	return []reflect.Type{
		reflect.TypeOf(true), reflect.TypeOf(mcBool(true)),
		reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(mcInt(0)), reflect.TypeOf(mcInt8(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(mcUint16(0)),
		reflect.TypeOf(mcInt16(0)), reflect.TypeOf(mcInt32(0)), reflect.TypeOf(mcInt64(0)), reflect.TypeOf(mcUint(0)), reflect.TypeOf(mcUint8(0)), reflect.TypeOf(mcUint32(0)), reflect.TypeOf(mcUint64(0)), reflect.TypeOf(mcFlt32(0)),
		reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(mcFloat(0)),
		reflect.TypeOf(""), reflect.TypeOf(mcString("")),
		reflect.TypeOf([]byte{}), reflect.TypeOf(mcBytes{}), reflect.TypeOf(mcInts{}), reflect.TypeOf(mcSMap{}),
		rtTime, rtRx, rtError, rtAny, rtValue,
		reflect.TypeOf(mcStruct{}), reflect.TypeOf(mcEmpty{}),
	}
}

func dgoIfaceTypes() (r []reflect.Type) {
	for _, k := range []model.Kind{model.Str, model.Int, model.Arr, model.Map, model.Typ, model.Sens} {
		r = append(r, dgoIfaces[k]...)
	}
	return
}

// goTypes are all types of the grammar up to the nesting n
func goTypes(n int) []reflect.Type {
	base := scalarGoTypes()
	all := append([]reflect.Type{}, base...)
	prev := base
	for d := 0; d < n; d++ {
		var next []reflect.Type
		for _, t := range prev {
			if t.Kind() == reflect.Ptr && t != rtRx && t.Elem().PkgPath() != "" && t.Elem() != rtTime {
				continue
			}
			if t.PkgPath() != "" && t.Kind() != reflect.Slice && t.Kind() != reflect.Map && t != rtTime && t != rtValue {
				// other named types are natives, which can't be held by frozen values
				next = append(next, reflect.PtrTo(t))
				continue
			}
			next = append(next, reflect.SliceOf(t), reflect.MapOf(reflect.TypeOf(""), t))
			if t.Kind() != reflect.Ptr || t == rtRx {
				if t != rtRx && t != rtValue {
					next = append(next, reflect.PtrTo(t))
				}
			} else if d < 2 {
				next = append(next, reflect.PtrTo(t))
			}
			if d == 0 {
				switch t.Kind() {
				case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int64, reflect.Uint8, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String:
					next = append(next, reflect.MapOf(t, reflect.TypeOf("")), reflect.MapOf(t, rtAny))
				}
			}
		}
		all = append(all, next...)
		prev = next
	}
	return all
}

// goSamples are values of the type. wide tells if all boundary values are wanted
func goSamples(t reflect.Type, wide bool) (r []reflect.Value) {
	add := func(vs ...interface{}) {
		for _, v := range vs {
			x := reflect.New(t).Elem()
			if v != nil {
				x.Set(reflect.ValueOf(v).Convert(t))
			}
			r = append(r, x)
		}
	}
	bits := uint(0)
	switch t {
	case rtTime:
		add(time.Time{}, time.Unix(0, 0), time.Unix(1567000000, 123456789).UTC(), time.Date(2019, 10, 6, 1, 2, 3, 4, time.FixedZone("", 7200)))
		return
	case rtRx:
		add(nil, regexp.MustCompile("a.b"), regexp.MustCompile(""))
		return
	case rtError:
		add(nil, errors.New("some error"), error(&mcErr{"x"}))
		return
	case rtAny:
		add(nil, 1, "x", true, 1.5, int8(-3), uint16(7), []int{1}, map[string]interface{}{"a": 1}, []interface{}{1, "x", nil}, time.Unix(1, 2))
		return
	case rtValue:
		add(nil, vf.Integer(1), vf.String("x"), vf.Nil, vf.Values(1, "a"), vf.MutableMap("a", vf.MutableValues(1)))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		add(true, false)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits = uint(t.Bits())
		for _, i := range []int64{0, 1, -1, 1<<(bits-1) - 1, -1 << (bits - 1), 1<<(bits-2) + 1} {
			x := reflect.New(t).Elem()
			x.SetInt(i)
			r = append(r, x)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits = uint(t.Bits())
		for _, i := range []uint64{0, 1, 1<<(bits-1) - 1, 1 << (bits - 1), 1<<(bits-1) + 5, 1<<(bits-1) - 1 + 1<<(bits-1) - 1, 1<<(bits-1) - 1 + 1<<(bits-1)} {
			x := reflect.New(t).Elem()
			x.SetUint(i)
			r = append(r, x)
		}
	case reflect.Float32, reflect.Float64:
		for _, f := range []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, 1e10, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN()} {
			x := reflect.New(t).Elem()
			x.SetFloat(f)
			r = append(r, x)
		}
		if t.Kind() == reflect.Float64 {
			add(math.MaxFloat64, math.SmallestNonzeroFloat64, float64(1<<53+1))
		}
	case reflect.String:
		add("", "a", "åäö", "\x00\xff", "1", "true", "null")
	case reflect.Struct:
		switch t.Name() {
		case "mcStruct":
			add(mcStruct{}, mcStruct{A: 1, B: "b", c: []int{1, 2}})
		default:
			r = append(r, reflect.New(t).Elem())
		}
	case reflect.Slice:
		r = append(r, reflect.New(t).Elem(), reflect.MakeSlice(t, 0, 0))
		es := goSamples(t.Elem(), false)
		if wide {
			for _, e := range es {
				r = append(r, reflect.Append(reflect.MakeSlice(t, 0, 1), e))
			}
		}
		for i, e := range es {
			r = append(r, reflect.Append(reflect.MakeSlice(t, 0, 2), es[len(es)-1-i], e, e))
		}
	case reflect.Map:
		r = append(r, reflect.New(t).Elem(), reflect.MakeMap(t))
		ks, es := goSamples(t.Key(), false), goSamples(t.Elem(), false)
		n := len(ks)
		if len(es) > n {
			n = len(es)
		}
		for i := 0; i < n; i++ {
			m := reflect.MakeMap(t)
			for j := 0; j < 3; j++ {
				m.SetMapIndex(ks[(i+j)%len(ks)], es[(i+2*j)%len(es)])
			}
			r = append(r, m)
		}
	case reflect.Ptr:
		r = append(r, reflect.New(t).Elem())
		for _, e := range goSamples(t.Elem(), false) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			x := reflect.New(t).Elem()
			x.Set(p)
			r = append(r, x)
		}
	}
	return
}

// goSame tells if b is what a becomes after a round trip: deeply equal, where numbers, slices and maps held by interfaces may
// have become the corresponding general type, where nil and empty slices of bytes, ints and strings are the same and where
// a pointer to a nil is a nil pointer. An empty string is returned when it is.
func goSame(a, b reflect.Value) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() == b.IsValid() {
			return ""
		}
		return fmt.Sprintf("%v != %v", a, b)
	}
	diff := func() string { return fmt.Sprintf("%#v != %#v", a, b) }
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s != %s", a.Type(), b.Type())
	}
	switch a.Type() {
	case rtTime:
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) || x.String() != y.String() {
			return diff()
		}
		return ""
	case rtRx:
		if a.IsNil() != b.IsNil() || !a.IsNil() && a.Interface().(*regexp.Regexp).String() != b.Interface().(*regexp.Regexp).String() {
			return diff()
		}
		return ""
	case rtError:
		if a.IsNil() != b.IsNil() || !a.IsNil() && a.Interface() != b.Interface() {
			return diff()
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) && !(math.IsNaN(a.Float()) && math.IsNaN(b.Float())) {
			return diff()
		}
	case reflect.Slice:
		if a.IsNil() != b.IsNil() && a.Len()+b.Len() == 0 {
			switch a.Type().Elem().Kind() {
			case reflect.Uint8, reflect.Int, reflect.String:
				return ""
			}
			return diff()
		}
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return diff()
		}
		for i := 0; i < a.Len(); i++ {
			if d := goSame(a.Index(i), b.Index(i)); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return diff()
		}
		nans := 0
		for _, k := range a.MapKeys() {
			if v := b.MapIndex(k); v.IsValid() {
				if d := goSame(a.MapIndex(k), v); d != "" {
					return fmt.Sprintf("[%v]: %s", k, d)
				}
			} else if (k.Kind() == reflect.Float64 || k.Kind() == reflect.Float32) && math.IsNaN(k.Float()) {
				nans++
			} else {
				return diff()
			}
		}
	case reflect.Ptr:
		if a.IsNil() && b.IsNil() {
			return ""
		}
		if a.IsNil() || b.IsNil() {
			x := a
			if a.IsNil() {
				x = b
			}
			for x.Kind() == reflect.Ptr || x.Kind() == reflect.Interface || x.Kind() == reflect.Slice || x.Kind() == reflect.Map {
				if x.IsNil() {
					return ""
				}
				if x.Kind() == reflect.Slice || x.Kind() == reflect.Map {
					break
				}
				if _, ok := x.Interface().(dgo.Nil); ok {
					return ""
				}
				x = x.Elem()
			}
			return diff()
		}
		return goSame(a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			// the interface dgo.Value holds vf.Nil where others hold nil
			isNil := func(x reflect.Value) bool {
				if x.IsNil() {
					return true
				}
				_, ok := x.Interface().(dgo.Nil)
				return ok
			}
			if isNil(a) != isNil(b) {
				return diff()
			}
			return ""
		}
		x, y := vf.Value(a.Interface()), vf.Value(b.Interface())
		if !x.Equals(y) || !y.Equals(x) {
			return diff()
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return diff()
		}
	}
	return ""
}

// bigUint tells if the value contains an unsigned integer that doesn't fit an int64, which no dgo value can represent
func bigUint(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Uint, reflect.Uint64:
		// values of a defined type are natives
		return v.Uint() > math.MaxInt64 && v.Type().PkgPath() == ""
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && v.Type() != rtRx && v.Type() != rtError && v.Type() != rtValue && bigUint(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if bigUint(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if bigUint(k) || bigUint(v.MapIndex(k)) {
				return true
			}
		}
	}
	return false
}

type goRes int

const (
	goFail goRes = iota
	goOK
	goAny
)

// refToGo tells what converting the value to the Go type gives. check is called with the converted value and returns an
// empty string if it is what is expected
func refToGo(v *model.V, p reflect.Type) (check func(g reflect.Value) string, res goRes) {
	ok := func(want interface{}) (func(g reflect.Value) string, goRes) {
		w := reflect.ValueOf(want).Convert(p)
		return func(g reflect.Value) string { return goSame(w, g) }, goOK
	}
	same := func(g reflect.Value) string {
		if x := vf.Value(g.Interface()); !x.Equals(v.Build(true)) && model.Observe(x).Canon() != v.Canon() {
			return fmt.Sprintf("%#v", g)
		}
		return ""
	}
	if p.Implements(rtValue) {
		if p == rtValue {
			return same, goOK
		}
		for _, t := range dgoIfaces[v.K] {
			if t == p {
				return same, goOK
			}
		}
		if v.K == model.Float && p.Name() == "Number" || p.Name() == "Number" && (v.K == model.Bool || v.K == model.Time) {
			return same, goAny
		}
		return nil, goFail
	}
	if v.K == model.Nil {
		return func(g reflect.Value) string {
			if !g.IsZero() {
				return fmt.Sprintf("%#v isn't zero", g)
			}
			return ""
		}, goOK
	}
	if p == rtAny {
		if unhashableKey(v) {
			return nil, goAny
		}
		return func(g reflect.Value) string {
			if _, isV := g.Interface().(dgo.Value); isV && plainKind(v.K) {
				return fmt.Sprintf("dgo value %#v", g)
			}
			return same(g)
		}, goOK
	}
	if p == rtRx {
		if v.K == model.Rx {
			return ok(regexp.MustCompile(v.S))
		}
		return nil, goFail
	}
	if p == rtTime {
		if v.K == model.Time {
			return ok(v.T)
		}
		return nil, goFail
	}
	switch p.Kind() {
	case reflect.Ptr:
		ec, r := refToGo(v, p.Elem())
		if !plainKind(v.K) && r == goOK && !p.Elem().Implements(rtValue) {
			r = goAny
		}
		return func(g reflect.Value) string {
			if g.IsNil() {
				return "nil pointer"
			}
			return ec(g.Elem())
		}, r
	case reflect.Bool:
		if v.K == model.Bool {
			return ok(v.B)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.K == model.Int {
			b := uint(64 - p.Bits())
			if v.I<<b>>b == v.I {
				return ok(v.I)
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.K == model.Int && v.I >= 0 && (p.Bits() == 64 || v.I>>uint(p.Bits()) == 0) {
			return ok(v.I)
		}
	case reflect.Float64:
		if v.K == model.Float {
			return ok(v.F)
		}
	case reflect.Float32:
		if v.K == model.Float && (math.IsInf(v.F, 0) || !(math.Abs(v.F) > math.MaxFloat32)) {
			return ok(v.F)
		}
	case reflect.String:
		if v.K == model.Str {
			return ok(v.S)
		}
	case reflect.Slice:
		if v.K == model.Bin {
			if p.Elem() == rtByte {
				return ok([]byte(v.S))
			}
			return nil, goFail
		}
		if v.K == model.Arr {
			var cs []func(reflect.Value) string
			res = goOK
			for _, e := range v.L {
				ec, r := refToGo(e, p.Elem())
				if r == goFail {
					return nil, goFail
				}
				if r == goAny {
					res = goAny
				}
				cs = append(cs, ec)
			}
			return func(g reflect.Value) string {
				if g.Len() != len(cs) || g.IsNil() {
					return fmt.Sprintf("%#v", g)
				}
				for i, ec := range cs {
					if d := ec(g.Index(i)); d != "" {
						return fmt.Sprintf("[%d]: %s", i, d)
					}
				}
				return ""
			}, res
		}
	case reflect.Map:
		if v.K == model.Map {
			res = goOK
			var cs [][2]func(reflect.Value) string
			for i := 0; i < len(v.L); i += 2 {
				kc, r1 := refToGo(v.L[i], p.Key())
				vc, r2 := refToGo(v.L[i+1], p.Elem())
				if r1 == goFail || r2 == goFail {
					return nil, goFail
				}
				if r1 == goAny || r2 == goAny || unhashableKey(v) && p.Key() == rtAny {
					res = goAny
				}
				cs = append(cs, [2]func(reflect.Value) string{kc, vc})
			}
			return func(g reflect.Value) string {
				if g.IsNil() || g.Len() != len(cs) {
					return fmt.Sprintf("%#v", g)
				}
				for _, c := range cs {
					found := false
					for _, k := range g.MapKeys() {
						if c[0](k) == "" {
							if d := c[1](g.MapIndex(k)); d != "" {
								return fmt.Sprintf("[%v]: %s", k, d)
							}
							found = true
						}
					}
					if !found {
						return fmt.Sprintf("%#v", g)
					}
				}
				return ""
			}, res
		}
	}
	return nil, goFail
}

func plainKind(k model.Kind) bool {
	switch k {
	case model.Bool, model.Int, model.Float, model.Str, model.Bin, model.Time, model.Rx, model.Arr, model.Map:
		return true
	}
	return false
}

// unhashableKey tells if the value contains a map with a key that Go maps can't have
func unhashableKey(v *model.V) bool {
	for i, e := range v.L {
		if unhashableKey(e) {
			return true
		}
		if v.K == model.Map && i%2 == 0 && (e.K == model.Arr || e.K == model.Map || e.K == model.Bin || e.K == model.Rx || e.K == model.Time || e.K == model.Sens || e.K == model.Typ) {
			return true
		}
	}
	return false
}

func goValues(thorough bool) []*model.V {
	i, f, s := model.I, model.F, model.S
	vs := append(scalarUniverse(), elemUniverse()...)
	vs = append(vs, valueUniverse(thorough)...)
	vs = append(vs, nearScalars()...)
	for _, b := range []uint{7, 8, 15, 16, 31, 32, 63} {
		for d := int64(-1); d <= 1; d++ {
			x := int64(uint64(1)<<b) + d
			vs = append(vs, i(x), i(-x), model.A(i(x)), model.A(i(-x)), model.M(s("a"), i(x)), model.M(i(x), s("a")))
		}
	}
	for _, x := range []float64{math.Inf(1), math.NaN(), 1e300, -1e300, 1e39, math.MaxFloat32, 0.1, 1e-50, math.MaxFloat32 * 1.00000001} {
		vs = append(vs, f(x), model.A(f(x)), model.M(s("a"), f(x)))
	}
	vs = append(vs, model.A(model.N()), model.A(i(1), model.N()), model.M(s("a"), model.N()), model.A(model.A(i(1)), model.A(s("a"))), model.A(model.A(i(1)), model.A(i(300))), model.A(model.Y("ab")), model.M(s("a"), model.Y("x")),
		model.A(model.X(s("a"))), model.TV(model.TInt), model.A(model.TV(model.TInt)), model.M(model.A(i(1)), i(2)), model.M(model.A(i(1)), i(2), s("a"), i(2)), model.M(model.B(true), i(2), s("a"), i(2)), model.A(model.R("a")), model.A(model.T(time.Unix(1, 0))))
	return dedup(vs)
}

func runC25(c *fw.C) {
	depth := 2
	if c.Thorough {
		depth = 3
	}
	c.Stage("round trips")
	for _, t := range goTypes(depth) {
		gt := t
		c.Case(func() string { return gt.String() }, func(t *fw.T) {
			for n, g := range goSamples(gt, true) {
				key := fmt.Sprintf("%d", n)
				c25RoundTrip(t, gt, g, key)
			}
		})
	}

	c25Long(c)
	c25Types(c, depth)

	c.Stage("conversions")
	targets := append(goTypes(depth), dgoIfaceTypes()...)
	for _, t := range dgoIfaceTypes() {
		targets = append(targets, reflect.PtrTo(t), reflect.PtrTo(reflect.PtrTo(t)), reflect.SliceOf(reflect.PtrTo(t)), reflect.MapOf(reflect.TypeOf(""), reflect.PtrTo(t)))
	}
	vals := goValues(c.Thorough)
	for _, t := range targets {
		gt := t
		c.Case(func() string { return gt.String() }, func(t *fw.T) {
			for _, v := range vals {
				check, res := refToGo(v, gt)
				for _, frozen := range []bool{true, false} {
					if !frozen && v.K != model.Arr && v.K != model.Map {
						continue
					}
					d := v.Build(frozen)
					dest := reflect.New(gt)
					e, rt := fw.Try(func() { vf.FromValue(d, dest.Interface()) })
					t.Count("transitions", 1)
					switch {
					case rt && !unhashableKey(v):
						t.Failf("runtime", v.Canon(), "%s to %s: %v", v.Canon(), gt, e)
					case res == goFail && e == nil:
						t.Failf("accepts", v.Canon(), "%s to %s gives %#v, expected failure", v.Canon(), gt, dest.Elem())
					case res == goOK && e != nil:
						t.Failf("fails", v.Canon(), "%s to %s fails: %v", v.Canon(), gt, strings.Split(fmt.Sprint(e), "\n")[0])
					case res == goOK:
						if x := check(dest.Elem()); x != "" {
							t.Failf("differs", v.Canon(), "%s to %s gives %s", v.Canon(), gt, x)
						}
					}
					if x := model.Observe(d).Canon(); x != model.Observe(v.Build(frozen)).Canon() {
						t.Failf("source", v.Canon(), "converting %s to %s changes it to %s", v.Canon(), gt, x)
					}
				}
			}
			t.Touch()
		})
	}
}

// recursive Go types. Their own occurrences have no corresponding type.
type (
	mcRecS []mcRecS
	mcRecM map[string]mcRecM
	mcRecP []*mcRecP
	mcRecA map[string][]mcRecA
	mcRecB struct{ A []mcRecB }
)

var recursiveGo = map[reflect.Type]dgo.Type{
	reflect.TypeOf(mcRecS{}): tf.Array(typ.Any),
	reflect.TypeOf(mcRecM{}): tf.Map(typ.String, typ.Any),
	reflect.TypeOf(mcRecP{}): tf.Array(tf.OneOf(typ.Any, typ.Nil)),
	reflect.TypeOf(mcRecA{}): tf.Map(typ.String, tf.Array(typ.Any)),
}

var recursiveGoValues = []interface{}{
	mcRecS{}, mcRecS{{}}, mcRecS{{}, {{}}}, mcRecM{}, mcRecM{"a": {}}, mcRecM{"a": {"b": {}}, "b": {}}, mcRecP{}, mcRecA{}, mcRecA{"a": {}}, mcRecA{"a": {{}, {"a": {}}}},
}

// goTypeRef is the type that describes the values of a Go type, or nil if it isn't known here
func goTypeRef(t reflect.Type) dgo.Type {
	switch t {
	case rtTime:
		return typ.Time
	case rtRx:
		return typ.Regexp
	case rtError:
		return typ.Error
	case rtAny:
		return typ.Any
	}
	if r, ok := recursiveGo[t]; ok {
		return r
	}
	switch t.Kind() {
	case reflect.Bool:
		return typ.Boolean
	case reflect.String:
		return typ.String
	case reflect.Int, reflect.Int64:
		return typ.Integer
	case reflect.Int8:
		return tf.Integer(-128, 127, true)
	case reflect.Int16:
		return tf.Integer(-32768, 32767, true)
	case reflect.Int32:
		return tf.Integer(math.MinInt32, math.MaxInt32, true)
	case reflect.Uint, reflect.Uint64:
		return tf.Integer(0, math.MaxInt64, true)
	case reflect.Uint8:
		return tf.Integer(0, 255, true)
	case reflect.Uint16:
		return tf.Integer(0, 65535, true)
	case reflect.Uint32:
		return tf.Integer(0, math.MaxUint32, true)
	case reflect.Float32:
		return tf.Float(-math.MaxFloat32, math.MaxFloat32, true)
	case reflect.Float64:
		return typ.Float
	case reflect.Slice, reflect.Array:
		if e := goTypeRef(t.Elem()); e != nil {
			return tf.Array(e)
		}
	case reflect.Map:
		k, e := goTypeRef(t.Key()), goTypeRef(t.Elem())
		if k != nil && e != nil {
			return tf.Map(k, e)
		}
	case reflect.Ptr:
		if e := goTypeRef(t.Elem()); e != nil {
			return tf.OneOf(e, typ.Nil)
		}
	}
	return nil
}

// namedScalar tells if values of the type contain values of a defined type of a basic kind, which are natives
func namedScalar(t reflect.Type) bool {
	if _, ok := recursiveGo[t]; ok {
		return false
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array, reflect.Ptr:
		return namedScalar(t.Elem())
	case reflect.Map:
		return namedScalar(t.Key()) || namedScalar(t.Elem())
	case reflect.Struct, reflect.Interface, reflect.Func:
		return false
	}
	return t.PkgPath() != ""
}

// c25Types compares the type that a Go type is converted to with the definition, and with the values of the Go type
func c25Types(c *fw.C, depth int) {
	c.Stage("types of Go types")
	types := goTypes(depth)
	for _, t := range goTypes(1) {
		types = append(types, reflect.ArrayOf(3, t), reflect.SliceOf(reflect.ArrayOf(2, t)))
	}
	types = append(types, reflect.TypeOf(func(int) string { return "" }), reflect.TypeOf(func() {}), reflect.TypeOf(func(...int8) (bool, error) { return false, nil }), reflect.TypeOf([]func(){}),
		reflect.TypeOf(map[string]func(int){}), reflect.TypeOf([]error{}), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf(make(chan int)), reflect.TypeOf(complex(1, 1)), reflect.TypeOf((**mcStruct)(nil)))
	for rt := range recursiveGo {
		types = append(types, rt)
	}
	sort.SliceStable(types[len(types)-len(recursiveGo):], func(i, j int) bool {
		return types[len(types)-len(recursiveGo)+i].String() < types[len(types)-len(recursiveGo)+j].String()
	})
	for _, g := range recursiveGoValues {
		types = append(types, reflect.SliceOf(reflect.TypeOf(g)), reflect.PtrTo(reflect.TypeOf(g)))
	}
	types = append(types, reflect.TypeOf(mcRecB{}), reflect.TypeOf(map[string]mcRecB{}))
	seen := map[reflect.Type]bool{}
	for _, t := range types {
		gt := t
		if seen[gt] {
			continue
		}
		seen[gt] = true
		c.Case(func() string { return gt.String() }, func(t *fw.T) {
			var tp dgo.Type
			if e, _ := fw.Try(func() { tp = tf.FromReflected(gt) }); e != nil {
				t.Fatalf("panic", "", "type of %s: %v", gt, e)
			}
			t.Outcome(tp.String())
			if !tp.Equals(tf.FromReflected(gt)) || tp.HashCode() != tf.FromReflected(gt).HashCode() || !tp.Assignable(tp) {
				t.Failf("equality", "", "the type %s of %s isn't equal to itself", tp, gt)
			}
			_, rec := recursiveGo[gt]
			if want := goTypeRef(gt); want != nil && (rec || !strings.Contains(gt.String(), "mcRec")) && !(tp.Equals(want) && want.Equals(tp)) {
				t.Failf("type", "", "the type of %s is %s, expected %s", gt, tp, want)
			}
			if goTypeRef(gt) == nil || namedScalar(gt) || strings.Contains(gt.String(), "[]uint8") {
				return // natives, and binaries
			}
			var samples []reflect.Value
			if strings.Contains(gt.String(), "mcRec") {
				for _, g := range recursiveGoValues {
					if rv := reflect.ValueOf(g); rv.Type() == gt {
						samples = append(samples, rv)
					} else if gt.Kind() == reflect.Slice && gt.Elem() == rv.Type() {
						samples = append(samples, reflect.Append(reflect.MakeSlice(gt, 0, 1), rv))
					}
				}
			} else {
				samples = goSamples(gt, true)
			}
			for n, g := range samples {
				if bigUint(g) {
					continue
				}
				v := vf.Value(g.Interface())
				if str := fmt.Sprint(v); strings.Contains(str, "NaN") || strings.Contains(str, "Inf") || strings.Contains(str, "null") || strings.Contains(str, "nil") {
					continue // the bounds of float32 exclude them, and the type of a Go type doesn't tell that it has a nil
				}
				t.Count("transitions", 1)
				if !tp.Instance(v) {
					t.Failf("instance", fmt.Sprint(n), "%s, from %#v, isn't an instance of %s, the type of %s", v, g, tp, gt)
				}
			}
		})
	}

	// functions
	c.Stage("functions")
	for i, f := range []interface{}{func() int { return 1 }, func(a int) int { return a + 1 }, func(a ...string) int { return len(a) }, func(a int, b ...int) (int, error) { return a + len(b), nil }} {
		f := f
		ft := reflect.TypeOf(f)
		c.Case(func() string { return fmt.Sprint(i, ft) }, func(t *fw.T) {
			for form, v := range []dgo.Value{vf.Value(f), vf.ValueFromReflected(reflect.ValueOf(f)), vf.Values(f).Get(0), vf.Map("f", f).Get("f")} {
				call := func(x interface{}, what string) {
					var args []reflect.Value
					for k := 0; k < ft.NumIn() && !(ft.IsVariadic() && k == ft.NumIn()-1); k++ {
						args = append(args, reflect.ValueOf(4))
					}
					t.Count("transitions", 1)
					want := fmt.Sprint(reflect.ValueOf(f).Call(args)[0])
					xv := reflect.ValueOf(x)
					if xv.Kind() != reflect.Func {
						t.Failf("kind", what, "%s (%d): %T instead of a function", what, form, x)
					} else if got := fmt.Sprint(xv.Call(args)[0]); got != want {
						t.Failf("result", what, "%s (%d): gives %s, expected %s", what, form, got, want)
					}
				}
				e, _ := fw.Try(func() {
					call(v.(dgo.GoFunction).GoFunc(), "GoFunc")
					d := reflect.New(ft)
					vf.FromValue(v, d.Interface())
					call(d.Elem().Interface(), "func")
					d = reflect.New(reflect.PtrTo(ft))
					vf.FromValue(v, d.Interface())
					call(d.Elem().Elem().Interface(), "pointer to func")
					var x interface{}
					vf.FromValue(v, &x)
					call(x, "interface{}")
					d = reflect.New(reflect.SliceOf(ft))
					vf.FromValue(vf.Values(v), d.Interface())
					call(d.Elem().Index(0).Interface(), "slice of func")
					d = reflect.New(reflect.MapOf(reflect.TypeOf(""), reflect.PtrTo(ft)))
					vf.FromValue(vf.Map("a", v), d.Interface())
					call(d.Elem().MapIndex(reflect.ValueOf("a")).Elem().Interface(), "map of pointers to func")
					var dv dgo.Value
					vf.FromValue(v, &dv)
					var df dgo.Function
					vf.FromValue(v, &df)
					if !dv.Equals(v) || !df.Equals(v) || v.HashCode() != df.HashCode() {
						t.Failf("dgo", "", "%s (%d) to dgo.Value and dgo.Function gives %s and %s", ft, form, dv, df)
					}
				})
				if e != nil {
					t.Failf("panic", "", "%s (%d): %v", ft, form, e)
				}
				bad, _ := fw.Try(func() { var f2 func(bool) bool; vf.FromValue(v, &f2) })
				if bad == nil {
					t.Failf("other", "", "%s can be assigned to another type of function", ft)
				}
			}
		})
	}

	// the Go type that a type tells that its values can be converted to
	c.Stage("Go types of types")
	var vals []*model.V
	for _, v := range valueUniverse(false) {
		if !unhashableKey(v) {
			vals = append(vals, v)
		}
	}
	for _, ty := range typeUniverse(2) {
		ty := ty
		if uses(ty, "func") || uses(ty, "struct") {
			continue
		}
		c.Case(func() string { return ty.Name }, func(t *fw.T) {
			tp := ty.Build()
			var rt reflect.Type
			if e, _ := fw.Try(func() { rt = tp.ReflectType() }); e != nil {
				t.Count("no Go type", 1)
				return
			}
			t.Outcome(rt.String())
			for _, v := range vals {
				if !ty.Has(v) {
					continue
				}
				for _, frozen := range []bool{true, false} {
					d := v.Build(frozen)
					dest := reflect.New(rt)
					t.Count("transitions", 1)
					var back dgo.Value
					e, _ := fw.Try(func() { vf.FromValue(d, dest.Interface()); back = vf.ValueFromReflected(dest.Elem()) })
					switch {
					case e != nil:
						t.Failf("fails", v.Canon(), "%s can't be converted to %s, the Go type of %s: %v", v.Canon(), rt, tp, e)
					case !back.Equals(d):
						t.Failf("differs", v.Canon(), "%s is converted to %s, the Go type of %s, and back to %s", v.Canon(), rt, tp, back)
					}
				}
			}
		})
	}
}

// c25RoundTrip converts a Go value to a dgo value in all ways, and back
func c25RoundTrip(t *fw.T, gt reflect.Type, g reflect.Value, key string) {
	big := bigUint(g)
	for form := 0; form < 3; form++ {
		var v dgo.Value
		e, rt := fw.Try(func() {
			switch form {
			case 0:
				v = vf.Value(g.Interface())
			case 1:
				v = vf.ValueFromReflected(g)
			case 2:
				p := reflect.New(gt) // addressable
				p.Elem().Set(g)
				v = vf.ValueFromReflected(p.Elem())
			}
		})
		t.Count("transitions", 1)
		if big {
			if e == nil || rt {
				t.Failf("wraps", key, "%#v gives %s", g, v)
			}
			continue
		}
		if e != nil {
			t.Failf("value", key, "value of %#v fails: %v", g, e)
			continue
		}
		back := reflect.New(gt)
		e, _ = fw.Try(func() { vf.FromValue(v, back.Interface()) })
		if e != nil {
			t.Failf("back", key, "%#v gives %s and fails to convert back: %v", g, v, e)
			continue
		}
		if d := goSame(g, back.Elem()); d != "" {
			t.Failf("changed", key, "%#v gives %s and then %#v: %s", g, v, back.Elem(), d)
		}
		t.Outcome(v.Type().String())
	}
}

// c25Long checks all slices with up to six elements of three values, and maps of up to 33 entries
func c25Long(c *fw.C) {
	c.Stage("long")
	n := 6
	if c.Thorough {
		n = 8
	}
	one, two := 1, 2
	sa, se := "a", ""
	for _, es := range [][]interface{}{
		{0, 1, -5}, {"", "a", "b"}, {&one, (*int)(nil), &two}, {&sa, (*string)(nil), &se}, {false, true}, {0.0, 1.5, -1.0}, {[]int{1}, []int{}, []int(nil)}, {map[string]int{"a": 1}, map[string]int{}, map[string]int(nil)},
		{[]byte("a"), []byte{}, []byte("bc")}, {[]*int{&one, nil}, []*int{nil}, []*int{}}, {int8(0), int8(-128), int8(127)}, {uint64(0), uint64(1), uint64(1 << 62)},
	} {
		es := es
		et := reflect.TypeOf(es[0])
		for _, any := range []bool{false, true} {
			if any && (et.Kind() == reflect.Ptr || et.Kind() == reflect.Slice || et.Kind() == reflect.Map || et.Kind() == reflect.Int8 || et.Kind() == reflect.Uint64) {
				continue
			}
			any := any
			at := et
			if any {
				at = reflect.TypeOf((*interface{})(nil)).Elem()
			}
			gt := reflect.SliceOf(at)
			c.Case(gt.String, func(t *fw.T) {
				max := n
				var rec func(l []interface{})
				rec = func(l []interface{}) {
					g := reflect.MakeSlice(gt, len(l), len(l))
					m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), at))
					for i, x := range l {
						g.Index(i).Set(reflect.ValueOf(x))
						m.SetMapIndex(reflect.ValueOf(i), reflect.ValueOf(x))
					}
					key := fmt.Sprint(l)
					if et.Kind() == reflect.Ptr || et.Kind() == reflect.Slice {
						key = fmt.Sprint(len(l))
					}
					c25RoundTrip(t, gt, g, key)
					c25RoundTrip(t, m.Type(), m, key)
					if len(l) < max {
						for _, x := range es {
							rec(append(l[:len(l):len(l)], x))
						}
					}
				}
				rec(nil)
				for _, k := range []int{9, 16, 17, 33} {
					l := make([]interface{}, k)
					for j := range l {
						l[j] = es[j*j%len(es)]
					}
					max = 0
					rec(l)
				}
				t.Touch()
			})
		}
	}
}
