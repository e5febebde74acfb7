package props

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C15: creating values from types

func init() {
	fw.Register(&fw.Check{ID: "C15", Level: "model_checking", Run: runC15,
		Rule: "every type of the grammar up to the stated nesting is asked to create a value from every argument of the universe (value, or arguments with 0, 1 and 2 values): the outcome is compared with a reference of the conversions followed by the denotation of the type; round trips between numbers, texts and times over all boundary numbers; every text of up to N characters over a number alphabet"})
}

type convRes int

const (
	convFail convRes = iota
	convOK
	convAny // not decided by the reference: instance or failure
)

var decInt = regexp.MustCompile(`\A[-+]?[0-9]+\z`)
var decFloat = regexp.MustCompile(`\A[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?\z`)

func refParseInt(s string, radix int) (int64, bool) {
	neg := false
	d := s
	if strings.HasPrefix(d, "-") || strings.HasPrefix(d, "+") {
		neg = d[0] == '-'
		d = d[1:]
	}
	if d == "" {
		return 0, false
	}
	n := new(big.Int)
	for _, c := range []byte(d) {
		v := 99
		switch {
		case c >= '0' && c <= '9':
			v = int(c - '0')
		case c >= 'a' && c <= 'z':
			v = int(c-'a') + 10
		case c >= 'A' && c <= 'Z':
			v = int(c-'A') + 10
		}
		if v >= radix {
			return 0, false
		}
		n.Mul(n, big.NewInt(int64(radix))).Add(n, big.NewInt(int64(v)))
	}
	if neg {
		n.Neg(n)
	}
	return n.Int64(), n.IsInt64()
}

func floatInt(f float64) (int64, bool) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 0, false
	}
	b, _ := new(big.Float).SetFloat64(f).Int(nil)
	return b.Int64(), b.IsInt64()
}

// refConvert is the reference for the conversion to one of the base kinds
func refConvert(kind string, args []*model.V) (v *model.V, res convRes) {
	if len(args) == 0 {
		return nil, convFail
	}
	a := args[0]
	two := len(args) == 2
	if len(args) > 2 || two && kind != "int" && kind != "string" && kind != "binary" {
		return nil, convFail
	}
	switch kind {
	case "int":
		radix := 10
		if two {
			r := args[1]
			if r.K != model.Int || r.I != 2 && r.I != 8 && r.I != 10 && r.I != 16 {
				return nil, convFail
			}
			radix = int(r.I)
		}
		switch a.K {
		case model.Int:
			return a, convOK
		case model.Float:
			if i, ok := floatInt(a.F); ok {
				return model.I(i), convOK
			}
		case model.Bool:
			if a.B {
				return model.I(1), convOK
			}
			return model.I(0), convOK
		case model.Time:
			return model.I(a.T.Unix()), convOK
		case model.Str:
			if i, ok := refParseInt(a.S, radix); ok {
				return model.I(i), convOK
			}
		}
		return nil, convFail
	case "float":
		switch a.K {
		case model.Float:
			return a, convOK
		case model.Int:
			f, _ := new(big.Rat).SetInt64(a.I).Float64()
			return model.F(f), convOK
		case model.Bool:
			if a.B {
				return model.F(1), convOK
			}
			return model.F(0), convOK
		case model.Time:
			return nil, convAny // checked by the time stage
		case model.Str:
			if decFloat.MatchString(a.S) {
				r, ok := new(big.Rat).SetString(a.S)
				if !ok {
					return nil, convAny
				}
				f, _ := r.Float64()
				if math.IsInf(f, 0) {
					return nil, convFail
				}
				if f == 0 && strings.HasPrefix(a.S, "-") {
					f = math.Copysign(0, -1)
				}
				return model.F(f), convOK
			}
			switch strings.ToLower(strings.TrimLeft(a.S, "+-")) {
			case "inf", "infinity", "nan":
				return nil, convAny
			}
			if strings.ContainsAny(a.S, "xX_") {
				return nil, convAny // hexadecimal floats
			}
		}
		return nil, convFail
	case "bool":
		switch a.K {
		case model.Bool:
			return a, convOK
		case model.Int:
			return model.B(a.I != 0), convOK
		case model.Float:
			if math.IsNaN(a.F) {
				return nil, convAny
			}
			return model.B(a.F != 0), convOK
		case model.Str:
			switch strings.ToLower(a.S) {
			case "true", "yes", "y":
				return model.B(true), convOK
			case "false", "no", "n":
				return model.B(false), convOK
			}
			for _, c := range a.S {
				if c > 127 {
					return nil, convAny // case folding of other scripts
				}
			}
		}
		return nil, convFail
	case "string":
		if two {
			f := args[1]
			if f.K != model.Str {
				return nil, convFail
			}
			var gv interface{}
			switch a.K {
			case model.Int:
				gv = a.I
			case model.Float:
				gv = a.F
			case model.Bool:
				gv = a.B
			case model.Str:
				gv = a.S
			default:
				return nil, convAny
			}
			if !regexp.MustCompile(`\A%[-+# 0]*[1-9]?[0-9]*(\.[0-9]+)?[a-zA-Z]\z`).MatchString(f.S) {
				if strings.HasPrefix(f.S, "%") {
					return nil, convAny
				}
				return nil, convFail
			}
			s := fmt.Sprintf(f.S, gv)
			if strings.Contains(s, "%!") {
				return nil, convAny
			}
			return model.S(s), convOK
		}
		switch a.K {
		case model.Str:
			return a, convOK
		case model.Int:
			return model.S(big.NewInt(a.I).String()), convOK
		case model.Bool:
			if a.B {
				return model.S("true"), convOK
			}
			return model.S("false"), convOK
		case model.Bin:
			return model.S(refEncode([]byte(a.S), b64std)), convOK
		}
		return nil, convAny
	case "binary":
		enc := "%B"
		if two {
			if args[1].K != model.Str || a.K != model.Str {
				return nil, convFail
			}
			enc = args[1].S
		}
		switch a.K {
		case model.Bin:
			return a, convOK
		case model.Arr:
			bs := []byte{}
			for _, e := range a.L {
				if e.K != model.Int || e.I < 0 || e.I > 255 {
					return nil, convFail
				}
				bs = append(bs, byte(e.I))
			}
			return model.Y(string(bs)), convOK
		case model.Str:
			var bs []byte
			ok := true
			switch enc {
			case "%B":
				bs, ok = refDecode(a.S, b64std, true)
			case "%b":
				bs, ok = refDecode(a.S, b64std, false)
			case "%u":
				bs, ok = refDecode(a.S, b64url, false)
			case "%s":
				bs, ok = []byte(a.S), refUTF8(a.S)
			case "%r":
				bs = []byte(a.S)
			default:
				ok = false
			}
			if ok {
				return model.Y(string(bs)), convOK
			}
		}
		return nil, convFail
	case "time":
		switch a.K {
		case model.Time:
			return a, convOK
		case model.Int:
			return model.T(time.Unix(a.I, 0)), convOK
		case model.Float:
			if _, ok := floatInt(a.F); ok {
				return nil, convAny // checked by the time stage
			}
			return nil, convFail
		case model.Str:
			if len(a.S) > 8 {
				return nil, convAny // checked by the time stage
			}
		}
		return nil, convFail
	case "array":
		switch a.K {
		case model.Arr:
			return a, convOK
		case model.Map:
			return nil, convAny
		}
		return nil, convFail
	case "map":
		switch a.K {
		case model.Map:
			return a, convOK
		case model.Arr:
			if len(a.L)%2 == 0 {
				m := model.M()
				for i := 0; i < len(a.L); i += 2 {
					m.Put(a.L[i], a.L[i+1])
				}
				return m, convOK
			}
		}
		return nil, convFail
	case "sensitive":
		if a.K == model.Sens {
			return a, convOK
		}
		return model.X(a), convOK
	case "meta":
		if a.K == model.Str || a.K == model.Typ {
			return nil, convAny
		}
		return nil, convFail
	case "plain":
		return a, convOK
	}
	return nil, convAny
}

// convKind is the base kind of the values that a type creates
func convKind(t *model.Ty) string {
	vk := func(v *model.V) string {
		switch v.K {
		case model.Int:
			return "int"
		case model.Float:
			return "float"
		case model.Bool:
			return "bool"
		case model.Str:
			return "string"
		case model.Bin:
			return "binary"
		case model.Time:
			return "time"
		case model.Arr:
			return "array"
		case model.Map:
			return "map"
		case model.Sens:
			return "sensitive"
		}
		return "plain"
	}
	switch t.Op {
	case "int", "intrange":
		return "int"
	case "float", "floatrange":
		return "float"
	case "bool", "true", "false":
		return "bool"
	case "string", "stringsized", "pattern", "ci":
		return "string"
	case "binary", "binsized":
		return "binary"
	case "time":
		return "time"
	case "array", "tuple", "[]any":
		return "array"
	case "map", "struct", "map[any]any":
		return "map"
	case "sensitive":
		return "sensitive"
	case "meta":
		return "meta"
	case "exact":
		return vk(t.Val)
	}
	return "plain"
}

func convArgs() (r [][]*model.V) {
	i, f, s := model.I, model.F, model.S
	vs := append(scalarUniverse(), elemUniverse()...)
	for _, x := range []int64{-1 << 63, -1<<63 + 1, 1<<63 - 1, 1<<53 + 1, -(1<<53 + 1), 255, 256, 1 << 31} {
		vs = append(vs, i(x))
	}
	for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1 << 63, -(1 << 63), math.Nextafter(1<<63, 0), math.Nextafter(-(1 << 63), math.Inf(-1)), 1e300, -1e300, 1e-300, 0.1, -0.5, -1.9, 2.9, math.Copysign(0, -1), 9007199254740993} {
		vs = append(vs, f(x))
	}
	for _, x := range []string{"true", "TRUE", "False", "yes", "Y", "n", "NO", "yep", "t", "0", "1", "-1", "+1", "01", "1.0", "1.", ".5", "1e3", "-1e3", "1e999", "1e-999", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1_000", "0x10", "ff", "FF", "101", "777", "8", "2", " 1", "1 ", "1a", "--1", "+-1", "-", "+", "e", "1e", "Inf", "NaN", "0.1", "123456789012345678901234567890", "nil", "QQ==", "QR==", "QQ", "YWI=", "2019-01-02T03:04:05Z", "2019-01-02", "string[1,2]", "{", "{1,2}", "\xff", "å"} {
		vs = append(vs, s(x))
	}
	vs = append(vs, model.A(), model.A(i(1), i(2)), model.A(s("a"), i(1)), model.A(s("a"), i(1), s("a"), i(2)), model.A(s("a"), i(1), s("b")), model.A(i(255), i(0)), model.A(i(256)), model.A(i(-1)), model.A(f(1)), model.A(model.A(s("a"), i(1))), model.A(model.A(s("a"), i(1)), model.A(s("b"), i(2))),
		model.M(), model.M(s("a"), i(1)), model.M(s("a"), i(1), s("b"), s("a")), model.M(i(1), i(1)), model.M(s("a"), model.M(s("a"), i(1))), model.M(i(0), s("x"), i(1), s("y")),
		model.X(s("S")), model.X(i(2)), model.X(model.X(i(1))), model.X(model.M()),
		model.TV(model.TInt), model.TV(model.TString), model.TV(model.TExact(i(1))), model.TV(model.TArr(model.TInt, 0, model.Inf)),
		model.R("a"))
	vs = dedup(vs)
	for _, v := range vs {
		r = append(r, []*model.V{v})
	}
	r = append(r, nil)
	seconds := []*model.V{i(2), i(8), i(10), i(16), i(3), i(0), f(10), s("10"), s("%d"), s("%x"), s("%5d"), s("%-5v|"), s("%v"), s("%s"), s("%t"), s("%08.3f"), s("%q"), s("%"), s("d"), s("%dd"), s("%B"), s("%b"), s("%u"), s("%r"), model.N(), model.B(true), model.A()}
	for _, v := range vs {
		for _, x := range seconds {
			r = append(r, []*model.V{v, x})
		}
	}
	r = append(r, []*model.V{i(1), i(10), i(1)}, []*model.V{s("1"), s("%d"), s("%d")})
	return
}

func runC15(c *fw.C) {
	types := typeUniverse(2)
	types = append(types, model.TExact(model.N()), model.TMapOf(model.TString, model.TInt, 1, 2), model.TSens(model.TSens(model.TInt)), model.TExact(model.B(true)))
	types = dedupTypes(types)
	if c.Thorough {
		types = dedupTypes(append(types, typeUniverse(3)...))
	}
	args := convArgs()
	for _, v := range nearScalars() {
		args = append(args, []*model.V{v})
	}
	one := args[:0:0]
	for _, a := range args {
		if len(a) < 2 {
			one = append(one, a)
		}
	}
	if c.Thorough {
		for _, v := range valueUniverse(true) {
			one = append(one, []*model.V{v})
		}
	}
	c.Stage("create")
	for ti := range types {
		tp := types[ti]
		kind := convKind(tp)
		nested := uses(tp, "and", "one", "not", "or", "meta", "func", "array", "map", "tuple", "struct") && len(tp.Sub) > 0
		set := args
		if nested || kind == "plain" {
			set = one
		}
		c.Case(func() string { return tp.Name }, func(t *fw.T) {
			d := tp.Build()
			for _, as := range set {
				for form := 0; form < 4; form++ {
					var arg dgo.Value
					frozen := form%2 == 0
					if form < 2 {
						if len(as) != 1 {
							continue
						}
						arg = as[0].Build(frozen)
					} else {
						vs := make([]interface{}, len(as))
						for i := range as {
							vs[i] = as[i].Build(frozen)
						}
						arg = vf.Arguments(vs...)
					}
					before := model.Observe(arg).Canon()
					key := fmt.Sprintf("%v", canons(as))
					var got dgo.Value
					e, rt := fw.Try(func() { got = vf.New(d, arg) })
					t.Count("transitions", 1)
					if model.Observe(arg).Canon() != before {
						t.Failf("argument", key, "new %s of %s changes its argument", tp.Name, key)
					}
					if rt {
						t.Failf("runtime", key, "new %s of %s: %v", tp.Name, key, e)
						continue
					}
					if e != nil {
						if _, ok := e.(error); !ok {
							if _, ok = e.(dgo.Value); !ok {
								t.Failf("panic", key, "new %s of %s panics with a %T: %v", tp.Name, key, e, e)
							}
						}
					} else if !d.Instance(got) {
						t.Failf("instance", key, "new %s of %s gives %s which isn't an instance", tp.Name, key, model.Observe(got).Canon())
						continue
					}
					want, res := refConvert(kind, as)
					if res == convAny {
						continue
					}
					if len(as) > 0 && hasOther(as[0]) {
						if res == convOK && e == nil && kind != "sensitive" && !got.Equals(as[0].Build(true)) {
							t.Failf("value", key, "new %s of %s gives %s", tp.Name, key, got)
						}
						continue
					}
					if res == convOK && !tp.Has(want) {
						res = convFail
					}
					switch {
					case res == convOK && e != nil:
						t.Failf("fails", key, "new %s of %s fails: %v, expected %s", tp.Name, key, e, want.Canon())
					case res == convFail && e == nil:
						t.Failf("accepts", key, "new %s of %s gives %s, expected failure", tp.Name, key, model.Observe(got).Canon())
					case res == convOK:
						if o := model.Observe(got); o.EqCanon() != want.EqCanon() {
							t.Failf("value", key, "new %s of %s gives %s, expected %s", tp.Name, key, o.Canon(), want.Canon())
						}
						t.Outcome(want.Canon())
					}
				}
			}
		})
	}

	c.Stage("number texts")
	chars := []string{"0", "1", "9", "f", "-", "+", ".", "e", "_", "x", " ", "F"}
	n := 5
	if c.Thorough {
		n = 6
	}
	textTypes := []dgo.Type{typ.Integer, typ.Float, typ.Boolean}
	kinds := []string{"int", "float", "bool"}
	tryText := func(t *fw.T, s string) {
		for i, tp := range textTypes {
			var got dgo.Value
			e, rt := fw.Try(func() { got = vf.New(tp, vf.String(s)) })
			want, res := refConvert(kinds[i], []*model.V{model.S(s)})
			t.Count("transitions", 1)
			if rt || res != convAny && ((e == nil) != (res == convOK) || e == nil && model.Observe(got).Canon() != want.Canon()) {
				t.Failf("text", s, "%s of %q gives %v %v, expected %v", kinds[i], s, got, e, want)
			}
		}
		for _, radix := range []int64{2, 8, 10, 16} {
			var got dgo.Value
			e, rt := fw.Try(func() { got = vf.New(typ.Integer, vf.Arguments(s, radix)) })
			want, ok := refParseInt(s, int(radix))
			t.Count("transitions", 1)
			if rt || (e == nil) != ok || ok && !got.Equals(want) {
				t.Failf("radix", s, "int of %q radix %d gives %v %v, expected %d %t", s, radix, got, e, want, ok)
			}
		}
	}
	var textRec func(t *fw.T, s string, n int)
	textRec = func(t *fw.T, s string, n int) {
		tryText(t, s)
		if n > 0 {
			for _, ch := range chars {
				textRec(t, s+ch, n-1)
			}
		}
	}
	for _, a := range chars {
		a := a
		c.Case(func() string { return fmt.Sprintf("%q", a) }, func(t *fw.T) { textRec(t, a, n-1) })
	}
	c.Stage("number limits")
	for _, radix := range []int{2, 8, 10, 16} {
		radix := radix
		c.Case(func() string { return itoa(radix) }, func(t *fw.T) {
			for k := uint(0); k < 66; k++ {
				for d := int64(-2); d <= 2; d++ {
					x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d))
					for _, s := range []string{x.Text(radix), new(big.Int).Neg(x).Text(radix), "+" + x.Text(radix), "000" + x.Text(radix), strings.ToUpper(x.Text(radix))} {
						tryText(t, s)
					}
				}
			}
		})
	}

	c.Stage("number round trips")
	var fl []float64
	for e := -1074; e < 1024; e++ {
		x := math.Ldexp(1, e)
		fl = append(fl, x, math.Nextafter(x, math.Inf(1)), math.Nextafter(x, 0), -x, 1.7*x)
	}
	for lo := 0; lo < len(fl); lo += 512 {
		lo := lo
		hi := lo + 512
		if hi > len(fl) {
			hi = len(fl)
		}
		c.Case(func() string { return fmt.Sprint(fl[lo]) }, func(t *fw.T) {
			for _, x := range fl[lo:hi] {
				if math.IsInf(x, 0) {
					continue
				}
				s := vf.New(typ.String, vf.Float(x))
				if b := vf.New(typ.Float, s); !b.Equals(x) {
					t.Failf("float text", fmt.Sprint(x), "%v as text %s and back is %s", x, s, b)
				}
				var i dgo.Value
				e, rt := fw.Try(func() { i = vf.New(typ.Integer, vf.Float(x)) })
				w, ok := floatInt(x)
				if rt || (e == nil) != ok || ok && !i.Equals(w) {
					t.Failf("float int", fmt.Sprint(x), "int of %v gives %v %v, expected %v %t", x, i, e, w, ok)
				}
				t.Count("transitions", 2)
			}
		})
	}
	c.Case(func() string { return "ints" }, func(t *fw.T) {
		for k := uint(0); k < 64; k++ {
			for d := int64(-3); d <= 3; d++ {
				for _, x := range []int64{int64(uint64(1)<<k) + d, -int64(uint64(1)<<k) + d} {
					if b := vf.New(typ.Integer, vf.New(typ.String, vf.Integer(x))); !b.Equals(x) {
						t.Failf("int text", itoa(int(x)), "%d as text and back is %s", x, b)
					}
					f := vf.New(typ.Float, vf.Integer(x)).(dgo.Float).GoFloat()
					if w, _ := new(big.Rat).SetInt64(x).Float64(); w != f {
						t.Failf("int float", itoa(int(x)), "float of %d is %v, expected %v", x, f, w)
					}
					tm := vf.New(typ.Time, vf.Integer(x)).(dgo.Time)
					if tm.GoTime().Unix() != x || !vf.New(typ.Integer, tm).Equals(x) {
						t.Failf("int time", itoa(int(x)), "time of %d and back is %s", x, vf.New(typ.Integer, tm))
					}
					fs := tm.SecondsWithFraction()
					if math.Abs(fs-f) > 1e-6+math.Abs(f)*1e-15 {
						t.Failf("time float", itoa(int(x)), "time of %d as float is %v", x, fs)
					}
					t.Count("transitions", 4)
				}
			}
		}
	})

	c.Stage("time texts")
	years := []string{"0000", "0001", "1677", "1678", "1969", "1970", "2000", "2019", "2020", "2100", "2262", "2263", "9999", "10000", "20"}
	months := []string{"00", "01", "02", "04", "12", "13", "1"}
	days := []string{"00", "01", "28", "29", "30", "31", "32"}
	clocks := []string{"00:00:00", "23:59:59", "24:00:00", "12:60:00", "12:00:60", "03:04:05.5", "03:04:05.123456789", "03:04:05.000000001", "03:04", "03:04:05."}
	zones := []string{"Z", "+00:00", "-00:00", "+02:00", "-07:30", "+23:59", "", "z", "+2", "Z "}
	mdays := func(y, m int) int {
		switch m {
		case 4, 6, 9, 11:
			return 30
		case 2:
			if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
				return 29
			}
			return 28
		}
		return 31
	}
	ck := regexp.MustCompile(`\A(\d\d):(\d\d):(\d\d)(?:\.(\d+))?\z`)
	zn := regexp.MustCompile(`\A(?:Z|([-+])(\d\d):(\d\d))\z`)
	for _, y := range years {
		y := y
		c.Case(func() string { return y }, func(t *fw.T) {
			for _, mo := range months {
				for _, d := range days {
					for _, cl := range clocks {
						for _, z := range zones {
							s := y + "-" + mo + "-" + d + "T" + cl + z
							var yy, mm, dd, hh, mi, ss int
							_, _ = fmt.Sscan(strings.TrimLeft(y, "0")+" ", &yy)
							_, _ = fmt.Sscan(strings.TrimLeft(mo, "0")+" ", &mm)
							_, _ = fmt.Sscan(strings.TrimLeft(d, "0")+" ", &dd)
							ok := len(y) == 4 && len(mo) == 2 && mm >= 1 && mm <= 12 && dd >= 1 && dd <= mdays(yy, mm)
							cm, zm := ck.FindStringSubmatch(cl), zn.FindStringSubmatch(z)
							ok = ok && cm != nil && zm != nil
							var want int64
							ns := 0
							if ok {
								num := func(s string) (n int) {
									for _, c := range s {
										n = n*10 + int(c-'0')
									}
									return
								}
								hh, mi, ss = num(cm[1]), num(cm[2]), num(cm[3])
								ok = hh < 24 && mi < 60 && ss < 60
								ns = num((cm[4] + "000000000")[:9])
								off := 0
								if zm[1] != "" {
									off = num(zm[2])*3600 + num(zm[3])*60
									if zm[1] == "-" {
										off = -off
									}
								}
								// days since 1970
								py := int64(yy)
								days := py*365 + (py+3)/4 - (py+99)/100 + (py+399)/400 - 719528
								for m := 1; m < mm; m++ {
									days += int64(mdays(yy, m))
								}
								days += int64(dd - 1)
								want = days*86400 + int64(hh*3600+mi*60+ss-off)
							}
							var got dgo.Value
							e, rt := fw.Try(func() { got = vf.New(typ.Time, vf.String(s)) })
							t.Count("transitions", 1)
							if rt || (e == nil) != ok {
								t.Failf("time text", s, "time of %q gives %v %v, valid %t", s, got, e, ok)
								continue
							}
							if ok {
								g := got.(dgo.Time).GoTime()
								if g.Unix() != want || g.Nanosecond() != ns {
									t.Failf("time value", s, "time of %q is %d.%09d, expected %d.%09d", s, g.Unix(), g.Nanosecond(), want, ns)
								}
								if b := vf.New(typ.Time, vf.New(typ.String, got)); !b.Equals(got) {
									t.Failf("time trip", s, "time of %q as text and back is %s", s, b)
								}
								if !vf.New(typ.Integer, got).Equals(want) {
									t.Failf("time int", s, "time of %q as int is %s, expected %d", s, vf.New(typ.Integer, got), want)
								}
								ex := float64(want) + float64(ns)/1e9
								if f := vf.New(typ.Float, got).(dgo.Float).GoFloat(); math.Abs(f-ex) > 1e-6+math.Abs(ex)*1e-15 {
									t.Failf("time float", s, "time of %q as float is %v, expected %v", s, f, ex)
								}
								bt := vf.New(typ.Time, vf.Float(ex)).(dgo.Time).GoTime()
								if df := bt.Sub(g); df > 2e3+time.Duration(math.Abs(ex)*1e-6) || df < -2e3-time.Duration(math.Abs(ex)*1e-6) {
									t.Failf("float time", s, "time of %v is %s, expected %s", ex, bt, g)
								}
							}
						}
					}
				}
			}
			t.Touch()
		})
	}

	c.Stage("collections")
	vals := valueUniverse(false)
	for i := range vals {
		v := vals[i]
		if v.K != model.Arr && v.K != model.Map {
			continue
		}
		c.Case(func() string { return v.Canon() }, func(t *fw.T) {
			for _, frozen := range []bool{true, false} {
				d := v.Build(frozen)
				tp := dgo.Type(typ.Array)
				if v.K == model.Map {
					tp = typ.Map
				}
				for _, arg := range []dgo.Value{d, vf.Arguments(d)} {
					g := vf.New(tp, arg)
					if x := model.FrozenDeep(g); x != "" {
						t.Failf("frozen", "", "new %s of %s isn't frozen: %s", tp, v.Canon(), x)
					}
					if !g.Equals(d) {
						t.Failf("equal", "", "new %s of %s is %s", tp, v.Canon(), g)
					}
				}
				if v.K == model.Map {
					// a map is iterated as a list of entries, and as a flat list
					a := vf.New(typ.Array, d).(dgo.Array)
					i := 0
					d.(dgo.Map).EachEntry(func(e dgo.MapEntry) {
						if i >= a.Len() || !e.Equals(a.Get(i)) {
							t.Failf("entries", "", "new array of %s is %s", v.Canon(), a)
						}
						i++
					})
					if m, ok := a.ToMapFromEntries(); a.Len() != i || !ok || !m.Equals(d) {
						t.Failf("entries", "", "new array of %s is %s which gives the map %s", v.Canon(), a, m)
					}
					flat := vf.MutableValues()
					d.(dgo.Map).EachEntry(func(e dgo.MapEntry) { flat.Add(e.Key()); flat.Add(e.Value()) })
					if m := vf.New(typ.Map, flat); !m.Equals(d) {
						t.Failf("flat", "", "new map of %s is %s", flat, m)
					}
				}
				if x := vf.Array(d); v.K == model.Arr && !x.Equals(d) {
					t.Failf("vf.Array", "", "array of %s is %s", d, x)
				}
				if v.K == model.Map {
					if x := vf.Map(d); !x.Equals(d) || !x.Frozen() {
						t.Failf("vf.Map", "", "map of %s is %s", d, x)
					}
					if x := vf.MutableMap(d); !x.Equals(d) || x.Frozen() {
						t.Failf("vf.MutableMap", "", "mutable map of %s is %s", d, x)
					}
				}
			}
		})
	}

	c.Stage("named")
	type nm struct{ ctor, impl, asg, exact int }
	for _, p := range []int{0, 1, 2} {
		for _, impl := range []int{0, 1, 2} {
			for _, asg := range []int{0, 1, 2} {
				for _, ex := range []int{0, 1, 2} {
					p, impl, asg, ex := p, impl, asg, ex
					c.Case(func() string { return fmt.Sprint(nm{p, impl, asg, ex}) }, func(t *fw.T) { namedNew(t, p, impl, asg, ex) })
				}
			}
		}
	}
}

func hasOther(v *model.V) bool {
	if v.K == model.Other || v.K == model.Typ {
		return true
	}
	for _, e := range v.L {
		if hasOther(e) {
			return true
		}
	}
	return false
}

func canons(vs []*model.V) (r []string) {
	for _, v := range vs {
		r = append(r, v.Canon())
	}
	return
}

// mcNamed is an instance of a named type
type mcNamed struct {
	N int64
	t dgo.NamedType
}

func (m *mcNamed) String() string            { return fmt.Sprintf("mcNamed %d", m.N) }
func (m *mcNamed) Type() dgo.Type            { return tf.ExactNamed(m.t, m) }
func (m *mcNamed) Equals(o interface{}) bool { x, ok := o.(*mcNamed); return ok && x.N == m.N }
func (m *mcNamed) HashCode() int             { return int(m.N) }
func (m *mcNamed) ReflectTo(v reflect.Value) { v.Set(reflect.ValueOf(m)) }

// namedNew checks that a named type only creates its own instances
func namedNew(t *fw.T, ctor, impl, asg, kind int) {
	const name = "mc.created"
	defer tf.RemoveNamed(name)
	var nt dgo.NamedType
	ctors := []dgo.Constructor{
		nil,
		func(a dgo.Value) dgo.Value {
			if as, ok := a.(dgo.Arguments); ok {
				a = as.Get(0)
			}
			return &mcNamed{a.(dgo.Integer).GoInt(), nt}
		},
		func(a dgo.Value) dgo.Value { return vf.String("not an instance") },
	}
	var it, ift reflect.Type
	switch impl {
	case 1:
		it = reflect.TypeOf(&mcNamed{})
	case 2:
		it = reflect.TypeOf(&mcNamed{})
		ift = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
	}
	var ac dgo.AssignableChecker
	switch asg {
	case 1:
		ac = func(self dgo.NamedType, other dgo.Type) bool {
			x, ok := other.(dgo.ExactType)
			if !ok {
				return false
			}
			m, ok := x.ExactValue().(*mcNamed)
			return ok && m.N < 3
		}
	case 2:
		ac = func(self dgo.NamedType, other dgo.Type) bool { return false }
	}
	nt = tf.NewNamed(name, ctors[ctor], nil, it, ift, ac)
	var tp dgo.Type = nt
	switch kind {
	case 1:
		tp = tf.ExactNamed(nt, &mcNamed{2, nt})
	case 2:
		tp = tf.Parameterized(nt, vf.Values(1, 2))
	}
	for i := int64(1); i < 5; i++ {
		for _, arg := range []dgo.Value{vf.Integer(i), vf.Arguments(i)} {
			var v dgo.Value
			e, rt := fw.Try(func() { v = vf.New(tp, arg) })
			if rt {
				t.Failf("runtime", "", "new %s of %d: %v", tp, i, e)
				continue
			}
			t.Count("transitions", 1)
			if e == nil && (it != nil || ac != nil || kind == 1) && !tp.Instance(v) {
				t.Failf("instance", "", "new %s of %d gives %s which isn't an instance", tp, i, v)
			}
			want := ctor == 1 && (asg == 0 || asg == 1 && i < 3)
			if kind == 1 {
				want = ctor == 1 && i == 2
			}
			if it == nil && ac == nil && kind != 1 {
				want = ctor != 0
			}
			if (e == nil) != want {
				t.Failf("outcome", "", "new %s of %d gives %v %v, expected success %t", tp, i, v, e, want)
			}
			if e == nil && ctor == 1 && !v.Equals(&mcNamed{i, nt}) {
				t.Failf("value", "", "new %s of %d gives %s", tp, i, v)
			}
		}
	}
}
