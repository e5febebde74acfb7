package props

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C17: sensitive values are opaque

func init() {
	fw.Register(&fw.Check{ID: "C17", Level: "model_checking", Run: runC17,
		Rule: "every kind of secret (29) in every chain of up to N containers (16 kinds) is given to every operation that makes a text or reports an error (all text forms, all creations from 30 types, all formats, calls, assignments, validations, conversions, streaming without rich data): no text contains the secret; equality, hashing, lookup of all pairs of wrapped and unwrapped values; unwrap is the wrapped value"})
}

type secret struct {
	name string
	make func() dgo.Value
	// texts that would reveal it
	marks []string
}

type secretStruct struct {
	Secret string
	N      int
}

func secrets() []secret {
	str := []string{"S3cr3T", "UzNjcjNU", "53336372", "83, 51", "83 51", "0x53"}
	num := []string{"918273645", "36bbcbed", "36BBCBED", "9.18273645", "x36bb"}
	flt := []string{"73645.918", "73645.9", "7.36459", "7.3646"}
	tim := []string{"1918-", "1918,", "February"}
	t0 := time.Date(1918, 2, 7, 3, 6, 4, 5, time.UTC)
	s := func() dgo.Value { return vf.String("S3cr3T") }
	return []secret{
		{"string", s, str},
		{"int", func() dgo.Value { return vf.Integer(918273645) }, num},
		{"float", func() dgo.Value { return vf.Float(73645.918) }, flt},
		{"binary", func() dgo.Value { return vf.Binary([]byte("S3cr3T"), true) }, str},
		{"mutable binary", func() dgo.Value { return vf.Binary([]byte("S3cr3T"), false) }, str},
		{"time", func() dgo.Value { return vf.Time(t0) }, tim},
		{"regexp", func() dgo.Value { return vf.Regexp(regexp.MustCompile("S3cr3T.*")) }, str},
		{"error", func() dgo.Value { return vf.Value(errors.New("S3cr3T")) }, str},
		{"array", func() dgo.Value { return vf.Values("S3cr3T", 918273645) }, append(num, str...)},
		{"mutable array", func() dgo.Value { return vf.MutableValues("S3cr3T", 918273645) }, append(num, str...)},
		{"map value", func() dgo.Value { return vf.Map("a", "S3cr3T") }, str},
		{"map key", func() dgo.Value { return vf.Map("S3cr3T", 918273645) }, append(num, str...)},
		{"mutable map", func() dgo.Value { return vf.MutableMap("S3cr3T", 918273645) }, append(num, str...)},
		{"entry", func() dgo.Value { return vf.MapEntry("S3cr3T", 918273645) }, append(num, str...)},
		{"struct", func() dgo.Value { return vf.Map(&secretStruct{"S3cr3T", 918273645}) }, append(num, str...)},
		{"sensitive", func() dgo.Value { return vf.Sensitive("S3cr3T") }, str},
		{"deep", func() dgo.Value { return vf.Values(vf.Map("a", vf.Values(vf.Values("S3cr3T")))) }, str},
		{"exact type", func() dgo.Value { return vf.String("S3cr3T").Type() }, str},
		{"enum type", func() dgo.Value { return tf.Enum("S3cr3T", "other") }, str},
		{"ci type", func() dgo.Value { return tf.CiString("S3cr3T") }, append(str, "s3cr3t")},
		{"pattern type", func() dgo.Value { return tf.Pattern(regexp.MustCompile("S3cr3T")) }, str},
		{"range type", func() dgo.Value { return tf.Integer(918273645, 918273646, true) }, num},
		{"sized type", func() dgo.Value { return tf.String(918273645, 918273646) }, num},
		{"map type", func() dgo.Value {
			return tf.StructMap(false, tf.StructMapEntry("S3cr3T", vf.String("S3cr3T").Type(), true))
		}, str},
		{"array of types", func() dgo.Value { return vf.Values(vf.String("S3cr3T").Type()) }, str},
		{"meta type", func() dgo.Value { return vf.String("S3cr3T").Type().Type() }, str},
		{"array type", func() dgo.Value { return tf.Array(tf.Enum("S3cr3T", "b"), 1, 918273645) }, append(num, str...)},
		{"not type", func() dgo.Value { return tf.Not(vf.String("S3cr3T").Type()) }, str},
		{"sensitive type", func() dgo.Value { return tf.Sensitive(vf.String("S3cr3T").Type()) }, str},
	}
}

type secretBox struct {
	name string
	wrap func(v dgo.Value) dgo.Value
}

func secretBoxes() []secretBox {
	return []secretBox{
		{"array", func(v dgo.Value) dgo.Value { return vf.Values(v) }},
		{"array of 2", func(v dgo.Value) dgo.Value { return vf.Values("k", v) }},
		{"mutable array", func(v dgo.Value) dgo.Value { return vf.MutableValues(v, v) }},
		{"map value", func(v dgo.Value) dgo.Value { return vf.Map("k", v) }},
		{"map key", func(v dgo.Value) dgo.Value { return vf.Map(v, "x") }},
		{"mutable map", func(v dgo.Value) dgo.Value { return vf.MutableMap("a", v, "b", v) }},
		{"entry", func(v dgo.Value) dgo.Value { return vf.MapEntry("k", v) }},
		{"entry key", func(v dgo.Value) dgo.Value { return vf.MapEntry(v, "k") }},
		{"sensitive", func(v dgo.Value) dgo.Value { return vf.Sensitive(v) }},
		{"arguments", func(v dgo.Value) dgo.Value { return vf.Arguments(v) }},
		{"arguments of 2", func(v dgo.Value) dgo.Value { return vf.Arguments(v, "%v") }},
		{"struct", func(v dgo.Value) dgo.Value { return vf.Map(&struct{ A dgo.Value }{v}) }},
		{"frozen copy", func(v dgo.Value) dgo.Value { return vf.Values(vf.MutableValues(v)).FrozenCopy() }},
		{"thawed copy", func(v dgo.Value) dgo.Value { return vf.Values(vf.MutableValues(v)).ThawedCopy() }},
		{"type", func(v dgo.Value) dgo.Value { return v.Type() }},
		{"generic type", func(v dgo.Value) dgo.Value { return typ.Generic(v.Type()) }},
	}
}

type textOp struct {
	name string
	f    func(v dgo.Value) string
}

func textOps() (ops []textOp) {
	add := func(name string, f func(v dgo.Value) string) { ops = append(ops, textOp{name, f}) }
	add("String", func(v dgo.Value) string { return v.String() })
	for _, f := range []string{"%v", "%+v", "%s", "%q", "%#v", "%d", "%x", "%X", "%t", "%08b", "%e", "%g", "%c", "%U", "%T", "%10.3v", "%w"} {
		f := f
		add("Sprintf "+f, func(v dgo.Value) string { return fmt.Sprintf(f, v) })
		add("New string "+f, func(v dgo.Value) string { return vf.New(typ.String, vf.Arguments(v, f)).String() })
	}
	add("Print", func(v dgo.Value) string { return fmt.Sprint(v) + fmt.Sprintln("x", v) })
	add("Errorf", func(v dgo.Value) string { return fmt.Errorf("%v", v).Error() })
	add("indent", func(v dgo.Value) string {
		i := util.NewIndenter("  ")
		i.AppendValue(v)
		i.NewLine()
		i.Printf("%s %v", v, v)
		return i.String()
	})
	add("error indent", func(v dgo.Value) string {
		i := util.NewERPIndenter("  ")
		i.AppendValue(v)
		i.Printf("%s %v", v, v)
		return i.String()
	})
	add("ToString", func(v dgo.Value) string {
		if ia, ok := v.(dgo.Indentable); ok {
			return util.ToString(ia) + util.ToIndentedString(ia)
		}
		return ""
	})
	add("Type", func(v dgo.Value) string { return v.Type().String() })
	add("Type Type", func(v dgo.Value) string { return v.Type().Type().String() })
	add("Generic", func(v dgo.Value) string { return typ.Generic(v.Type()).String() })
	add("Exact", func(v dgo.Value) string { return typ.ExactValue(v.Type()).String() })
	types := []dgo.Type{typ.String, typ.Integer, typ.Float, typ.Boolean, typ.Binary, typ.Time, typ.Array, typ.Map, typ.Tuple, typ.Any, typ.AnyOf, typ.Not, typ.Nil, typ.True, typ.Regexp, typ.Error, typ.Native, typ.Function, typ.Type, typ.Sensitive, typ.DgoString,
		tf.String(1, 2), tf.Array(typ.Integer, 1, 2), tf.Map(typ.String, typ.Integer), tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, true)), vf.Integer(3).Type(), vf.String("x").Type(), tf.Sensitive(typ.Boolean), tf.AnyOf(typ.Integer, typ.Boolean), tf.Enum("x", "y"), tf.Tuple(typ.String, typ.Integer), tf.CiString("x"), tf.IntEnum(1, 2), tf.Not(typ.Any)}
	for _, tp := range types {
		tp := tp
		add("New "+tp.String(), func(v dgo.Value) string { return vf.New(tp, v).String() })
		add("New from arguments "+tp.String(), func(v dgo.Value) string { return vf.New(tp, vf.Arguments(v)).String() })
		add("New from 2 arguments "+tp.String(), func(v dgo.Value) string { return vf.New(tp, vf.Arguments(v, v)).String() })
		add("IllegalAssignment "+tp.String(), func(v dgo.Value) string { return fmt.Sprint(tf.IllegalAssignment(tp, v)) })
		add("Argument "+tp.String(), func(v dgo.Value) string {
			return vf.Arguments(v).Arg("f", 0, tp).Type().String() + vf.Arguments("a", v).Arg("f", 1, tp).Type().String()
		})
		add("Parameter "+tp.String(), func(v dgo.Value) string {
			f := tf.Function(tf.Tuple(tp), tf.Tuple(typ.Any))
			return f.String() + fmt.Sprint(f.Instance(v))
		})
	}
	sm := tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, true), tf.StructMapEntry("b", tf.Map(typ.String, typ.Integer), false)).(dgo.StructMapType)
	add("IllegalMapKey", func(v dgo.Value) string { return fmt.Sprint(tf.IllegalMapKey(sm.(dgo.StructMapType), v)) })
	for _, nm := range []string{"value", "key", "nested", "itself"} {
		nm := nm
		mk := func(v dgo.Value) dgo.Value {
			switch nm {
			case "value":
				return vf.Map("a", v, "b", v)
			case "key":
				return vf.Map("a", 1, v, 2)
			case "nested":
				return vf.Map("a", 1, "b", vf.Map("c", v))
			}
			return v
		}
		add("Validate "+nm, func(v dgo.Value) string { return fmt.Sprint(sm.Validate(nil, mk(v))) })
		add("Validate label "+nm, func(v dgo.Value) string {
			return fmt.Sprint(sm.Validate(func(k dgo.Value) string { return "field " + k.String() }, mk(v)))
		})
		add("ValidateVerbose "+nm, func(v dgo.Value) string {
			i := util.NewIndenter(" ")
			sm.ValidateVerbose(mk(v), i)
			return i.String()
		})
	}
	for _, fn := range []interface{}{func(string) {}, func(int) {}, func(...int) {}, func([]string) {}, func(map[string]int) {}, func(a int, b string) {}} {
		fn := vf.Value(fn).(dgo.Function)
		add("Call "+fn.Type().String(), func(v dgo.Value) string { return fmt.Sprint(fn.Call(vf.Arguments(v))) })
		add("Call 2 "+fn.Type().String(), func(v dgo.Value) string { return fmt.Sprint(fn.Call(vf.Arguments(v, v))) })
	}
	for _, d := range []interface{}{new(string), new(int), new(float64), new(bool), new([]string), new([]byte), new(map[string]int), new(time.Time), new(*int), new(struct{ A int }), new(error), new(func()), new(*regexp.Regexp)} {
		rt := reflect.TypeOf(d).Elem()
		add("FromValue "+rt.String(), func(v dgo.Value) string {
			p := reflect.New(rt)
			vf.FromValue(v, p.Interface())
			return ""
		})
	}
	add("struct put", func(v dgo.Value) string {
		m := vf.Map(&secretStruct{})
		m.Put("Secret", v)
		return ""
	})
	add("struct put number", func(v dgo.Value) string { vf.Map(&secretStruct{}).Put("N", v); return "" })
	add("struct put key", func(v dgo.Value) string { vf.Map(&secretStruct{}).Put(v, 1); return "" })
	add("struct get key", func(v dgo.Value) string { return fmt.Sprint(vf.Map(&secretStruct{}).Get(v)) })
	add("frozen put", func(v dgo.Value) string { vf.Map("a", 1).Put(v, v); return "" })
	add("frozen add", func(v dgo.Value) string { vf.Values(1).Add(v); return "" })
	add("map of", func(v dgo.Value) string { return vf.Map(v).String() })
	add("map of array", func(v dgo.Value) string { return vf.Map(vf.Values(v)).String() })
	add("map of 3", func(v dgo.Value) string { return vf.Map(v, v, v).String() })
	add("array of", func(v dgo.Value) string { return vf.Array(v).String() })
	add("to map", func(v dgo.Value) string { return vf.Values(v, v).ToMap().String() })
	add("to map from entries", func(v dgo.Value) string { m, ok := vf.Values(v).ToMapFromEntries(); return fmt.Sprint(m, ok) })
	add("sort", func(v dgo.Value) string { return vf.Values(v, "a", v, 1).Sort().String() })
	add("arguments size", func(v dgo.Value) string { vf.Arguments(v).AssertSize("f", 2, 3); return "" })
	for _, mk := range []struct {
		n string
		f func(args ...interface{}) dgo.Type
	}{{"String", func(a ...interface{}) dgo.Type { return tf.String(a...) }}, {"Array", func(a ...interface{}) dgo.Type { return tf.Array(a...) }}, {"Map", func(a ...interface{}) dgo.Type { return tf.Map(a...) }}, {"Binary", func(a ...interface{}) dgo.Type { return tf.Binary(a...) }}, {"AnyOf", tf.AnyOf}, {"AllOf", tf.AllOf}, {"OneOf", tf.OneOf}, {"Tuple", func(a ...interface{}) dgo.Type { return tf.Tuple(a...) }}, {"Sensitive", tf.Sensitive}, {"CiString", func(a ...interface{}) dgo.Type { return tf.CiString(a[0]) }}} {
		mk := mk
		add("tf."+mk.n, func(v dgo.Value) string { return mk.f(v).String() })
		add("tf."+mk.n+" 2", func(v dgo.Value) string { return mk.f(v, v).String() })
		add("tf."+mk.n+" 3", func(v dgo.Value) string { return mk.f(typ.String, v).String() })
	}
	add("struct type", func(v dgo.Value) string { return tf.StructMapFromMap(false, vf.Map("a", v)).String() })
	add("struct type key", func(v dgo.Value) string { return tf.StructMapFromMap(false, vf.Map(v, typ.String)).String() })
	add("struct type entry", func(v dgo.Value) string {
		return tf.StructMap(false, tf.StructMapEntry(v, v, true)).String()
	})
	for dl := streamer.NoDedup; dl <= streamer.MaxDedup; dl++ {
		dl := dl
		add(fmt.Sprintf("stream %d", dl), func(v dgo.Value) string {
			var b bytes.Buffer
			streamer.New(nil, &streamer.Options{DedupLevel: dl, Dialect: streamer.DgoDialect(), RichData: false}).Stream(v, streamer.JSON(&b))
			return b.String()
		})
	}
	add("named", func(v dgo.Value) string {
		defer tf.RemoveNamed("mc.secret")
		nt := tf.NewNamed("mc.secret", nil, nil, reflect.TypeOf(&secretStruct{}), nil, nil)
		return nt.String() + vf.New(nt, v).String()
	})
	add("exact named", func(v dgo.Value) string {
		defer tf.RemoveNamed("mc.secret")
		nt := tf.NewNamed("mc.secret", nil, nil, reflect.TypeOf(&secretStruct{}), nil, nil)
		return tf.ExactNamed(nt, v).String()
	})
	add("parameterized", func(v dgo.Value) string {
		defer tf.RemoveNamed("mc.secret")
		nt := tf.NewNamed("mc.secret", nil, nil, reflect.TypeOf(&secretStruct{}), nil, nil)
		return tf.Parameterized(nt, vf.Values(v)).String()
	})
	return
}

func runC17(c *fw.C) {
	ops := textOps()
	boxes := secretBoxes()
	depth := 2
	if c.Thorough {
		depth = 3
	}
	c.Stage("opaque")
	addr := regexp.MustCompile(`0x[0-9a-f]{6,}`)
	leak := func(text string, marks []string) string {
		text = addr.ReplaceAllString(text, "0x")
		for _, m := range marks {
			if strings.Contains(text, m) {
				return m
			}
		}
		return ""
	}
	plain := regexp.MustCompile(`^(String|Sprintf %[vsq+]+|Print|Errorf|indent|error indent|ToString|Call.*|frozen.*)$`)
	for _, s := range secrets() {
		s := s
		// The type of a sensitive type names the type
		isType := strings.Contains(s.name, "type")
		var rec func(name string, mk func() dgo.Value, n int)
		rec = func(name string, mk func() dgo.Value, n int) {
			c.Case(func() string { return s.name + " in " + name }, func(t *fw.T) {
				for _, op := range ops {
					if isType && !plain.MatchString(op.name) {
						continue
					}
					var text string
					e, _ := fw.Try(func() { text = op.f(mk()) })
					if e != nil {
						text += fmt.Sprintf(" panic %v", e)
						if er, ok := e.(error); ok {
							text += " " + er.Error()
						}
						if vv, ok := e.(dgo.Value); ok {
							text += " " + vv.String()
						}
					}
					t.Count("transitions", 1)
					t.State(op.name + "|" + addr.ReplaceAllString(text, ""))
					if m := leak(text, s.marks); m != "" {
						t.Failf("reveals", op.name, "%s of the %s in %s: %s", op.name, s.name, name, text)
					}
				}
			})
			if n > 0 {
				for _, b := range boxes {
					b := b
					if isType && strings.Contains(b.name, "type") {
						continue
					}
					rec(b.name+" of "+name, func() dgo.Value { return b.wrap(mk()) }, n-1)
				}
			}
		}
		rec("sensitive", func() dgo.Value { return vf.Sensitive(s.make()) }, depth)
	}

	c.Stage("equality")
	vals := valueUniverse(c.Thorough)
	if len(vals) > 160 && !c.Thorough {
		vals = vals[:160]
	}
	for i := range vals {
		a := vals[i]
		c.Case(func() string { return a.Canon() }, func(t *fw.T) {
			for _, f1 := range []bool{true, false} {
				da := a.Build(f1)
				sa := vf.Sensitive(da)
				ssa := vf.Sensitive(sa)
				for _, b := range vals {
					db := b.Build(!f1)
					sb := vf.Sensitive(db)
					nan := model.IsNaN(a) || model.IsNaN(b)
					eq := a.Equal(b)
					t.Count("transitions", 1)
					if !nan && (sa.Equals(sb) != eq || sb.Equals(sa) != eq) {
						t.Failf("equal", b.Canon(), "sensitive %s and sensitive %s: equals %t %t", a.Canon(), b.Canon(), sa.Equals(sb), sb.Equals(sa))
					}
					if eq && !nan && sa.HashCode() != sb.HashCode() {
						t.Failf("hash", b.Canon(), "sensitive %s and sensitive %s: different hash codes", a.Canon(), b.Canon())
					}
					if b.K != model.Sens && (sa.Equals(db) || db.Equals(sa)) {
						t.Failf("plain", b.Canon(), "sensitive %s equals %s", a.Canon(), b.Canon())
					}
					if a.K != model.Sens && b.K != model.Sens && (ssa.Equals(sb) || sb.Equals(ssa)) {
						t.Failf("nested", b.Canon(), "nested sensitive %s equals sensitive %s", a.Canon(), b.Canon())
					}
					if !nan {
						m := vf.MutableMap(sa, 1)
						if got := m.Get(sb) != nil; got != eq {
							t.Failf("lookup", b.Canon(), "lookup of sensitive %s in a map with sensitive %s: %t", b.Canon(), a.Canon(), got)
						}
						if b.K != model.Sens && m.Get(db) != nil {
							t.Failf("lookup", b.Canon(), "lookup of %s in a map with sensitive %s finds it", b.Canon(), a.Canon())
						}
						if got := vf.Values("x", sa).IndexOf(sb) == 1; got != eq {
							t.Failf("index", b.Canon(), "search of sensitive %s in array with sensitive %s: %t", b.Canon(), a.Canon(), got)
						}
					}
				}
			}
		})
	}
	c.Stage("unwrap")
	for i := range vals {
		a := vals[i]
		c.Case(func() string { return a.Canon() }, func(t *fw.T) {
			for _, frozen := range []bool{true, false} {
				d := a.Build(frozen)
				check := func(what string, x dgo.Sensitive, same bool) {
					u := x.Unwrap()
					if same && !reflect.DeepEqual(reflect.TypeOf(u), reflect.TypeOf(d)) {
						t.Failf("kind", what, "%s: unwrapped %s is a %T", what, a.Canon(), u)
					}
					if same && reflect.TypeOf(d).Kind() == reflect.Ptr && reflect.ValueOf(u).Pointer() != reflect.ValueOf(d).Pointer() {
						t.Failf("identity", what, "%s: unwrapped %s isn't the wrapped value", what, a.Canon())
					}
					if o := model.Observe(u); o.Canon() != model.Observe(d).Canon() {
						t.Failf("content", what, "%s: unwrapped %s is %s", what, a.Canon(), o.Canon())
					}
				}
				s := vf.Sensitive(d)
				check("wrap", s, true)
				check("value of wrap", vf.Value(s).(dgo.Sensitive), true)
				check("element", vf.MutableValues(s).Get(0).(dgo.Sensitive), true)
				check("map value", vf.MutableMap("a", s).Get("a").(dgo.Sensitive), true)
				check("new", vf.New(typ.Sensitive, vf.Arguments(vf.Sensitive(d))).(dgo.Sensitive), false)
				check("new from value", func() dgo.Sensitive {
					x := vf.New(typ.Sensitive, vf.Arguments(d)).(dgo.Sensitive)
					if a.K == model.Sens {
						return vf.Sensitive(x)
					}
					return x
				}(), false)
				check("frozen copy", s.(dgo.Freezable).FrozenCopy().(dgo.Sensitive), false)
				check("thawed copy", s.(dgo.Freezable).ThawedCopy().(dgo.Sensitive), false)
				if s.Type().String() == "" || !s.Type().Instance(s) {
					t.Failf("type", "", "%s isn't an instance of its type", a.Canon())
				}
			}
		})
	}
}
