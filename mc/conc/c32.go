package conc

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/verif/props"
	"github.com/lyraproj/dgo/vf"
)

// C32: concurrent reading

func init() {
	fw.Register(&fw.Check{ID: "C32", Level: "model_checking", Race: true, Run: runC32,
		Rule: "for every shared value and type, whose lazy parts aren't computed yet, every pair of read operations (all methods found by reflection with all arguments of an alphabet, and the package functions that use values and types) is executed by two goroutines under every interleaving of their synchronizing operations with at most one preemption (thorough: two) with the race detector on, and the result must be the one of the operation alone"})
}

// shObj is something to share
type shObj struct {
	name string
	mk   func() interface{}
}

// shOp is a read operation
type shOp struct {
	name  string
	short bool // take part in the pairs
	run   func(x interface{}) string
}

type shPlain struct {
	A int
	B string
	C []string
	D map[string]int
}

var shMutators = map[string]bool{"Add": true, "AddAll": true, "AddValues": true, "Insert": true, "Put": true, "PutAll": true, "Remove": true,
	"RemoveAll": true, "RemoveValue": true, "Set": true, "SetType": true, "Pop": true, "Freeze": true,
	"Longest": true /* of regexp.Regexp */}

// operations that use many others
var shLong = map[string]bool{"JSON": true, "pcore JSON": true, "parse": true, "combine": true, "in combination": true, "ERP": true, "in map type": true}

func show(x interface{}, depth int) string {
	if x == nil || depth > 4 {
		return "nil"
	}
	switch x := x.(type) {
	case dgo.Indenter:
		return "indenter " + x.String()
	case dgo.Type:
		return x.TypeIdentifier().String() + " " + x.String()
	case dgo.Native:
		return "native"
	case dgo.Function:
		return "function " + x.Type().String()
	case dgo.Value:
		return x.String()
	case []dgo.Value:
		s := "["
		for _, v := range x {
			s += show(v, depth+1) + " "
		}
		return s + "]"
	case error:
		return x.Error()
	case reflect.Type:
		return x.String()
	case time.Time:
		return x.String()
	}
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Ptr:
		if rv.IsNil() || !rv.Elem().CanInterface() {
			return "nil"
		}
		return "*" + show(rv.Elem().Interface(), depth+1)
	case reflect.Slice:
		s := "["
		for i := 0; i < rv.Len(); i++ {
			s += show(rv.Index(i).Interface(), depth+1) + " "
		}
		return s + "]"
	case reflect.Map:
		var ss []string
		for _, k := range rv.MapKeys() {
			ss = append(ss, show(k.Interface(), depth+1)+":"+show(rv.MapIndex(k).Interface(), depth+1))
		}
		sort.Strings(ss)
		return strings.Join(ss, " ")
	case reflect.Func, reflect.Chan, reflect.Struct, reflect.Interface, reflect.UnsafePointer:
		return rv.Type().String()
	}
	return fmt.Sprintf("%v", x)
}

func shResult(f func() []interface{}) string {
	return try(func() string {
		var ss []string
		for _, x := range f() {
			ss = append(ss, show(x, 0))
		}
		return strings.Join(ss, ", ")
	})
}

// values that types are asked about
func shWitnesses() []dgo.Value {
	return []dgo.Value{vf.Nil, vf.Integer(1), vf.Float(1.5), vf.String("a"), vf.String("ab"), vf.String("sh=int"), vf.Values(1), vf.Values(1, "a"), vf.Values(), vf.Map("a", 1),
		vf.Map("a", 1, "b", 2), vf.Map(), vf.Sensitive(1), typ.Integer, vf.BinaryFromString("YQ=="), vf.True}
}

func shTypes() []dgo.Type {
	return []dgo.Type{typ.Any, typ.Integer, typ.String, typ.Array, typ.Map, tf.Array(typ.Integer), tf.Map(typ.String, typ.Integer), tf.AnyOf(typ.Integer, typ.String), tf.Tuple(typ.Integer, typ.String),
		tf.Integer(1, 2, true), tf.Not(typ.Integer), tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, true)), tf.Meta(typ.Integer), tf.Sensitive(typ.Integer), tf.Enum("a", "b")}
}

func shOps(o shObj) (ops []shOp) {
	x := o.mk()
	last := ""
	for _, c := range props.CallsOf(x) {
		if shMutators[c.Method] {
			continue
		}
		c := c
		ops = append(ops, shOp{c.ID, c.Method != last, func(x interface{}) string { return shResult(func() []interface{} { return c.Make(x) }) }})
		last = c.Method
	}
	add := func(name string, f func(v dgo.Value) interface{}) {
		ops = append(ops, shOp{name, !shLong[name], func(x interface{}) string {
			return shResult(func() []interface{} { return []interface{}{f(x.(dgo.Value))} })
		}})
	}
	// what operators and functions see
	add("Equals copy", func(v dgo.Value) interface{} { c := o.mk(); return v.Equals(c) && c.(dgo.Value).Equals(v) })
	add("Generic", func(v dgo.Value) interface{} { return typ.Generic(v.Type()) })
	add("ExactValue", func(v dgo.Value) interface{} { return typ.ExactValue(v) })
	add("AsType", func(v dgo.Value) interface{} { return typ.AsType(v) })
	add("in array", func(v dgo.Value) interface{} { return vf.Values(v, v).Unique() })
	add("in map", func(v dgo.Value) interface{} { return vf.Map(v, v).Get(v) })
	add("in array type", func(v dgo.Value) interface{} { return vf.Values(v, 1).Type() })
	add("in map type", func(v dgo.Value) interface{} { return vf.Map(v, v).Type().Instance(vf.Map(v, v)) })
	add("sensitive", func(v dgo.Value) interface{} { return vf.Sensitive(v).HashCode() })
	add("ERP", func(v dgo.Value) interface{} {
		if x, ok := v.(dgo.Indentable); ok {
			return util.ToStringERP(x) + util.ToIndentedStringERP(x) + util.ToIndentedString(x)
		}
		return fmt.Sprintf("%v %s %#v", v, v, v.String())
	})
	add("JSON", func(v dgo.Value) interface{} {
		b := streamer.MarshalJSON(v, nil)
		return string(b) + streamer.UnmarshalJSON(b, nil).String()
	})
	add("pcore JSON", func(v dgo.Value) interface{} { return string(streamer.MarshalJSON(v, pcore.Dialect())) })
	add("to interface{}", func(v dgo.Value) interface{} { var i interface{}; vf.FromValue(v, &i); return i })
	if _, ok := x.(dgo.Type); ok {
		for i := range shWitnesses() {
			i := i
			add(fmt.Sprintf("Instance %d", i), func(v dgo.Value) interface{} { return v.(dgo.Type).Instance(shWitnesses()[i]) })
		}
		for i := range shTypes() {
			i := i
			add(fmt.Sprintf("Assignable %d", i), func(v dgo.Value) interface{} {
				t, u := v.(dgo.Type), shTypes()[i]
				return fmt.Sprint(t.Assignable(u), u.Assignable(t))
			})
		}
		add("New int", func(v dgo.Value) interface{} { return vf.New(v.(dgo.Type), vf.Integer(1)) })
		add("New string", func(v dgo.Value) interface{} { return vf.New(v.(dgo.Type), vf.String("1")) })
		add("New array", func(v dgo.Value) interface{} { return vf.New(v.(dgo.Type), vf.Values(1)) })
		add("combine", func(v dgo.Value) interface{} {
			return fmt.Sprint(tf.AnyOf(v, typ.Integer), tf.AllOf(v, tf.Not(v.(dgo.Type))), tf.OneOf(v, typ.String), tf.Array(v), tf.Map(v, v), tf.Tuple(v), tf.Meta(v.(dgo.Type)), tf.Sensitive(v.(dgo.Type)))
		})
		add("in combination", func(v dgo.Value) interface{} {
			r := ""
			t := tf.AnyOf(v, tf.Array(v))
			for _, w := range shWitnesses() {
				r += fmt.Sprint(t.Instance(w), " ")
			}
			return r
		})
		add("parse", func(v dgo.Value) interface{} { return tf.ParseType(v.String()) })
	} else {
		for i := range shTypes() {
			i := i
			add(fmt.Sprintf("Instance of %d", i), func(v dgo.Value) interface{} { return shTypes()[i].Instance(v) })
		}
	}
	return
}

func shObjects(thorough bool) (vals, types []shObj) {
	i, f, s, y := model.I, model.F, model.S, model.Y
	val := func(v *model.V) shObj { return shObj{v.Canon(), func() interface{} { return v.Build(true) }} }
	vs := []*model.V{model.N(), model.B(true), i(1), f(1.5), f(2), s(""), s("a"), s("1"), y("ab"), model.T(time.Unix(0, 5).UTC()), model.R("a"), model.X(s("a")), model.X(model.A(s("a"))),
		model.A(), model.A(s("a")), model.A(i(1), s("a"), f(2)), model.A(s("a"), s("a")), model.A(model.A(s("b")), model.M(s("a"), s("c"))),
		model.M(), model.M(s("a"), s("b")), model.M(s("a"), i(1), s("b"), model.A(s("x"))), model.M(model.A(s("a")), s("b"), i(1), f(1)), model.M(s("a"), model.M(s("b"), model.M(s("c"), y("a"))))}
	if thorough {
		vs = append(vs, props.Values(false)...)
	}
	seen := map[string]bool{}
	for _, v := range vs {
		if !seen[v.Canon()] {
			seen[v.Canon()] = true
			vals = append(vals, val(v))
		}
	}
	obj := func(name string, mk func() interface{}) { vals = append(vals, shObj{name, mk}) }
	obj("strings", func() interface{} { return vf.Strings("a", "b") })
	obj("arguments", func() interface{} { return vf.Arguments("a", 1) })
	obj("entry", func() interface{} { return vf.MapEntry("a", vf.Values("b")) })
	obj("error", func() interface{} { return vf.Value(errors.New("x")) })
	ch := make(chan int)
	obj("native", func() interface{} { return vf.Value(ch) })
	obj("function", func() interface{} { return vf.Value(func(a int, b string) string { return b }) })
	obj("variadic function", func() interface{} { return vf.Value(func(a int, b ...string) int { return a + len(b) }) })
	obj("struct map", func() interface{} {
		return vf.Map(&shPlain{1, "b", []string{"x"}, map[string]int{"a": 1}}).FrozenCopy()
	})
	obj("go map", func() interface{} { return vf.Map(map[string][]int{"a": {1}, "b": nil}) })
	obj("go slice", func() interface{} { return vf.Array([][]string{{"a"}, {"b", "c"}}) })
	obj("large map", func() interface{} {
		m := vf.MutableMap()
		for i := 0; i < 20; i++ {
			m.Put(fmt.Sprintf("k%d", i), vf.MutableValues(i, fmt.Sprint(i)))
		}
		return m.FrozenCopy()
	})
	obj("types in an array", func() interface{} { return vf.Values(typ.String, tf.Array(typ.String), tf.Enum("a", "b")) })
	obj("pcore document", func() interface{} {
		return streamer.UnmarshalJSON([]byte(`{"a":["x",{"b":"x"}],"c":{"__ptype":"Sensitive","__pvalue":"s"}}`), pcore.Dialect()).(dgo.Map).FrozenCopy()
	})
	obj("document", func() interface{} {
		return streamer.UnmarshalJSON([]byte(`{"a":["x",{"b":"x"}],"c":{"__type":"sensitive","__value":"s"}}`), nil).(dgo.Map).FrozenCopy()
	})

	typed := func(name string, mk func() interface{}) { types = append(types, shObj{name, mk}) }
	ts := props.AtomTypes()
	core := []*model.Ty{model.TInt, model.TExact(s("a"))}
	ts = append(ts, props.ComposeTypes(core, core)...)
	if thorough {
		ts = props.Types(2)
	}
	names := map[string]bool{}
	for _, t := range ts {
		if t := t; !names[t.Name] {
			names[t.Name] = true
			typed(t.Name, func() interface{} { return t.Build() })
		}
	}
	for _, p := range []string{"data", "[]data", "map[string]data", "any", "[]any", "{a:int,b?:string,...}", "func(int,...string) bool", "func()", "func(func(int) string) []data", "a=map[string](int|[]a)", "(b=string[1])|[]b", "type[int|string]",
		"sensitive[[]string]", "int^string", "(int&1..3)|!string", "/a+/", "~\"Abc\"", "\"a\"|\"b\"", "{string,...int}", "dgo", "map[data]data", "1|2|3", "[]{a:data}", "[]dgo"} {
		p := p
		typed("parsed "+p, func() (t interface{}) {
			if !strings.Contains(p, "=") {
				return tf.ParseType(p)
			}
			tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { t = typ.AsType(tf.ParseFile(a, "", p)) })
			return
		})
	}
	for _, g := range []interface{}{1, "", []string(nil), map[string]int(nil), [][]interface{}(nil), (*int)(nil), (*string)(nil), func(int, ...string) error { return nil }, shPlain{}, &shPlain{}, time.Time{}, []byte(nil), (*error)(nil), make(chan int), struct{ A, B string }{}, map[string]map[int][]bool(nil)} {
		rt := reflect.TypeOf(g)
		typed("reflected "+rt.String(), func() interface{} { return tf.FromReflected(rt) })
	}
	for _, o := range append([]shObj{}, vals...) {
		o := o
		typed("type of "+o.name, func() interface{} { return o.mk().(dgo.Value).Type() })
		if thorough {
			typed("generic type of "+o.name, func() interface{} { return typ.Generic(o.mk().(dgo.Value).Type()) })
		}
	}
	for _, p := range []string{"int", "[]int", "{a:int}", "map[string]int", "func(int) string", "int|string", "int^string", "!int", "type[int]", "sensitive[int]"} {
		p := p
		typed("type of type "+p, func() interface{} { return tf.ParseType(p).Type() })
		typed("generic "+p, func() interface{} { return typ.Generic(tf.ParseType(p)) })
	}
	typed("struct map type from map", func() interface{} {
		return tf.StructMapFromMap(false, vf.Map("a", "map[string]int", "b", typ.String, "c", vf.Map("type", "int", "required", false)))
	})
	typed("dgo", func() interface{} { return typ.DgoString })
	typed("pcore Array", func() interface{} { return pcore.ParseType("Array[String[1,2],1,4]") })
	typed("pcore Struct", func() interface{} {
		return pcore.ParseType("Struct[{a=>Integer[1,2],Optional[b]=>Variant[String,Float]}]")
	})
	typed("pcore Data", func() interface{} { return pcore.ParseType("Data") })
	typed("named", func() interface{} {
		nt := shNamed()
		return nt
	})
	typed("parameterized", func() interface{} { return tf.Parameterized(shNamed(), vf.Values("a", 1)) })
	typed("exact named", func() interface{} { return tf.ExactNamed(shNamed(), vf.String("a")) })
	return
}

type shNamedV struct{}

func shNamed() dgo.NamedType {
	if t := tf.Named("mcshared"); t != nil {
		return t
	}
	var t dgo.NamedType
	if p, _ := fw.Try(func() {
		t = tf.NewNamed("mcshared", func(v dgo.Value) dgo.Value { return v }, func(v dgo.Value) dgo.Value { return v }, reflect.TypeOf(&shNamedV{}), nil, nil)
	}); p != nil {
		return tf.Named("mcshared")
	}
	return t
}

// shPair is a program of two goroutines that use x
func shPair(o shObj, alone func(op shOp) string, ops ...shOp) *program {
	x := o.mk()
	p := &program{model: func() interface{} { return nil }}
	for _, op := range ops {
		op := op
		p.threads = append(p.threads, []call{{
			name:   fmt.Sprintf("%s of %s", op.name, o.name),
			real:   func() string { return op.run(x) },
			accept: func(_ interface{}, got string) bool { return got == alone(op) },
		}})
	}
	return p
}

func runC32(c *fw.C) {
	bound := 1
	if c.Thorough {
		bound = 2
	}
	vals, types := shObjects(c.Thorough)
	all := append(append([]shObj{}, vals...), types...)
	// nothing is done outside of the threads before the case that does it concurrently: what is computed at the first use of
	// the library is explored too
	c.Stage("two goroutines create")
	for _, o := range all {
		o := o
		c.Case(func() string { return o.name }, func(t *fw.T) {
			mk := shOp{"creation", true, func(interface{}) string { return shResult(func() []interface{} { return []interface{}{o.mk()} }) }}
			want := ""
			exploreWarm(t, bound, func() *program {
				return shPair(shObj{o.name, func() interface{} { return nil }}, func(shOp) string {
					if want == "" {
						want = mk.run(nil)
					}
					return want
				}, mk, mk)
			})
		})
	}
	same := func(o shObj) func(t *fw.T) {
		return func(t *fw.T) {
			for _, op := range shOps(o) {
				op := op
				want, done := "", false
				exploreWarm(t, bound, func() *program {
					return shPair(o, func(shOp) string {
						if !done {
							want, done = op.run(o.mk()), true
						}
						return want
					}, op, op)
				})
			}
		}
	}
	c.Stage("the same operation in two goroutines")
	for _, o := range all {
		o := o
		c.Case(func() string { return o.name }, same(o))
	}
	c.Stage("two operations in two goroutines")
	kinds := map[string]bool{}
	for _, o := range all {
		o := o
		if !c.Thorough {
			// two types with the same implementation are alike
			x := o.mk()
			k := fmt.Sprintf("%T", x)
			if _, ok := x.(dgo.Type); ok && kinds[k] {
				continue
			}
			kinds[k] = true
		}
		c.Case(func() string { return o.name }, func(t *fw.T) {
			var ops []shOp
			for _, op := range shOps(o) {
				if op.short || c.Thorough {
					ops = append(ops, op)
				}
			}
			memo := map[string]string{}
			alone := func(op shOp) string {
				s, ok := memo[op.name]
				if !ok {
					s = op.run(o.mk())
					memo[op.name] = s
				}
				return s
			}
			for i, a := range ops {
				for _, b := range ops[i+1:] {
					exploreWarm(t, bound, func() *program { return shPair(o, alone, a, b) })
					if t.Expired() {
						return
					}
				}
			}
		})
	}
}
