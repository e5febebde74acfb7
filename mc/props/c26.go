package props

import (
	"bytes"
	"fmt"
	"reflect"
	"regexp"
	"sort"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
)

// C26: frozen values created from Go data, and Go data extracted from frozen values

func init() {
	fw.Register(&fw.Check{ID: "C26", Level: "model_checking",
		Rule: "all Go data of a type grammar and of a list of nested mixtures of Go data and mutable dgo values, through all entry points that lead to a frozen value, followed by one modification of the Go data at each of its places; and all frozen values of a universe converted to all Go types, followed by a modification of the result at each of its places. A state is a frozen value; an outcome is a distinct pair of entry point and modified place",
		Assumptions: []string{"named scalars, structs, Go arrays, channels and functions are natives, which frozen collections can't hold",
			"regexps and errors are handed in and out by reference by design"},
		Run: runC26})
}

type c26place struct {
	path   string
	change func()
}

var rtSME = reflect.TypeOf((*dgo.StructMapEntry)(nil)).Elem()

// otherValue returns a value of the type of v that differs from v
func otherValue(v reflect.Value) (reflect.Value, bool) {
	t := v.Type()
	n := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		n.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n.SetInt(v.Int() ^ 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n.SetUint(v.Uint() ^ 1)
	case reflect.Float32, reflect.Float64:
		n.SetFloat(77.25)
	case reflect.String:
		n.SetString(v.String() + "~")
	case reflect.Interface:
		if t == rtSME {
			n.Set(reflect.ValueOf(tf.StructMapEntry("changed", typ.Any, true)))
		} else if t == rtAny || t == rtValue {
			n.Set(reflect.ValueOf(vf.String("changed")))
		} else if v.IsNil() {
			return n, false
		}
	case reflect.Slice, reflect.Map:
		if v.IsNil() || v.Len() == 0 {
			return n, false
		}
	case reflect.Ptr:
		if v.IsNil() {
			n.Set(reflect.New(t.Elem()))
		}
	default:
		return n, false
	}
	return n, true
}

// places finds every place of the Go data that can be modified. A pointer to a time that is handed out is the internal one
// (known finding of C01)
func places(v reflect.Value, path string, depth int, extracted bool) (r []c26place) {
	if depth > 6 || !v.IsValid() {
		return
	}
	add := func(p string, f func()) { r = append(r, c26place{p, f}) }
	if v.CanInterface() {
		if d, ok := v.Interface().(dgo.Value); ok && !(v.Kind() == reflect.Ptr && v.IsNil()) {
			return dgoPlaces(d, path, depth)
		}
		switch v.Interface().(type) {
		case *regexp.Regexp, error:
			return
		}
	}
	switch v.Kind() {
	case reflect.Slice:
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			e := full.Index(i)
			p := fmt.Sprintf("%s[%d]", path, i)
			if i < v.Len() {
				r = append(r, places(e, p, depth+1, extracted)...)
			}
			if n, ok := otherValue(e); ok {
				add(p+"=", func() { e.Set(n) })
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			k, e := k, v.MapIndex(k)
			if !e.IsValid() {
				continue // NaN
			}
			p := fmt.Sprintf("%s[%v]", path, k)
			r = append(r, places(e, p, depth+1, extracted)...)
			r = append(r, places(k, p+" key", depth+1, extracted)...)
			if n, ok := otherValue(e); ok {
				add(p+"=", func() { v.SetMapIndex(k, n) })
			}
			add("delete "+p, func() { v.SetMapIndex(k, reflect.Value{}) })
		}
		if k, ok := otherValue(reflect.New(v.Type().Key()).Elem()); ok {
			add(path+"[new]=", func() { v.SetMapIndex(k, reflect.New(v.Type().Elem()).Elem()) })
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		r = append(r, places(e, "*"+path, depth+1, extracted)...)
		if e.Kind() != reflect.Struct {
			if n, ok := otherValue(e); ok {
				add("*"+path+"=", func() { e.Set(n) })
			}
		} else if e.Type() == rtTime && !extracted {
			add("*"+path+"=", func() { e.Set(reflect.New(rtTime).Elem()) })
		}
	case reflect.Interface:
		return places(v.Elem(), path, depth, extracted)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			f := v.Field(i)
			p := path + "." + v.Type().Field(i).Name
			r = append(r, places(f, p, depth+1, extracted)...)
			if n, ok := otherValue(f); ok && f.CanSet() {
				add(p+"=", func() { f.Set(n) })
			}
		}
	}
	return
}

func dgoPlaces(d dgo.Value, path string, depth int) (r []c26place) {
	f, ok := d.(dgo.Freezable)
	if !ok || depth > 6 {
		return
	}
	add := func(p string, f func()) { r = append(r, c26place{path + p, f}) }
	switch x := d.(type) {
	case dgo.Array:
		n := x.Len()
		for i := 0; i < n; i++ {
			r = append(r, dgoPlaces(x.Get(i), fmt.Sprintf("%s[%d]", path, i), depth+1)...)
		}
		if f.Frozen() {
			return
		}
		for i := 0; i < n; i++ {
			i := i
			add(fmt.Sprintf(".Set(%d)", i), func() { x.Set(i, "changed") })
		}
		add(".Add", func() { x.Add("changed") })
		if n > 0 {
			add(".Pop", func() { x.Pop() })
		}
	case dgo.Map:
		x.EachEntry(func(e dgo.MapEntry) {
			r = append(r, dgoPlaces(e.Value(), fmt.Sprintf("%s[%s]", path, e.Key()), depth+1)...)
			if !f.Frozen() {
				k := e.Key()
				add(fmt.Sprintf(".Put(%s)", k), func() { x.Put(k, "changed") })
				if _, isStruct := x.(dgo.Struct); !isStruct {
					add(fmt.Sprintf(".Remove(%s)", k), func() { x.Remove(k) })
				}
			}
		})
		if _, isStruct := x.(dgo.Struct); !isStruct && !f.Frozen() {
			add(".Put(new)", func() { x.Put("a new key", 1) })
		}
	case dgo.Binary:
		if !f.Frozen() {
			bs := x.GoBytes()
			for i := range bs {
				i := i
				add(fmt.Sprintf(".GoBytes()[%d]", i), func() { bs[i] ^= 1 })
			}
		}
	}
	return
}

// c26struct has a field of each kind that a slice, a map or a pointer can be reached through
type c26struct struct {
	A int
	B []string
	C map[string][]int
	D *string
	E dgo.Array
	F dgo.Value
	G interface{}
	H []byte
	I *[]int
	J interface{}
	k []int
}

func c26strp(s string) *string { return &s }

// c26mixtures are nested mixtures of Go data and mutable dgo values. Every call gives new data.
func c26mixtures() (r []interface{}) {
	ma := func() dgo.Array { return vf.MutableValues(1, vf.MutableValues("x")) }
	mm := func() dgo.Map { return vf.MutableMap("a", vf.MutableValues("x"), "b", 2) }
	bin := func() dgo.Binary { return vf.Binary([]byte{1, 2}, false) }
	spare := append(make([]dgo.Value, 0, 4), ma(), vf.Integer(1))
	is := []int{1, 2}
	ms := map[string]interface{}{"a": []interface{}{1, "x"}, "b": map[string]int{"c": 1}}
	return append(r,
		[]dgo.Value{ma(), mm(), bin(), nil, vf.Integer(1)}, spare, []dgo.Array{ma(), ma()}, []dgo.Map{mm()}, []dgo.Binary{bin()},
		[]interface{}{ma(), mm(), bin(), []int{1}, []byte{1, 2}, map[string]interface{}{"a": []string{"x"}}, c26strp("s"), &is, &ms, nil, 1},
		map[string]dgo.Value{"a": ma(), "b": mm(), "c": bin()}, map[string]dgo.Array{"a": ma()}, map[string]interface{}{"a": ma(), "b": []interface{}{mm(), []byte{1}}, "c": c26strp("s")},
		map[interface{}]interface{}{"a": []int{1}, 2: map[interface{}]interface{}{3: []byte{4}}},
		map[dgo.Value]interface{}{vf.String("a"): []int{1}, vf.Integer(2): ma()}, map[string]*[]string{"a": {"x", "y"}}, []*map[string]int{{"a": 1}},
		[][]dgo.Value{{ma(), mm()}, {}}, [][]byte{{1, 2}, {3}}, []map[string][]byte{{"a": {1, 2}}}, [][][]string{{{"a"}, {"b", "c"}}, {}},
		[]*int{new(int)}, []**string{func() **string { p := c26strp("s"); return &p }()}, map[string]map[string][]*int{"a": {"b": {new(int)}}},
		ma(), mm(), bin(), vf.MapEntry("k", ma()), vf.Sensitive(ma()), vf.MutableValues(vf.MapEntry("k", ma()), mm(), bin()), vf.MutableMap("k", bin()),
		&is, &ms, func() interface{} { p := &is; return &p }(), []interface{}{[]interface{}{[]interface{}{[]int{1}}}},
		&c26struct{A: 1, B: []string{"b"}, C: map[string][]int{"c": {1}}, D: c26strp("d"), E: ma(), F: mm(), G: []int{1}, H: []byte{1}, I: &is, J: c26strp("j"), k: is},
		c26struct{A: 1, B: []string{"b"}, G: map[string]interface{}{"x": []byte{1}}, J: ma()})
}

type c26way struct {
	name string
	make func(x reflect.Value) dgo.Value
}

func freezeIt(v dgo.Value) dgo.Value { v.(dgo.Freezable).Freeze(); return v }
func frozenC(v dgo.Value) dgo.Value  { return v.(dgo.Freezable).FrozenCopy() }

// c26ways are the ways from Go data to a frozen value. A way panics when it isn't applicable.
func c26ways() []c26way {
	val := func(f func(x interface{}) dgo.Value) func(x reflect.Value) dgo.Value {
		return func(x reflect.Value) dgo.Value { return f(x.Interface()) }
	}
	type v = dgo.Value
	type i = interface{}
	return []c26way{
		{"Value", val(func(x i) v { return vf.Value(x) })},
		{"ValueFromReflected", func(x reflect.Value) v { return vf.ValueFromReflected(x) }},
		{"Value of pointer", func(x reflect.Value) v {
			p := reflect.New(x.Type())
			p.Elem().Set(x)
			return vf.Value(p.Interface())
		}},
		{"Value frozen", val(func(x i) v { return freezeIt(vf.Value(x)) })},
		{"Value frozen copy", val(func(x i) v { return frozenC(vf.Value(x)) })},
		{"Array", val(func(x i) v { return vf.Array(x) })},
		{"Array frozen", val(func(x i) v { return freezeIt(vf.Array(x)) })},
		{"Map", val(func(x i) v { return vf.Map(x) })},
		{"Map frozen", val(func(x i) v { return freezeIt(vf.Map(x)) })},
		{"Map frozen copy", val(func(x i) v { return frozenC(vf.Map(x)) })},
		{"MutableMap frozen", val(func(x i) v { return freezeIt(vf.MutableMap(x)) })},
		{"MutableMap frozen copy", val(func(x i) v { return frozenC(vf.MutableMap(x)) })},
		{"FromReflectedMap", func(x reflect.Value) v { return vf.FromReflectedMap(x, true) }},
		{"FromReflectedMap frozen", func(x reflect.Value) v { return freezeIt(vf.FromReflectedMap(x, false)) }},
		{"FromReflectedMap frozen copy", func(x reflect.Value) v { return frozenC(vf.FromReflectedMap(x, false)) }},
		{"Values", val(func(x i) v { return vf.Values(x, 1, x) })},
		{"Values spread", val(func(x i) v { return vf.Values(x.([]i)...) })},
		{"MutableValues spread", val(func(x i) v { return freezeIt(vf.MutableValues(x.([]i)...)) })},
		{"MutableValues frozen", val(func(x i) v { return freezeIt(vf.MutableValues(x)) })},
		{"MutableValues frozen copy", val(func(x i) v { return frozenC(vf.MutableValues(x)) })},
		{"MutableMap of value frozen", val(func(x i) v { return freezeIt(vf.MutableMap("k", x)) })},
		{"Map of value", val(func(x i) v { return vf.Map("k", x) })},
		{"Map of key", val(func(x i) v { return vf.Map(x, 1) })},
		{"MutableMap of key frozen", val(func(x i) v { return freezeIt(vf.MutableMap(x, 1)) })},
		{"MapEntry frozen", val(func(x i) v { return freezeIt(vf.MapEntry("k", x)) })},
		{"MapEntry frozen copy", val(func(x i) v { return frozenC(vf.MapEntry("k", x)) })},
		{"Sensitive frozen copy", val(func(x i) v { return frozenC(vf.Sensitive(x)) })},
		{"Sensitive frozen", val(func(x i) v { return freezeIt(vf.Sensitive(x)) })},
		{"Arguments", val(func(x i) v { return vf.Arguments(x, 2) })},
		{"Arguments spread", val(func(x i) v { return vf.Arguments(x.([]i)...) })},
		{"ArgumentsFromArray", val(func(x i) v { return vf.ArgumentsFromArray(vf.Array(x)) })},
		{"Strings", val(func(x i) v { return vf.Strings(x.([]string)...) })},
		{"Integers", val(func(x i) v { return vf.Integers(x.([]int)...) })},
		{"Binary", val(func(x i) v { return vf.Binary(x.([]byte), true) })},
		{"Binary frozen", val(func(x i) v { return freezeIt(vf.Binary(x.([]byte), false)) })},
		{"Binary frozen copy", val(func(x i) v { return frozenC(vf.Binary(x.([]byte), false)) })},
		{"BinaryFromData", val(func(x i) v { return vf.BinaryFromData(bytes.NewReader(x.([]byte))) })},
		{"WrapSlice frozen copy", val(func(x i) v { return frozenC(vf.WrapSlice(x.([]dgo.Value))) })},
		{"WrapSlice frozen", val(func(x i) v { return freezeIt(vf.WrapSlice(x.([]dgo.Value))) })},
		{"New any array", val(func(x i) v { return vf.New(typ.Array, vf.Value(x)) })},
		{"New map", val(func(x i) v { return frozenC(vf.New(typ.Map, vf.Value(x))) })},
		{"New binary", val(func(x i) v { return frozenC(vf.New(typ.Binary, vf.Value(x))) })},
		{"With on frozen", val(func(x i) v { return vf.Values(1).With(x) })},
		{"WithAll on frozen", val(func(x i) v { return vf.Values(1).WithAll(vf.Array(x)) })},
		{"WithValues on frozen", val(func(x i) v { return vf.Values(1).WithValues(x, x) })},
		{"WithValues spread", val(func(x i) v { return vf.Values(1).WithValues(x.([]i)...) })},
		{"With on frozen map", val(func(x i) v { return vf.Map("a", 1).With("k", x) })},
		{"Merge on frozen map", val(func(x i) v { return vf.Map("a", 1).Merge(vf.MutableMap(x)) })},
		{"Map on frozen", val(func(x i) v { return vf.Values(1, 2).Map(func(dgo.Value) interface{} { return x }) })},
		{"Map on frozen map", val(func(x i) v { return vf.Map("a", 1).Map(func(dgo.MapEntry) interface{} { return x }) })},
		{"Put frozen", val(func(x i) v { m := vf.MutableMap(); m.Put("k", x); return freezeIt(m) })},
		{"Put frozen copy", val(func(x i) v { m := vf.MutableMap(); m.Put("k", x); return frozenC(m) })},
		{"Add frozen", val(func(x i) v { a := vf.MutableValues(); a.Add(x); return freezeIt(a) })},
		{"AddValues frozen", val(func(x i) v { a := vf.MutableValues(); a.AddValues(x.([]i)...); return freezeIt(a) })},
		{"AddAll frozen", val(func(x i) v { a := vf.MutableValues(); a.AddAll(vf.Array(x)); return freezeIt(a) })},
		{"Insert frozen", val(func(x i) v { a := vf.MutableValues(1); a.Insert(0, x); return freezeIt(a) })},
		{"Set frozen copy", val(func(x i) v { a := vf.MutableValues(1); a.Set(0, x); return frozenC(a) })},
		{"type of value", val(func(x i) v { return vf.Value(x).Type() })},
	}
}

type c26typeWay struct {
	name string
	data func() interface{}
	make func(x interface{}) dgo.Value
}

// c26typeWays create types from slices
func c26typeWays() (r []c26typeWay) {
	type i = interface{}
	any := func() i { return append(make([]i, 0, 5), typ.String, tf.Array(typ.Integer), typ.Boolean) }
	mixed := func() i { return append(make([]i, 0, 5), "a", typ.Integer, 3, []string{"x", "y"}) }
	for name, f := range map[string]func(ts ...i) dgo.Type{"AllOf": tf.AllOf, "AnyOf": tf.AnyOf, "OneOf": tf.OneOf,
		"Tuple": func(ts ...i) dgo.Type { return tf.Tuple(ts...) }, "VariadicTuple": func(ts ...i) dgo.Type { return tf.VariadicTuple(ts...) }} {
		f := f
		mk := func(x i) dgo.Value { return f(x.([]i)...) }
		r = append(r, c26typeWay{name + " of types", any, mk})
		if name != "VariadicTuple" && name != "Tuple" {
			r = append(r, c26typeWay{name + " of values", mixed, mk})
		}
	}
	strs := func() i { return append(make([]string, 0, 5), "a", "B", "c") }
	r = append(r, c26typeWay{"Enum", strs, func(x i) dgo.Value { return tf.Enum(x.([]string)...) }},
		c26typeWay{"CiEnum", strs, func(x i) dgo.Value { return tf.CiEnum(x.([]string)...) }},
		c26typeWay{"IntEnum", func() i { return append(make([]int, 0, 5), 1, 2, 3) }, func(x i) dgo.Value { return tf.IntEnum(x.([]int)...) }})
	entries := func() i {
		return append(make([]dgo.StructMapEntry, 0, 5), tf.StructMapEntry("a", typ.String, true), tf.StructMapEntry("b", typ.Integer, false))
	}
	for _, open := range []bool{false, true} {
		open := open
		r = append(r, c26typeWay{fmt.Sprintf("StructMap %t", open), entries, func(x i) dgo.Value { return tf.StructMap(open, x.([]dgo.StructMapEntry)...) }})
	}
	sort.Slice(r, func(a, b int) bool { return r[a].name < r[b].name })
	return
}

type frozenState struct {
	canon, str string
	hash       int
}

func frozenStateOf(v dgo.Value) frozenState {
	return frozenState{model.Observe(v).Canon(), v.String(), v.HashCode()}
}

func runC26(c *fw.C) {
	ways := c26ways()
	importCase := func(kase string, mk func() reflect.Value) {
		for _, w := range ways {
			w := w
			c.Case(func() string { return w.name + " " + kase }, func(t *fw.T) {
				for n := 0; ; n++ {
					x := mk()
					var v dgo.Value
					if p, _ := fw.Try(func() { v = w.make(x) }); p != nil || v == nil {
						t.Count("inapplicable", 1)
						return
					}
					if _, isType := v.(dgo.Type); isType {
						if f, ok := v.(dgo.ExactType); !ok || model.FrozenDeep(f.ExactValue()) != "" {
							return
						}
					} else if f, ok := v.(dgo.Freezable); ok && !f.Frozen() {
						t.Count("mutable", 1)
						return
					}
					if f := model.FrozenDeep(v); f != "" {
						t.Fatalf("mutable part", "", "%s: %s is frozen, but %s isn't", w.name, v, f)
					}
					ps := places(x, "x", 0, false)
					if n >= len(ps) {
						return
					}
					before := frozenStateOf(v)
					t.State(before.canon)
					if p, _ := fw.Try(ps[n].change); p != nil {
						// in place freezing freezes the dgo values that the data contains
						continue
					}
					t.Count("transitions", 1)
					t.Outcome(w.name + ps[n].path)
					if after := frozenStateOf(v); after != before {
						t.Fatalf("changed", "", "the frozen value made by %s changed from %s to %s when %s of the Go data was modified", w.name, before.canon, after.canon, ps[n].path)
					}
				}
			})
		}
	}
	c.Stage("mixtures")
	for i := range c26mixtures() {
		i := i
		importCase(fmt.Sprintf("mixture %d", i), func() reflect.Value { return reflect.ValueOf(c26mixtures()[i]) })
	}
	c.Stage("Go types")
	for _, gt := range goTypes(2) {
		gt := gt
		switch gt.Kind() {
		case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface:
		default:
			continue
		}
		for i := range goSamples(gt, false) {
			i := i
			importCase(fmt.Sprintf("%s %d", gt, i), func() reflect.Value { return goSamples(gt, false)[i] })
		}
	}
	c.Stage("types")
	for _, w := range c26typeWays() {
		w := w
		c.Case(func() string { return w.name }, func(t *fw.T) {
			for n := 0; ; n++ {
				x := w.data()
				v := w.make(x)
				before, witness := frozenStateOf(v), w.make(w.data())
				ps := places(reflect.ValueOf(x), "x", 0, false)
				if n >= len(ps) {
					return
				}
				_, _ = fw.Try(ps[n].change)
				t.Count("transitions", 1)
				t.State(before.canon)
				t.Outcome(w.name + ps[n].path)
				if after := frozenStateOf(v); after != before || !v.Equals(witness) || !witness.Equals(v) {
					t.Fatalf("changed", "", "the type made by %s changed from %s to %s when %s of the slice was modified", w.name, before.canon, after.canon, ps[n].path)
				}
			}
		})
	}
	c.Stage("extraction")
	exTypes := goTypes(2)
	exTypes = append(exTypes, reflect.TypeOf([]map[string]interface{}{}), reflect.TypeOf(map[string][][]byte{}), reflect.TypeOf([][][]interface{}{}), reflect.TypeOf([][]dgo.Value{}),
		reflect.TypeOf(map[string]map[string]dgo.Value{}), reflect.TypeOf(c26struct{}), reflect.TypeOf(&c26struct{}))
	vals := append(goValues(c.Thorough), model.A(model.A(model.Y("ab"), model.A(model.I(1)))), model.M(model.S("k"), model.M(model.S("l"), model.A(model.S("x"), model.Y("z")))),
		model.A(model.M(model.S("a"), model.A(model.N(), model.B(true)))), model.M(model.S("k"), model.A(model.Y("ab"))))
	forms := func(mv *model.V) (r []dgo.Value) {
		r = append(r, mv.Build(true))
		if d := mv.Build(false); d != nil {
			if f, ok := d.(dgo.Freezable); ok {
				if p, _ := fw.Try(func() { f.Freeze() }); p == nil {
					r = append(r, d)
				}
			}
		}
		return
	}
	extract := func(kase string, mk func() []dgo.Value) {
		for i := range mk() {
			i := i
			c.Case(func() string { return fmt.Sprintf("%s %d", kase, i) }, func(t *fw.T) {
				v := mk()[i]
				before := frozenStateOf(v)
				t.State(before.canon)
				for _, et := range exTypes {
					for n := 0; ; n++ {
						dest := reflect.New(et)
						if p, _ := fw.Try(func() { vf.FromValue(v, dest.Interface()) }); p != nil {
							break
						}
						ps := places(dest.Elem(), "x", 0, true)
						if n >= len(ps) {
							break
						}
						_, _ = fw.Try(ps[n].change)
						t.Count("transitions", 1)
						if after := frozenStateOf(v); after != before {
							t.Fatalf("changed", "", "%s changed to %s when %s of the %s that it was converted to was modified", before.canon, after.canon, ps[n].path, et)
						}
					}
				}
				if s, ok := v.(dgo.Struct); ok {
					for n := 0; ; n++ {
						ps := places(reflect.ValueOf(s.GoStruct()), "x", 0, true)
						if n >= len(ps) {
							break
						}
						_, _ = fw.Try(ps[n].change)
						t.Count("transitions", 1)
						if after := frozenStateOf(v); after != before {
							t.Fatalf("changed", "", "%s changed to %s when %s of its GoStruct was modified", before.canon, after.canon, ps[n].path)
						}
					}
				}
			})
		}
	}
	for _, mv := range vals {
		mv := mv
		extract(mv.Canon(), func() []dgo.Value { return forms(mv) })
	}
	for i := range c26mixtures() {
		i := i
		extract(fmt.Sprintf("mixture %d", i), func() (r []dgo.Value) {
			for _, w := range []int{0, 3, 4, 7, 8, 9} {
				var v dgo.Value
				if p, _ := fw.Try(func() { v = ways[w].make(reflect.ValueOf(c26mixtures()[i])) }); p == nil && v != nil {
					if f, ok := v.(dgo.Freezable); ok && f.Frozen() && model.FrozenDeep(v) == "" {
						r = append(r, v)
					}
				}
			}
			return
		})
	}
}
