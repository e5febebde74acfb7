package props

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
)

// C27: maps that are backed by a Go struct

func init() {
	fw.Register(&fw.Check{ID: "C27", Level: "model_checking",
		Rule: "all histories of map operations, modifications of the struct through Go and modifications of derived maps up to the stated depth, over structs with fields of all kinds, embedded structs and unexported fields; after every step all maps that are backed by the struct are compared with the struct field by field and all frozen or derived maps with what they were. A state is the content of all live maps; an outcome is a distinct (struct, operation, result class)",
		Assumptions: []string{"a map derived from a mutable map may share mutable dgo values that the fields hold",
			"structs, channels, named scalars and Go arrays in fields are natives, which can't be frozen"},
		Run: runC27})
}

type (
	c27Base struct {
		Name string
		Tags []string
	}
	c27Scalars struct {
		A int8
		B string
		C float64
		D bool
	}
	c27Ptrs struct {
		P *int
		Q *string
		R **bool
	}
	c27Colls struct {
		E []string
		M map[string]int
		Y []byte
	}
	c27Nested struct {
		N [][]int
		O map[string][]string
		S *[]int
	}
	c27Dgo struct {
		D dgo.Array
		V dgo.Value
		W dgo.Map
	}
	c27Any struct {
		I interface{}
		J interface{}
	}
	c27Hidden struct {
		a int
		B string
		c []string
		D int
	}
	c27Embedded struct {
		c27Base
		X int
	}
	C27Pub struct {
		Name string
	}
	c27EmbeddedPub struct {
		C27Pub
		X    int
		Name []string
	}
	c27EmbeddedNil struct {
		*C27Pub
		X int
	}
	c27Time struct {
		T time.Time
		U *time.Time
	}
	c27Empty struct{}
)

// c27shapes are functions that create pointers to structs
func c27shapes() (r []func() interface{}) {
	add := func(f func() interface{}) { r = append(r, f) }
	add(func() interface{} { return &c27Scalars{} })
	add(func() interface{} { return &c27Scalars{A: -128, B: "b", C: 1.5, D: true} })
	add(func() interface{} { return &c27Ptrs{} })
	add(func() interface{} {
		i, s, b := 3, "q", true
		pb := &b
		return &c27Ptrs{&i, &s, &pb}
	})
	add(func() interface{} { return &c27Colls{} })
	add(func() interface{} {
		return &c27Colls{append(make([]string, 0, 4), "x", "y"), map[string]int{"a": 1, "b": 2}, []byte{1, 2}}
	})
	add(func() interface{} {
		return &c27Nested{[][]int{{1}, {2, 3}}, map[string][]string{"a": {"x"}}, &[]int{4}}
	})
	add(func() interface{} { return &c27Dgo{} })
	add(func() interface{} {
		return &c27Dgo{vf.MutableValues(1, vf.MutableValues("x")), vf.MutableMap("a", vf.MutableValues("y")), vf.MutableMap("b", 2)}
	})
	add(func() interface{} { return &c27Any{} })
	add(func() interface{} { return &c27Any{[]int{1, 2}, map[string]interface{}{"a": []string{"x"}}} })
	add(func() interface{} { i := 4; return &c27Any{&i, vf.MutableValues(1)} })
	add(func() interface{} { return &c27Hidden{1, "b", []string{"c"}, 4} })
	add(func() interface{} { return &c27Embedded{c27Base{"n", []string{"t"}}, 1} })
	add(func() interface{} { return &c27EmbeddedPub{C27Pub{"n"}, 1, []string{"x"}} })
	add(func() interface{} { return &c27EmbeddedNil{X: 1} })
	add(func() interface{} {
		u := time.Unix(5, 6).UTC()
		return &c27Time{time.Unix(1, 2).UTC(), &u}
	})
	add(func() interface{} { return &c27Empty{} })
	return
}

// c27read is the reference: what a map over the exported fields of the struct contains
func c27read(sv reflect.Value) *model.V {
	m := model.M()
	for i := 0; i < sv.NumField(); i++ {
		f := sv.Type().Field(i)
		if f.Name[0] >= 'A' && f.Name[0] <= 'Z' {
			m.L = append(m.L, model.S(f.Name), c27go(sv.Field(i)))
		}
	}
	return m
}

func c27go(v reflect.Value) *model.V {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
		if v.IsNil() {
			return model.N()
		}
	}
	switch x := v.Interface().(type) {
	case dgo.Value:
		return model.Observe(x)
	case time.Time:
		return model.T(x)
	case []byte:
		return model.Y(string(x))
	}
	switch v.Kind() {
	case reflect.Bool:
		return model.B(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int64:
		return model.I(v.Int())
	case reflect.Float64:
		return model.F(v.Float())
	case reflect.String:
		return model.S(v.String())
	case reflect.Ptr:
		if v.Elem().Kind() == reflect.Struct && v.Elem().Type() != rtTime {
			break
		}
		return c27go(v.Elem())
	case reflect.Interface:
		return c27go(v.Elem())
	case reflect.Slice:
		a := model.A()
		for i := 0; i < v.Len(); i++ {
			a.L = append(a.L, c27go(v.Index(i)))
		}
		return a
	case reflect.Map:
		m := model.M()
		for _, k := range []string{"a", "b", "k", "x~", "~"} { // in order, all keys that are used
			if e := v.MapIndex(reflect.ValueOf(k)); e.IsValid() {
				m.L = append(m.L, model.S(k), c27go(e))
			}
		}
		if len(m.L) != 2*v.Len() {
			panic(fmt.Sprintf("unknown keys in %v", v.MapKeys()))
		}
		return m
	}
	return c27native(v.Interface())
}

func c27native(x interface{}) *model.V { return model.O(fmt.Sprintf("native %#v", x), nil) }

// c27observe is model.Observe with natives described by what they hold
func c27observe(m dgo.Map) *model.V {
	r := model.M()
	m.EachEntry(func(e dgo.MapEntry) { r.L = append(r.L, model.Observe(e.Key()), c27value(e.Value())) })
	return r
}

func c27value(v dgo.Value) *model.V {
	if n, ok := v.(dgo.Native); ok {
		return c27native(n.GoValue())
	}
	if a, ok := v.(dgo.Array); ok {
		r := model.A()
		a.Each(func(e dgo.Value) { r.L = append(r.L, c27value(e)) })
		return r
	}
	return model.Observe(v)
}

func hasNative(v *model.V) bool {
	if v.K == model.Other && strings.HasPrefix(v.S, "native ") {
		return true
	}
	for _, e := range v.L {
		if hasNative(e) {
			return true
		}
	}
	return false
}

// c27obj is a live map. Either it is backed by the struct that sp points to, or it must remain what it was.
type c27obj struct {
	m      dgo.Map
	sp     interface{}
	was    *model.V
	frozen bool
	label  string
}

type c27world struct {
	t     *fw.T
	s     interface{} // pointer to the struct
	objs  []*c27obj
	trace []string
	light bool // only compare content and lookups
}

func (w *c27world) fail(kind, format string, args ...interface{}) {
	w.t.Fatalf(kind, "", "%s after:\n   %s", fmt.Sprintf(format, args...), strings.Join(w.trace, "\n   "))
}

func (w *c27world) expected(o *c27obj) *model.V {
	if o.sp != nil {
		return c27read(reflect.ValueOf(o.sp).Elem())
	}
	return o.was
}

// mutableDgo tells if a field of the struct holds a mutable dgo value
func mutableDgo(m dgo.Map) bool {
	found := false
	m.EachValue(func(v dgo.Value) {
		if f, ok := v.(dgo.Freezable); ok && !f.Frozen() {
			if _, isNative := v.(dgo.Native); !isNative {
				found = true
			}
		}
	})
	return found
}

var c27probe = []string{"A", "B", "C", "D", "E", "M", "X", "Name", "Tags", "c27Base", "C27Pub", "a", "c", "Nope", ""}

func (w *c27world) check() {
	for _, o := range w.objs {
		exp := w.expected(o)
		w.checkMap(o, exp)
	}
}

func (w *c27world) checkMap(o *c27obj, exp *model.V) {
	bad := func(what string, got interface{}) {
		w.fail("wrong", "%s: %s is %v, expected the content %s", o.label, what, got, exp.Canon())
	}
	m := o.m
	if got := c27observe(m); got.Canon() != exp.Canon() {
		bad("content", got.Canon())
	}
	n := len(exp.L) / 2
	if m.Len() != n {
		bad("Len", m.Len())
	}
	if m.Frozen() != o.frozen {
		bad("Frozen", m.Frozen())
	}
	if o.frozen {
		if f := model.FrozenDeep(m); f != "" {
			bad("not frozen", f)
		}
	}
	ks := map[string]int{}
	for i := 0; i < n; i++ {
		k := exp.L[2*i].S
		ks[k] = i
		v := exp.L[2*i+1]
		for _, key := range []interface{}{k, vf.String(k)} {
			if g := m.Get(key); g == nil || c27value(g).Canon() != v.Canon() {
				bad("Get("+k+")", g)
			}
			if !m.ContainsKey(key) {
				bad("ContainsKey("+k+")", false)
			}
		}
		if e := m.Find(func(e dgo.MapEntry) bool { return e.Key().Equals(k) }); e == nil || c27value(e.Value()).Canon() != v.Canon() {
			bad("Find("+k+")", e)
		}
	}
	for _, k := range c27probe {
		if _, ok := ks[k]; !ok {
			if g := m.Get(k); g != nil {
				bad("Get("+k+")", g)
			}
			if m.ContainsKey(k) {
				bad("ContainsKey("+k+")", true)
			}
		}
	}
	if m.Get(3) != nil || m.ContainsKey(vf.Integer(3)) || m.Get(nil) != nil {
		bad("Get(3)", m.Get(3))
	}
	if w.light {
		return
	}
	pos, all := 0, true
	see := func(i int, k, v dgo.Value) {
		if i >= n || k != nil && k.String() != exp.L[2*i].S || v != nil && c27value(v).Canon() != exp.L[2*i+1].Canon() {
			all = false
		}
	}
	order := func(what string, f func()) {
		pos = 0
		f()
		if !all || pos != n {
			bad(what, fmt.Sprintf("wrong entries or number of calls (%d)", pos))
		}
	}
	order("EachEntry", func() { m.EachEntry(func(e dgo.MapEntry) { see(pos, e.Key(), e.Value()); pos++ }) })
	order("Each", func() {
		m.Each(func(e dgo.Value) { see(pos, e.(dgo.MapEntry).Key(), e.(dgo.MapEntry).Value()); pos++ })
	})
	order("EachKey", func() { m.EachKey(func(k dgo.Value) { see(pos, k, nil); pos++ }) })
	order("EachValue", func() { m.EachValue(func(v dgo.Value) { see(pos, nil, v); pos++ }) })
	order("All", func() { m.All(func(e dgo.MapEntry) bool { see(pos, e.Key(), e.Value()); pos++; return true }) })
	order("AllKeys", func() { m.AllKeys(func(k dgo.Value) bool { see(pos, k, nil); pos++; return true }) })
	order("AllValues", func() { m.AllValues(func(v dgo.Value) bool { see(pos, nil, v); pos++; return true }) })
	order("Any", func() { m.Any(func(e dgo.MapEntry) bool { see(pos, e.Key(), e.Value()); pos++; return false }) })
	order("AnyKey", func() { m.AnyKey(func(k dgo.Value) bool { see(pos, k, nil); pos++; return false }) })
	order("AnyValue", func() { m.AnyValue(func(v dgo.Value) bool { see(pos, nil, v); pos++; return false }) })
	order("Keys", func() { m.Keys().Each(func(k dgo.Value) { see(pos, k, nil); pos++ }) })
	order("Values", func() { m.Values().Each(func(v dgo.Value) { see(pos, nil, v); pos++ }) })
	for stop := 0; stop < n; stop++ {
		calls := 0
		if m.All(func(dgo.MapEntry) bool { calls++; return calls <= stop }) || calls != stop+1 {
			bad("All", "doesn't stop")
		}
		calls = 0
		if !m.Any(func(dgo.MapEntry) bool { calls++; return calls > stop }) || calls != stop+1 {
			bad("Any", "doesn't stop")
		}
		calls = 0
		if m.AllKeys(func(dgo.Value) bool { calls++; return calls <= stop }) || calls != stop+1 {
			bad("AllKeys", "doesn't stop")
		}
		calls = 0
		if m.AllValues(func(dgo.Value) bool { calls++; return calls <= stop }) || calls != stop+1 {
			bad("AllValues", "doesn't stop")
		}
		calls = 0
		if !m.AnyKey(func(dgo.Value) bool { calls++; return calls > stop }) || calls != stop+1 {
			bad("AnyKey", "doesn't stop")
		}
		calls = 0
		if !m.AnyValue(func(dgo.Value) bool { calls++; return calls > stop }) || calls != stop+1 {
			bad("AnyValue", "doesn't stop")
		}
	}
	if m.Find(func(dgo.MapEntry) bool { return false }) != nil {
		bad("Find nothing", "something")
	}
	if !m.StringKeys() {
		bad("StringKeys", false)
	}
	if hasNative(exp) {
		return
	}
	ref := exp.Build(true).(dgo.Map)
	if !m.Equals(ref) || !ref.Equals(m) || !m.Equals(m) {
		bad("equal to "+ref.String(), false)
	}
	if m.HashCode() != ref.HashCode() {
		bad("hash code", "another one than that of "+ref.String())
	}
	if m.String() != ref.String() {
		bad("String", m.String())
	}
	if !ref.Type().Instance(m) || !m.Type().Instance(ref) {
		bad("type", m.Type())
	}
	if n > 0 {
		other := ref.Without(exp.L[0].S)
		if m.Equals(other) || other.Equals(m) || m.Type().Instance(other) {
			bad("equal to "+other.String(), true)
		}
		other = ref.With(exp.L[2*n-2].S, "something else")
		if m.Equals(other) || other.Equals(m) {
			bad("equal to "+other.String(), true)
		}
		other = ref.Without(exp.L[0].S).With("Zzz", exp.L[1].Build(true))
		if m.Equals(other) || other.Equals(m) {
			bad("equal to "+other.String(), true)
		}
	}
	if other := ref.With("Name", "n"); m.Get("Name") == nil && (m.Equals(other) || other.Equals(m)) {
		bad("equal to "+other.String(), true)
	}
}

// c27op is an operation on the object at the given index. It returns false if it isn't applicable.
type c27op struct {
	name string
	run  func(w *c27world, o *c27obj) bool
}

// unchanged runs f, which must fail, and demands that the struct is what it was
func (w *c27world) mustFail(what string, o *c27obj, f func()) {
	before := w.expected(o).Canon()
	p, rt := fw.Try(f)
	if p == nil {
		w.fail("accepted", "%s: %s didn't fail", o.label, what)
	}
	if rt {
		w.fail("runtime error", "%s: %s fails with a Go runtime error: %v", o.label, what, p)
	}
	if after := w.expected(o).Canon(); after != before {
		w.fail("partial", "%s: %s failed but changed the struct from %s to %s", o.label, what, before, after)
	}
}

func (w *c27world) put(o *c27obj, k string, mv *model.V, all bool) {
	d := mv.Build(mv.K != model.Arr)
	do := func() {
		if all {
			o.m.PutAll(vf.Map(k, mv.Build(true)))
			return
		}
		old := o.m.Get(k)
		var oldc string
		if old != nil {
			oldc = c27value(old).Canon()
			if _, ok := old.(dgo.Native); ok { // is the field itself
				o.m.Put(k, d)
				return
			}
		}
		if got := o.m.Put(k, d); (got == nil) != (old == nil) || got != nil && c27value(got).Canon() != oldc {
			w.fail("wrong", "%s: Put(%s) returned %v and not the old value %s", o.label, k, got, oldc)
		}
	}
	what := fmt.Sprintf("Put(%s, %s)", k, mv.Canon())
	if o.frozen {
		w.mustFail(what, o, do)
		return
	}
	if o.sp == nil { // an ordinary map
		nm := o.was.Copy()
		nm.Put(model.S(k), mv)
		do()
		o.was = nm
		return
	}
	sf, ok := reflect.TypeOf(o.sp).Elem().FieldByName(k)
	if !ok || len(sf.Index) > 1 || sf.PkgPath != "" {
		w.mustFail(what, o, do)
		return
	}
	check, res := refToGo(mv, sf.Type)
	if strings.HasPrefix(sf.Type.Name(), "C27") || sf.Type.Kind() == reflect.Ptr && sf.Type.Elem().Kind() == reflect.Struct && sf.Type.Elem() != rtTime {
		check, res = nil, goFail
		if mv.K == model.Nil {
			res = goAny
		}
	}
	exp := w.expected(o)
	switch res {
	case goFail:
		w.mustFail(what, o, do)
	case goOK:
		if p, _ := fw.Try(do); p != nil {
			w.fail("rejected", "%s: %s failed: %v", o.label, what, p)
		}
		fv := reflect.ValueOf(o.sp).Elem().FieldByName(k)
		if check != nil {
			if d := check(fv); d != "" {
				w.fail("wrong", "%s: %s gives the field the value %s", o.label, what, d)
			}
		}
		exp.Put(model.S(k), c27go(fv))
		if now := w.expected(o); now.Canon() != exp.Canon() {
			w.fail("wrong", "%s: %s gives %s, expected %s", o.label, what, now.Canon(), exp.Canon())
		}
	case goAny:
		_, _ = fw.Try(do)
	}
}

func (w *c27world) add(m dgo.Map, o *c27obj, exp *model.V, frozen bool, label string) {
	if len(w.objs) < 4 {
		w.objs = append(w.objs, &c27obj{m: m, was: exp, frozen: frozen, label: label + " of " + o.label})
	}
}

func c27ops(deep bool) (ops []*c27op) {
	add := func(name string, f func(w *c27world, o *c27obj) bool) { ops = append(ops, &c27op{name, f}) }
	vals := []*model.V{model.N(), model.I(7), model.I(300), model.S("s"), model.A(model.S("k"), model.S("l")), model.M(model.S("k"), model.I(2))}
	if deep {
		vals = append(vals, model.F(0.5), model.B(true), model.Y("yy"), model.A(model.I(1)), model.A(), model.A(model.A(model.I(9))), model.M(model.S("k"), model.S("v")), model.M(model.S("k"), model.A(model.S("v"))),
			model.T(time.Unix(3, 4).UTC()), model.A(model.S("x"), model.N()), model.X(model.I(1)), model.A(model.S("x"), model.I(1)))
	}
	for i := 0; i < 5; i++ { // by position so that all structs have a use for each operation
		i := i
		for _, mv := range vals {
			mv := mv
			for _, all := range []bool{false, true} {
				all := all
				if all && !deep {
					continue
				}
				add(fmt.Sprintf("put %d %s %t", i, mv.Canon(), all), func(w *c27world, o *c27obj) bool {
					exp := w.expected(o)
					keys := []string{}
					for k := 0; k < len(exp.L); k += 2 {
						keys = append(keys, exp.L[k].S)
					}
					st := reflect.TypeOf(w.s).Elem()
					for k := 0; k < st.NumField(); k++ {
						if st.Field(k).PkgPath != "" {
							keys = append(keys, st.Field(k).Name)
						}
						if st.Field(k).Anonymous {
							keys = append(keys, "Name")
						}
					}
					keys = append(keys, "Nope")
					if i >= len(keys) {
						return false
					}
					w.put(o, keys[i], mv, all)
					return true
				})
			}
		}
	}
	if deep {
		add("remove", func(w *c27world, o *c27obj) bool {
			if o.sp == nil && !o.frozen {
				return false
			}
			if exp := w.expected(o); len(exp.L) > 0 {
				w.mustFail("Remove", o, func() { o.m.Remove(exp.L[0].S) })
				w.mustFail("RemoveAll", o, func() { o.m.RemoveAll(vf.Strings(exp.L[0].S)) })
			}
			if o.frozen || o.sp != nil {
				w.mustFail("Put of a key that isn't a string", o, func() { o.m.Put(3, 1) })
				w.mustFail("PutAll of keys that aren't strings", o, func() { o.m.PutAll(vf.Map(3, 1)) })
			}
			return true
		})
	}
	canFreeze := func(w *c27world, o *c27obj) bool { return !hasNative(w.expected(o)) }
	add("Freeze", func(w *c27world, o *c27obj) bool {
		if !canFreeze(w, o) {
			return false
		}
		exp := w.expected(o)
		o.m.Freeze()
		if now := w.expected(o); now.Canon() != exp.Canon() {
			w.fail("wrong", "%s: Freeze changed the struct from %s to %s", o.label, exp.Canon(), now.Canon())
		}
		o.sp, o.was, o.frozen = nil, exp, true
		return true
	})
	add("FrozenCopy", func(w *c27world, o *c27obj) bool {
		if !canFreeze(w, o) {
			return false
		}
		w.add(o.m.FrozenCopy().(dgo.Map), o, w.expected(o), true, "FrozenCopy")
		return true
	})
	add("ThawedCopy", func(w *c27world, o *c27obj) bool {
		c := o.m.ThawedCopy().(dgo.Map)
		if s, ok := c.(dgo.Struct); ok {
			if len(w.objs) < 4 {
				if c27read(reflect.ValueOf(s.GoStruct()).Elem()).Canon() != w.expected(o).Canon() {
					w.fail("wrong", "thawed copy has another struct")
				}
				w.objs = append(w.objs, &c27obj{m: c, sp: s.GoStruct(), label: "ThawedCopy of " + o.label})
			}
			if s.GoStruct() == w.s && reflect.TypeOf(w.s).Elem().Size() > 0 {
				w.fail("shared", "the thawed copy is backed by the same struct")
			}
			return true
		}
		w.add(c, o, w.expected(o), false, "ThawedCopy")
		return true
	})
	add("GoStruct", func(w *c27world, o *c27obj) bool {
		s, ok := o.m.(dgo.Struct)
		if !ok {
			return false
		}
		g := s.GoStruct()
		if o.sp != nil {
			if g != o.sp {
				w.fail("wrong", "%s: GoStruct is not the struct", o.label)
			}
			return true
		}
		if c27read(reflect.ValueOf(g).Elem()).Canon() != o.was.Canon() {
			w.fail("wrong", "%s: GoStruct is %#v", o.label, g)
		}
		for _, p := range places(reflect.ValueOf(g), "x", 0, true) {
			_, _ = fw.Try(p.change)
		}
		return true
	})
	add("ReflectTo", func(w *c27world, o *c27obj) bool {
		if _, ok := o.m.(dgo.Struct); !ok {
			return false
		}
		st := reflect.TypeOf(w.s).Elem()
		exp := w.expected(o).Canon()
		for _, d := range []reflect.Value{reflect.New(st), reflect.New(reflect.PtrTo(st))} {
			vf.ReflectTo(o.m, d.Elem())
			e := d.Elem()
			if e.Kind() == reflect.Ptr {
				if (e.Interface() == o.sp) != (o.sp != nil) {
					w.fail("wrong", "%s: ReflectTo a pointer gives another struct", o.label)
				}
				e = e.Elem()
			}
			if got := c27read(e); got.Canon() != exp {
				w.fail("wrong", "%s: ReflectTo gives %s", o.label, got.Canon())
			}
			if o.sp == nil {
				for _, p := range places(d.Elem(), "x", 0, true) {
					_, _ = fw.Try(p.change)
				}
			}
		}
		return true
	})
	derive := func(name string, f func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V)) {
		add(name, func(w *c27world, o *c27obj) bool {
			if mutableDgo(o.m) {
				return false
			}
			exp := w.expected(o)
			if hasNative(exp) && name != "Copy(false)" {
				return false // natives are views of the field
			}
			m, nv := f(w, o, exp.Copy())
			if m == o.m {
				if !o.frozen && nv != nil && len(exp.L) > 0 {
					w.fail("shared", "%s: %s returned the map itself", o.label, name)
				}
				return true
			}
			// mutable results may only arise from mutable maps
			if m.Frozen() && !o.frozen {
				w.fail("wrong", "%s: %s is frozen", o.label, name)
			}
			w.add(m, o, nv, m.Frozen(), name)
			return true
		})
	}
	derive("Copy(true)", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
		if hasNative(exp) {
			return o.m, nil
		}
		m := o.m.Copy(true)
		if !m.Frozen() {
			w.fail("wrong", "Copy(true) isn't frozen")
		}
		w.add(m, o, exp, true, "Copy(true)")
		return o.m, nil
	})
	derive("Copy(false)", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
		m := o.m.Copy(false)
		if s, ok := m.(dgo.Struct); ok {
			if len(w.objs) < 4 {
				w.objs = append(w.objs, &c27obj{m: m, sp: s.GoStruct(), label: "Copy(false) of " + o.label})
			}
			return o.m, nil
		}
		return m, exp
	})
	key := func(exp *model.V) string {
		if len(exp.L) > 0 {
			return exp.L[0].S
		}
		return "Nope"
	}
	arr := model.A(model.S("w"))
	derive("With existing", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
		k := key(exp)
		exp.Put(model.S(k), arr)
		return o.m.With(k, arr.Build(o.frozen)), exp
	})
	derive("With mutable", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
		exp.Put(model.S("Nope"), arr)
		x := vf.MutableValues("w")
		m := o.m.With("Nope", x)
		if o.frozen {
			x.Add("changed")
		}
		return m, exp
	})
	derive("Without", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
		k := key(exp)
		exp.Remove(model.S(k))
		return o.m.Without(k), exp
	})
	derive("WithoutAll", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
		k := key(exp)
		exp.Remove(model.S(k))
		exp.Remove(model.S("Nope"))
		return o.m.WithoutAll(vf.Values(k, "Nope", 3)), exp
	})
	if deep {
		derive("WithoutAll missing", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
			exp.Remove(model.S("Nope"))
			return o.m.WithoutAll(vf.Values("Nope", 3)), exp
		})
		derive("WithoutAll none", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
			return o.m.WithoutAll(vf.Values()), exp
		})
	}
	derive("Merge", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
		k := key(exp)
		exp.Put(model.S(k), arr)
		exp.Put(model.S("Nope"), model.I(1))
		return o.m.Merge(vf.Map(k, []string{"w"}, "Nope", 1)), exp
	})
	derive("merged into", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
		nv := model.M(model.S("Nope"), model.I(1))
		for i := 0; i < len(exp.L); i += 2 {
			nv.Put(exp.L[i], exp.L[i+1])
		}
		if hasNative(exp) {
			return o.m, nil
		}
		m := vf.Map("Nope", 1).Merge(o.m)
		if !m.Frozen() {
			w.fail("wrong", "a frozen map merged with a struct isn't frozen")
		}
		w.add(m, o, nv, true, "merged into frozen")
		m = vf.MutableMap("Nope", 1)
		m.PutAll(o.m)
		return m, nv
	})
	derive("Map", func(w *c27world, o *c27obj, exp *model.V) (dgo.Map, *model.V) {
		for i := 0; i < len(exp.L); i += 2 {
			exp.L[i+1] = model.A(exp.L[i], model.I(1))
		}
		var xs []dgo.Array
		m := o.m.Map(func(e dgo.MapEntry) interface{} {
			x := vf.MutableValues(e.Key(), 1)
			xs = append(xs, x)
			return x
		})
		if o.frozen {
			for _, x := range xs {
				x.Add("changed")
			}
		}
		return m, exp
	})
	add("second map", func(w *c27world, o *c27obj) bool {
		if len(w.objs) < 4 {
			w.objs = append(w.objs, &c27obj{m: vf.Map(w.s), sp: w.s, label: "second map"})
		}
		return true
	})
	add("map of value", func(w *c27world, o *c27obj) bool {
		if len(w.objs) < 4 {
			s := reflect.ValueOf(w.s).Elem().Interface()
			m := vf.Map(s)
			g := m.(dgo.Struct).GoStruct()
			if g == w.s && reflect.TypeOf(w.s).Elem().Size() > 0 {
				w.fail("shared", "the map of a struct is backed by another struct")
			}
			w.objs = append(w.objs, &c27obj{m: m, sp: g, label: "map of the struct"})
		}
		return true
	})
	// modifications through Go
	for n := 0; n < 12; n++ {
		n := n
		add(fmt.Sprintf("Go %d", n), func(w *c27world, o *c27obj) bool {
			if o != w.objs[0] {
				return false
			}
			ps := places(reflect.ValueOf(w.s), "s", 0, false)
			if n >= len(ps) {
				return false
			}
			w.trace[len(w.trace)-1] += " " + ps[n].path
			if p, _ := fw.Try(ps[n].change); p != nil {
				return false
			}
			return true
		})
	}
	// modifications of all values that are handed out by frozen maps, and of values of mutable ones that are conversions
	add("attack", func(w *c27world, o *c27obj) bool {
		o.m.EachValue(func(v dgo.Value) {
			if !o.frozen && o.sp == nil {
				return
			}
			if f, ok := v.(dgo.Freezable); ok && f.Frozen() {
				for _, p := range dgoPlaces(v, "v", 0) {
					_, _ = fw.Try(p.change)
				}
			}
		})
		for _, a := range []dgo.Array{o.m.Keys()} {
			_, _ = fw.Try(func() { a.Set(0, "changed") })
			_, _ = fw.Try(func() { a.Add("changed") })
		}
		vs := o.m.Values()
		_, _ = fw.Try(func() { vs.Set(0, "changed") })
		_, _ = fw.Try(func() { vs.Add("changed") })
		return true
	})
	return
}

func runC27(c *fw.C) {
	shapes := c27shapes()
	explore := func(stage string, depth int, ops []*c27op) {
		c.Stage(stage)
		for si, mk := range shapes {
			for fi := range ops {
				si, mk, fi := si, mk, fi
				c.Case(func() string { return fmt.Sprintf("%T %d %s", mk(), si, ops[fi].name) }, func(t *fw.T) {
					run := func(hist [][2]int) (w *c27world, ok bool) {
						s := mk()
						w = &c27world{t: t, s: s, light: depth > 2 && len(hist) > 2}
						w.objs = []*c27obj{{m: vf.Map(s), sp: s, label: "the map"}}
						for i, h := range hist {
							if h[1] >= len(w.objs) {
								return w, false
							}
							o := w.objs[h[1]]
							op := ops[h[0]]
							w.trace = append(w.trace, o.label+": "+op.name)
							if !op.run(w, o) {
								return w, false
							}
							if i == len(hist)-1 {
								w.check()
								t.Count("transitions", 1)
								t.Outcome(fmt.Sprintf("%T %s", s, op.name))
							}
						}
						return w, true
					}
					var rec func(hist [][2]int)
					rec = func(hist [][2]int) {
						if t.Expired() {
							return
						}
						w, ok := run(hist)
						if !ok {
							return
						}
						st := ""
						for _, o := range w.objs {
							st += o.label[:3] + w.expected(o).Canon() + ";"
						}
						t.State(st)
						if len(hist) == depth {
							return
						}
						for n := range w.objs {
							for j := range ops {
								rec(append(append([][2]int{}, hist...), [2]int{j, n}))
							}
						}
					}
					rec([][2]int{{fi, 0}})
				})
			}
		}
	}
	if c.Thorough {
		explore("two steps, all values", 2, c27ops(true))
		explore("four steps", 4, c27ops(false))
		return
	}
	explore("two steps, all values", 2, c27ops(true))
	explore("three steps", 3, c27ops(false))
}
