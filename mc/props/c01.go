package props

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C01: a frozen value never changes.
//
// For every frozen value the whole public method set of the value, and of everything that the methods hand out, is called
// (found by reflection) with every argument of a small alphabet. Everything handed out (slices, byte buffers, pointers, callback
// arguments, mutable copies) and everything handed in is then modified. The observable content of the frozen value must
// be the same after every single step.

func init() {
	fw.Register(&fw.Check{ID: "C01", Level: "model_checking", Rule: "every sequence of two calls of any method (all methods found by reflection, all arguments of a small alphabet) on every frozen value shape and what it hands out, followed by every modification of everything handed in or out; a state is the content of the frozen value plus the call sequence class; an outcome is a distinct (shape, call) pair that was executed", Run: runC01,
		Assumptions: []string{"regexps and errors are handed out by reference by design of the Go API and not modified", "maps backed by a pointer to a Go struct are frozen by copy; in place freeze of a struct map is explored in C27"}})
}

type attacker struct {
	t     *fw.T
	root  dgo.Value
	canon string
	hash  int
	str   string
	trace []string
	calls int64
}

func newAttacker(t *fw.T, root dgo.Value) *attacker {
	a := &attacker{t: t, root: root}
	a.canon = model.Observe(root).Canon()
	a.hash = root.HashCode()
	a.str = root.String()
	return a
}

func (a *attacker) check(what string) {
	c := model.Observe(a.root).Canon()
	if c != a.canon {
		a.t.Fatalf("changed", "", "frozen value changed from %s to %s by:\n   %s", a.canon, c, strings.Join(append(a.trace, what), "\n   "))
	}
	if s := a.root.String(); s != a.str {
		a.t.Fatalf("changed", "", "text of frozen value changed from %s to %s by:\n   %s", a.str, s, strings.Join(append(a.trace, what), "\n   "))
	}
	if h := a.root.HashCode(); h != a.hash {
		a.t.Fatalf("changed", "", "hash of frozen value changed by:\n   %s", strings.Join(append(a.trace, what), "\n   "))
	}
	if p := model.FrozenDeep(a.root); p != "" {
		a.t.Fatalf("thawed", "", "%s is no longer frozen after:\n   %s", p, strings.Join(append(a.trace, what), "\n   "))
	}
}

var (
	tValue    = reflect.TypeOf((*dgo.Value)(nil)).Elem()
	tIface    = reflect.TypeOf((*interface{})(nil)).Elem()
	tIterable = reflect.TypeOf((*dgo.Iterable)(nil)).Elem()
	tArray    = reflect.TypeOf((*dgo.Array)(nil)).Elem()
	tMap      = reflect.TypeOf((*dgo.Map)(nil)).Elem()
	tIndenter = reflect.TypeOf((*dgo.Indenter)(nil)).Elem()
	tReflect  = reflect.TypeOf(reflect.Value{})
	tSlice    = reflect.TypeOf([]dgo.Value{})
	tError    = reflect.TypeOf((*error)(nil)).Elem()
)

func argMutArr() dgo.Array { return vf.MutableValues("a", vf.MutableValues(3)) }
func argMutMap() dgo.Map {
	return vf.MutableMap("a", vf.MutableValues(3), vf.Values("k"), vf.MutableMap("x", 1))
}

// argGens returns the argument alphabet of a parameter type. The generators produce a fresh argument per call and append
// everything worth attacking to out. A nil result means that the type can't be produced.
func argGens(pt reflect.Type) []func(out *[]interface{}) reflect.Value {
	type gen = func(out *[]interface{}) reflect.Value
	of := func(f func() interface{}) gen {
		return func(out *[]interface{}) reflect.Value {
			v := f()
			*out = append(*out, v)
			rv := reflect.New(pt).Elem()
			rv.Set(reflect.ValueOf(v))
			return rv
		}
	}
	switch {
	case pt.Kind() == reflect.Int:
		return []gen{of(func() interface{} { return 0 }), of(func() interface{} { return 1 })}
	case pt.Kind() == reflect.Bool:
		return []gen{of(func() interface{} { return true }), of(func() interface{} { return false })}
	case pt == tValue || pt == tIface:
		return []gen{of(func() interface{} { return vf.String("a") }), of(func() interface{} { return vf.Integer(1) }), of(func() interface{} { return argMutArr() })}
	case pt == tIterable || pt == tArray:
		return []gen{of(func() interface{} { return argMutArr() })}
	case pt == tMap:
		return []gen{of(func() interface{} { return argMutMap() })}
	case pt == tIndenter:
		return []gen{of(func() interface{} { return util.NewIndenter("  ") }), of(func() interface{} { return util.NewIndenter("") })}
	case pt == tSlice:
		return []gen{of(func() interface{} { return make([]dgo.Value, 0, 8) }), of(func() interface{} { return []dgo.Value{vf.String("z")} })}
	case pt == tReflect:
		var gs []gen
		for _, p := range []interface{}{new(interface{}), new([]dgo.Value), new([]interface{}), new(map[string]interface{}), new(map[interface{}]interface{}), new([]byte), new(*[]byte), new(*string), new(string), new(*int64), new(*float64), new(*bool), new(dgo.Value), new(dgo.Array), new(map[string]dgo.Value), new(*map[string]dgo.Value), new(*[]dgo.Value), new(time.Time), new(*time.Time), new([][]dgo.Value), new([][]byte), new(map[string][]dgo.Value), new(map[string][]byte)} {
			pt := reflect.TypeOf(p).Elem()
			gs = append(gs, func(out *[]interface{}) reflect.Value {
				np := reflect.New(pt)
				*out = append(*out, np.Interface())
				return reflect.ValueOf(np.Elem())
			})
		}
		return gs
	case pt.Kind() == reflect.Func:
		var gs []gen
		for variant := 0; variant < 3; variant++ {
			variant := variant
			if pt.NumOut() == 0 && variant > 0 {
				break
			}
			if pt.NumOut() == 1 && pt.Out(0).Kind() == reflect.Bool && variant > 1 {
				break
			}
			gs = append(gs, func(out *[]interface{}) reflect.Value {
				return reflect.MakeFunc(pt, func(args []reflect.Value) []reflect.Value {
					for _, x := range args {
						if x.CanInterface() && len(*out) < 40 {
							*out = append(*out, x.Interface())
						}
					}
					if pt.NumOut() == 0 {
						return nil
					}
					ot := pt.Out(0)
					r := reflect.New(ot).Elem()
					switch {
					case ot.Kind() == reflect.Bool:
						r.SetBool(variant == 0)
					case ot.Kind() == reflect.Interface && variant == 0 && len(args) > 0 && args[0].Type().Implements(ot):
						r.Set(args[0])
					case ot.Kind() == reflect.Interface && variant == 1 && reflect.TypeOf((*dgo.Array)(nil)).Elem().Implements(ot):
						m := argMutArr()
						*out = append(*out, m)
						r.Set(reflect.ValueOf(m))
					}
					return []reflect.Value{r}
				})
			})
		}
		return gs
	}
	return nil
}

// forbidden methods aren't part of the public API of values
var skipMethods = map[string]bool{"Resolve": true, "Format": true}

type call struct {
	name string
	args []func(out *[]interface{}) reflect.Value
	id   string
}

// calls enumerates all methods with all argument combinations
func callsOf(v interface{}) (cs []call) {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() {
		return
	}
	rt := rv.Type()
	for i := 0; i < rt.NumMethod(); i++ {
		m := rt.Method(i)
		if m.PkgPath != "" || skipMethods[m.Name] {
			continue
		}
		mt := rv.Method(i).Type()
		combos := [][]func(out *[]interface{}) reflect.Value{nil}
		ok := true
		n := mt.NumIn()
		for p := 0; p < n; p++ {
			pt := mt.In(p)
			if mt.IsVariadic() && p == n-1 {
				pt = pt.Elem()
			}
			gs := argGens(pt)
			if gs == nil {
				ok = false
				break
			}
			var nc [][]func(out *[]interface{}) reflect.Value
			for _, c := range combos {
				for _, g := range gs {
					nc = append(nc, append(append([]func(out *[]interface{}) reflect.Value{}, c...), g))
				}
			}
			combos = nc
		}
		if !ok {
			continue
		}
		for j, c := range combos {
			cs = append(cs, call{m.Name, c, fmt.Sprintf("%s#%d", m.Name, j)})
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	return
}

// perform executes the call and returns everything that was handed in and out
func (a *attacker) perform(v interface{}, c call) (things []interface{}) {
	a.calls++
	_, _ = fw.Try(func() {
		var args []reflect.Value
		for _, g := range c.args {
			args = append(args, g(&things))
		}
		rs := reflect.ValueOf(v).MethodByName(c.name).Call(args)
		for _, r := range rs {
			if r.CanInterface() {
				things = append(things, r.Interface())
			}
		}
	})
	return
}

// attack modifies x in every way and, when depth allows it, calls all of its methods
func (a *attacker) attack(x interface{}, depth int) {
	if x == nil {
		return
	}
	switch v := x.(type) {
	case *regexp.Regexp, *time.Time, error, string, bool, int, int64, float64, dgo.TypeIdentifier, reflect.Type, dgo.Indenter:
		return
	case []byte:
		for i := range v {
			v[i] ^= 0xff
		}
		v2 := v[:cap(v)]
		for i := range v2 {
			v2[i] ^= 0x55
		}
		a.check("modified a byte slice")
		return
	case []dgo.Value:
		for i := range v {
			if depth > 0 {
				a.attack(v[i], depth-1)
			}
			v[i] = vf.String("overwritten")
		}
		v2 := v[:cap(v)]
		for i := range v2 {
			v2[i] = vf.String("overwritten beyond")
		}
		a.check("modified a []dgo.Value")
		return
	case []interface{}:
		for i := range v {
			if depth > 0 {
				a.attack(v[i], depth-1)
			}
			v[i] = "overwritten"
		}
		a.check("modified a []interface{}")
		return
	case dgo.Value:
		a.attackValue(v, depth)
		return
	case reflect.Value:
		return
	}
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Ptr:
		if rv.IsNil() {
			return
		}
		e := rv.Elem()
		if e.CanInterface() {
			a.attack(e.Interface(), depth)
		}
		if e.CanSet() && e.Kind() != reflect.Interface {
			if e.Kind() == reflect.Struct && e.Type() != reflect.TypeOf(time.Time{}) {
				return
			}
			e.Set(reflect.Zero(e.Type()))
			a.check("modified through a " + rv.Type().String())
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			if depth > 0 && rv.MapIndex(k).CanInterface() {
				a.attack(rv.MapIndex(k).Interface(), depth-1)
			}
			rv.SetMapIndex(k, reflect.Value{})
		}
		a.check("modified a Go map")
	case reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			if rv.Index(i).CanInterface() {
				a.attack(rv.Index(i).Interface(), depth-1)
			}
			rv.Index(i).Set(reflect.Zero(rv.Type().Elem()))
		}
		a.check("modified a " + rv.Type().String())
	}
}

// attackValue calls all methods of a value. What is handed out is attacked in turn. Mutators are among the methods.
func (a *attacker) attackValue(v dgo.Value, depth int) {
	if _, ok := v.(dgo.Type); ok && depth < 1 {
		return
	}
	switch v.(type) {
	case dgo.Array, dgo.Map, dgo.Binary, dgo.MapEntry, dgo.Sensitive, dgo.Type, dgo.String, dgo.Time:
	default:
		return
	}
	for _, c := range callsOf(v) {
		n := len(a.trace)
		a.trace = append(a.trace, fmt.Sprintf("%T.%s", v, c.id))
		things := a.perform(v, c)
		a.check("")
		if depth > 0 {
			for _, th := range things {
				a.frozenResult(th) // before the attacks. They may freeze what isn't frozen
			}
			for _, th := range things {
				a.attack(th, depth-1)
			}
		}
		a.trace = a.trace[:n]
	}
}

// frozenResult: a frozen result must be frozen at every level
func (a *attacker) frozenResult(x interface{}) {
	if v, ok := x.(dgo.Freezable); ok && v.Frozen() {
		switch v.(type) {
		case dgo.Array, dgo.Map, dgo.Binary, dgo.Sensitive, dgo.MapEntry:
			if p := model.FrozenDeep(v.(dgo.Value)); p != "" {
				a.t.Fatalf("shallow-frozen", "", "%s claims to be frozen but contains %s, obtained by:\n   %s", v, p, strings.Join(a.trace, "\n   "))
			}
		}
	}
}

func c01Shapes(thorough bool) []*model.V {
	s, i, a, m, y, x := model.S, model.I, model.A, model.M, model.Y, model.X
	sh := []*model.V{
		a(), a(i(1)), a(s("a"), i(1)), m(), m(s("a"), i(1)), y("bin"), y(""),
		a(a(i(1)), m(s("a"), i(1))),
		m(s("a"), a(i(1), s("b")), s("b"), m(s("c"), a(i(2)))),
		m(a(i(1), a(s("k"))), y("v"), s("a"), y("w")),
		m(m(s("a"), i(1)), i(2)),
		a(y("bin"), x(a(y("secret")))),
		x(a(i(1))), x(m(s("a"), y("q"))), x(y("z")),
		m(s("a"), x(m(s("a"), a(i(1))))),
		a(a(a(a(i(1))))), m(s("a"), m(s("a"), m(s("a"), m(s("a"), i(1))))),
		s("text"), model.T(time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)), a(model.T(time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)), s("str")),
		m(s("a"), model.T(time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)), s("b"), s("str")),
		a(s("a"), i(1), s("b"), a(i(2))), a(a(s("k"), a(i(1))), a(s("l"), i(2))),
	}
	if thorough {
		leaf := []*model.V{i(1), a(i(1)), m(s("a"), i(1)), y("b"), x(a(i(1)))}
		for _, p := range leaf {
			for _, q := range leaf {
				sh = append(sh, a(p, q), m(s("a"), p, q, q), a(a(p), m(s("a"), q)))
			}
		}
	}
	return sh
}

type freezeWay struct {
	name string
	mk   func(m *model.V) dgo.Value
}

func freezeWays() []freezeWay {
	fz := func(v dgo.Value) dgo.Value {
		if f, ok := v.(dgo.Freezable); ok {
			f.Freeze()
		}
		return v
	}
	fc := func(v dgo.Value) dgo.Value {
		if f, ok := v.(dgo.Freezable); ok {
			return f.FrozenCopy()
		}
		return v
	}
	return []freezeWay{
		{"built frozen", func(m *model.V) dgo.Value { return fz(m.Build(true)) }},
		{"Freeze()", func(m *model.V) dgo.Value { return fz(m.Build(false)) }},
		{"FrozenCopy()", func(m *model.V) dgo.Value { return fc(m.Build(false)) }},
		{"ThawedCopy().FrozenCopy()", func(m *model.V) dgo.Value {
			v := fc(m.Build(false))
			if f, ok := v.(dgo.Freezable); ok {
				return fc(f.ThawedCopy())
			}
			return v
		}},
		{"constructor", func(m *model.V) dgo.Value {
			switch m.K {
			case model.Arr:
				return vf.Values(flatArgs(m.L, false)...)
			case model.Map:
				return vf.Map(flatArgs(m.L, false)...)
			case model.Bin:
				return vf.Binary([]byte(m.S), true)
			}
			return fc(m.Build(false))
		}},
		{"nested in frozen", func(m *model.V) dgo.Value { return vf.Values(m.Build(false)).Get(0) }},
		{"value of a frozen map", func(m *model.V) dgo.Value { return vf.Map("k", m.Build(false)).Get("k") }},
		{"key of a map", func(m *model.V) dgo.Value { return vf.MutableMap(m.Build(false), 1).Keys().Get(0) }},
		{"With on frozen", func(m *model.V) dgo.Value { return vf.Values().With(m.Build(false)).Get(0) }},
		{"vf.Array", func(m *model.V) dgo.Value {
			if m.K == model.Arr {
				return vf.Array(m.Build(false).(dgo.Array).GoSlice())
			}
			return vf.Array([]interface{}{m.Build(false)}).Get(0)
		}},
	}
}

// structShapes are maps that a Go struct can hold
func structShapes() []*model.V {
	s, i, a, m, y, x := model.S, model.I, model.A, model.M, model.Y, model.X
	return []*model.V{
		m(s("A"), i(1)),
		m(s("A"), a(i(1), i(2))),
		m(s("A"), m(s("a"), i(1)), s("B"), y("bin")),
		m(s("A"), a(a(i(1))), s("B"), a(m(s("a"), a(i(2))))),
		m(s("A"), x(a(i(1)))),
	}
}

// structWays create frozen maps of Go structs
func structWays() []freezeWay {
	mk := func(m *model.V, conv func(v *model.V) reflect.Value) reflect.Value {
		var fs []reflect.StructField
		var vs []reflect.Value
		for k := 0; k < len(m.L); k += 2 {
			v := conv(m.L[k+1])
			fs = append(fs, reflect.StructField{Name: m.L[k].S, Type: v.Type()})
			vs = append(vs, v)
		}
		p := reflect.New(reflect.StructOf(fs))
		for k, v := range vs {
			p.Elem().Field(k).Set(v)
		}
		return p
	}
	dgoField := func(v *model.V) reflect.Value {
		x := v.Build(false)
		p := reflect.New(reflect.TypeOf((*dgo.Value)(nil)).Elem()).Elem()
		p.Set(reflect.ValueOf(x))
		return p
	}
	var goField func(v *model.V) reflect.Value
	goField = func(v *model.V) reflect.Value {
		switch v.K {
		case model.Int:
			return reflect.ValueOf(v.I)
		case model.Bin:
			return reflect.ValueOf([]byte(v.S))
		case model.Arr:
			e := goField(v.L[0])
			sl := reflect.MakeSlice(reflect.SliceOf(e.Type()), 0, len(v.L)+2)
			for _, x := range v.L {
				sl = reflect.Append(sl, goField(x))
			}
			return sl
		case model.Map:
			e := goField(v.L[1])
			mp := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), e.Type()))
			for k := 0; k < len(v.L); k += 2 {
				mp.SetMapIndex(reflect.ValueOf(v.L[k].S), goField(v.L[k+1]))
			}
			return mp
		}
		return dgoField(v)
	}
	return []freezeWay{
		{"struct of values", func(m *model.V) dgo.Value { return vf.Map(mk(m, dgoField).Interface()).FrozenCopy() }},
		{"struct of Go data", func(m *model.V) dgo.Value { return vf.Map(mk(m, goField).Interface()).FrozenCopy() }},
		{"struct in a frozen array", func(m *model.V) dgo.Value {
			return vf.Values(vf.Map(mk(m, goField).Interface())).FrozenCopy().(dgo.Array).Get(0)
		}},
	}
}

func runC01(c *fw.C) {
	c.Stage("time")
	c.Case(func() string { return "ReflectTo *time.Time" }, func(t *fw.T) {
		v := vf.Time(time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC))
		var p *time.Time
		v.ReflectTo(reflect.ValueOf(&p).Elem())
		*p = time.Time{}
		if v.GoTime().IsZero() {
			t.Failf("changed", "", "the time was changed through the pointer that ReflectTo gave")
		}
	})
	shapes := c01Shapes(c.Thorough)
	ways := freezeWays()
	depth := 2
	nw := len(ways)
	ways = append(ways, structWays()...)
	allShapes := shapes
	for wi := range ways {
		way := ways[wi]
		c.Stage(way.name)
		shapes := allShapes
		if wi >= nw {
			shapes = structShapes()
		}
		for si := range shapes {
			shape := shapes[si]
			d := depth
			if !c.Thorough && wi != 0 && wi != 2 {
				d = 1
			}
			proto := way.mk(shape)
			for _, cl := range callsOf(proto) {
				cl := cl
				c.Case(func() string { return shape.Canon() + " " + cl.id }, func(t *fw.T) {
					v := way.mk(shape)
					if f, ok := v.(dgo.Freezable); ok {
						if !f.Frozen() {
							t.Fatalf("not-frozen", "", "%s isn't frozen", v)
						}
						if p := model.FrozenDeep(v); p != "" {
							t.Fatalf("not-deep-frozen", "", "%s contains %s", v, p)
						}
					}
					if g := model.Observe(v).Canon(); g != shape.Canon() {
						t.Fatalf("content", "", "expected %s, got %s", shape.Canon(), g)
					}
					a := newAttacker(t, v)
					a.trace = append(a.trace, fmt.Sprintf("%T.%s", v, cl.id))
					things := a.perform(v, cl)
					a.check("")
					for _, th := range things {
						a.frozenResult(th)
					}
					for i, th := range things {
						a.attack(th, d-1)
						t.State(fmt.Sprintf("%s %s %d %T", shape.Canon(), cl.id, i, th))
						t.Touch()
					}
					t.Count("transitions", a.calls)
					t.Outcome(shape.Canon() + cl.name)
				})
			}
		}
	}
}
