package props

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/vf"
)

// C09: values that contain themselves and recursive types

func init() {
	fw.Register(&fw.Check{ID: "C09", Level: "model_checking", Run: runC09,
		Rule: "every graph of up to the stated number of mutable arrays, maps and sensitive values whose slots hold a scalar or any node, with at least one cycle reachable from the root, is built and every operation of an alphabet is applied to its root; pairs of graphs are compared against bisimilarity computed on the specification; every recursive type of a grammar up to a depth is applied to all values of a universe and compared with a reference evaluator, and all its pairs and unrollings with each other"})
}

type (
	gSlice    []gSlice
	gMap      map[string]gMap
	gMapSlice map[string][]gMapSlice
	gFunc     func(gFunc, gSlice) (gFunc, gMap)
	gPtrs     []*gPtrs
	gNode     struct {
		V    int
		Next *gNode
		Kids []gNode
	}
)

// gnode is a node of a graph; a slot is -1 for the scalar 1 or the index of a node
type gnode struct {
	kind  byte // A, M or S
	slots []int
}

type graph []gnode

func (g graph) String() string {
	b := &strings.Builder{}
	for i, n := range g {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteByte(n.kind)
		for _, s := range n.slots {
			if s < 0 {
				b.WriteByte('1')
			} else {
				b.WriteByte(byte('a' + s))
			}
		}
	}
	return b.String()
}

// cyclic tells if all nodes are reachable from the root and at least one cycle exists
func (g graph) cyclic() bool {
	state := make([]int, len(g))
	cyc := false
	n := 0
	var visit func(i int)
	visit = func(i int) {
		state[i] = 1
		n++
		for _, s := range g[i].slots {
			if s >= 0 {
				switch state[s] {
				case 0:
					visit(s)
				case 1:
					cyc = true
				}
			}
		}
		state[i] = 2
	}
	visit(0)
	return cyc && n == len(g)
}

func (g graph) has(kind byte) bool {
	for _, n := range g {
		if n.kind == kind {
			return true
		}
	}
	return false
}

var gKeys = []string{"k", "l", "m"}

func (g graph) build() []dgo.Value {
	vs := make([]dgo.Value, len(g))
	for i, n := range g {
		switch n.kind {
		case 'A':
			vs[i] = vf.MutableValues()
		case 'M':
			vs[i] = vf.MutableMap()
		}
	}
	for i, n := range g {
		if n.kind == 'S' {
			if n.slots[0] < 0 {
				vs[i] = vf.Sensitive(1)
			} else {
				vs[i] = vf.Sensitive(vs[n.slots[0]])
			}
		}
	}
	at := func(s int) interface{} {
		if s < 0 {
			return 1
		}
		return vs[s]
	}
	for i, n := range g {
		switch n.kind {
		case 'A':
			for _, s := range n.slots {
				vs[i].(dgo.Array).Add(at(s))
			}
		case 'M':
			for j, s := range n.slots {
				vs[i].(dgo.Map).Put(gKeys[j], at(s))
			}
		}
	}
	return vs
}

// match compares a value with the infinite unfolding of a node
func (g graph) match(v dgo.Value, i int, seen map[string]bool, visit func(dgo.Value) string) string {
	if i < 0 {
		if !vf.Value(1).Equals(v) {
			return fmt.Sprintf("has %T instead of 1", v)
		}
		return ""
	}
	k := fmt.Sprintf("%p %d", v, i)
	if seen[k] {
		return ""
	}
	seen[k] = true
	if visit != nil {
		if d := visit(v); d != "" {
			return d
		}
	}
	n := g[i]
	switch n.kind {
	case 'A':
		a, ok := v.(dgo.Array)
		if !ok || a.Len() != len(n.slots) {
			return fmt.Sprintf("has %T instead of an array of %d", v, len(n.slots))
		}
		for j, s := range n.slots {
			if d := g.match(a.Get(j), s, seen, visit); d != "" {
				return d
			}
		}
	case 'M':
		m, ok := v.(dgo.Map)
		if !ok || m.Len() != len(n.slots) {
			return fmt.Sprintf("has %T instead of a map of %d", v, len(n.slots))
		}
		for j, s := range n.slots {
			if d := g.match(m.Get(gKeys[j]), s, seen, visit); d != "" {
				return d
			}
		}
	case 'S':
		m, ok := v.(dgo.Sensitive)
		if !ok {
			return fmt.Sprintf("has %T instead of a sensitive", v)
		}
		return g.match(m.Unwrap(), n.slots[0], seen, visit)
	}
	return ""
}

func bisimilar(g graph, i int, h graph, j int, seen map[[2]int]bool) bool {
	if i < 0 || j < 0 {
		return i < 0 && j < 0
	}
	if seen[[2]int{i, j}] {
		return true
	}
	seen[[2]int{i, j}] = true
	a, b := g[i], h[j]
	if a.kind != b.kind || len(a.slots) != len(b.slots) {
		return false
	}
	for k := range a.slots {
		if !bisimilar(g, a.slots[k], h, b.slots[k], seen) {
			return false
		}
	}
	return true
}

func graphs(n, maxSlots int, kinds string) []graph {
	var nodes []gnode
	for _, k := range []byte(kinds) {
		if k == 'S' {
			for s := 0; s < n; s++ {
				nodes = append(nodes, gnode{k, []int{s}})
			}
			continue
		}
		var rec func(sl []int)
		rec = func(sl []int) {
			nodes = append(nodes, gnode{k, append([]int{}, sl...)})
			if len(sl) == maxSlots {
				return
			}
			for s := -1; s < n; s++ {
				rec(append(sl, s))
			}
		}
		rec(nil)
	}
	var gs []graph
	var rec func(g graph)
	rec = func(g graph) {
		if len(g) == n {
			for _, x := range g {
				if x.kind == 'S' && g[x.slots[0]].kind == 'S' {
					return
				}
			}
			if c := append(graph{}, g...); c.cyclic() {
				gs = append(gs, c)
			}
			return
		}
		for _, x := range nodes {
			rec(append(g, x))
		}
	}
	rec(nil)
	return gs
}

var c09Types = []string{"[]any", "data", "richdata", "[](int|[]any)", "map[string]any", "map[string]data", "x={x,...x}", "x=[]x", "x=map[string]x", "x=[1]x", "x=(int|[]x|map[string]x)", "x={k:x}", "x={k?:x,l?:x}", "![]data", "{any,...any}", "sensitive[any]", "x=(sensitive[x]|[]x|map[string]x)"}

func c09Tp(text string) dgo.Type {
	v, _, err := synParse(text)
	if err != nil {
		panic(fmt.Sprintf("%s: %v", text, err))
	}
	return typ.AsType(v)
}

func frozenAt(v dgo.Value) string {
	if f, ok := v.(dgo.Freezable); ok && !f.Frozen() {
		return fmt.Sprintf("a nested %T isn't frozen", v)
	}
	return ""
}

type gop struct {
	name string
	f    func(t *fw.T, g graph, vs []dgo.Value) string
}

func copyCheck(g graph, vs []dgo.Value, c dgo.Value, frozen bool) string {
	old := map[string]bool{}
	for i, v := range vs {
		if g[i].kind != 'S' {
			old[fmt.Sprintf("%p", v)] = true
		}
	}
	if d := g.match(c, 0, map[string]bool{}, func(v dgo.Value) string {
		if old[fmt.Sprintf("%p", v)] {
			return "shares a collection with the original"
		}
		if frozen {
			return frozenAt(v)
		}
		if f, ok := v.(dgo.Freezable); ok && f.Frozen() && g[0].kind != 'S' {
			return "has a frozen collection"
		}
		return ""
	}); d != "" {
		return d
	}
	return g.match(vs[0], 0, map[string]bool{}, func(v dgo.Value) string {
		if f, ok := v.(dgo.Freezable); ok && f.Frozen() {
			if _, s := v.(dgo.Sensitive); !s {
				return "the original is frozen"
			}
		}
		return ""
	})
}

func gops() []gop {
	var sts []dgo.StructMapType
	for _, text := range []string{"x={k:x}", "x={k?:x,l?:x}", "{k:any}", "{k:data,...}"} {
		sts = append(sts, c09Tp(text).(dgo.StructMapType))
	}
	ops := []gop{
		{"String", func(t *fw.T, g graph, vs []dgo.Value) string { return lenCheck(vs[0].String()) }},
		{"Format", func(t *fw.T, g graph, vs []dgo.Value) string { return lenCheck(fmt.Sprintf("%s", vs[0])) }},
		{"indented", func(t *fw.T, g graph, vs []dgo.Value) string {
			if i, ok := vs[0].(dgo.Indentable); ok {
				return lenCheck(util.ToIndentedStringERP(i))
			}
			return ""
		}},
		{"HashCode", func(t *fw.T, g graph, vs []dgo.Value) string {
			if vs[0].HashCode() != vs[0].HashCode() || vs[0].HashCode() != g.build()[0].HashCode() {
				return "hash codes differ"
			}
			return ""
		}},
		{"Equals", func(t *fw.T, g graph, vs []dgo.Value) string {
			w := g.build()
			for i := range g {
				for j := range g {
					want := bisimilar(g, i, g, j, map[[2]int]bool{})
					if vs[i].Equals(vs[j]) != want || vs[i].Equals(w[j]) != want {
						return fmt.Sprintf("node %d equals node %d is %v, expected %v", i, j, !want, want)
					}
				}
			}
			return ""
		}},
		{"CompareTo", func(t *fw.T, g graph, vs []dgo.Value) string {
			if c, ok := vs[0].(dgo.Comparable); ok {
				if r, ok := c.CompareTo(g.build()[0]); ok && r != 0 {
					return fmt.Sprintf("compares as %d with an equal value", r)
				}
			}
			return ""
		}},
		{"Freeze", func(t *fw.T, g graph, vs []dgo.Value) string {
			if f, ok := vs[0].(dgo.Freezable); ok {
				f.Freeze()
				return g.match(vs[0], 0, map[string]bool{}, frozenAt)
			}
			return ""
		}},
		{"FrozenCopy", func(t *fw.T, g graph, vs []dgo.Value) string {
			if f, ok := vs[0].(dgo.Freezable); ok {
				return copyCheck(g, vs, f.FrozenCopy(), true)
			}
			return ""
		}},
		{"ThawedCopy", func(t *fw.T, g graph, vs []dgo.Value) string {
			if f, ok := vs[0].(dgo.Freezable); ok {
				return copyCheck(g, vs, f.ThawedCopy(), false)
			}
			return ""
		}},
		{"Type", func(t *fw.T, g graph, vs []dgo.Value) string {
			tp := vs[0].Type()
			w := g.build()[0]
			if !tp.Instance(vs[0]) || !tp.Instance(w) {
				return "isn't an instance of its type"
			}
			if !tp.Equals(w.Type()) || !tp.Assignable(w.Type()) || tp.HashCode() != w.Type().HashCode() {
				return "the types of equal values aren't equal, assignable and of equal hash code"
			}
			if tp.Instance(vf.Values(3, 4)) || tp.Assignable(typ.Array) || tp.Assignable(typ.Any) {
				return "the type accepts too much"
			}
			return lenCheck(tp.String())
		}},
		{"Generic", func(t *fw.T, g graph, vs []dgo.Value) string {
			gt := typ.Generic(vs[0].Type())
			if !gt.Instance(vs[0]) || !gt.Assignable(vs[0].Type()) {
				return "isn't an instance of its generic type " + gt.String()
			}
			return ""
		}},
		{"ReflectType", func(t *fw.T, g graph, vs []dgo.Value) string {
			if vs[0].Type().ReflectType() == nil {
				return "no reflect type"
			}
			return ""
		}},
		{"derive", func(t *fw.T, g graph, vs []dgo.Value) string {
			switch v := vs[0].(type) {
			case dgo.Array:
				v.Unique()
				v.Sort()
				v.IndexOf(vs[len(vs)-1])
				v.SameValues(v)
				v.ContainsAll(g.build()[0].(dgo.Array))
				v.With(2)
				v.Slice(0, v.Len())
				v.ToMap()
				v.Select(func(dgo.Value) bool { return true })
				vf.MutableMap("k", v).Equals(vf.MutableMap("k", v))
			case dgo.Map:
				v.Merge(g.build()[0].(dgo.Map))
				v.With("k", 2)
				v.Without("k")
				v.Values()
				v.Keys()
			}
			return g.match(vs[0], 0, map[string]bool{}, nil)
		}},
		{"lookup", func(t *fw.T, g graph, vs []dgo.Value) string {
			a := vf.MutableValues(vs[0], 3)
			if a.IndexOf(g.build()[0]) != 0 {
				return "isn't found in an array"
			}
			return ""
		}},
		{"key", func(t *fw.T, g graph, vs []dgo.Value) string {
			if f, ok := vs[0].(dgo.Freezable); ok {
				f.Freeze()
			}
			m := vf.MutableMap()
			m.Put(vs[0], 3)
			w := g.build()[0]
			if f, ok := w.(dgo.Freezable); ok {
				f.Freeze()
			}
			if m.Get(w) == nil || m.Put(w, 4) == nil || m.Len() != 1 {
				return "an equal value isn't found as a key"
			}
			return ""
		}},
		{"new", func(t *fw.T, g graph, vs []dgo.Value) string {
			switch v := vs[0].(type) {
			case dgo.Array:
				return g.match(vf.New(typ.Array, v), 0, map[string]bool{}, frozenAt)
			case dgo.Map:
				return g.match(vf.New(typ.Map, v), 0, map[string]bool{}, frozenAt)
			}
			return ""
		}},
		{"values", func(t *fw.T, g graph, vs []dgo.Value) string {
			d := g.match(vf.Values(vs[0]).Get(0), 0, map[string]bool{}, frozenAt)
			if d == "" {
				d = g.match(vf.Map("a", vs[0]).Get("a"), 0, map[string]bool{}, frozenAt)
			}
			return d
		}},
		{"validate", func(t *fw.T, g graph, vs []dgo.Value) string {
			m, ok := vs[0].(dgo.Map)
			if !ok {
				return ""
			}
			for _, st := range sts {
				text := st.String()
				es := st.Validate(nil, m)
				if (len(es) == 0) != st.Instance(m) {
					return fmt.Sprintf("%s: instance %v but %d errors", text, st.Instance(m), len(es))
				}
				for _, e := range es {
					_ = e.Error()
				}
				out := util.NewIndenter("  ")
				if st.ValidateVerbose(m, out) != (len(es) == 0) {
					return text + ": verbose validation disagrees"
				}
				_ = out.String()
			}
			return ""
		}},
	}
	for _, text := range c09Types {
		tp := c09Tp(text)
		ops = append(ops, gop{"instance " + text, func(t *fw.T, g graph, vs []dgo.Value) string {
			in := tp.Instance(vs[0])
			if as := tp.Assignable(vs[0].Type()); as && !in || as != in && !g.has('S') {
				return fmt.Sprintf("instance %v, assignability of the exact type %v", in, !in)
			}
			return ""
		}})
	}
	if only := os.Getenv("MC_OP"); only != "" {
		var sel []gop
		for _, op := range ops {
			if strings.HasPrefix(op.name, only) {
				sel = append(sel, op)
			}
		}
		return sel
	}
	return ops
}

func lenCheck(s string) string {
	if len(s) > 10000 {
		return fmt.Sprintf("gives a text of %d bytes", len(s))
	}
	return ""
}

func c09Graph(t *fw.T, g graph, ops []gop) {
	for _, op := range ops {
		vs := g.build()
		var d string
		e, rt := fw.Try(func() { d = op.f(t, g, vs) })
		t.Count("transitions", 1)
		if rt || e != nil {
			t.Failf("panic", op.name, "%s of %s panics: %v", op.name, g, e)
		} else if d != "" {
			t.Failf("result", op.name, "%s of %s: %s", op.name, g, d)
		}
		t.Outcome(op.name + d)
	}
	t.State(g.String())
}

func runC09(c *fw.C) {
	ops := gops()
	one := graphs(1, 3, "AM")
	two := graphs(2, 2, "AMS")
	c.Stage("graphs")
	for _, gs := range [][]graph{one, two} {
		for _, g := range gs {
			g := g
			c.Case(g.String, func(t *fw.T) { c09Graph(t, g, ops) })
		}
	}
	// values that occur several times aren't self references
	c.Stage("shared")
	wrap := []func(vs ...dgo.Value) dgo.Value{
		func(vs ...dgo.Value) dgo.Value {
			a := vf.ArrayWithCapacity(len(vs))
			for _, v := range vs {
				a.Add(v)
			}
			return a
		},
		func(vs ...dgo.Value) dgo.Value {
			m := vf.MutableMap()
			for i, v := range vs {
				m.Put(i, v)
			}
			return m
		},
		func(vs ...dgo.Value) dgo.Value {
			m := vf.MutableMap()
			for i, v := range vs {
				m.Put(vf.Array([]dgo.Value{v, vf.Integer(int64(i))}), v)
			}
			return m
		},
		func(vs ...dgo.Value) dgo.Value { return vf.Sensitive(vf.MutableValues(vs[0], vs[len(vs)-1])) },
	}
	for d := 0; d <= 5; d++ {
		d := d
		c.Case(func() string { return fmt.Sprintf("depth %d", d) }, func(t *fw.T) {
			for code := 0; code < 1<<uint(2*d+2); code++ {
				for leaf := 0; leaf < 3; leaf++ {
					build := func(shared bool) dgo.Value {
						mk := func() dgo.Value {
							return []dgo.Value{vf.MutableValues(1), vf.MutableMap("a", 1), vf.MutableValues(vf.MutableValues())}[leaf]
						}
						x := mk()
						next := func() dgo.Value {
							if shared {
								return x
							}
							return mk()
						}
						v := wrap[code&3](next(), next(), vf.MutableValues(next()), next())
						for k := 1; k <= d; k++ {
							v = wrap[code>>uint(2*k)&3](v)
						}
						return v
					}
					a, b := build(true), build(false)
					if s, e := a.String(), b.String(); s != e {
						t.Failf("shared", fmt.Sprintf("%d %d", code, leaf), "%s is printed as %s", e, s)
					}
					ia, ok := a.(dgo.Indentable)
					if !ok {
						continue
					}
					ib := b.(dgo.Indentable)
					if s, e := util.ToStringERP(ia), util.ToString(ib); s != e {
						t.Failf("shared", fmt.Sprintf("%d %d ERP", code, leaf), "%s is printed as %s", e, s)
					}
					if s, e := util.ToIndentedStringERP(ia), util.ToIndentedString(ib); s != e {
						t.Failf("shared", fmt.Sprintf("%d %d indented", code, leaf), "%s is printed as %s", e, s)
					}
					if !a.Equals(b) || a.HashCode() != b.HashCode() {
						t.Failf("shared", fmt.Sprintf("%d %d equal", code, leaf), "%s: not equal or different hash codes", b)
					}
					t.Count("transitions", 4)
				}
			}
			t.State(fmt.Sprint(d))
		})
	}
	c.Stage("pairs")
	all := append(append([]graph{}, one...), two...)
	for _, g := range all {
		g := g
		c.Case(g.String, func(t *fw.T) {
			for _, h := range all {
				a, b := g.build()[0], h.build()[0]
				key := g.String() + " / " + h.String()
				want := bisimilar(g, 0, h, 0, map[[2]int]bool{})
				t.Count("transitions", 3)
				var eq bool
				if e, _ := fw.Try(func() { eq = a.Equals(b) }); e != nil || eq != want {
					t.Failf("equality", key, "%s equals %s is %v (%v), expected %v", g, h, eq, e, want)
				}
				if want && a.HashCode() != b.HashCode() {
					if g.String() == h.String() {
						t.Failf("hash", key, "%s and %s are equal but their hash codes differ", g, h)
					}
					t.Count("different hash codes of different shapes with the same unfolding (known finding)", 1)
				}
				if e, _ := fw.Try(func() { eq = a.Type().Instance(b) && a.Type().Assignable(b.Type()) }); !g.has('S') && (e != nil || eq != want) {
					t.Failf("type", key, "the type of %s accepts %s is %v (%v), expected %v", g, h, eq, e, want)
				}
				ca, ok1 := a.(dgo.Comparable)
				cb, ok2 := b.(dgo.Comparable)
				if ok1 && ok2 {
					var i, j int
					var o1, o2 bool
					e, _ := fw.Try(func() { i, o1 = ca.CompareTo(b); j, o2 = cb.CompareTo(a) })
					if e != nil || o1 != o2 || o1 && i != -j || want && o1 && i != 0 {
						t.Failf("compare", key, "%s compares with %s as %d %v and %d %v (%v)", g, h, i, o1, j, o2, e)
					}
				}
			}
		})
	}
	// Shapes that differ but have the same infinite unfolding
	c.Stage("unrolled")
	a, m := byte('A'), byte('M')
	for _, p := range [][2]graph{
		{{{a, []int{0}}}, {{a, []int{1}}, {a, []int{0}}}},
		{{{m, []int{0}}}, {{m, []int{1}}, {m, []int{0}}}},
		{{{a, []int{-1, 0}}}, {{a, []int{-1, 1}}, {a, []int{-1, 0}}}},
	} {
		p := p
		c.Case(func() string { return p[0].String() + " / " + p[1].String() }, func(t *fw.T) {
			x, y := p[0].build()[0], p[1].build()[0]
			if !x.Equals(y) {
				t.Failf("equality", "", "%s and %s aren't equal", p[0], p[1])
			} else if x.HashCode() != y.HashCode() {
				t.Failf("hash", "", "%s and %s are equal but their hash codes differ", p[0], p[1])
			}
		})
	}
	c.Stage("three nodes")
	slots, kinds := 2, "AMS"
	if c.Thorough {
		slots, kinds = 3, "AM"
	}
	for _, g := range graphs(3, slots, kinds) {
		g := g
		c.Case(g.String, func(t *fw.T) { c09Graph(t, g, ops) })
	}
	c09Types2(c)
	c.Stage("recursive Go types")
	for _, v := range []interface{}{gSlice{gSlice{}}, gMap{"a": gMap{}}, gMapSlice{"a": {gMapSlice{}}}, gFunc(func(f gFunc, s gSlice) (gFunc, gMap) { return f, nil }), &gNode{1, &gNode{2, nil, nil}, nil}, gPtrs{}} {
		v := v
		rt := reflect.TypeOf(v)
		c.Case(rt.String, func(t *fw.T) {
			e, _ := fw.Try(func() {
				tp := tf.FromReflected(rt)
				if d := lenCheck(tp.String()); d != "" || !tp.Equals(tf.FromReflected(rt)) || tp.HashCode() != tf.FromReflected(rt).HashCode() || !tp.Assignable(tf.FromReflected(rt)) {
					t.Failf("type", "", "%s isn't equal to itself", tp)
				}
				typ.Generic(tp)
				tp.ReflectType()
				x := vf.Value(v)
				if !x.Equals(x) || !x.Type().Equals(vf.Value(v).Type()) && rt.Kind() != reflect.Struct && rt.Kind() != reflect.Ptr {
					t.Failf("value", "", "%s: %s isn't equal to itself", rt, x)
				}
				_ = x.String()
				_ = x.Type().String()
				x.HashCode()
				if !tp.Instance(x) && rt.Kind() != reflect.Ptr {
					t.Failf("instance", "", "%s isn't an instance of %s", x, tp)
				}
			})
			if e != nil {
				t.Failf("panic", "", "%s: %v", rt, e)
			}
		})
	}
}
