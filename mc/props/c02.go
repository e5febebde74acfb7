package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C02: freezing is deep and copies are deep and independent.
//
// The reference model is a heap of nodes (arrays, maps, binaries, sensitives, entries) with identity and a frozen flag per
// node, so that aliasing is predicted exactly. Every history of freeze, copy, share and mutate operations, applied at
// every path of every live root, is executed on the real values and on the heap.

func init() {
	fw.Register(&fw.Check{ID: "C02", Level: "model_checking", Run: runC02,
		Rule: "every history of freeze, frozen copy, thawed copy, copy and mutation up to the stated depth, each applied at every path of every live root, from every initial shape with every consistent mix of frozen and mutable nodes; after each step the content and the frozen flag of every node of every root is compared with a heap model that tracks identity; a state is the heap; an outcome is the final heap"})
}

type hnode struct {
	kind   model.Kind
	entry  bool
	live   *hnode // the map that an entry belongs to
	frozen bool
	kids   []*hnode
	val    *model.V // scalars
	bytes  string
}

func (n *hnode) freezable() bool {
	return n.entry || n.kind == model.Arr || n.kind == model.Map || n.kind == model.Bin || n.kind == model.Sens
}

func (n *hnode) isFrozen() bool {
	switch {
	case n.entry:
		return (n.live == nil || n.live.frozen) && n.kids[1].isFrozen()
	case n.kind == model.Sens:
		return n.kids[0].isFrozen()
	case n.kind == model.Arr || n.kind == model.Map || n.kind == model.Bin:
		return n.frozen
	}
	return true
}

func (n *hnode) freeze() {
	if n.kind == model.Arr || n.kind == model.Map || n.kind == model.Bin {
		n.frozen = true
	}
	for _, k := range n.kids {
		k.freeze()
	}
}

func (n *hnode) copy(frozen bool) *hnode {
	if !n.freezable() || frozen && n.isFrozen() {
		return n
	}
	c := *n
	c.frozen = frozen
	c.live = nil
	c.kids = nil
	for i, k := range n.kids {
		if (n.kind == model.Map || n.entry) && i%2 == 0 {
			c.kids = append(c.kids, k) // keys are always frozen
		} else {
			c.kids = append(c.kids, k.copy(frozen))
		}
	}
	return &c
}

func (n *hnode) String() string {
	f := "'"
	if n.isFrozen() {
		f = ""
	}
	switch {
	case n.entry:
		return f + "<" + n.kids[0].String() + "=" + n.kids[1].String() + ">"
	case n.kind == model.Arr:
		var s []string
		for _, k := range n.kids {
			s = append(s, k.String())
		}
		return f + "[" + strings.Join(s, " ") + "]"
	case n.kind == model.Map:
		var s []string
		for i := 0; i < len(n.kids); i += 2 {
			s = append(s, n.kids[i].String()+":"+n.kids[i+1].String())
		}
		return f + "{" + strings.Join(s, " ") + "}"
	case n.kind == model.Sens:
		return f + "sens(" + n.kids[0].String() + ")"
	case n.kind == model.Bin:
		return f + fmt.Sprintf("b%x", n.bytes)
	}
	return n.val.Canon()
}

// heapString describes a value the way hnode.String does
func heapString(v dgo.Value, depth int) string {
	if depth > 12 {
		return "TOO DEEP"
	}
	f := ""
	if fv, ok := v.(dgo.Freezable); ok && !fv.Frozen() {
		f = "'"
	}
	switch x := v.(type) {
	case dgo.MapEntry:
		return f + "<" + heapString(x.Key(), depth+1) + "=" + heapString(x.Value(), depth+1) + ">"
	case dgo.Array:
		var s []string
		for i := 0; i < x.Len(); i++ {
			s = append(s, heapString(x.Get(i), depth+1))
		}
		return f + "[" + strings.Join(s, " ") + "]"
	case dgo.Map:
		var s []string
		x.EachEntry(func(e dgo.MapEntry) {
			s = append(s, heapString(e.Key(), depth+1)+":"+heapString(e.Value(), depth+1))
		})
		return f + "{" + strings.Join(s, " ") + "}"
	case dgo.Sensitive:
		return f + "sens(" + heapString(x.Unwrap(), depth+1) + ")"
	case dgo.Binary:
		return f + fmt.Sprintf("b%x", string(x.GoBytes()))
	}
	return f + model.Observe(v).Canon()
}

func (n *hnode) build() dgo.Value {
	var v dgo.Value
	switch {
	case n.kind == model.Arr:
		a := vf.MutableValues()
		for _, k := range n.kids {
			a.Add(k.build())
		}
		v = a
	case n.kind == model.Map:
		m := vf.MutableMap()
		for i := 0; i < len(n.kids); i += 2 {
			m.Put(n.kids[i].build(), n.kids[i+1].build())
		}
		v = m
	case n.kind == model.Sens:
		v = vf.Sensitive(n.kids[0].build())
	case n.kind == model.Bin:
		v = vf.Binary([]byte(n.bytes), false)
	default:
		return n.val.Build(true)
	}
	if n.frozen {
		v.(dgo.Freezable).Freeze()
	}
	return v
}

func (n *hnode) clone() *hnode {
	c := *n
	c.kids = nil
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return &c
}

// paths lists the paths to all freezable nodes. An entry at index i of a map is addressed by 1000+i.
func (n *hnode) paths(p []int, out [][]int) [][]int {
	if !n.freezable() {
		return out
	}
	out = append(out, append([]int{}, p...))
	for i, k := range n.kids {
		if (n.kind == model.Map || n.entry) && i%2 == 0 {
			if n.kind == model.Map {
				out = append(out, append(append([]int{}, p...), 1000+i))
			}
			continue
		}
		out = k.paths(append(append([]int{}, p...), i), out)
	}
	return out
}

func (n *hnode) at(p []int) *hnode {
	for _, i := range p {
		if i >= 1000 {
			return &hnode{entry: true, live: n, kids: []*hnode{n.kids[i-1000], n.kids[i-999]}}
		}
		n = n.kids[i]
	}
	return n
}

func valueAt(v dgo.Value, p []int) dgo.Value {
	for _, i := range p {
		switch x := v.(type) {
		case dgo.Array:
			v = x.Get(i)
		case dgo.Map:
			var es []dgo.MapEntry
			x.EachEntry(func(e dgo.MapEntry) { es = append(es, e) })
			if i >= 1000 {
				v = es[(i-1000)/2]
			} else {
				v = es[i/2].Value()
			}
		case dgo.MapEntry:
			v = x.Value()
		case dgo.Sensitive:
			v = x.Unwrap()
		}
	}
	return v
}

type hroot struct {
	v dgo.Value
	n *hnode
}

var c02ops = []string{"Freeze", "FrozenCopy", "ThawedCopy", "Copy(true)", "Copy(false)", "grow", "set", "shrink", "share"}

// c02Op applies one operation. Returns false if it isn't applicable.
func c02Op(roots *[]hroot, r int, p []int, op string, fail func(string, ...interface{})) bool {
	root := (*roots)[r]
	n := root.n.at(p)
	var v dgo.Value
	if root.v != nil {
		v = valueAt(root.v, p)
	}
	real := v != nil
	newRoot := func(c *hnode, f func() dgo.Value) {
		var cv dgo.Value
		if real {
			cv = f()
			if cv == nil || !cv.Equals(v) || !v.Equals(cv) {
				fail("%s of %s gave %v which isn't equal", op, v, cv)
			}
		}
		*roots = append(*roots, hroot{cv, c})
	}
	mutate := func(ok bool, m func(), f func()) {
		if !real {
			if ok {
				m()
			}
			return
		}
		pv, rt := fw.Try(f)
		if ok {
			m()
			if pv != nil {
				fail("%s panicked: %v", op, pv)
			}
		} else if pv == nil {
			fail("%s on frozen %s didn't panic", op, v)
		} else if rt {
			fail("%s on frozen %s: %v", op, v, pv)
		}
	}
	isC := n.kind == model.Arr || n.kind == model.Map
	switch op {
	case "Freeze":
		if real {
			v.(dgo.Freezable).Freeze()
		}
		n.freeze()
	case "FrozenCopy":
		newRoot(n.copy(true), func() dgo.Value { return v.(dgo.Freezable).FrozenCopy() })
	case "ThawedCopy":
		newRoot(n.copy(false), func() dgo.Value { return v.(dgo.Freezable).ThawedCopy() })
	case "Copy(true)", "Copy(false)":
		fr := op == "Copy(true)"
		if n.entry || n.kind == model.Sens {
			return false
		}
		newRoot(n.copy(fr), func() dgo.Value {
			switch x := v.(type) {
			case dgo.Array:
				return x.Copy(fr)
			case dgo.Map:
				return x.Copy(fr)
			default:
				return v.(dgo.Binary).Copy(fr)
			}
		})
	case "grow":
		if n.entry || !isC {
			return false
		}
		k := &hnode{kind: model.Str, val: model.S("new")}
		mutate(!n.frozen, func() {
			e := &hnode{kind: model.Arr, kids: []*hnode{}}
			if n.kind == model.Arr {
				n.kids = append(n.kids, e)
			} else {
				for i := 0; i < len(n.kids); i += 2 {
					if n.kids[i].String() == k.String() {
						n.kids[i+1] = e
						return
					}
				}
				n.kids = append(n.kids, k, e)
			}
		}, func() {
			if a, ok := v.(dgo.Array); ok {
				a.Add(vf.MutableValues())
			} else {
				v.(dgo.Map).Put("new", vf.MutableValues())
			}
		})
	case "set":
		if n.kind == model.Bin && !n.entry {
			if n.bytes == "" {
				return false
			}
			// write through the bytes that are handed out
			if real {
				bs := v.(dgo.Binary).GoBytes()
				bs[0]++
			}
			if !n.frozen {
				b := []byte(n.bytes)
				b[0]++
				n.bytes = string(b)
			}
			return true
		}
		if n.entry || !isC || len(n.kids) == 0 {
			return false
		}
		e := &hnode{kind: model.Int, val: model.I(77)}
		mutate(!n.frozen, func() {
			if n.kind == model.Arr {
				n.kids[0] = e
			} else {
				n.kids[1] = e
			}
		}, func() {
			if a, ok := v.(dgo.Array); ok {
				a.Set(0, 77)
			} else {
				m := v.(dgo.Map)
				m.Put(m.Keys().Get(0), 77)
			}
		})
	case "shrink":
		if n.entry || !isC || len(n.kids) == 0 {
			return false
		}
		mutate(!n.frozen, func() {
			if n.kind == model.Arr {
				n.kids = append([]*hnode{}, n.kids[1:]...)
			} else {
				n.kids = append([]*hnode{}, n.kids[2:]...)
			}
		}, func() {
			if a, ok := v.(dgo.Array); ok {
				a.Remove(0)
			} else {
				m := v.(dgo.Map)
				m.Remove(m.Keys().Get(0))
			}
		})
	case "share":
		// add this node to a fresh mutable array that becomes a root: the node is now shared
		if len(*roots) > 2 {
			return false
		}
		if n.entry && n.live != nil {
			// only frozen copies of entries of a mutable map are snapshots. A shared live entry is followed by no other root
			return false
		}
		var av dgo.Value
		if real {
			av = vf.MutableValues(v)
		}
		*roots = append(*roots, hroot{av, &hnode{kind: model.Arr, kids: []*hnode{n}}})
	}
	return true
}

type c02Choice struct {
	r  int
	p  []int
	op string
}

func (c c02Choice) String() string { return fmt.Sprintf("r%d%v.%s", c.r, c.p, c.op) }

// choices lists what can be done in the model state that the history leads to
func c02Choices(shape *hnode, hist []c02Choice) (out []c02Choice, ok bool) {
	roots := []hroot{{nil, shape.clone()}}
	for _, h := range hist {
		if !c02Op(&roots, h.r, h.p, h.op, nil) {
			return nil, false
		}
	}
	for r := range roots {
		for _, p := range roots[r].n.paths(nil, nil) {
			for _, op := range c02ops {
				out = append(out, c02Choice{r, p, op})
			}
		}
	}
	return out, true
}

func c02Shapes(thorough bool) (out []*hnode) {
	leaf := func(v *model.V) *hnode { return &hnode{kind: v.K, val: v} }
	arr := func(k ...*hnode) *hnode { return &hnode{kind: model.Arr, kids: k} }
	mp := func(k ...*hnode) *hnode { return &hnode{kind: model.Map, kids: k} }
	sens := func(k *hnode) *hnode { return &hnode{kind: model.Sens, kids: []*hnode{k}} }
	bin := func(s string) *hnode { return &hnode{kind: model.Bin, bytes: s} }
	i := func() *hnode { return leaf(model.I(1)) }
	s := func(x string) *hnode { return leaf(model.S(x)) }
	ak := func() *hnode { k := arr(s("k")); k.frozen = true; return k }
	base := []*hnode{
		arr(), mp(), bin("ab"), sens(i()),
		arr(i(), arr(i())), arr(arr(), arr(bin("x"))), mp(s("a"), arr(i()), s("b"), bin("y")),
		mp(ak(), mp(s("c"), arr())), arr(sens(arr(bin("z")))), sens(mp(s("a"), arr())), arr(mp(s("a"), mp(s("b"), i()))),
		mp(s("a"), sens(bin("q"))), bin(""), arr(bin(""), mp()), sens(arr()), sens(mp()), sens(bin("")), sens(sens(i())),
	}
	if thorough {
		base = append(base, arr(arr(arr(arr(bin("w"))))), mp(s("a"), mp(s("b"), mp(s("c"), arr(i())))), arr(sens(sens(arr(i()))), bin("u")),
			mp(s("a"), arr(mp(s("b"), bin("t"))), s("c"), arr()), arr(arr(i()), mp(s("x"), arr(bin("v"))), sens(mp())))
	}
	// every consistent mix of frozen and mutable nodes: choose the set of maximal frozen subtrees
	var mix func(n *hnode) []*hnode
	mix = func(n *hnode) (r []*hnode) {
		if !n.freezable() {
			return []*hnode{n.clone()}
		}
		f := n.clone()
		f.freeze()
		if n.isFrozen() {
			return []*hnode{f}
		}
		r = append(r, f)
		if n.kind == model.Bin {
			return append(r, n.clone())
		}
		combos := [][]*hnode{nil}
		for _, k := range n.kids {
			var nc [][]*hnode
			for _, c := range combos {
				for _, mk := range mix(k) {
					nc = append(nc, append(append([]*hnode{}, c...), mk))
				}
			}
			combos = nc
		}
		for _, c := range combos {
			x := *n
			x.kids = c
			if x.kind == model.Sens && x.isFrozen() {
				continue
			}
			r = append(r, &x)
		}
		return
	}
	for _, b := range base {
		out = append(out, mix(b)...)
	}
	return
}

func runC02(c *fw.C) {
	depth := 3
	if c.Thorough {
		depth = 4
	}
	shapes := c02Shapes(c.Thorough)
	c02Entries(c)
	largeCopies(c)
	c.Stage("histories")
	for si := range shapes {
		shape := shapes[si]
		first, _ := c02Choices(shape, nil)
		for _, h1 := range first {
			h1 := h1
			second, ok := c02Choices(shape, []c02Choice{h1})
			if !ok {
				continue
			}
			for _, h2 := range second {
				h2 := h2
				c.Case(func() string { return shape.String() + " " + h1.String() + " " + h2.String() }, func(t *fw.T) {
					var rec func(hist []c02Choice)
					rec = func(hist []c02Choice) {
						roots := []hroot{{shape.build(), shape.clone()}}
						for _, h := range hist {
							fail := func(f string, args ...interface{}) {
								t.Fatalf("operation", "", "from %s, history %v: %s", shape, hist, fmt.Sprintf(f, args...))
							}
							if !c02Op(&roots, h.r, h.p, h.op, fail) {
								return
							}
						}
						b := &strings.Builder{}
						for ri, r := range roots {
							g, e := heapString(r.v, 0), r.n.String()
							if g != e {
								t.Fatalf("heap", "", "from %s, history %v: root %d: expected %s, got %s (an apostrophe marks mutable)", shape, hist, ri, e, g)
							}
							b.WriteString(e + ";")
						}
						t.Count("transitions", 1)
						t.State(b.String())
						if len(hist) == depth {
							return
						}
						next, ok := c02Choices(shape, hist)
						if !ok {
							return
						}
						t.Touch()
						for _, n := range next {
							if t.Expired() {
								return
							}
							rec(append(append([]c02Choice{}, hist...), n))
						}
					}
					rec([]c02Choice{h1, h2})
					t.Outcome(shape.String() + h1.String() + h2.String())
				})
			}
		}
	}
}

// c02Entries: a frozen collection that holds an entry of a mutable map must not follow the map
func c02Entries(c *fw.C) {
	c.Stage("entries")
	fz := func(v dgo.Value) dgo.Value { v.(dgo.Freezable).Freeze(); return v }
	holders := []struct {
		name string
		mk   func(e dgo.MapEntry) dgo.Value
	}{
		{"Values", func(e dgo.MapEntry) dgo.Value { return vf.Values(e) }},
		{"MutableValues.Freeze", func(e dgo.MapEntry) dgo.Value { return fz(vf.MutableValues(e)) }},
		{"MutableValues.FrozenCopy", func(e dgo.MapEntry) dgo.Value { return vf.MutableValues(e).FrozenCopy() }},
		{"Map", func(e dgo.MapEntry) dgo.Value { return vf.Map("x", e) }},
		{"MutableMap.Freeze", func(e dgo.MapEntry) dgo.Value { return fz(vf.MutableMap("x", e)) }},
		{"MutableMap.FrozenCopy", func(e dgo.MapEntry) dgo.Value { return vf.MutableMap("x", e).FrozenCopy() }},
		{"key", func(e dgo.MapEntry) dgo.Value { return vf.MutableMap(e, 1).Keys().Get(0) }},
		{"With", func(e dgo.MapEntry) dgo.Value { return vf.Values().With(e) }},
		{"WithAll", func(e dgo.MapEntry) dgo.Value { return vf.Values().WithAll(vf.MutableValues(e)) }},
		{"Map.With", func(e dgo.MapEntry) dgo.Value { return vf.Map().With("x", e) }},
		{"FrozenCopy", func(e dgo.MapEntry) dgo.Value { return e.FrozenCopy() }},
		{"nested Freeze", func(e dgo.MapEntry) dgo.Value { return fz(vf.MutableValues(vf.MutableMap("x", vf.MutableValues(e)))) }},
		{"Array(slice)", func(e dgo.MapEntry) dgo.Value { return vf.Array([]dgo.Value{e}) }},
		{"ThawedCopy", func(e dgo.MapEntry) dgo.Value { return e.ThawedCopy() }},
		{"MutableValues.ThawedCopy", func(e dgo.MapEntry) dgo.Value { return vf.MutableValues(e).ThawedCopy() }},
		{"MutableMap.Copy(false)", func(e dgo.MapEntry) dgo.Value { return vf.MutableMap("x", e).Copy(false) }},
	}
	values := []func() dgo.Value{func() dgo.Value { return vf.Integer(1) }, func() dgo.Value { return vf.MutableValues(1) }, func() dgo.Value { return vf.Values(1) }, func() dgo.Value { return vf.MutableMap("z", vf.MutableValues()) }}
	muts := []struct {
		name string
		f    func(m dgo.Map)
	}{
		{"Put", func(m dgo.Map) { m.Put("a", "changed") }},
		{"PutAll", func(m dgo.Map) { m.PutAll(vf.Map("a", "changed", "q", "r")) }},
		{"Remove+Put", func(m dgo.Map) { m.Remove("a"); m.Put("a", "changed") }},
	}
	for _, h := range holders {
		for vi := range values {
			for _, mu := range muts {
				h, vi, mu := h, vi, mu
				c.Case(func() string { return fmt.Sprintf("%s value %d %s", h.name, vi, mu.name) }, func(t *fw.T) {
					m := vf.MutableMap("b", 0, "a", values[vi]())
					var en dgo.MapEntry
					m.EachEntry(func(e dgo.MapEntry) { en = e })
					v := h.mk(en)
					before := heapString(v, 0)
					if strings.Contains(h.name, "Thaw") || strings.Contains(h.name, "false") {
						if !strings.Contains(before, "<") {
							t.Fatalf("content", "", "%s lacks the entry", before)
						}
					} else if p := model.FrozenDeep(v); p != "" {
						t.Fatalf("frozen", "", "%s: %s", before, p)
					}
					mu.f(m)
					t.Count("transitions", 3)
					t.State(before)
					if after := heapString(v, 0); after != before {
						t.Failf("entry-follows-map", "", "%s changed to %s when the map that the entry came from was changed", before, after)
					}
				})
			}
		}
	}
}
