package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// obj pairs an implementation value with its reference model
type obj struct {
	v      dgo.Value
	m      *model.V
	frozen bool
	label  string
}

// world is the set of all values obtained so far in one history. Every one of them must agree with its model after every
// step.
type world struct {
	t    *fw.T
	objs []*obj
	hist []string
}

func (w *world) add(v dgo.Value, m *model.V, frozen bool, label string) *obj {
	o := &obj{v, m, frozen, label}
	w.objs = append(w.objs, o)
	return o
}

func (w *world) fail(kind, format string, args ...interface{}) {
	w.t.Fatalf(kind, "", "history:\n    %s\n  %s", strings.Join(w.hist, "\n    "), fmt.Sprintf(format, args...))
}

// checkAll verifies that every value in the world is what the model says
func (w *world) checkAll() {
	for _, o := range w.objs {
		w.checkObj(o)
	}
}

func (w *world) checkObj(o *obj) {
	got := model.Observe(o.v)
	if g, e := got.Canon(), o.m.Canon(); g != e {
		w.fail("content", "%s: expected %s, got %s", o.label, e, g)
	}
	if f, ok := o.v.(dgo.Freezable); ok {
		if f.Frozen() != o.frozen {
			w.fail("frozen-flag", "%s: expected frozen=%v, got %v", o.label, o.frozen, f.Frozen())
		}
		if o.frozen {
			if p := model.FrozenDeep(o.v); p != "" {
				w.fail("deep-frozen", "%s is frozen but contains something that is not: %s", o.label, p)
			}
		}
	}
}

// collOp is one operation of the alphabet
type collOp struct {
	name string
	// mutator ops must panic, without effect, on frozen receivers
	mutator bool
	// on tells if the op applies
	on func(o *obj) bool
	// do performs the op on the implementation and then on the model. It returns "" or a description of a wrong result.
	do func(w *world, o *obj) string
}

func isArr(o *obj) bool { _, ok := o.v.(dgo.Array); return ok && o.m.K == model.Arr }
func isMap(o *obj) bool { _, ok := o.v.(dgo.Map); return ok && o.m.K == model.Map }

func arr(o *obj) dgo.Array { return o.v.(dgo.Array) }
func mp(o *obj) dgo.Map    { return o.v.(dgo.Map) }

func same(d dgo.Value, m *model.V) string {
	if m == nil {
		if d == nil {
			return ""
		}
		return fmt.Sprintf("expected no value, got %s", model.Observe(d).Canon())
	}
	if g, e := model.Observe(d).Canon(), m.Canon(); g != e {
		return fmt.Sprintf("expected %s, got %s", e, g)
	}
	return ""
}

// step applies op to object i of the world. It returns false when the op isn't applicable.
func (w *world) step(op *collOp, i int) bool {
	o := w.objs[i]
	if !op.on(o) {
		return false
	}
	w.hist = append(w.hist, fmt.Sprintf("%s.%s", o.label, op.name))
	w.t.Count("transitions", 1)
	if op.mutator && o.frozen {
		saved := o.m.Copy()
		pv, rt := fw.Try(func() { op.do(w, o) })
		o.m = saved
		if pv == nil {
			w.fail("mutator-allowed", "%s on frozen value didn't panic", op.name)
		}
		if rt {
			w.fail("mutator-runtime-error", "%s on frozen value ended in a runtime error: %v", op.name, pv)
		}
	} else {
		var bad string
		pv, _ := fw.Try(func() { bad = op.do(w, o) })
		if pv != nil {
			w.fail("unexpected-panic", "%s panicked: %v", op.name, pv)
		}
		if bad != "" {
			w.fail("result", "%s: %s", op.name, bad)
		}
	}
	w.checkAll()
	return true
}

func (w *world) derived(v dgo.Value, m *model.V, o *obj, name string) string {
	if v == nil {
		return "returned nil"
	}
	w.add(v, m, o.frozen, fmt.Sprintf("v%d", len(w.objs)))
	return ""
}

// historyExplorer enumerates all histories (op, object) up to the given depth. init creates a fresh world. Only complete
// prefixes are cases: each history of length 1..depth is one case; the whole history is executed from scratch.
func exploreHistories(c *fw.C, stage string, prefix string, depth int, ops []*collOp, maxObjs int, init func(w *world), final func(w *world)) {
	c.Stage(stage)
	var hist [][2]int
	var rec func(left int, nObjs int)
	rec = func(left int, nObjs int) {
		if left == 0 {
			h := append([][2]int{}, hist...)
			c.Case(func() string {
				b := &strings.Builder{}
				b.WriteString(prefix)
				for _, s := range h {
					fmt.Fprintf(b, " v%d.%s", s[0], ops[s[1]].name)
				}
				return b.String()
			}, func(t *fw.T) {
				w := &world{t: t}
				init(w)
				for k, s := range h {
					if s[0] >= len(w.objs) || !w.step(ops[s[1]], s[0]) {
						t.Count("inapplicable", 1)
						return
					}
					if k == len(h)-1 && final != nil {
						final(w)
					}
				}
				b := &strings.Builder{}
				for _, o := range w.objs {
					fmt.Fprintf(b, "%v%s;", o.frozen, o.m.Canon())
				}
				t.State(b.String())
				t.Outcome(b.String())
			})
			return
		}
		for oi := 0; oi < nObjs; oi++ {
			for pi := range ops {
				hist = append(hist, [2]int{oi, pi})
				n := nObjs
				if !ops[pi].mutator && n < maxObjs {
					n++
				}
				rec(left-1, n)
				hist = hist[:len(hist)-1]
			}
		}
	}
	w0 := &world{}
	init(w0)
	rec(depth, len(w0.objs))
}

// ---- operations on arrays

func mcmp(a, b *model.V) int {
	switch {
	case a.K == model.Nil && b.K == model.Nil:
		return 0
	case a.K == model.Nil:
		return -1
	case b.K == model.Nil:
		return 1
	case a.K == model.Int && b.K == model.Int:
		switch {
		case a.I < b.I:
			return -1
		case a.I > b.I:
			return 1
		}
		return 0
	case a.K == model.Str && b.K == model.Str:
		return strings.Compare(a.S, b.S)
	}
	return 0
}

func homogeneous(l []*model.V) bool {
	for _, e := range l {
		if e.K != l[0].K || (e.K != model.Int && e.K != model.Str) {
			return false
		}
	}
	return true
}

func flatten(l []*model.V) (r []*model.V) {
	for _, e := range l {
		if e.K == model.Arr {
			r = append(r, flatten(e.L)...)
		} else {
			r = append(r, e)
		}
	}
	return
}

func uniq(l []*model.V) (r []*model.V) {
	seen := map[string]bool{}
	for _, e := range l {
		k := e.EqCanon()
		if !seen[k] {
			seen[k] = true
			r = append(r, e)
		}
	}
	return
}

func remAt(l []*model.V, i int) []*model.V {
	return append(append([]*model.V{}, l[:i]...), l[i+1:]...)
}

func insAt(l []*model.V, i int, e *model.V) []*model.V {
	return append(append(append([]*model.V{}, l[:i]...), e), l[i:]...)
}

func cat(l []*model.V, es ...*model.V) []*model.V {
	return append(append([]*model.V{}, l...), es...)
}

func indexOf(l []*model.V, e *model.V) int {
	for i := range l {
		if l[i].Equal(e) {
			return i
		}
	}
	return -1
}

func names(vs []*model.V) string {
	s := make([]string, len(vs))
	for i := range vs {
		s[i] = vs[i].Canon()
	}
	return strings.Join(s, ",")
}

// elem builds an argument value. It is frozen: nested mutability is explored by other alphabets.
func elem(m *model.V) dgo.Value { return m.Build(true) }

func arrayMutators(vals []*model.V, positions []int) (ops []*collOp) {
	add := func(name string, do func(w *world, o *obj) string) {
		ops = append(ops, &collOp{name: name, mutator: true, on: isArr, do: do})
	}
	for _, v := range vals {
		v := v
		add("Add("+v.Canon()+")", func(w *world, o *obj) string {
			arr(o).Add(elem(v))
			o.m.L = cat(o.m.L, v)
			return ""
		})
	}
	pair := vals[:2]
	add("AddValues("+names(pair)+")", func(w *world, o *obj) string {
		arr(o).AddValues(elem(pair[0]), elem(pair[1]))
		o.m.L = cat(o.m.L, pair...)
		return ""
	})
	add("AddAll(["+names(pair)+"])", func(w *world, o *obj) string {
		arr(o).AddAll(model.A(pair...).Build(false).(dgo.Array))
		o.m.L = cat(o.m.L, pair...)
		return ""
	})
	add("AddAll(self)", func(w *world, o *obj) string {
		arr(o).AddAll(arr(o))
		o.m.L = cat(o.m.L, o.m.L...)
		return ""
	})
	add("AddAll(map)", func(w *world, o *obj) string {
		arr(o).AddAll(vf.Map("k", elem(vals[0])).Keys())
		o.m.L = cat(o.m.L, model.S("k"))
		return ""
	})
	for _, p := range positions {
		p := p
		v := vals[0]
		oob := func(w *world, o *obj, limit int, call func()) (handled bool, bad string) {
			if p >= 0 && p < limit {
				return false, ""
			}
			if pv, _ := fw.Try(call); pv == nil && !o.frozen {
				return true, "position out of range was accepted"
			} else if pv != nil && o.frozen {
				panic(pv)
			}
			return true, ""
		}
		add(fmt.Sprintf("Set(%d,%s)", p, v.Canon()), func(w *world, o *obj) string {
			if h, bad := oob(w, o, len(o.m.L), func() { arr(o).Set(p, elem(v)) }); h {
				return bad
			}
			old := arr(o).Set(p, elem(v))
			exp := o.m.L[p]
			o.m.L = append(cat(o.m.L[:p], v), o.m.L[p+1:]...)
			return same(old, exp)
		})
		add(fmt.Sprintf("Insert(%d,%s)", p, v.Canon()), func(w *world, o *obj) string {
			if h, bad := oob(w, o, len(o.m.L)+1, func() { arr(o).Insert(p, elem(v)) }); h {
				return bad
			}
			arr(o).Insert(p, elem(v))
			o.m.L = insAt(o.m.L, p, v)
			return ""
		})
		add(fmt.Sprintf("Remove(%d)", p), func(w *world, o *obj) string {
			// out of range positions aren't specified other than that nothing must happen to the array
			if p < 0 || p >= len(o.m.L) {
				if pv, _ := fw.Try(func() { arr(o).Remove(p) }); pv != nil && o.frozen {
					panic(pv)
				}
				return ""
			}
			old := arr(o).Remove(p)
			exp := o.m.L[p]
			o.m.L = remAt(o.m.L, p)
			return same(old, exp)
		})
	}
	for _, v := range vals[:2] {
		v := v
		add("RemoveValue("+v.Canon()+")", func(w *world, o *obj) string {
			got := arr(o).RemoveValue(elem(v))
			i := indexOf(o.m.L, v)
			if i >= 0 {
				o.m.L = remAt(o.m.L, i)
			}
			if got != (i >= 0) {
				return fmt.Sprintf("returned %v", got)
			}
			return ""
		})
	}
	add("Pop()", func(w *world, o *obj) string {
		v, ok := arr(o).Pop()
		n := len(o.m.L)
		if ok != (n > 0) {
			return fmt.Sprintf("returned %v", ok)
		}
		if n == 0 {
			return same(v, nil)
		}
		exp := o.m.L[n-1]
		o.m.L = remAt(o.m.L, n-1)
		return same(v, exp)
	})
	return
}

func freezeOp() *collOp {
	return &collOp{name: "Freeze()", mutator: false, on: func(o *obj) bool { _, ok := o.v.(dgo.Freezable); return ok }, do: func(w *world, o *obj) string {
		o.v.(dgo.Freezable).Freeze()
		o.frozen = true
		return ""
	}}
}

func copyOps() (ops []*collOp) {
	on := func(o *obj) bool { _, ok := o.v.(dgo.Freezable); return ok }
	mk := func(name string, frozen bool, f func(o *obj) dgo.Value) {
		ops = append(ops, &collOp{name: name, on: on, do: func(w *world, o *obj) string {
			c := f(o)
			if c == nil {
				return "returned nil"
			}
			if !o.v.Equals(c) || !c.Equals(o.v) {
				return fmt.Sprintf("copy %s isn't equal to its source %s", c, o.v)
			}
			w.add(c, o.m.Copy(), frozen, fmt.Sprintf("v%d", len(w.objs)))
			return ""
		}})
	}
	mk("FrozenCopy()", true, func(o *obj) dgo.Value { return o.v.(dgo.Freezable).FrozenCopy() })
	mk("ThawedCopy()", false, func(o *obj) dgo.Value { return o.v.(dgo.Freezable).ThawedCopy() })
	cp := func(frozen bool) func(o *obj) dgo.Value {
		return func(o *obj) dgo.Value {
			switch x := o.v.(type) {
			case dgo.Array:
				return x.Copy(frozen)
			case dgo.Map:
				return x.Copy(frozen)
			case dgo.Binary:
				return x.Copy(frozen)
			}
			return o.v.(dgo.Freezable).FrozenCopy()
		}
	}
	mk("Copy(true)", true, cp(true))
	ops = append(ops, &collOp{name: "Copy(false)", on: func(o *obj) bool {
		switch o.v.(type) {
		case dgo.Array, dgo.Map, dgo.Binary:
			return true
		}
		return false
	}, do: func(w *world, o *obj) string {
		c := cp(false)(o)
		if !o.v.Equals(c) || !c.Equals(o.v) {
			return fmt.Sprintf("copy %s isn't equal to its source %s", c, o.v)
		}
		w.add(c, o.m.Copy(), false, fmt.Sprintf("v%d", len(w.objs)))
		return ""
	}})
	return
}

func modelPred(m *model.V) bool { return m.K == model.Int && m.I%2 == 1 || m.K == model.Str }
func implPred(v dgo.Value) bool { return modelPred(model.Observe(v)) }
func modelMap(m *model.V) *model.V {
	return model.A(m, model.I(7))
}

func implMap(v dgo.Value) interface{} { return vf.MutableValues(v, 7) }

func arrayDerivers(vals []*model.V, ranges [][2]int) (ops []*collOp) {
	add := func(name string, f func(o *obj) (dgo.Value, []*model.V)) {
		ops = append(ops, &collOp{name: name, on: isArr, do: func(w *world, o *obj) string {
			r, m := f(o)
			return w.derived(r, model.A(m...), o, name)
		}})
	}
	for _, v := range vals {
		v := v
		add("With("+v.Canon()+")", func(o *obj) (dgo.Value, []*model.V) { return arr(o).With(elem(v)), cat(o.m.L, v) })
	}
	p := vals[:2]
	add("WithValues("+names(p)+")", func(o *obj) (dgo.Value, []*model.V) {
		return arr(o).WithValues(elem(p[0]), elem(p[1])), cat(o.m.L, p...)
	})
	add("WithValues()", func(o *obj) (dgo.Value, []*model.V) { return arr(o).WithValues(), cat(o.m.L) })
	add("WithAll(["+names(p)+"])", func(o *obj) (dgo.Value, []*model.V) {
		return arr(o).WithAll(model.A(p...).Build(false).(dgo.Array)), cat(o.m.L, p...)
	})
	add("WithAll([])", func(o *obj) (dgo.Value, []*model.V) { return arr(o).WithAll(vf.Values()), cat(o.m.L) })
	add("WithAll(self)", func(o *obj) (dgo.Value, []*model.V) { return arr(o).WithAll(arr(o)), cat(o.m.L, o.m.L...) })
	for _, r := range ranges {
		r := r
		name := fmt.Sprintf("Slice(%d,%d)", r[0], r[1])
		ops = append(ops, &collOp{name: name, on: isArr, do: func(w *world, o *obj) string {
			if r[0] < 0 || r[1] < r[0] || r[1] > len(o.m.L) {
				var s dgo.Array
				if pv, _ := fw.Try(func() { s = arr(o).Slice(r[0], r[1]) }); pv == nil {
					return fmt.Sprintf("slice out of range was accepted and gave %s", model.Observe(s).Canon())
				}
				return ""
			}
			return w.derived(arr(o).Slice(r[0], r[1]), model.A(cat(o.m.L[r[0]:r[1]])...), o, name)
		}})
	}
	add("Select(odd|str)", func(o *obj) (dgo.Value, []*model.V) {
		var l []*model.V
		for _, e := range o.m.L {
			if modelPred(e) {
				l = append(l, e)
			}
		}
		return arr(o).Select(implPred), l
	})
	add("Select(all)", func(o *obj) (dgo.Value, []*model.V) {
		return arr(o).Select(func(dgo.Value) bool { return true }), cat(o.m.L)
	})
	add("Reject(odd|str)", func(o *obj) (dgo.Value, []*model.V) {
		var l []*model.V
		for _, e := range o.m.L {
			if !modelPred(e) {
				l = append(l, e)
			}
		}
		return arr(o).Reject(implPred), l
	})
	add("Reject(none)", func(o *obj) (dgo.Value, []*model.V) {
		return arr(o).Reject(func(dgo.Value) bool { return false }), cat(o.m.L)
	})
	add("Map(id)", func(o *obj) (dgo.Value, []*model.V) {
		return arr(o).Map(func(v dgo.Value) interface{} { return v }), cat(o.m.L)
	})
	add("Map(nil)", func(o *obj) (dgo.Value, []*model.V) {
		l := make([]*model.V, len(o.m.L))
		for i := range l {
			l[i] = model.N()
		}
		return arr(o).Map(func(v dgo.Value) interface{} { return nil }), l
	})
	add("Unique()", func(o *obj) (dgo.Value, []*model.V) { return arr(o).Unique(), uniq(o.m.L) })
	add("Flatten()", func(o *obj) (dgo.Value, []*model.V) { return arr(o).Flatten(), flatten(o.m.L) })
	ops = append(ops, &collOp{name: "Sort()", on: func(o *obj) bool { return isArr(o) && homogeneous(o.m.L) }, do: func(w *world, o *obj) string {
		l := cat(o.m.L)
		sort.SliceStable(l, func(i, j int) bool { return mcmp(l[i], l[j]) < 0 })
		return w.derived(arr(o).Sort(), model.A(l...), o, "Sort()")
	}})
	ops = append(ops, &collOp{name: "ToMap()", on: isArr, do: func(w *world, o *obj) string {
		m := model.M()
		for i := 0; i < len(o.m.L); i += 2 {
			v := model.N()
			if i+1 < len(o.m.L) {
				v = o.m.L[i+1]
			}
			m.Put(o.m.L[i], v)
		}
		return w.derived(arr(o).ToMap(), m, o, "ToMap()")
	}})
	return
}

// arrayQueries compares every query of the array with the model
func arrayQueries(w *world, o *obj, dom []*model.V) {
	a := arr(o)
	l := o.m.L
	bad := func(q string, got, exp interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(exp) {
			w.fail("query", "%s.%s: expected %v, got %v", o.label, q, exp, got)
		}
	}
	bad("Len()", a.Len(), len(l))
	for i, e := range l {
		bad(fmt.Sprintf("Get(%d)", i), model.Observe(a.Get(i)).Canon(), e.Canon())
	}
	for _, p := range []int{-1, len(l), len(l) + 1} {
		if pv, _ := fw.Try(func() { a.Get(p) }); pv == nil {
			w.fail("query", "%s.Get(%d) of an array with %d elements didn't panic", o.label, p, len(l))
		}
	}
	for _, d := range dom {
		bad("IndexOf("+d.Canon()+")", a.IndexOf(elem(d)), indexOf(l, d))
		is := func(v dgo.Value) bool { return model.Observe(v).Equal(d) }
		n := 0
		for _, e := range l {
			if e.Equal(d) {
				n++
			}
		}
		bad("Any(=="+d.Canon()+")", a.Any(is), n > 0)
		bad("All(=="+d.Canon()+")", a.All(is), n == len(l))
		bad("One(=="+d.Canon()+")", a.One(is), n == 1)
		calls := 0
		f := a.Find(func(v dgo.Value) interface{} {
			calls++
			if is(v) {
				return "found"
			}
			return nil
		})
		if n > 0 {
			bad("Find("+d.Canon()+")", f, "found")
			bad("Find("+d.Canon()+") calls", calls, indexOf(l, d)+1)
		} else {
			bad("Find("+d.Canon()+")", f == nil, true)
		}
	}
	var each, eachIdx, isl, gsl, app []string
	a.Each(func(v dgo.Value) { each = append(each, model.Observe(v).Canon()) })
	a.EachWithIndex(func(v dgo.Value, i int) { eachIdx = append(eachIdx, fmt.Sprintf("%d%s", i, model.Observe(v).Canon())) })
	for _, v := range a.InterfaceSlice() {
		isl = append(isl, model.Observe(v.(dgo.Value)).Canon())
	}
	for _, v := range a.GoSlice() {
		gsl = append(gsl, model.Observe(v).Canon())
	}
	pre := make([]dgo.Value, 1, 8)
	pre[0] = vf.String("pre")
	for _, v := range a.AppendToSlice(pre) {
		app = append(app, model.Observe(v).Canon())
	}
	var exp, expIdx []string
	for i, e := range l {
		exp = append(exp, e.Canon())
		expIdx = append(expIdx, fmt.Sprintf("%d%s", i, e.Canon()))
	}
	bad("Each", each, exp)
	bad("EachWithIndex", eachIdx, expIdx)
	bad("InterfaceSlice", isl, exp)
	bad("GoSlice", gsl, exp)
	bad("AppendToSlice", app, append([]string{`"pre"`}, exp...))
	red := a.Reduce("", func(memo, e dgo.Value) interface{} {
		return memo.(dgo.String).GoString() + model.Observe(e).Canon() + ";"
	})
	rexp := ""
	for _, e := range exp {
		rexp += e + ";"
	}
	bad("Reduce", red.(dgo.String).GoString(), rexp)
	fresh := o.m.Build(!o.frozen).(dgo.Array)
	bad("Equals(fresh)", a.Equals(fresh), true)
	bad("fresh.Equals", fresh.Equals(a), true)
	bad("HashCode()", a.HashCode(), fresh.HashCode())
	bad("String()", a.String(), fresh.String())
	if c, ok := a.CompareTo(fresh); ok {
		bad("CompareTo(fresh)", c, 0)
	}
	bad("SameValues(fresh)", a.SameValues(fresh), true)
	bad("ContainsAll(fresh)", a.ContainsAll(fresh), true)
	for _, q := range sublists(dom) {
		qv := model.A(q...).Build(true).(dgo.Array)
		bad("ContainsAll(["+names(q)+"])", a.ContainsAll(qv), multisetContains(l, q))
		bad("SameValues(["+names(q)+"])", a.SameValues(qv), len(l) == len(q) && multisetContains(l, q))
		bad("Equals(["+names(q)+"])", a.Equals(qv), model.A(q...).Equal(o.m))
	}
}

// sublists are all lists of length 0..2 over dom
func sublists(dom []*model.V) (r [][]*model.V) {
	r = append(r, nil)
	for _, a := range dom {
		r = append(r, []*model.V{a})
		for _, b := range dom {
			r = append(r, []*model.V{a, b})
		}
	}
	return
}

func multisetContains(l, q []*model.V) bool {
	n := map[string]int{}
	for _, e := range l {
		n[e.EqCanon()]++
	}
	for _, e := range q {
		n[e.EqCanon()]--
	}
	for _, c := range n {
		if c < 0 {
			return false
		}
	}
	return true
}
