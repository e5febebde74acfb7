package props

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

func mapMutators(keys, vals []*model.V) (ops []*collOp) {
	add := func(name string, do func(w *world, o *obj) string) {
		ops = append(ops, &collOp{name: name, mutator: true, on: isMap, do: do})
	}
	for _, k := range keys {
		k := k
		for _, v := range vals {
			v := v
			add("Put("+k.Canon()+","+v.Canon()+")", func(w *world, o *obj) string {
				old := mp(o).Put(elem(k), elem(v))
				return same(old, o.m.Put(k, v))
			})
		}
		add("Remove("+k.Canon()+")", func(w *world, o *obj) string {
			old := mp(o).Remove(elem(k))
			return same(old, o.m.Remove(k))
		})
	}
	all := func(name string, kvs ...*model.V) {
		add("PutAll("+name+")", func(w *world, o *obj) string {
			src := model.M(kvs...)
			mp(o).PutAll(src.Build(false).(dgo.Map))
			for i := 0; i < len(kvs); i += 2 {
				o.m.Put(kvs[i], kvs[i+1])
			}
			return ""
		})
	}
	all("two", keys[0], vals[1], keys[1], vals[0])
	all("last", keys[len(keys)-1], vals[0])
	many := []*model.V{}
	for i := 0; i < 9; i++ {
		many = append(many, model.I(int64(100+i*8)), vals[0])
	}
	all("nine", many...)
	add("PutAll(self)", func(w *world, o *obj) string {
		if len(o.m.L) == 0 && o.frozen {
			panic("n/a: nothing to do")
		}
		mp(o).PutAll(mp(o))
		return ""
	})
	ra := func(ks ...*model.V) {
		add("RemoveAll("+names(ks)+")", func(w *world, o *obj) string {
			mp(o).RemoveAll(model.A(ks...).Build(false).(dgo.Array))
			for _, k := range ks {
				o.m.Remove(k)
			}
			return ""
		})
	}
	ra(keys[0], keys[1])
	ra(keys[1], keys[1], keys[len(keys)-1])
	add("RemoveAll(own keys)", func(w *world, o *obj) string {
		mp(o).RemoveAll(mp(o).Keys())
		o.m.L = nil
		return ""
	})
	return
}

func mapDerivers(keys, vals []*model.V) (ops []*collOp) {
	add := func(name string, f func(o *obj) (dgo.Value, *model.V)) {
		ops = append(ops, &collOp{name: name, on: isMap, do: func(w *world, o *obj) string {
			r, m := f(o)
			return w.derived(r, m, o, name)
		}})
	}
	for _, k := range keys {
		k := k
		for _, v := range vals {
			v := v
			add("With("+k.Canon()+","+v.Canon()+")", func(o *obj) (dgo.Value, *model.V) {
				m := o.m.Shallow()
				m.Put(k, v)
				return mp(o).With(elem(k), elem(v)), m
			})
		}
		add("Without("+k.Canon()+")", func(o *obj) (dgo.Value, *model.V) {
			m := o.m.Shallow()
			m.Remove(k)
			return mp(o).Without(elem(k)), m
		})
	}
	wo := func(ks ...*model.V) {
		add("WithoutAll("+names(ks)+")", func(o *obj) (dgo.Value, *model.V) {
			m := o.m.Shallow()
			for _, k := range ks {
				m.Remove(k)
			}
			return mp(o).WithoutAll(model.A(ks...).Build(true).(dgo.Array)), m
		})
	}
	wo()
	wo(keys[0], keys[1])
	wo(keys[len(keys)-1], keys[len(keys)-1])
	mg := func(name string, frozen bool, kvs ...*model.V) {
		add("Merge("+name+")", func(o *obj) (dgo.Value, *model.V) {
			m := o.m.Shallow()
			for i := 0; i < len(kvs); i += 2 {
				m.Put(kvs[i], kvs[i+1])
			}
			return mp(o).Merge(model.M(kvs...).Build(frozen).(dgo.Map)), m
		})
	}
	mg("{}", true)
	mg("two", true, keys[1], vals[0], keys[0], vals[1])
	mg("two-mutable", false, keys[0], vals[1], keys[len(keys)-1], vals[0])
	add("Map(pair)", func(o *obj) (dgo.Value, *model.V) {
		m := o.m.Shallow()
		for i := 0; i < len(m.L); i += 2 {
			m.L[i+1] = model.A(m.L[i], m.L[i+1])
		}
		return mp(o).Map(func(e dgo.MapEntry) interface{} { return vf.Values(e.Key(), e.Value()) }), m
	})
	add("Map(nil)", func(o *obj) (dgo.Value, *model.V) {
		m := o.m.Shallow()
		for i := 0; i < len(m.L); i += 2 {
			m.L[i+1] = model.N()
		}
		return mp(o).Map(func(e dgo.MapEntry) interface{} { return nil }), m
	})
	return
}

func mapViews() (ops []*collOp) {
	ops = append(ops, &collOp{name: "Keys()", on: isMap, do: func(w *world, o *obj) string {
		m := model.A()
		for i := 0; i < len(o.m.L); i += 2 {
			m.L = append(m.L, o.m.L[i])
		}
		w.add(mp(o).Keys(), m, true, fmt.Sprintf("v%d", len(w.objs)))
		return ""
	}})
	ops = append(ops, &collOp{name: "Values()", on: isMap, do: func(w *world, o *obj) string {
		m := model.A()
		for i := 0; i < len(o.m.L); i += 2 {
			m.L = append(m.L, o.m.L[i+1])
		}
		vs := mp(o).Values()
		// a snapshot: whether it is frozen isn't specified for mutable maps
		if o.frozen && !vs.Frozen() {
			return "values of a frozen map aren't frozen"
		}
		w.add(vs, m, vs.Frozen(), fmt.Sprintf("v%d", len(w.objs)))
		return ""
	}})
	return
}

// mapQueries compares every query of a map with the model
func mapQueries(w *world, o *obj, keys, vals []*model.V) {
	m := mp(o)
	l := o.m.L
	bad := func(q string, got, exp interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(exp) {
			w.fail("query", "%s.%s: expected %v, got %v", o.label, q, exp, got)
		}
	}
	bad("Len()", m.Len(), len(l)/2)
	ck := func(k *model.V) {
		exp := o.m.Get(k)
		if s := same(m.Get(elem(k)), exp); s != "" {
			w.fail("query", "%s.Get(%s): %s", o.label, k.Canon(), s)
		}
		switch k.K {
		case model.Str:
			if s := same(m.Get(k.S), exp); s != "" {
				w.fail("query", "%s.Get(go string %s): %s", o.label, k.Canon(), s)
			}
		case model.Int:
			if s := same(m.Get(k.I), exp); s != "" {
				w.fail("query", "%s.Get(go int %s): %s", o.label, k.Canon(), s)
			}
			if s := same(m.Get(int(k.I)), exp); s != "" {
				w.fail("query", "%s.Get(go int %s): %s", o.label, k.Canon(), s)
			}
		case model.Arr:
			if s := same(m.Get(k.Build(false)), exp); s != "" {
				w.fail("query", "%s.Get(mutable %s): %s", o.label, k.Canon(), s)
			}
		}
		bad("ContainsKey("+k.Canon()+")", m.ContainsKey(elem(k)), exp != nil)
		is := func(v dgo.Value) bool { return model.Observe(v).Equal(k) }
		bad("AnyKey(=="+k.Canon()+")", m.AnyKey(is), exp != nil)
		bad("AllKeys(=="+k.Canon()+")", m.AllKeys(is), len(l) == 0 || len(l) == 2 && exp != nil)
		var e dgo.MapEntry
		e = m.Find(func(e dgo.MapEntry) bool { return is(e.Key()) })
		if (e != nil) != (exp != nil) {
			w.fail("query", "%s.Find(%s) gave %v", o.label, k.Canon(), e)
		} else if e != nil {
			bad("Find("+k.Canon()+")", model.Observe(e.Value()).Canon(), exp.Canon())
		}
	}
	for _, k := range keys {
		ck(k)
	}
	for i := 0; i < len(l); i += 2 {
		ck(l[i])
	}
	for _, v := range vals {
		is := func(x dgo.Value) bool { return model.Observe(x).Equal(v) }
		n := 0
		for i := 1; i < len(l); i += 2 {
			if l[i].Equal(v) {
				n++
			}
		}
		bad("AnyValue(=="+v.Canon()+")", m.AnyValue(is), n > 0)
		bad("AllValues(=="+v.Canon()+")", m.AllValues(is), n == len(l)/2)
		bad("Any(=="+v.Canon()+")", m.Any(func(e dgo.MapEntry) bool { return is(e.Value()) }), n > 0)
		bad("All(=="+v.Canon()+")", m.All(func(e dgo.MapEntry) bool { return is(e.Value()) }), n == len(l)/2)
	}
	var ks, vs, es, es2, ek, ev, eks, evs, ees []string
	m.EachKey(func(k dgo.Value) { ks = append(ks, model.Observe(k).Canon()) })
	m.EachValue(func(k dgo.Value) { vs = append(vs, model.Observe(k).Canon()) })
	m.EachEntry(func(e dgo.MapEntry) {
		es = append(es, model.Observe(e.Key()).Canon()+"=>"+model.Observe(e.Value()).Canon())
	})
	m.Each(func(x dgo.Value) {
		e := x.(dgo.MapEntry)
		es2 = append(es2, model.Observe(e.Key()).Canon()+"=>"+model.Observe(e.Value()).Canon())
	})
	m.Keys().Each(func(k dgo.Value) { ek = append(ek, model.Observe(k).Canon()) })
	m.Values().Each(func(k dgo.Value) { ev = append(ev, model.Observe(k).Canon()) })
	str := true
	for i := 0; i < len(l); i += 2 {
		eks = append(eks, l[i].Canon())
		evs = append(evs, l[i+1].Canon())
		ees = append(ees, l[i].Canon()+"=>"+l[i+1].Canon())
		str = str && l[i].K == model.Str
	}
	bad("EachKey", ks, eks)
	bad("EachValue", vs, evs)
	bad("EachEntry", es, ees)
	bad("Each", es2, ees)
	bad("Keys()", ek, eks)
	bad("Values()", ev, evs)
	bad("Keys().Frozen()", m.Keys().Frozen(), true)
	bad("StringKeys()", m.StringKeys(), str)
	fresh := o.m.Build(!o.frozen).(dgo.Map)
	bad("Equals(fresh)", m.Equals(fresh), true)
	bad("fresh.Equals", fresh.Equals(m), true)
	bad("HashCode()", m.HashCode(), fresh.HashCode())
	bad("String()", m.String(), fresh.String())
	// another insertion order gives an equal map with the same hash
	rev := vf.MutableMap()
	for i := len(l) - 2; i >= 0; i -= 2 {
		rev.Put(elem(l[i]), elem(l[i+1]))
	}
	bad("Equals(reversed)", m.Equals(rev), true)
	bad("HashCode(reversed)", m.HashCode(), rev.HashCode())
	if len(l) > 0 {
		rev.Put(elem(l[0]), vf.String("something else"))
		bad("Equals(changed value)", m.Equals(rev), false)
		bad("changed.Equals", rev.Equals(m), false)
		rev.Remove(elem(l[0]))
		bad("Equals(smaller)", m.Equals(rev), false)
		bad("smaller.Equals", rev.Equals(m), false)
		rev.Put(vf.String("other key"), elem(l[1]))
		bad("Equals(other key)", m.Equals(rev), false)
		bad("otherkey.Equals", rev.Equals(m), false)
	}
}

// keysCollide are keys that share buckets in small tables and keys that share the full hash code
func keysCollide() []*model.V {
	return []*model.V{
		model.S("a"),         // hash 31+97=128
		model.I(128),         // same full hash as "a"
		model.I(0),           // bucket 0
		model.I(8),           // collides with 0 in tables of 8
		model.A(model.I(97)), // array hash 1*31+97 = 128
		model.B(true),        // 1231
		model.I(1231),        // same full hash as true
		model.S("key"),       //
	}
}

func initMap(prefill int, frozen bool, capacity int) func(w *world) {
	return func(w *world) {
		m := vf.MapWithCapacity(capacity)
		mm := model.M()
		for i := 0; i < prefill; i++ {
			k := model.I(int64(16 * i))
			if i%3 == 1 {
				k = model.S(fmt.Sprintf("p%d", i))
			}
			v := model.I(int64(i))
			m.Put(elem(k), elem(v))
			mm.Put(k, v)
		}
		if frozen {
			m.Freeze()
		}
		w.add(m, mm, frozen, "v0")
	}
}

func initArr(frozen bool, vals ...*model.V) func(w *world) {
	return func(w *world) {
		m := model.A(vals...)
		w.add(m.Build(frozen), m, frozen, "v0")
	}
}

func init() {
	fw.Register(&fw.Check{ID: "C04", Level: "model_checking", Rule: "every history of map operations up to the stated depth, from every stated initial map (empty, pre-filled around each resize boundary, frozen), over keys chosen to share buckets and full hash codes, compared step by step with an insertion ordered reference dictionary; an outcome is the final content of all maps of a history", Run: runC04})
	fw.Register(&fw.Check{ID: "C05", Level: "model_checking", Rule: "every history of array operations up to the stated depth from every stated initial array, compared step by step with a reference list; an outcome is the final content of all arrays of a history", Run: runC05})
}

func runC04(c *fw.C) {
	keys := keysCollide()
	vals := []*model.V{model.I(1), model.S("x")}
	muts := mapMutators(keys, vals)
	q := func(w *world) {
		for _, o := range w.objs {
			if isMap(o) {
				mapQueries(w, o, keys, vals)
			}
		}
	}
	d := 3
	if c.Thorough {
		d = 4
	}
	for n := 1; n <= d; n++ {
		for _, p := range []int{0, 1} {
			exploreHistories(c, fmt.Sprintf("mutators-depth%d", n), fmt.Sprintf("prefill=%d", p), n, muts, 1, initMap(p, false, 0), q)
		}
	}
	// around the resize boundaries
	sizes := []int{2, 3, 4, 5, 6, 7, 11, 12, 13, 14, 23, 24, 25, 26}
	for _, p := range sizes {
		for _, cp := range []int{0, 1, p, p + 1} {
			for n := 1; n <= 2; n++ {
				exploreHistories(c, fmt.Sprintf("boundary-depth%d", n), fmt.Sprintf("prefill=%d cap=%d", p, cp), n, muts, 1, initMap(p, false, cp), q)
			}
		}
	}
	// mixed with copying and deriving operations
	few := []*model.V{keys[0], keys[1], keys[2]}
	mixed := append(append(append(mapMutators(few, vals), mapDerivers(few, vals)...), mapViews()...), copyOps()...)
	mixed = append(mixed, freezeOp())
	d = 2
	if c.Thorough {
		d = 3
	}
	for n := 1; n <= d; n++ {
		for _, fr := range []bool{false, true} {
			for _, p := range []int{0, 1, 3, 6} {
				exploreHistories(c, fmt.Sprintf("mixed-depth%d", n), fmt.Sprintf("prefill=%d frozen=%v", p, fr), n, mixed, 3, initMap(p, fr, 0), q)
			}
		}
	}
	merges(c)
}

func runC05(c *fw.C) {
	vals := []*model.V{model.I(1), model.S("a"), model.A(model.I(1)), model.N()}
	muts := arrayMutators(vals, []int{0, 1, 3})
	q := func(w *world) {
		for _, o := range w.objs {
			if isArr(o) {
				arrayQueries(w, o, vals)
			}
		}
	}
	inits := [][]*model.V{{}, {model.I(1)}, {model.I(2), model.I(1)}, {model.I(1), model.S("a"), model.I(1)}, {model.I(3), model.I(1), model.I(2), model.I(1)}, {model.S("b"), model.S(""), model.S("a")}, {model.A(model.I(1), model.A()), model.N(), model.A(model.I(1), model.A())}}
	largeArrays(c)
	arrayTrees(c)
	d := 3
	if c.Thorough {
		d = 4
	}
	for n := 1; n <= d; n++ {
		for i, in := range inits {
			if n == d && i > 4 {
				continue
			}
			exploreHistories(c, fmt.Sprintf("mutators-depth%d", n), model.A(in...).Canon(), n, muts, 1, initArr(false, in...), q)
		}
	}
	mixed := append(append(arrayMutators(vals[:3], []int{0, 1}), arrayDerivers(vals, [][2]int{{0, 0}, {0, 1}, {1, 2}, {0, 2}, {1, 3}, {2, 1}, {-1, 1}, {0, 4}, {0, 5}, {3, 3}})...), copyOps()...)
	mixed = append(mixed, freezeOp())
	d = 2
	if c.Thorough {
		d = 3
	}
	for n := 1; n <= d; n++ {
		for _, fr := range []bool{false, true} {
			for _, in := range inits {
				exploreHistories(c, fmt.Sprintf("mixed-depth%d", n), fmt.Sprintf("%s frozen=%v", model.A(in...).Canon(), fr), n, mixed, 3, initArr(fr, in...), q)
			}
		}
	}
}

// arrayTrees flattens all arrays of nested arrays up to a number of nodes. A node without elements is an integer or an empty array
func arrayTrees(c *fw.C) {
	max := 9
	if c.Thorough {
		max = 11
	}
	memo := map[int][][]*model.V{}
	var forests func(n int) [][]*model.V
	forests = func(n int) [][]*model.V {
		if r, ok := memo[n]; ok {
			return r
		}
		var r [][]*model.V
		if n == 0 {
			r = [][]*model.V{{}}
		}
		for k := 1; k <= n; k++ {
			var firsts []*model.V
			if k == 1 {
				firsts = append(firsts, model.I(7))
			}
			for _, f := range forests(k - 1) {
				firsts = append(firsts, model.A(f...))
			}
			for _, rest := range forests(n - k) {
				for _, f := range firsts {
					r = append(r, append([]*model.V{f}, rest...))
				}
			}
		}
		memo[n] = r
		return r
	}
	number := func(f []*model.V) *model.V {
		n := int64(0)
		var rec func(v *model.V) *model.V
		rec = func(v *model.V) *model.V {
			if v.K == model.Int {
				n++
				return model.I(n)
			}
			r := model.A()
			for _, e := range v.L {
				r.L = append(r.L, rec(e))
			}
			return r
		}
		return rec(model.A(f...))
	}
	c.Stage("trees")
	for n := 0; n <= max; n++ {
		fs := forests(n)
		step := 200
		for lo := 0; lo < len(fs); lo += step {
			part := fs[lo:]
			if len(part) > step {
				part = part[:step]
			}
			n, lo := n, lo
			c.Case(func() string { return fmt.Sprintf("%d nodes from %d", n, lo) }, func(t *fw.T) {
				for _, f := range part {
					m := number(f)
					flat := model.A(flatten(m.L)...).Canon()
					for form := 0; form < 3; form++ {
						a := m.Build(form == 1).(dgo.Array)
						if form == 2 {
							// with spare capacity
							sp := vf.ArrayWithCapacity(len(m.L)*3 + 2)
							sp.AddAll(a)
							a = sp
						}
						var r dgo.Array
						if e, _ := fw.Try(func() { r = a.Flatten() }); e != nil {
							t.Failf("fails", m.Canon(), "%s: %v", m.Canon(), e)
							continue
						}
						t.Count("transitions", 1)
						if s := model.Observe(r).Canon(); s != flat {
							t.Failf("flatten", m.Canon(), "%s gives %s", m.Canon(), s)
						}
						if r.Frozen() != a.Frozen() {
							t.Failf("frozen", m.Canon(), "%s", m.Canon())
						}
						if !r.Frozen() {
							r.Add(99)
							for i := 0; i < r.Len(); i++ {
								r.Set(i, -1)
							}
						}
						if s := model.Observe(a).Canon(); s != m.Canon() {
							t.Failf("receiver", m.Canon(), "%s becomes %s", m.Canon(), s)
						}
					}
					t.State(m.Canon())
					t.Outcome(flat)
				}
			})
		}
	}
}
