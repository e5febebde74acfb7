package props

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C03: derived collections share no mutable state with their sources.
//
// Each history is: derive, derive (from the source or from the first derived), mutate any of them, where every live
// collection, including the arguments that were passed, must keep agreeing with its model.

func init() {
	fw.Register(&fw.Check{ID: "C03", Level: "model_checking", Rule: "every history of two deriving operations followed by one or two mutations of any live collection (source, derived or argument), from arrays with and without spare capacity and from maps of several sizes; every live collection is compared with its own model after every step; an outcome is the final content of all collections", Run: runC03})
}

// crossDerivers pass one live collection as the argument of another's deriving operation, or convert between kinds
func crossDerivers() (ops []*collOp) {
	add := func(name string, on func(o *obj) bool, f func(w *world, o *obj) (dgo.Value, *model.V, bool)) {
		ops = append(ops, &collOp{name: name, on: on, do: func(w *world, o *obj) string {
			r, m, frozen := f(w, o)
			if r == nil {
				return "returned nil"
			}
			w.add(r, m, frozen, fmt.Sprintf("v%d", len(w.objs)))
			return ""
		}})
	}
	// the argument stays alive in the world so that it is watched and mutated as well
	argA := func(w *world, frozen bool) *obj {
		m := model.A(model.S("k"), model.I(5))
		return w.add(m.Build(frozen), m, frozen, fmt.Sprintf("v%d", len(w.objs)))
	}
	argM := func(w *world, frozen bool) *obj {
		m := model.M(model.S("k"), model.I(5), model.I(0), model.S("z"))
		return w.add(m.Build(frozen), m, frozen, fmt.Sprintf("v%d", len(w.objs)))
	}
	for _, fr := range []bool{false, true} {
		fr := fr
		s := map[bool]string{true: "frozen", false: "mutable"}[fr]
		add("WithAll("+s+" arg)", isArr, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
			a := argA(w, fr)
			return arr(o).WithAll(arr(a)), model.A(cat(o.m.L, a.m.L...)...), o.frozen
		})
		add("Merge("+s+" arg)", isMap, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
			a := argM(w, fr)
			m := o.m.Shallow()
			for i := 0; i < len(a.m.L); i += 2 {
				m.Put(a.m.L[i], a.m.L[i+1])
			}
			return mp(o).Merge(mp(a)), m, o.frozen
		})
		add("WithoutAll("+s+" arg)", isMap, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
			a := argA(w, fr)
			m := o.m.Shallow()
			for _, k := range a.m.L {
				m.Remove(k)
			}
			return mp(o).WithoutAll(arr(a)), m, o.frozen
		})
		add("arg("+s+").Merge(this)", isMap, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
			a := argM(w, fr)
			m := a.m.Shallow()
			for i := 0; i < len(o.m.L); i += 2 {
				m.Put(o.m.L[i], o.m.L[i+1])
			}
			return mp(a).Merge(mp(o)), m, fr
		})
		add("arg("+s+").WithAll(this)", isArr, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
			a := argA(w, fr)
			return arr(a).WithAll(arr(o)), model.A(cat(a.m.L, o.m.L...)...), fr
		})
		add("{}"+s+".Merge(this)", isMap, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
			m := vf.MutableMap()
			if fr {
				m.Freeze()
			}
			return m.Merge(mp(o)), o.m.Shallow(), fr
		})
		add("[]"+s+".WithAll(this)", isArr, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
			return model.A().Build(fr).(dgo.Array).WithAll(arr(o)), o.m.Shallow(), fr
		})
	}
	add("Merge(self)", isMap, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
		return mp(o).Merge(mp(o)), o.m.Shallow(), o.frozen
	})
	add("vf.Map(this)", func(o *obj) bool { return isArr(o) && len(o.m.L)%2 == 0 }, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
		return vf.Map(arr(o)), toMapModel(o.m), true
	})
	add("vf.MutableMap(this)", func(o *obj) bool { return isArr(o) && len(o.m.L)%2 == 0 }, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
		return vf.MutableMap(arr(o)), toMapModel(o.m), false
	})
	add("vf.Array(this)", isArr, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
		return vf.Array(arr(o)), o.m.Shallow(), true
	})
	add("entries.ToMapFromEntries()", isMap, func(w *world, o *obj) (dgo.Value, *model.V, bool) {
		es := vf.MutableValues()
		mp(o).EachEntry(func(e dgo.MapEntry) { es.Add(e) })
		r, _ := es.ToMapFromEntries()
		return r, o.m.Shallow(), false
	})
	return
}

func toMapModel(a *model.V) *model.V {
	m := model.M()
	for i := 0; i < len(a.L); i += 2 {
		v := model.N()
		if i+1 < len(a.L) {
			v = a.L[i+1]
		}
		m.Put(a.L[i], v)
	}
	return m
}

func spareCap(n int) func(w *world) {
	return func(w *world) {
		a := vf.ArrayWithCapacity(8)
		m := model.A()
		for i := 0; i < n; i++ {
			e := model.I(int64(i))
			if i == 1 {
				e = model.S("a")
			}
			a.Add(elem(e))
			m.L = append(m.L, e)
		}
		w.add(a, m, false, "v0")
	}
}

func popped(n int) func(w *world) {
	return func(w *world) {
		spareCap(n + 2)(w)
		o := w.objs[0]
		arr(o).Pop()
		arr(o).Pop()
		o.m.L = o.m.L[:n]
	}
}

func frozenInit(f func(w *world)) func(w *world) {
	return func(w *world) {
		f(w)
		w.objs[0].v.(dgo.Freezable).Freeze()
		w.objs[0].frozen = true
	}
}

// exploreDeriveMutate enumerates: derive from v0; derive from any; mutate any (nm times)
func exploreDeriveMutate(c *fw.C, stage, prefix string, der, mut []*collOp, nm int, init func(w *world)) {
	c.Stage(stage)
	maxObj := 5
	for d1 := range der {
		for s2 := 0; s2 < 3; s2++ {
			for d2 := range der {
				d1, s2, d2 := d1, s2, d2
				// every mutation of every object, each from a fresh world
				c.Case(func() string {
					return fmt.Sprintf("%s v0.%s v%d.%s", prefix, der[d1].name, s2, der[d2].name)
				}, func(t *fw.T) {
					start := func() *world {
						w := &world{t: t}
						init(w)
						if !w.step(der[d1], 0) || s2 >= len(w.objs) || !w.step(der[d2], s2) {
							return nil
						}
						return w
					}
					w := start()
					if w == nil {
						t.Count("inapplicable", 1)
						return
					}
					n := len(w.objs)
					if n > maxObj {
						n = maxObj
					}
					for o := 0; o < n; o++ {
						for m := range mut {
							if !mut[m].on(w.objs[o]) {
								continue
							}
							w2 := start()
							if !w2.step(mut[m], o) {
								continue
							}
							t.State(worldString(w2))
							if nm > 1 {
								for o2 := 0; o2 < n; o2++ {
									for _, m2 := range []int{0, len(mut) - 1} {
										w3 := start()
										w3.step(mut[m], o)
										w3.step(mut[m2], o2)
									}
								}
							}
						}
					}
					t.Outcome(worldString(w))
				})
			}
		}
	}
}

func worldString(w *world) string {
	s := ""
	for _, o := range w.objs {
		s += fmt.Sprintf("%v%s;", o.frozen, o.m.Canon())
	}
	return s
}

func runC03(c *fw.C) {
	vals := []*model.V{model.I(9), model.S("q")}
	ader := append(arrayDerivers(vals[:1], [][2]int{{0, 0}, {0, 1}, {1, 2}, {0, 2}, {0, 3}, {1, 3}}), copyOps()...)
	ader = append(ader, crossDerivers()...)
	keys := []*model.V{model.S("k"), model.I(0), model.I(16)}
	mder := append(append(mapDerivers(keys[:2], vals), mapViews()...), copyOps()...)
	mder = append(mder, crossDerivers()...)
	allMut := append(arrayMutators(vals, []int{0, 1}), mapMutators(keys, vals)...)
	allMut = append(allMut, freezeOp())
	nm := 1
	if c.Thorough {
		nm = 2
	}
	for _, n := range []int{0, 1, 2, 3, 4} {
		exploreDeriveMutate(c, "array-spare", fmt.Sprintf("spare %d", n), ader, allMut, nm, spareCap(n))
		if n < 4 {
			exploreDeriveMutate(c, "array-frozen", fmt.Sprintf("frozen %d", n), ader, allMut, nm, frozenInit(spareCap(n)))
			exploreDeriveMutate(c, "array-popped", fmt.Sprintf("popped %d", n), ader, allMut, nm, popped(n))
		}
	}
	for _, n := range []int{0, 1, 2, 3, 7} {
		exploreDeriveMutate(c, "map", fmt.Sprintf("prefill %d", n), mder, allMut, nm, initMap(n, false, 0))
		if n < 7 {
			exploreDeriveMutate(c, "map-frozen", fmt.Sprintf("frozen prefill %d", n), mder, allMut, nm, initMap(n, true, 0))
		}
	}
	// deriving from mutable nested elements: With and friends on arrays with equal duplicates, nested arrays
	for _, in := range [][]*model.V{{model.A(model.I(1)), model.A(model.I(1))}, {model.I(2), model.I(1), model.I(2)}} {
		exploreDeriveMutate(c, "array-nested", model.A(in...).Canon(), ader, allMut, nm, initArr(false, in...))
	}
	largeDerivations(c)
	merges(c)
	c03Structs(c)
}

// c03Structs derives maps from mutable maps of structs and changes one of them
func c03Structs(c *fw.C) {
	type st struct {
		A int
		B string
		C interface{}
	}
	mk := func() dgo.Map { return vf.Map(&st{A: 1, B: "x", C: vf.Strings("y")}) }
	arg := func() dgo.Map { return vf.MutableMap("A", 5, "Z", 6) }
	all := func(e dgo.MapEntry) bool { return true }
	type derived struct {
		name string
		f    func(m, x dgo.Map) dgo.Map
	}
	ders := []derived{
		{"With a field", func(m, x dgo.Map) dgo.Map { return m.With("A", 2) }},
		{"With the same value", func(m, x dgo.Map) dgo.Map { return m.With("A", 1) }},
		{"With a new key", func(m, x dgo.Map) dgo.Map { return m.With("Z", 2) }},
		{"Without a field", func(m, x dgo.Map) dgo.Map { return m.Without("A") }},
		{"Without a missing key", func(m, x dgo.Map) dgo.Map { return m.Without("Z") }},
		{"WithoutAll fields", func(m, x dgo.Map) dgo.Map { return m.WithoutAll(vf.Values("A", "Z")) }},
		{"WithoutAll missing keys", func(m, x dgo.Map) dgo.Map { return m.WithoutAll(vf.Values("Y", "Z")) }},
		{"WithoutAll no keys", func(m, x dgo.Map) dgo.Map { return m.WithoutAll(vf.Values()) }},
		{"Merge", func(m, x dgo.Map) dgo.Map { return m.Merge(x) }},
		{"Merge the same map", func(m, x dgo.Map) dgo.Map { return m.Merge(m) }},
		{"Merge an empty map", func(m, x dgo.Map) dgo.Map { return m.Merge(vf.Map()) }},
		{"Merge a mutable empty map", func(m, x dgo.Map) dgo.Map { return m.Merge(vf.MutableMap()) }},
		{"merged into an empty map", func(m, x dgo.Map) dgo.Map { return vf.Map().Merge(m) }},
		{"merged into a mutable empty map", func(m, x dgo.Map) dgo.Map { return vf.MutableMap().Merge(m) }},
		{"merged into a map", func(m, x dgo.Map) dgo.Map { return x.Merge(m) }},
		{"merged into a frozen map", func(m, x dgo.Map) dgo.Map { return x.FrozenCopy().(dgo.Map).Merge(m) }},
		{"Copy", func(m, x dgo.Map) dgo.Map { return m.Copy(false) }},
		{"ThawedCopy", func(m, x dgo.Map) dgo.Map { return m.ThawedCopy().(dgo.Map) }},
		{"FrozenCopy", func(m, x dgo.Map) dgo.Map { return m.FrozenCopy().(dgo.Map) }},
		{"put in a new map", func(m, x dgo.Map) dgo.Map { r := vf.MutableMap(); r.PutAll(m); return r }},
		{"Map", func(m, x dgo.Map) dgo.Map { return m.Map(func(e dgo.MapEntry) interface{} { return e.Value() }) }},
		{"a map of the entries", func(m, x dgo.Map) dgo.Map {
			r := vf.MutableMap()
			if m.All(all) {
				m.EachEntry(func(e dgo.MapEntry) { r.Put(e.Key(), e.Value()) })
			}
			return r
		}},
	}
	type change struct {
		name string
		f    func(m dgo.Map)
	}
	changes := []change{
		{"Put A", func(m dgo.Map) { m.Put("A", 77) }},
		{"Put B", func(m dgo.Map) { m.Put("B", "new") }},
		{"Put C", func(m dgo.Map) { m.Put("C", nil) }},
		{"PutAll", func(m dgo.Map) { m.PutAll(vf.Map("A", 78, "B", "newer")) }},
		{"Put Z", func(m dgo.Map) { m.Put("Z", 79) }},
		{"Remove A", func(m dgo.Map) { m.Remove("A") }},
		{"RemoveAll", func(m dgo.Map) { m.RemoveAll(vf.Values("B", "Z", "A")) }},
	}
	c.Stage("structs")
	for _, d := range ders {
		d := d
		c.Case(func() string { return d.name }, func(t *fw.T) {
			for _, ch := range changes {
				for who := 0; who < 3; who++ {
					m, x := mk(), arg()
					src := m.String() + " " + x.String()
					r := d.f(m, x)
					if s := m.String() + " " + x.String(); s != src {
						t.Fatalf("derivation", "", "%s changes %s to %s", d.name, src, s)
					}
					maps := []dgo.Map{r, m, x}
					before := []string{r.String(), m.String(), x.String()}
					t.State(before[0])
					_, rt := fw.Try(func() { ch.f(maps[who]) })
					if rt {
						t.Fatalf("runtime", ch.name, "%s after %s", ch.name, d.name)
					}
					t.Count("transitions", 1)
					for i := range maps {
						if s := maps[i].String(); i != who && s != before[i] {
							t.Fatalf("shared", "", "%s: %s of %s changed %s to %s", d.name, ch.name, []string{"the result", "the source", "the argument"}[who], before[i], s)
						}
					}
					t.Outcome(maps[who].String())
				}
			}
		})
	}
}
