package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// Sizes beyond those of the small scope stages: around the growth of the hash table, the block sizes of sorting algorithms
// and the initial capacities.
var largeSizes = []int{4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 20, 21, 24, 25, 31, 32, 33, 41, 48, 49, 63, 64, 65, 97}

func mixedElem(i int) *model.V {
	switch i % 9 {
	case 0:
		return model.I(int64(i))
	case 1:
		return model.S(fmt.Sprintf("s%d", i))
	case 2:
		return model.F(float64(i) + 0.5)
	case 3:
		return model.A(model.I(int64(i)), model.S("x"))
	case 4:
		return model.M(model.S("k"), model.I(int64(i)))
	case 5:
		return model.Y(fmt.Sprintf("y%d", i))
	case 6:
		return model.I(int64(i) << 32)
	case 7:
		return model.A(model.A(model.I(int64(i))))
	}
	return model.B(i%2 == 0)
}

// crafted to have the same hash code
func collidingString(i int) string {
	s := ""
	for b := uint(0); b < 7; b++ {
		if i>>b&1 == 0 {
			s += "Aa"
		} else {
			s += "BB"
		}
	}
	return s
}

func largeMap(n, kind int) *model.V {
	m := model.M()
	for i := 0; i < n; i++ {
		var k *model.V
		switch kind {
		case 0:
			k = model.S(fmt.Sprintf("key%d", i))
		case 1:
			k = model.I(int64(i * 64))
		case 2:
			k = mixedElem(i)
		case 3:
			k = model.S(collidingString(i))
		}
		m.Put(k, model.I(int64(i)))
	}
	return m
}

func largeArray(n, kind int) *model.V {
	a := model.A()
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			a.L = append(a.L, model.I(int64(i)))
		case 1:
			a.L = append(a.L, model.S("same"))
		case 2:
			a.L = append(a.L, mixedElem(i))
		}
	}
	return a
}

func deepValue(n, kind int) *model.V {
	v := model.I(1)
	for i := 0; i < n; i++ {
		switch {
		case kind == 0 || kind == 2 && i%2 == 0:
			v = model.A(v)
		case kind == 1 || kind == 2:
			v = model.M(model.S("k"), v)
		case kind == 3:
			v = model.M(v, model.I(1))
			if i%2 == 0 {
				v = model.A(model.S("x"), v)
			}
		}
	}
	return v
}

// largeValues are long and deep values
func largeValues(thorough bool) (r []*model.V) {
	for si, n := range largeSizes {
		if n > 33 && !thorough && si%2 == 0 {
			continue
		}
		for k := 0; k < 3; k++ {
			r = append(r, largeArray(n, k))
		}
		for k := 0; k < 4; k++ {
			r = append(r, largeMap(n, k))
		}
	}
	for _, n := range []int{3, 4, 5, 8, 12} {
		for k := 0; k < 4; k++ {
			r = append(r, deepValue(n, k))
		}
	}
	return
}

// rotations of the elements or entries
func reordered(v *model.V, step int) *model.V {
	w := 1
	if v.K == model.Map {
		w = 2
	}
	n := len(v.L) / w
	r := &model.V{K: v.K}
	for i := 0; i < n; i++ {
		var j int
		switch {
		case step < 0:
			j = n - 1 - i
		default:
			j = (i + step) % n
		}
		r.L = append(r.L, v.L[j*w:j*w+w]...)
	}
	return r
}

// changed is the value with one element or map value replaced
func changed(v *model.V, pos int) *model.V {
	r := &model.V{K: v.K, L: append([]*model.V{}, v.L...)}
	if v.K == model.Map {
		pos = pos*2 + 1
	}
	r.L[pos] = model.S("changed")
	return r
}

func without(v *model.V, pos int) *model.V {
	w := 1
	if v.K == model.Map {
		w = 2
	}
	return &model.V{K: v.K, L: append(append([]*model.V{}, v.L[:pos*w]...), v.L[pos*w+w:]...)}
}

func largeEquality(c *fw.C) {
	c.Stage("large")
	for _, v := range largeValues(c.Thorough) {
		v := v
		if len(v.L) < 4 {
			continue
		}
		c.Case(func() string { return v.Canon() }, func(t *fw.T) {
			w := 1
			if v.K == model.Map {
				w = 2
			}
			n := len(v.L) / w
			reps := representations(v)
			a := reps[0]
			h := a.HashCode()
			m := vf.MutableMap(a, 1)
			same := func(b dgo.Value, what string) {
				if !a.Equals(b) || !b.Equals(a) {
					t.Failf("notequal", what, "%s: %s is not equal to %s", what, a, b)
				} else if b.HashCode() != h {
					t.Failf("hash", what, "%s: %s and %s are equal but their hash codes differ", what, a, b)
				} else if x := m.Get(b); x == nil || !x.Equals(1) {
					t.Failf("lookup", what, "%s: a map with the key %s has no key %s", what, a, b)
				}
				t.Count("transitions", 4)
			}
			differ := func(b dgo.Value, what string) {
				if a.Equals(b) || b.Equals(a) {
					t.Failf("equal", what, "%s: %s is equal to %s", what, a, b)
				} else if m.Get(b) != nil {
					t.Failf("lookup", what, "%s: a map with the key %s has the key %s", what, a, b)
				}
				t.Count("transitions", 3)
			}
			for _, b := range reps {
				same(b, "same")
			}
			for i := 0; i < n; i++ {
				differ(changed(v, i).Build(i%2 == 0), fmt.Sprintf("element %d changed", i))
				differ(without(v, i).Build(i%2 == 0), fmt.Sprintf("element %d removed", i))
			}
			for step := -1; step < n; step++ {
				if step == 0 {
					continue
				}
				r := reordered(v, step)
				if v.K == model.Map || r.Equal(v) {
					for _, b := range representations(r) {
						same(b, fmt.Sprintf("reordered %d", step))
					}
				} else {
					differ(r.Build(step%2 == 0), fmt.Sprintf("reordered %d", step))
				}
			}
			t.State(v.Canon())
			t.Outcome(v.Canon())
		})
	}
	// every order of up to six entries
	for n := 3; n <= 6; n++ {
		for kind := 0; kind < 4; kind++ {
			n, kind := n, kind
			c.Case(func() string { return fmt.Sprintf("permutations %d %d", n, kind) }, func(t *fw.T) {
				v := largeMap(n, kind)
				a := v.Build(true)
				h := a.HashCode()
				var rec func(m dgo.Map, used int)
				rec = func(m dgo.Map, used int) {
					if m.Len() == n {
						if !a.Equals(m) || !m.Equals(a) || m.HashCode() != h {
							t.Failf("order", m.String(), "%s and %s aren't equal or have different hash codes", a, m)
						}
						t.Count("transitions", 3)
						return
					}
					for i := 0; i < n; i++ {
						if used>>uint(i)&1 == 0 {
							rec(m.With(v.L[2*i].Build(true), v.L[2*i+1].Build(true)), used|1<<uint(i))
						}
					}
				}
				rec(vf.MutableMap(), 0)
			})
		}
	}
}

// largeSort sorts arrays beyond the size where sorting algorithms change strategy. All periodic sequences over three elements,
// two of which compare as equal although they are different.
func largeSort(c *fw.C) {
	c.Stage("large sort")
	i, f, s := model.I, model.F, model.S
	for ai, alpha := range [][]*model.V{
		{i(1), f(1), i(0)},
		{model.A(i(1)), model.A(f(1)), model.A()},
		{model.N(), i(2), f(2)},
		{s("b"), s("a"), s("c")},
		{model.N(), model.M(), model.M(s("a"), i(1))},
	} {
		for _, n := range []int{12, 13, 20, 21, 31, 41, 64, 97} {
			alpha, n, ai := alpha, n, ai
			c.Case(func() string { return names(alpha) + " " + itoa(n) }, func(t *fw.T) {
				idx := make([]int, n)
				for period := 1; period <= 4; period++ {
					total := 1
					for k := 0; k < period; k++ {
						total *= 3
					}
					for q := 0; q < total; q++ {
						x := q
						pat := make([]int, period)
						for k := range pat {
							pat[k] = x % 3
							x /= 3
						}
						for k := range idx {
							idx[k] = pat[k%period]
						}
						sortOne(t, alpha, idx, q%2 == 0)
						for k := range idx { // runs instead of periods
							idx[k] = pat[k*period/n]
						}
						sortOne(t, alpha, idx, q%2 == 0)
						t.Count("transitions", 2)
					}
				}
				t.Outcome(itoa(ai) + "/" + itoa(n))
			})
		}
	}
}

// largeCopies freezes and copies long and deep values and modifies everything that should be independent
func largeCopies(c *fw.C) {
	c.Stage("large")
	var mutate func(v dgo.Value) int
	mutate = func(v dgo.Value) (n int) {
		switch v := v.(type) {
		case dgo.Array:
			v.Each(func(e dgo.Value) { n += mutate(e) })
			if !v.Frozen() {
				v.Add("mutated")
				n++
			}
		case dgo.Map:
			v.EachEntry(func(e dgo.MapEntry) { n += mutate(e.Key()) + mutate(e.Value()) })
			if !v.Frozen() {
				v.Put("mutated", true)
				n++
			}
		}
		return
	}
	for _, v := range largeValues(c.Thorough) {
		v := v
		c.Case(func() string { return v.Canon() }, func(t *fw.T) {
			want := v.Canon()
			chk := func(what string, d dgo.Value, frozen bool) {
				if got := model.Observe(d).Canon(); got != want {
					t.Failf("content", what, "%s: expected %s, got %s", what, want, got)
				}
				if p := model.FrozenDeep(d); frozen && p != "" {
					t.Failf("frozen", what, "%s of %s isn't frozen: %s", what, want, p)
				}
				t.Count("transitions", 1)
			}
			copies := func(d dgo.Value) map[string]dgo.Value {
				f := d.(dgo.Freezable)
				r := map[string]dgo.Value{"FrozenCopy": f.FrozenCopy(), "ThawedCopy": f.ThawedCopy()}
				switch d := d.(type) {
				case dgo.Array:
					r["Copy(true)"] = d.Copy(true)
					r["vf.Array"] = vf.Array(d)
				case dgo.Map:
					r["Copy(true)"] = d.Copy(true)
				}
				return r
			}
			for _, frozen := range []bool{true, false} {
				for _, name := range []string{"FrozenCopy", "ThawedCopy", "Copy(true)", "vf.Array"} {
					d := v.Build(frozen)
					cp := copies(d)[name]
					if cp == nil {
						continue
					}
					chk(name, cp, name != "ThawedCopy")
					if mutate(d) == 0 && !frozen {
						t.Failf("mutable", name, "nothing in the mutable %s can be modified", want)
					}
					chk(name+" after a modification of the source", cp, name != "ThawedCopy")
					d = v.Build(frozen)
					cp = copies(d)[name]
					if n := mutate(cp); n == 0 && name == "ThawedCopy" {
						t.Failf("mutable", name, "nothing in the %s of %s can be modified", name, want)
					}
					chk("the source after a modification of the "+name, d, frozen)
				}
			}
			d := v.Build(false)
			d.(dgo.Freezable).Freeze()
			chk("Freeze", d, true)
			if mutate(d) != 0 {
				t.Failf("mutable", "Freeze", "frozen %s contains something that can be modified", want)
			}
			t.State(want)
		})
	}
}

// largeArrays applies every operation to long arrays
func largeArrays(c *fw.C) {
	vals := []*model.V{model.I(1), model.S("same"), model.A(model.I(3), model.S("x")), model.N()}
	q := func(w *world) {
		for _, o := range w.objs {
			if isArr(o) {
				arrayQueries(w, o, vals)
			}
		}
	}
	for _, n := range largeSizes {
		if n > 33 && !c.Thorough {
			continue
		}
		for kind := 0; kind < 3; kind++ {
			a := largeArray(n, kind)
			ops := append(append(arrayMutators(vals[:3], []int{0, 1, n - 1, n}), arrayDerivers(vals, [][2]int{{0, 0}, {0, 1}, {1, n - 1}, {0, n}, {n - 1, n}, {n, n}, {n - 1, n + 1}})...), copyOps()...)
			ops = append(ops, freezeOp())
			for _, fr := range []bool{false, true} {
				exploreHistories(c, "large", fmt.Sprintf("n=%d kind=%d frozen=%v", n, kind, fr), 1, ops, 2, initArr(fr, a.L...), q)
			}
		}
	}
}

// longFamily are sequences of n elements, the same less one, and such that differ from them in one or two positions
func longFamily(n int, mk func(es []int64) *model.V) (r []*model.V) {
	base := make([]int64, n)
	for i := range base {
		base[i] = int64(i%60) + 2
	}
	var ls [][]int64
	alter := func(l []int64, pv ...int64) {
		l = append([]int64{}, l...)
		for i := 0; i < len(pv); i += 2 {
			l[pv[i]] = pv[i+1]
		}
		ls = append(ls, l)
	}
	for _, l := range [][]int64{base, base[:n-1], append(base[:n:n], 3)} {
		k := int64(len(l))
		alter(l)
		for _, p := range []int64{0, k / 2, k - 1} {
			alter(l, p, 1)
			alter(l, p, 100)
		}
		alter(l, k/2, 1, k-1, 100)
		alter(l, k/2, 100, k-1, 1)
		alter(l, 0, 100, k-1, 1)
	}
	for _, l := range ls {
		r = append(r, mk(l))
	}
	return dedup(r)
}

func longKinds() map[string]func(es []int64) *model.V {
	text := func(es []int64) string {
		b := make([]byte, len(es))
		for i, e := range es {
			b[i] = byte(e) + ' '
		}
		return string(b)
	}
	return map[string]func(es []int64) *model.V{
		"array": func(es []int64) *model.V {
			r := model.A()
			for _, e := range es {
				r.L = append(r.L, model.I(e))
			}
			return r
		},
		"strings": func(es []int64) *model.V {
			r := model.A()
			for _, e := range es {
				r.L = append(r.L, model.S("x"+string(rune('0'+e))))
			}
			return r
		},
		"nested": func(es []int64) *model.V {
			r := model.A()
			for _, e := range es {
				r.L = append(r.L, model.A(model.F(float64(e)), model.I(1)))
			}
			return r
		},
		"string": func(es []int64) *model.V { return model.S(text(es)) },
		"binary": func(es []int64) *model.V { return model.Y(text(es)) },
		"values": func(es []int64) *model.V {
			r := model.M()
			for i, e := range es {
				r.L = append(r.L, model.I(int64(i)), model.I(e))
			}
			return r
		},
	}
}

var longSizes = []int{3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 65}

// longFamilies visits the families of all sizes and kinds
func longFamilies(c *fw.C, visit func(t *fw.T, vs []*model.V)) {
	c.Stage("long")
	ks := longKinds()
	for _, k := range []string{"array", "strings", "nested", "string", "binary", "values"} {
		for _, n := range longSizes {
			k, n := k, n
			c.Case(func() string { return fmt.Sprintf("%s %d", k, n) }, func(t *fw.T) {
				visit(t, longFamily(n, ks[k]))
				t.State(fmt.Sprintf("%s %d", k, n))
			})
		}
	}
}

// longTypes are types with n members, and values that belong to them or differ in one position
func longTypes(n int) (ts []*model.Ty, vs []*model.V) {
	i, s := model.I, model.S
	ints := make([]*model.Ty, n)
	mixed := make([]*model.Ty, n)
	var ses, opt []model.SE
	var ors, strs []*model.Ty
	arr, mix, obj := model.A(), model.A(), model.M()
	for k := 0; k < n; k++ {
		ints[k] = model.TInt
		mixed[k] = model.TString
		e := s("x")
		if k%2 == 0 {
			mixed[k] = model.TIntRange(0, int64(k), true)
			e = i(int64(k))
		}
		name := fmt.Sprintf("k%d", k)
		ses = append(ses, model.SE{Key: s(name), Ty: mixed[k], Req: true})
		opt = append(opt, model.SE{Key: s(name), Ty: mixed[k], Req: k%3 == 0})
		ors = append(ors, model.TExact(i(int64(k*2))))
		strs = append(strs, model.TExact(s(name)))
		arr.L = append(arr.L, i(int64(k)))
		mix.L = append(mix.L, e)
		obj.L = append(obj.L, s(name), e)
	}
	nn := int64(n)
	ts = append(ts, model.TTuple(false, ints...), model.TTuple(true, ints...), model.TTuple(false, mixed...), model.TTuple(true, mixed...),
		model.TArr(model.TInt, nn, nn), model.TArr(model.TInt, 0, nn-1), model.TArr(model.TInt, nn+1, 1<<62), model.TArr(model.TOr(model.TInt, model.TString), 0, nn),
		model.TMapOf(model.TString, model.TOr(model.TInt, model.TString), nn, nn), model.TMapOf(model.TString, model.TInt, 0, nn), model.TMapOf(model.TOr(strs...), model.TAny, 0, nn),
		model.TStruct(false, ses...), model.TStruct(true, ses...), model.TStruct(false, opt...), model.TStruct(true, opt...),
		model.TOr(ors...), model.TOr(strs...), model.TArr(model.TOr(ors...), 0, 100), model.TExact(arr), model.TExact(mix), model.TExact(obj), model.TStringSized(nn, nn), model.TBinSized(0, nn), model.TPattern(fmt.Sprintf("^x{%d}$", n)))
	vs = append(vs, arr, mix, obj)
	for _, v := range []*model.V{arr, mix, obj} {
		w := 1
		if v.K == model.Map {
			w = 2
		}
		for p := 0; p < n; p++ {
			for _, x := range []*model.V{i(-1), s("y"), model.N(), i(int64(p))} {
				o := v.Copy()
				o.L[p*w+w-1] = x
				vs = append(vs, o)
			}
			o := v.Copy()
			o.L = append(o.L[:p*w:p*w], o.L[p*w+w:]...)
			vs = append(vs, o)
			if w == 2 {
				o = v.Copy()
				o.L[p*w] = s("other")
				vs = append(vs, o)
			}
		}
		o := v.Copy()
		for k := 0; k < 2; k++ {
			if w == 2 {
				o.L = append(o.L, s(fmt.Sprintf("more%d", k)))
			}
			o.L = append(o.L, s("y"))
			vs = append(vs, o.Copy())
		}
	}
	for k := -1; k <= 2*n+1; k++ {
		vs = append(vs, i(int64(k)), s(fmt.Sprintf("k%d", k)), model.A(i(int64(k))))
	}
	for k := n - 1; k <= n+1; k++ {
		vs = append(vs, s(strings.Repeat("x", k)), model.Y(strings.Repeat("x", k)))
	}
	return ts, dedup(vs)
}

// longInstances checks which values are instances of long types, and with that the assignability between the types and
// from the exact types of the values
func longInstances(c *fw.C) {
	c.Stage("long")
	for _, n := range []int{3, 4, 5, 8, 9, 16, 17, 33} {
		ts, vs := longTypes(n)
		for k := range ts {
			ty := ts[k]
			n := n
			c.Case(func() string { return fmt.Sprintf("%d %s", n, short(ty.Name)) }, func(t *fw.T) {
				dt := ty.Build()
				for _, v := range vs {
					want := ty.Has(v)
					d := v.Build(true)
					for f, x := range []interface{}{d, v.Build(false)} {
						if got := dt.Instance(x); got != want {
							t.Failf("instance", fmt.Sprintf("%s/%d", short(v.Canon()), f), "%s: Instance(%s) is %v, form %d", ty.Name, v.Canon(), got, f)
						}
					}
					if v.K != model.Nil && dt.Assignable(d.(dgo.Value).Type()) != want {
						t.Failf("assignable", short(v.Canon()), "%s is assignable from the exact type of %s: %v", ty.Name, v.Canon(), !want)
					}
					t.Count("transitions", 3)
				}
				for _, o := range ts {
					if !dt.Assignable(o.Build()) {
						continue
					}
					for _, v := range vs {
						if o.Has(v) && !ty.Has(v) {
							t.Failf("unsound", o.Name, "%s is assignable from %s but %s is an instance of the latter only", ty.Name, o.Name, v.Canon())
							break
						}
					}
				}
				if o := ty.Build(); !dt.Assignable(o) || !dt.Equals(o) || dt.HashCode() != o.HashCode() {
					t.Failf("reflexive", "", "%s isn't assignable from and equal to itself", ty.Name)
				}
				t.State(ty.Name)
			})
		}
	}
}

// deriveOnce derives once from a large collection and then modifies each of the collections once
func deriveOnce(c *fw.C, prefix string, der, mut []*collOp, init func(w *world)) {
	c.Stage("large")
	for d := range der {
		d := d
		c.Case(func() string { return prefix + " " + der[d].name }, func(t *fw.T) {
			start := func() *world {
				w := &world{t: t}
				init(w)
				if !w.step(der[d], 0) {
					return nil
				}
				return w
			}
			w := start()
			if w == nil {
				t.Count("inapplicable", 1)
				return
			}
			for o := range w.objs {
				for m := range mut {
					if mut[m].on(w.objs[o]) {
						w2 := start()
						w2.step(mut[m], o)
					}
				}
			}
			t.State(prefix + der[d].name)
		})
	}
}

func largeDerivations(c *fw.C) {
	vals := []*model.V{model.I(9), model.S("q")}
	keys := []*model.V{model.S("k"), model.I(0), model.I(16)}
	for _, n := range []int{5, 8, 9, 12, 16, 17, 33} {
		ader := append(append(arrayDerivers(vals[:1], [][2]int{{0, n}, {1, n}, {0, n - 1}, {n / 2, n}, {0, n / 2}}), copyOps()...), crossDerivers()...)
		amut := append(append(arrayMutators(vals[:1], []int{0, n / 2, n - 1}), mapMutators(keys[:2], vals)...), freezeOp())
		for k := 0; k < 3; k++ {
			es := make([]*model.V, n)
			for i := range es {
				switch k {
				case 0:
					es[i] = model.I(int64(i))
				case 1:
					es[i] = model.I(int64(i * i % 5))
				default:
					es[i] = model.A(model.I(int64(i % 7)))
				}
			}
			for _, fr := range []bool{false, true} {
				deriveOnce(c, fmt.Sprintf("array %d %d %v", n, k, fr), ader, amut, initArr(fr, es...))
			}
		}
		mder := append(append(append(mapDerivers(keys[:2], vals), mapViews()...), copyOps()...), crossDerivers()...)
		mmut := append(append(mapMutators(keys, vals), arrayMutators(vals[:1], []int{0, n - 1})...), freezeOp())
		for _, fr := range []bool{false, true} {
			deriveOnce(c, fmt.Sprintf("map %d %v", n, fr), mder, mmut, initMap(n, fr, 0))
		}
	}
}

// merges checks Merge, PutAll, RemoveAll, WithoutAll and the queries of several keys on maps of all pairs of sizes and
// ways to overlap
func merges(c *fw.C) {
	c.Stage("merges")
	sizes := []int{0, 1, 2, 3, 7, 8, 9, 12, 13, 17, 33}
	mk := func(n, from int, kind, val int) *model.V {
		m := model.M()
		for i := 0; i < n; i++ {
			k := model.I(int64(from + i))
			if kind == 1 {
				k = model.S(collidingString(from + i))
			}
			m.L = append(m.L, k, model.A(model.I(int64(val+i))))
		}
		return m
	}
	for _, n := range sizes {
		for _, o := range sizes {
			n, o := n, o
			c.Case(func() string { return fmt.Sprintf("%d %d", n, o) }, func(t *fw.T) {
				froms := map[int]bool{0: true, 1: true, n - 1: true, n / 2: true, n: true, n + 5: true}
				for from := range froms {
					if from < 0 {
						continue
					}
					for kind := 0; kind < 2; kind++ {
						for rev := 0; rev < 2; rev++ {
							am, bm := mk(n, 0, kind, 0), mk(o, from, kind, 1000)
							if rev == 1 {
								bm = reordered(bm, -1)
							}
							sum, rest := am.Copy(), am.Copy()
							for i := 0; i < len(bm.L); i += 2 {
								sum.Put(bm.L[i], bm.L[i+1])
								rest.Remove(bm.L[i])
							}
							for fr := 0; fr < 4; fr++ {
								a, b := am.Build(fr&1 != 0).(dgo.Map), bm.Build(fr&2 != 0).(dgo.Map)
								is := func(what string, d dgo.Value, m *model.V) {
									if s := model.Observe(d).Canon(); s != m.Canon() {
										t.Failf("content", fmt.Sprintf("%s %d %d %d %d", what, from, kind, rev, fr), "%s of %s and %s: %s, expected %s", what, am.Canon(), bm.Canon(), s, m.Canon())
									}
									t.Count("transitions", 1)
								}
								both := func(what string) {
									is(what+": receiver", a, am)
									is(what+": argument", b, bm)
								}
								mg, wo := a.Merge(b), a.WithoutAll(b.Keys())
								is("Merge", mg, sum)
								is("WithoutAll", wo, rest)
								both("after Merge and WithoutAll")
								for _, d := range []dgo.Map{mg, wo} {
									if d.Frozen() {
										continue
									}
									d.Put("more", 1)
									if k := d.Keys().Get(0); !k.Equals("more") {
										d.Remove(k)
									}
								}
								both("after modification of the results")
								if fr&1 != 0 {
									continue
								}
								a.PutAll(b)
								is("PutAll", a, sum)
								is("PutAll: argument", b, bm)
								a.RemoveAll(b.Keys())
								is("RemoveAll", a, rest)
								is("RemoveAll: argument", b, bm)
							}
						}
					}
				}
				t.State(fmt.Sprintf("%d %d", n, o))
			})
		}
	}
}
