package props

import (
	"fmt"
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
	"math"
)

// C08: order and sort.

func init() {
	fw.Register(&fw.Check{ID: "C08", Level: "model_checking", Run: runC08,
		Rule: "all ordered pairs of values (in dgo and Go representation): the answer of CompareTo equals a reference order (nil, numbers, strings, booleans, binaries, arrays by element and then by length; everything else isn't comparable); from it all triples for transitivity; all arrays up to the stated length over several element alphabets: Sort compared with a stable insertion sort by the reference order, the receiver unchanged"})
}

func c08Universe() (vs []*model.V) {
	i, f, s, y := model.I, model.F, model.S, model.Y
	vs = []*model.V{model.N(), model.B(false), model.B(true),
		i(-1 << 63), i(-256), i(-1), i(0), i(1), i(2), i(3), i(10), i(255), i(256), i(1 << 53), i(1<<63 - 1),
		f(-1e300), f(-1.5), f(-1), f(0), f(0.5), f(1), f(1.5), f(2), f(10), f(1 << 53), f(1e300),
		i(-2), i(1 << 30), i(1<<53 - 1), f(-1e-10), f(1e-10), f(1e-320), f(math.Nextafter(1, 2)), f(math.Nextafter(2, 1)), f(-0.5), f(2.000001), f(255.5), f(1<<53 - 1), f(1 << 30), f(1<<30 + 0.5), f(1 << 62), f(-1 << 63), f(1e18),
		s(""), s("A"), s("a"), s("aa"), s("ab"), s("aé"), s("z"), s("ä"), s("a\x00"), s("aaaaaaaaaaaaaaaaaaaa"), s("aaaaaaaaaaaaaaaaaaab"), s("b"), s("\xff"), s("é"), s("1"), s("10"), s("2"), s("\x00"),
		y(""), y("\x00"), y("a"), y("aa"), y("b"), y("\x7f"), y("\x80"), y("\xff"), y("a\xff"), y("b\x00"),
		model.T(uTime1), model.R("a"), model.M(), model.M(s("a"), i(1)), model.X(i(1)), model.TV(model.TInt)}
	el := []*model.V{model.N(), i(1), i(2), f(1), f(1.5), s("a"), s("b"), model.B(true), y("a"), model.R("a"), model.M(), model.A(), model.A(i(1))}
	vs = append(vs, model.A())
	for _, x := range el {
		vs = append(vs, model.A(x), model.A(model.A(x)))
		for _, z := range el {
			vs = append(vs, model.A(x, z))
		}
	}
	for _, x := range []*model.V{i(1), i(2), s("a"), model.N()} {
		vs = append(vs, model.A(i(1), i(1), x), model.A(x, i(1), i(2)), model.A(model.A(i(1), x)), model.A(model.A(i(1)), x), model.A(model.A(x), model.A(i(2))), model.A(i(1), model.A(x)))
	}
	return dedup(vs)
}

func sgn(a int) int {
	switch {
	case a < 0:
		return -1
	case a > 0:
		return 1
	}
	return 0
}

// refCompare is the reference order
func refCompare(a, b *model.V) (int, bool) {
	cmp := func(l, g bool) (int, bool) {
		switch {
		case l:
			return -1, true
		case g:
			return 1, true
		}
		return 0, true
	}
	ok := func(v *model.V) bool {
		switch v.K {
		case model.Nil, model.Bool, model.Int, model.Float, model.Str, model.Bin, model.Arr:
			return true
		}
		return false
	}
	if a.K != model.Nil && b.K != model.Nil && (!ok(a) || !ok(b)) {
		return 0, false
	}
	num := func(v *model.V) bool { return v.K == model.Int || v.K == model.Float }
	fl := func(v *model.V) float64 {
		if v.K == model.Int {
			return float64(v.I)
		}
		return v.F
	}
	switch {
	case a.K == model.Nil || b.K == model.Nil:
		return cmp(a.K == model.Nil && b.K != model.Nil, a.K != model.Nil && b.K == model.Nil)
	case a.K == model.Int && b.K == model.Int:
		return cmp(a.I < b.I, a.I > b.I)
	case num(a) && num(b):
		return cmp(fl(a) < fl(b), fl(a) > fl(b))
	case a.K != b.K:
		return 0, false
	case a.K == model.Bool:
		return cmp(!a.B && b.B, a.B && !b.B)
	case a.K == model.Str, a.K == model.Bin:
		for i := 0; i < len(a.S) && i < len(b.S); i++ {
			if a.S[i] != b.S[i] {
				return cmp(a.S[i] < b.S[i], true)
			}
		}
		return cmp(len(a.S) < len(b.S), len(a.S) > len(b.S))
	}
	for i := 0; i < len(a.L) && i < len(b.L); i++ {
		c, ok := refCompare(a.L[i], b.L[i])
		if !ok {
			return 0, false
		}
		if c != 0 {
			return c, true
		}
	}
	return cmp(len(a.L) < len(b.L), len(a.L) > len(b.L))
}

func runC08(c *fw.C) {
	vals := c08Universe()
	n := len(vals)
	ds := make([][]dgo.Value, n)
	for i, v := range vals {
		ds[i] = []dgo.Value{v.Build(true), v.Build(false)}
	}
	c.Stage("pairs")
	for i := range vals {
		i, a := i, vals[i]
		c.Case(func() string { return a.Canon() }, func(t *fw.T) {
			row := make([]byte, n)
			for j, b := range vals {
				wc, wok := refCompare(a, b)
				row[j] = byte('1' + wc)
				for _, da := range ds[i] {
					ca, isC := da.(dgo.Comparable)
					if !isC {
						if wok && b.K != model.Nil {
							t.Fatalf("comparable", "", "%s is not Comparable", a.Canon())
						}
						continue
					}
					forms := append([]interface{}{ds[j][0], ds[j][1]}, goForms(b)...)
					if b.K == model.Nil {
						forms = append(forms, nil)
					}
					if b.K == model.Arr && wok && a.K == model.Arr {
						gs := make([]interface{}, len(b.L))
						for k := range b.L {
							gs[k] = b.L[k].Build(true)
						}
						forms = append(forms, gs)
					}
					for k, f := range forms {
						gc, gok := ca.CompareTo(f)
						t.Count("transitions", 1)
						if gok != wok && !(da == f && gok && gc == 0) || gok && wok && sgn(gc) != wc {
							t.Failf("compare", b.Canon(), "%s.CompareTo(%T %v /%d) is %d, %v, want %d, %v", a.Canon(), f, f, k, gc, gok, wc, wok)
						}
					}
				}
				if a.Equal(b) && wok && wc != 0 {
					t.Failf("model", b.Canon(), "the reference order is inconsistent")
				}
			}
			t.State(a.Canon())
			t.Outcome(string(row))
		})
	}
	longFamilies(c, func(t *fw.T, vs []*model.V) {
		ds := make([][2]dgo.Value, len(vs))
		for i, v := range vs {
			ds[i] = [2]dgo.Value{v.Build(true), v.Build(false)}
		}
		for i, a := range vs {
			for j, b := range vs {
				wc, wok := refCompare(a, b)
				for k, da := range ds[i] {
					for l, db := range ds[j] {
						ca, ok := da.(dgo.Comparable)
						if !ok {
							continue
						}
						if gc, gok := ca.CompareTo(db); (gok != wok || gok && sgn(gc) != wc) && !(da == db && gok && gc == 0) {
							t.Failf("compare", fmt.Sprintf("%d %d %d%d", i, j, k, l), "%s.CompareTo(%s) is %d, %v, want %d, %v", a.Canon(), b.Canon(), gc, gok, wc, wok)
						}
						t.Count("transitions", 1)
					}
				}
			}
		}
	})
	c.Stage("triples")
	rel := func(i, j int) (int, bool) {
		ca, ok := ds[i][0].(dgo.Comparable)
		if !ok {
			return 0, false
		}
		r, ok := ca.CompareTo(ds[j][0])
		return sgn(r), ok
	}
	big := func(v *model.V) bool { return v.K == model.Int && (v.I > 1<<52 || v.I < -(1<<52)) } // documented: integers are converted to float for such comparisons
	for i := range vals {
		i := i
		c.Case(func() string { return vals[i].Canon() }, func(t *fw.T) {
			if big(vals[i]) {
				return
			}
			for j := range vals {
				ij, ok := rel(i, j)
				if !ok || big(vals[j]) {
					continue
				}
				if ji, ok := rel(j, i); (vals[i].K != model.Nil || ok) && (!ok || ji != -ij) {
					t.Failf("antisymmetric", vals[j].Canon(), "%s compared to %s is %d, the opposite is %d", vals[i].Canon(), vals[j].Canon(), ij, ji)
				}
				for k := range vals {
					jk, ok := rel(j, k)
					if !ok || big(vals[k]) || ij*jk < 0 {
						continue
					}
					if ik, ok := rel(i, k); ok && sgn(ij+jk) != ik {
						t.Failf("transitive", vals[j].Canon()+"/"+vals[k].Canon(), "%s, %s, %s compare %d, %d, but the first to the last %d", vals[i].Canon(), vals[j].Canon(), vals[k].Canon(), ij, jk, ik)
					}
					t.Count("triples", 1)
				}
			}
		})
	}
	c08Sort(c)
	largeSort(c)
}

func c08Sort(c *fw.C) {
	i, f, s, y := model.I, model.F, model.S, model.Y
	L := 5
	if c.Thorough {
		L = 7
	}
	for ai, alpha := range [][]*model.V{
		{i(1), f(1), i(2), f(1.5)},
		{i(3), i(-1), i(1 << 62), i(-1 << 63)},
		{s("a"), s("b"), s(""), s("ab")},
		{model.N(), i(1), i(2), f(2)},
		{model.N(), s("a"), s("b")},
		{model.B(true), model.B(false)},
		{y("a"), y("\xff"), y("")},
		{model.A(i(1)), model.A(f(1)), model.A(), model.A(i(1), i(2))},
		{model.A(model.N()), model.A(s("a")), model.A(s("a"), model.N())},
		{model.N(), model.M(), model.M(s("a"), i(1))},
		{model.N(), model.X(i(1)), model.R("a")},
		{i(2), i(1), s("b"), s("a")},
		{i(2), i(1), model.A(i(1)), model.A(), model.N()},
		{model.B(true), s("a"), y("a"), y("b")},
		{model.T(uTime2), model.T(uTime1), model.R("a"), model.M()},
	} {
		c.Stage("sort")
		L := L
		if len(alpha) > 4 {
			L--
		}
		idx := make([]int, L)
		for l := 0; l <= L; l++ {
			total := 1
			for k := 0; k < l; k++ {
				total *= len(alpha)
			}
			for lo := 0; lo < total; lo += 64 {
				lo, ai, l := lo, ai, l
				c.Case(func() string { return names(alpha) + " " + string(rune('0'+l)) + " " + itoa(lo) }, func(t *fw.T) {
					for q := lo; q < lo+64 && q < total; q++ {
						x := q
						for k := 0; k < l; k++ {
							idx[k] = x % len(alpha)
							x /= len(alpha)
						}
						sortOne(t, alpha, idx[:l], q%2 == 0)
						t.Count("transitions", 1)
					}
					t.Outcome(itoa(ai) + "/" + itoa(lo))
				})
			}
		}
	}
}

func sortOne(t *fw.T, alpha []*model.V, idx []int, frozen bool) {
	in := make([]*model.V, len(idx))
	es := make([]interface{}, len(idx))
	src := make([]dgo.Value, len(idx))
	for k, x := range idx {
		in[k] = alpha[x]
		src[k] = alpha[x].Build(true)
		es[k] = src[k]
	}
	label := model.A(in...).Canon()
	var a dgo.Array
	if frozen {
		a = vf.Values(es...)
		for k := range src {
			src[k] = a.Get(k)
		}
	} else {
		a = vf.MutableValues(es...)
	}
	r := a.Sort()
	if got := model.Observe(a).Canon(); got != label {
		t.Failf("receiver", label, "Sort changed %s to %s", label, got)
	}
	if r.Len() != len(idx) {
		t.Failf("permutation", label, "sorting %s gives %s", label, model.Observe(r).Canon())
		return
	}
	// group the elements by kind. The order of kinds isn't specified except that nil comes first
	perm := make([]int, r.Len())
	used := make([]bool, len(src))
	for k := range perm {
		perm[k] = -1
		for q := range src {
			if !used[q] && (r.Get(k) == src[q]) {
				perm[k], used[q] = q, true
				break
			}
		}
		if perm[k] < 0 { // equal elements that aren't identical
			for q := range src {
				if !used[q] && model.Observe(r.Get(k)).Canon() == in[q].Canon() {
					perm[k], used[q] = q, true
					break
				}
			}
		}
		if perm[k] < 0 {
			t.Failf("permutation", label, "sorting %s gives %s", label, model.Observe(r).Canon())
			return
		}
	}
	for k := range perm {
		for q := k + 1; q < len(perm); q++ {
			a, b := in[perm[k]], in[perm[q]]
			if b.K == model.Nil && a.K != model.Nil {
				t.Failf("nilfirst", label, "sorting %s gives %s", label, model.Observe(r).Canon())
				return
			}
			if a.K == model.Nil && b.K != model.Nil {
				continue
			}
			cm, ok := refCompare(a, b)
			if ok && (cm > 0 || cm == 0 && perm[k] > perm[q] && a.Canon() != b.Canon()) {
				t.Failf("order", label, "sorting %s gives %s", label, model.Observe(r).Canon())
				return
			}
			if !ok && a.K == b.K && perm[k] > perm[q] && a.Canon() != b.Canon() {
				t.Failf("stable", label, "sorting %s gives %s", label, model.Observe(r).Canon())
				return
			}
		}
	}
	// the same result from another order of the kinds is not required, but sorting again must not change anything
	if again := r.Sort(); model.Observe(again).Canon() != model.Observe(r).Canon() {
		t.Failf("again", label, "sorting the sorted %s gives %s", model.Observe(r).Canon(), model.Observe(again).Canon())
	}
}

func itoa(i int) string {
	b := []byte{}
	for {
		b = append(b, byte('0'+i%10))
		i /= 10
		if i == 0 {
			break
		}
	}

	for x, y := 0, len(b)-1; x < y; x, y = x+1, y-1 {
		b[x], b[y] = b[y], b[x]
	}
	return string(b)
}
