package props

import (
	"fmt"
	"math/bits"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C12: assignability against the denotations.

func init() {
	fw.Register(&fw.Check{ID: "C12", Level: "model_checking", Run: runC12,
		Rule: "every ordered pair of types of the grammar up to the stated nesting: when the implementation says that a is assignable from b, no value of the universe may be in the denotation of b and not in that of a; where the denotations are decidably included, the implementation must say that a is assignable from b; every triple of the smaller type set for transitivity. A state is a pair of types, transitions are assignability tests, an outcome is a distinct row of answers"})
}

type tyInfo struct {
	m    *model.Ty
	d    dgo.Type
	bits []uint64
}

func infos(types []*model.Ty, vals []*model.V) []tyInfo {
	r := make([]tyInfo, len(types))
	for i, t := range types {
		b := make([]uint64, (len(vals)+63)/64)
		for j, v := range vals {
			if t.Has(v) {
				b[j/64] |= 1 << uint(j%64)
			}
		}
		r[i] = tyInfo{t, t.Build(), b}
	}
	return r
}

// witness returns an index of a value that is in b but not in a, or -1
func witness(a, b []uint64) int {
	for i := range a {
		if x := b[i] &^ a[i]; x != 0 {
			return i*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}

func uses(t *model.Ty, ops ...string) bool {
	for _, o := range ops {
		if t.Op == o {
			return true
		}
	}
	for _, s := range t.Sub {
		if uses(s, ops...) {
			return true
		}
	}
	return false
}

func runC12(c *fw.C) {
	vals := valueUniverse(c.Thorough)
	n2 := len(typeUniverse(2))
	types := typeUniverse(3)
	ts := infos(types, vals)
	c.Stage("pairs")
	for i := range ts {
		i, a := i, &ts[i]
		c.Case(func() string { return a.m.Name }, func(t *fw.T) {
			ts := ts
			if i >= n2 && !c.Thorough {
				ts = ts[:n2] // nested types with each other in the thorough tier only
			}
			row := make([]byte, len(ts))
			for j := range ts {
				b := &ts[j]
				var got bool
				if pv, _ := fw.Try(func() { got = a.d.Assignable(b.d) }); pv != nil {
					t.Failf("panic", b.m.Name, "%s.Assignable(%s) panicked: %v", a.d, b.d, pv)
					continue
				}
				row[j] = '0'
				if got {
					row[j] = '1'
					if w := witness(a.bits, b.bits); w >= 0 && !negatedUnion(a.m, b.m) {
						t.Failf("unsound", b.m.Name, "%s is assignable from %s but %s is an instance of the latter only", a.m.Name, b.m.Name, vals[w].Canon())
					}
				} else if why := mustAssign(a.m, b.m); why != "" {
					t.Failf("incomplete", b.m.Name, "%s should be assignable from %s: %s", a.m.Name, b.m.Name, why)
				}
			}
			t.Count("transitions", int64(len(ts)))
			t.Count("pairs", int64(len(ts)))
			// another build of the same type
			o := a.m.Build()
			if !a.d.Assignable(o) || !o.Assignable(a.d) || !a.d.Assignable(a.d) {
				t.Failf("reflexive", "", "%s is not assignable from itself", a.m.Name)
			}
			t.State(a.m.Name)
			t.Outcome(string(row))
		})
	}
	c.Stage("exact")
	for i := range ts {
		a := &ts[i]
		c.Case(func() string { return a.m.Name }, func(t *fw.T) {
			for j, v := range vals {
				if !hasExact(v) {
					continue
				}
				has := a.bits[j/64]&(1<<uint(j%64)) != 0
				for _, fr := range []bool{true, false} {
					vt := v.Build(fr).Type()
					got := a.d.Assignable(vt)
					if got && !has {
						t.Failf("unsound", v.Canon(), "%s is assignable from the type of %s which is not an instance", a.m.Name, v.Canon())
					}
					if !got && has {
						t.Failf("incomplete", v.Canon(), "%s is not assignable from the type of its instance %s", a.m.Name, v.Canon())
					}
				}
			}
			t.Count("transitions", 2*int64(len(vals)))
		})
	}
	// negations of unions, one pair for each operator and position
	c.Stage("negation")
	nt, or, one := model.TNot, model.TOr, model.TOne
	for _, p := range [][2]*model.Ty{
		{nt(model.TString), or(nt(model.TString), nt(model.TInt))}, {nt(model.TInt), or(model.TInt, model.TString)}, {nt(model.TFloat), one(model.TString, model.TFloat)},
		{nt(model.TInt), or(model.TString, model.TFloat)}, {nt(or(model.TString, model.TInt)), or(model.TString, model.TInt)}, {nt(or(model.TInt, model.TFloat)), model.TInt},
		{nt(model.TFloat), one(model.TString, model.TInt, model.TBool)}, {nt(model.TIntRange(1, 2, true)), or(model.TIntRange(1, 2, true), model.TIntRange(1, 3, true))},
	} {
		ab := infos(p[:], vals)
		c.Case(func() string { return ab[0].m.Name + " <- " + ab[1].m.Name }, func(t *fw.T) {
			if w := witness(ab[0].bits, ab[1].bits); w >= 0 && ab[0].d.Assignable(ab[1].d) {
				t.Failf("unsound", "", "%s is assignable from %s but %s is an instance of the latter only", ab[0].m.Name, ab[1].m.Name, vals[w].Canon())
			}
			t.Count("transitions", 1)
		})
	}
	c12Functions(c)
	longInstances(c)
	c12Transitive(c)
}

// c12Fn is a function type over int, string and any
type c12Fn struct {
	in, out  string // one letter for each type
	variadic bool
}

func (f c12Fn) text() string {
	names := map[rune]string{'i': "int", 's': "string", 'a': "any"}
	list := func(x string, variadic bool) string {
		var ps []string
		for i, r := range x {
			n := names[r]
			if variadic && i == len(x)-1 {
				n = "..." + n
			}
			ps = append(ps, n)
		}
		return strings.Join(ps, ",")
	}
	s := "func(" + list(f.in, f.variadic) + ")"
	switch len(f.out) {
	case 0:
	case 1:
		s += " " + list(f.out, false)
	default:
		s += " (" + list(f.out, false) + ")"
	}
	return s
}

func (f c12Fn) goFunc() interface{} {
	gt := map[rune]reflect.Type{'i': reflect.TypeOf(0), 's': reflect.TypeOf(""), 'a': reflect.TypeOf((*interface{})(nil)).Elem()}
	var in, out []reflect.Type
	for _, r := range f.in {
		in = append(in, gt[r])
	}
	for _, r := range f.out {
		out = append(out, gt[r])
	}
	if f.variadic {
		in[len(in)-1] = reflect.SliceOf(in[len(in)-1])
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, f.variadic), func([]reflect.Value) []reflect.Value { return nil }).Interface()
}

// covers tells if all argument lists of g, or results when that is what the letters denote, are such of f
func covers(f, g string, fv, gv bool) bool {
	if fv != gv {
		return false
	}
	sub := func(a, b byte) bool { return a == b || a == 'a' }
	if !fv {
		if len(f) != len(g) {
			return false
		}
		for i := range f {
			if !sub(f[i], g[i]) {
				return false
			}
		}
		return true
	}
	if len(g) < len(f) {
		return false
	}
	for i := range g {
		j := i
		if j >= len(f) {
			j = len(f) - 1
		}
		if !sub(f[j], g[i]) {
			return false
		}
	}
	return true
}

// c12Functions checks all pairs of function types with up to two parameters and results, both those that the parser
// creates and those of Go functions. A function type accepts what has the same number of parameters and results
// (a variadic function: all parameters of the other), each of a type that it accepts.
func c12Functions(c *fw.C) {
	c.Stage("functions")
	lists := []string{""}
	for n := 1; n <= 2; n++ {
		for _, l := range lists {
			if len(l) == n-1 {
				lists = append(lists, l+"i", l+"s", l+"a")
			}
		}
	}
	var fs []c12Fn
	for _, in := range lists {
		for _, out := range lists {
			fs = append(fs, c12Fn{in, out, false})
			if in != "" {
				fs = append(fs, c12Fn{in, out, true})
			}
		}
	}
	type forms struct {
		parsed, exact dgo.Type
		value         dgo.Value
	}
	ds := make([]forms, len(fs))
	for i, f := range fs {
		v := vf.Value(f.goFunc())
		ds[i] = forms{tf.ParseType(f.text()), v.Type(), v}
	}
	for i := range fs {
		i, f := i, fs[i]
		c.Case(f.text, func(t *fw.T) {
			for j, g := range fs {
				exp := covers(f.in, g.in, f.variadic, g.variadic) && covers(f.out, g.out, false, false)
				for k, a := range []dgo.Type{ds[i].parsed, ds[i].exact} {
					for l, b := range []dgo.Type{ds[j].parsed, ds[j].exact} {
						if got := a.Assignable(b); got != exp {
							t.Failf("functions", fmt.Sprintf("%s|%d%d", g.text(), k, l), "%s.Assignable(%s) is %v, forms %d %d", a, b, got, k, l)
						}
						if a.Equals(b) != (i == j) {
							t.Failf("equal", fmt.Sprintf("%s|%d%d", g.text(), k, l), "%s.Equals(%s) is %v, forms %d %d", a, b, a.Equals(b), k, l)
						} else if i == j && a.HashCode() != b.HashCode() {
							t.Failf("hash", fmt.Sprintf("%s|%d%d", g.text(), k, l), "the hash codes of %s are different, forms %d %d", a, k, l)
						}
					}
					if got := a.Instance(ds[j].value); got != exp {
						t.Failf("instance", fmt.Sprintf("%s|%d", g.text(), k), "%s.Instance(%s) is %v, form %d", a, g.text(), got, k)
					}
				}
				t.Count("transitions", 10)
			}
			for _, x := range []dgo.Type{typ.Function, typ.Any} {
				if !x.Assignable(ds[i].parsed) || !x.Assignable(ds[i].exact) || !x.Instance(ds[i].value) {
					t.Failf("functions", x.String(), "%s doesn't accept %s", x, f.text())
				}
			}
			if ds[i].parsed.Assignable(typ.Any) || ds[i].parsed.Assignable(typ.Function) || ds[i].exact.Assignable(typ.Function) || ds[i].parsed.Instance(1) {
				t.Failf("functions", "narrow", "%s accepts any function", f.text())
			}
			t.State(f.text())
		})
	}
}

// negatedUnion tells if the pair has a negation on the left and a union on the right. They are checked in a stage of their
// own, see DESIGN.md.
func negatedUnion(a, b *model.Ty) bool {
	return uses(a, "not") && uses(b, "or", "one") || uses(b, "not") && uses(a, "one", "not") && uses(a, "or", "one")
}

// c12Transitive checks all triples
func c12Transitive(c *fw.C) {
	types := typeUniverse(2)
	if c.Thorough {
		types = dedupTypes(append(types, composeTypes(nestCore(), nestCore()[:8])...))
	}
	types = withoutOps(types, "and", "one", "not")
	n := len(types)
	ds := make([]dgo.Type, n)
	w := (n + 63) / 64
	rows := make([][]uint64, n)
	for i := range types {
		ds[i] = types[i].Build()
	}
	row := func(i int) []uint64 {
		if rows[i] == nil {
			r := make([]uint64, w)
			for j := range ds {
				if ds[i].Assignable(ds[j]) {
					r[j/64] |= 1 << uint(j%64)
				}
			}
			rows[i] = r
		}
		return rows[i]
	}
	c.Stage("triples")
	for i := range types {
		i := i
		c.Case(func() string { return types[i].Name }, func(t *fw.T) {
			ra := row(i)
			for j := 0; j < n; j++ {
				if ra[j/64]&(1<<uint(j%64)) == 0 {
					continue
				}
				if k := witness(ra, row(j)); k >= 0 {
					t.Failf("transitive", types[j].Name+"/"+types[k].Name, "%s is assignable from %s which is assignable from %s, but the first is not assignable from the last", types[i].Name, types[j].Name, types[k].Name)
				}
				t.Count("triples", int64(n))
			}
		})
	}
}

// hasExact tells if the type of the value is exact
func hasExact(v *model.V) bool {
	switch v.K {
	case model.Sens, model.Typ:
		return false
	}
	for _, x := range v.L {
		if !hasExact(x) {
			return false
		}
	}
	return true
}

// mustAssign tells why the sets are included, or returns an empty string when there's no simple reason
func mustAssign(a, b *model.Ty) string {
	if a.Name == b.Name {
		return "same type"
	}
	if a.Op == "any" {
		return "any accepts everything"
	}
	if b.Op == "exact" && hasExact(b.Val) && a.Has(b.Val) {
		return "the exact value is an instance"
	}
	if a.Op == "or" {
		for _, s := range a.Sub {
			if w := mustAssign(s, b); w != "" {
				return "member: " + w
			}
		}
	}
	switch {
	case a.Op == "int" && b.Op == "intrange", a.Op == "float" && b.Op == "floatrange", a.Op == "binary" && b.Op == "binsized",
		a.Op == "string" && (b.Op == "stringsized" || b.Op == "pattern" || b.Op == "ci"),
		a.Op == "[]any" && (b.Op == "array" || b.Op == "tuple"), a.Op == "map[any]any" && (b.Op == "map" || b.Op == "struct"):
		return "unconstrained"
	case a.Op == "stringsized" && b.Op == "stringsized", a.Op == "binsized" && b.Op == "binsized":
		if a.Min <= b.Min && b.Max <= a.Max {
			return "lengths included"
		}
	case a.Op == "intrange" && b.Op == "intrange":
		am, bm := a.Max, b.Max
		if !a.Incl {
			am--
		}
		if !b.Incl {
			bm--
		}
		if a.Min <= b.Min && bm <= am {
			return "range included"
		}
	case a.Op == "floatrange" && b.Op == "floatrange":
		if a.FMin <= b.FMin && (b.FMax < a.FMax || b.FMax == a.FMax && (a.Incl || !b.Incl)) {
			return "range included"
		}
	case a.Op == "sensitive" && b.Op == "sensitive":
		if mustAssign(a.Sub[0], b.Sub[0]) != "" {
			return "wrapped type"
		}
	case a.Op == "array" && b.Op == "array":
		if a.Min <= b.Min && b.Max <= a.Max && mustAssign(a.Sub[0], b.Sub[0]) != "" {
			return "size and element type"
		}
	case a.Op == "map" && b.Op == "map":
		if a.Min <= b.Min && b.Max <= a.Max && mustAssign(a.Sub[0], b.Sub[0]) != "" && mustAssign(a.Sub[1], b.Sub[1]) != "" {
			return "size, key and value type"
		}
	case a.Op == "tuple" && b.Op == "tuple" && !a.Variadic && !b.Variadic && len(a.Sub) == len(b.Sub):
		for i := range a.Sub {
			if mustAssign(a.Sub[i], b.Sub[i]) == "" {
				return ""
			}
		}
		return "all elements"
	}
	return ""
}

func withoutOps(ts []*model.Ty, ops ...string) (r []*model.Ty) {
	for _, t := range ts {
		if !uses(t, ops...) {
			r = append(r, t)
		}
	}
	return
}
