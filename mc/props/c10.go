package props

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
	"math"
	"strings"
	"time"
)

// C10: the type of a value is exact.

func init() {
	fw.Register(&fw.Check{ID: "C10", Level: "model_checking", Run: runC10,
		Rule: "all ordered pairs of values of the universe (frozen and mutable builds, and the Go representation of scalars): value b is an instance of the type of a exactly when the model says they are equal, the types are assignable and equal in both directions exactly then, and the exact value accessors return an equal value; for values whose type isn't exact (sensitive values and types) the value is an instance of its own type"})
}

// closeValues are values that differ in one place only, at some level
func closeValues() (vs []*model.V) {
	i, f, s, y := model.I, model.F, model.S, model.Y
	leaf := []*model.V{i(0), i(1), i(-1 << 63), i(1<<63 - 1), f(0), f(1), f(1e300), s(""), s("a"), s("A"), s("b"), s("aa"), s("0"), y(""), y("a"), y("b"), model.B(false), model.B(true), model.N(), model.T(uTime1), model.T(uTime2), model.R("a"), model.R(""), model.A(), model.M(), model.A(i(1)), model.M(i(1), i(1)), model.M(s("a"), i(1))}
	vs = append(vs, leaf...)
	for _, l := range nearScalars() {
		vs = append(vs, l, model.A(l), model.M(s("a"), l), model.M(l, s("a")))
	}
	for _, l := range leaf {
		vs = append(vs, model.A(l), model.A(l, l), model.A(i(1), l), model.A(l, i(1)), model.M(s("a"), l), model.M(l, s("a")), model.A(model.A(l)), model.A(model.M(s("a"), l)), model.M(s("a"), model.A(l)),
			model.M(s("a"), i(1), s("b"), l), model.M(s("b"), l, s("a"), i(1)), model.M(s("a"), l, s("b"), i(1)), model.A(l, i(1), l), model.M(model.A(l), i(1)))
	}
	return dedup(vs)
}

// nearScalars are scalars that are almost equal to one another
func nearScalars() (vs []*model.V) {
	i, f, s, y := model.I, model.F, model.S, model.Y
	for _, n := range []int64{1 << 53, 1 << 31, -1 << 31, 1 << 62} {
		vs = append(vs, i(n-1), i(n), i(n+1))
	}
	vs = append(vs, f(math.Nextafter(1, 2)), f(math.Nextafter(1, 0)), f(1e-10), f(-1e-10), f(5e-324), f(1<<53), f(1<<53-1), f(1e18), f(1e18+128), f(1.0000001), f(math.MaxFloat64), f(math.Nextafter(math.MaxFloat64, 0)))
	vs = append(vs, s("a "), s(" a"), s("a\x00"), s("é"), s("e\u0301"), s("É"), s("ß"), s("ſ"), s("K"), s("\u212a"), s("k"), s("a\n"), s("\xff"), s("\xfe"), s("\ufffd"), s("null"), s("nil"), s("true"), s("1"), s("1.0"), s(strings.Repeat("a", 100)), s(strings.Repeat("a", 99)+"b"), s("b"+strings.Repeat("a", 99)))
	vs = append(vs, y("\x00"), y("\x00\x00"), y("a\x00"), y("\x80"), y("\xff"), y(strings.Repeat("a", 100)), y(strings.Repeat("a", 99)+"b"))
	for _, d := range []time.Duration{1, 999, 1000, 1e6, 999999999} {
		vs = append(vs, model.T(uTime1.Add(d)), model.T(uTime1.Add(-d)))
	}
	vs = append(vs, model.T(time.Unix(0, 0).UTC()), model.T(time.Unix(0, 1).UTC()), model.T(time.Unix(0, -1).UTC()), model.T(time.Unix(1<<33, 0).UTC()))
	vs = append(vs, model.R("(a)"), model.R("a "), model.R("A"), model.R("(?i)a"), model.R("[a]"))
	return vs
}

func runC10(c *fw.C) {
	vals := dedup(append(append(valueUniverse(c.Thorough), closeValues()...), c10Large(c.Thorough)...))
	type bv struct {
		m     *model.V
		exact bool
		eq    string
		fr    dgo.Value
		forms []interface{}
		types []dgo.Type
	}
	bs := make([]bv, len(vals))
	for i, v := range vals {
		fr, mu := v.Build(true), v.Build(false)
		b := bv{m: v, exact: hasExact(v), eq: v.EqCanon(), fr: fr, forms: append([]interface{}{fr, mu}, goForms(v)...), types: []dgo.Type{fr.Type(), mu.Type()}}
		if v.K == model.Arr && len(v.L) > 0 {
			b.forms = append(b.forms, vf.Arguments(v.L[0].Build(true)).Slice(0, 1).With(fr).Get(1)) // same, obtained from another collection
		}
		bs[i] = b
	}
	c.Stage("own")
	for i := range bs {
		a := &bs[i]
		c.Case(func() string { return a.m.Canon() }, func(t *fw.T) {
			for ti, ty := range a.types {
				for _, f := range a.forms {
					if !ty.Instance(f) {
						t.Failf("own", "", "%T %v is not an instance of its type %s", f, f, ty)
					}
					t.Count("transitions", 1)
				}
				if typ.AsType(a.fr) != a.fr && !typ.AsType(a.fr).Equals(ty) {
					t.Failf("astype", "", "AsType(%v) is %v, not %v", a.fr, typ.AsType(a.fr), ty)
				}
				if !a.exact {
					continue
				}
				if ev := typ.ExactValue(ty); !ev.Equals(a.fr) || !model.Observe(ev).Equal(a.m) {
					t.Failf("exactvalue", "", "ExactValue(%s) is %v, want %v", ty, ev, a.fr)
				}
				et, ok := ty.(dgo.ExactType)
				if a.m.K == model.Nil {
					continue
				}
				if !ok || !dgo.IsExact(ty) {
					t.Failf("exactvalue", "notexact", "the type of %v is not exact", a.fr)
				} else if !et.ExactValue().Equals(a.fr) || !model.Observe(et.ExactValue()).Equal(a.m) {
					t.Failf("exactvalue", "", "ExactValue of type %d of %v is %v", ti, a.fr, et.ExactValue())
				}
			}
			if typ.ExactValue(a.fr) != a.fr && a.m.K != model.Typ {
				t.Failf("exactvalue", "self", "ExactValue of the value %v is something else", a.fr)
			}
		})
	}
	c.Stage("pairs")
	for i := range bs {
		a := &bs[i]
		if !a.exact {
			continue
		}
		c.Case(func() string { return a.m.Canon() }, func(t *fw.T) {
			for j := range bs {
				b := &bs[j]
				want := a.eq == b.eq
				for ti, ty := range a.types {
					for _, f := range b.forms {
						if ty.Instance(f) != want {
							t.Failf("instance", b.m.Canon(), "%T %v is an instance of the type of %v: %v", f, f, a.fr, !want)
						}
					}
					t.Count("transitions", int64(len(b.forms)))
					if !b.exact {
						continue
					}
					for tj, tb := range b.types {
						if ty.Assignable(tb) != want {
							t.Failf("assignable", b.m.Canon(), "type %d of %v is assignable from type %d of %v: %v", ti, a.fr, tj, b.fr, !want)
						}
						if ty.Equals(tb) != want {
							t.Failf("equal", b.m.Canon(), "type %d of %v equals type %d of %v: %v", ti, a.fr, tj, b.fr, !want)
						}
					}
				}
			}
			t.Count("pairs", int64(len(bs)))
			t.State(a.eq)
			t.Outcome(a.types[0].String())
		})
	}
}

// c10Large are long and deep values, each with a close variant
func c10Large(thorough bool) (r []*model.V) {
	for _, v := range largeValues(thorough) {
		n := len(v.L)
		if v.K == model.Map {
			n /= 2
		}
		if n > 17 && !thorough {
			continue
		}
		r = append(r, v, changed(v, n-1), changed(v, n/2), without(v, n-1), reordered(v, -1))
	}
	return
}
