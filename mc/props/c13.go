package props

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
)

// C13: generic forms.

func init() {
	fw.Register(&fw.Check{ID: "C13", Level: "model_checking", Run: runC13,
		Rule: "for every type of the grammar: its generic form is assignable from it, accepts every value of the universe that is in the denotation of the type, and is its own generic form; for the type of every value of the universe: the generic form is the one computed by a reference definition over the structure of the value (no exact value, length or range left)"})
}

// gen is a reference form of generic types
type gen struct {
	k    string
	a, b *gen
}

func (g *gen) includes(o *gen) bool {
	if g.k == "any" {
		return true
	}
	if g.k != o.k {
		return false
	}
	return (g.a == nil || g.a.includes(o.a)) && (g.b == nil || g.b.includes(o.b))
}

func (g *gen) dgo() dgo.Type {
	switch g.k {
	case "any":
		return typ.Any
	case "nil":
		return typ.Nil
	case "bool":
		return typ.Boolean
	case "int":
		return typ.Integer
	case "float":
		return typ.Float
	case "string":
		return typ.String
	case "binary":
		return typ.Binary
	case "time":
		return typ.Time
	case "regexp":
		return typ.Regexp
	case "array":
		return tf.Array(g.a.dgo())
	default:
		return tf.Map(g.a.dgo(), g.b.dgo())
	}
}

func genericOf(v *model.V) *gen {
	switch v.K {
	case model.Nil:
		return &gen{k: "nil"}
	case model.Bool:
		return &gen{k: "bool"}
	case model.Int:
		return &gen{k: "int"}
	case model.Float:
		return &gen{k: "float"}
	case model.Str:
		return &gen{k: "string"}
	case model.Bin:
		return &gen{k: "binary"}
	case model.Time:
		return &gen{k: "time"}
	case model.Rx:
		return &gen{k: "regexp"}
	case model.Arr:
		return &gen{k: "array", a: genericSup(v.L)}
	case model.Map:
		var ks, vs []*model.V
		for i := 0; i < len(v.L); i += 2 {
			ks = append(ks, v.L[i])
			vs = append(vs, v.L[i+1])
		}
		return &gen{k: "map", a: genericSup(ks), b: genericSup(vs)}
	}
	panic("no generic")
}

// genericSup is the one of the generic types that includes the others, or any
func genericSup(l []*model.V) *gen {
	gs := make([]*gen, len(l))
	for i, v := range l {
		gs[i] = genericOf(v)
	}
next:
	for _, g := range gs {
		for _, o := range gs {
			if !g.includes(o) {
				continue next
			}
		}
		return g
	}
	return &gen{k: "any"}
}

func runC13(c *fw.C) {
	vals := valueUniverse(c.Thorough)
	types := typeUniverse(3)
	if c.Thorough {
		types = dedupTypes(append(types, deepTypes()...))
	}
	fr := make([]dgo.Value, len(vals))
	for i, v := range vals {
		fr[i] = v.Build(true)
	}
	c.Stage("types")
	for i := range types {
		ty := types[i]
		c.Case(func() string { return ty.Name }, func(t *fw.T) {
			d := ty.Build()
			g := typ.Generic(d)
			if g == nil {
				t.Fatalf("nil", "", "Generic(%s) is nil", d)
			}
			if !g.Assignable(d) {
				t.Failf("assignable", "", "the generic type %s is not assignable from %s", g, d)
			}
			if gg := typ.Generic(g); !gg.Equals(g) {
				t.Failf("idempotent", "", "Generic(%s) is %s, and Generic of that is %s", d, g, gg)
			}
			for j, v := range vals {
				// a union is assignable to a negation when one of its members is, see the known findings of C12
				if ty.Has(v) && !g.Instance(fr[j]) && !(uses(ty, "not") && uses(ty, "or", "one")) {
					t.Failf("instance", v.Canon(), "%s is an instance of %s but not of its generic form %s", v.Canon(), d, g)
				}
			}
			t.Count("transitions", int64(len(vals)+2))
			t.State(ty.Name)
			t.Outcome(g.String())
		})
	}
	c.Stage("values")
	for _, v := range dedup(append(vals, append(genericValues(), closeValues()...)...)) {
		v := v
		c.Case(func() string { return v.Canon() }, func(t *fw.T) {
			for _, frozen := range []bool{true, false} {
				d := v.Build(frozen)
				vt := d.Type()
				g := typ.Generic(vt)
				if !g.Instance(d) || !g.Assignable(vt) {
					t.Failf("instance", "", "the generic form %s of the type of %s does not accept it", g, v.Canon())
				}
				if !typ.Generic(g).Equals(g) {
					t.Failf("idempotent", "", "Generic(%s) is %s, and Generic of that is %s", vt, g, typ.Generic(g))
				}
				if hasExact(v) {
					if w := genericOf(v).dgo(); !g.Equals(w) || !w.Equals(g) || w.String() != g.String() {
						t.Failf("generic", "", "the generic form of the type of %s is %s, want %s", v.Canon(), g, w)
					}
				}
				t.Outcome(g.String())
				t.Count("transitions", 3)
			}
		})
	}
}

// genericValues are collections with elements whose generic types are related
func genericValues() (vs []*model.V) {
	i, s := model.I, model.S
	el := []*model.V{model.A(), model.A(i(1)), model.A(s("a")), model.A(i(1), s("a")), model.A(model.A()), model.A(model.A(i(1))), model.M(), model.M(s("a"), i(1)), model.M(s("a"), s("b")), model.M(i(1), i(1)), model.M(s("a"), i(1), i(2), s("b")), model.M(s("a"), model.A()), model.M(s("a"), model.A(i(1))), i(1), i(2), s("a"), model.N(), model.A(model.M()), model.A(model.M(s("a"), i(1)))}
	for _, x := range el {
		for _, y := range el {
			vs = append(vs, model.A(x, y))
			if x != y {
				vs = append(vs, model.M(s("a"), x, s("b"), y), model.M(x, i(1), y, i(2)))
			}
			for _, z := range el {
				vs = append(vs, model.A(x, y, z), model.M(i(1), x, i(2), y, i(3), z))
			}
		}
	}
	return
}
