package props

import (
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/model"
)

var (
	uTime1 = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	uTime2 = time.Date(2021, 12, 31, 23, 59, 59, 123456789, time.UTC)
)

// scalarUniverse has witnesses on both sides of the boundaries of the primitive types of typeUniverse
func scalarUniverse() []*model.V {
	i, f, s, y := model.I, model.F, model.S, model.Y
	return []*model.V{
		model.N(), model.B(true), model.B(false),
		i(-1), i(0), i(1), i(2), i(3), i(4), i(1 << 40),
		f(-1), f(0), f(0.5), f(1), f(1.5), f(2), f(3),
		s(""), s("a"), s("A"), s("b"), s("ab"), s("abc"), s("1"), s("int"),
		y(""), y("a"), y("ab"), y("abc"),
		model.T(uTime1), model.T(uTime2), model.R("a"), model.R("b"),
		model.X(i(1)), model.X(s("a")), model.X(model.A(i(1))),
	}
}

// elemUniverse are the values from which collections are made
func elemUniverse() []*model.V {
	i, f, s := model.I, model.F, model.S
	return []*model.V{model.N(), model.B(true), i(1), i(2), i(3), f(1), s(""), s("a"), s("ab"), model.X(i(1)), model.A(i(1)), model.M(s("a"), i(1))}
}

// valueUniverse are scalars and collections
func valueUniverse(thorough bool) (vs []*model.V) {
	i, s := model.I, model.S
	vs = append(vs, scalarUniverse()...)
	el := elemUniverse()
	vs = append(vs, model.A())
	for _, x := range el {
		vs = append(vs, model.A(x))
		for _, y := range el {
			vs = append(vs, model.A(x, y))
		}
	}
	tri := []*model.V{i(1), i(3), s("a"), s("")}
	for _, x := range tri {
		for _, y := range tri {
			for _, z := range tri {
				vs = append(vs, model.A(x, y, z))
			}
		}
	}
	vs = append(vs, model.A(i(1), i(1), i(1), i(1)), model.A(i(1), s("a"), s("a"), s("a")), model.A(i(1), s("a"), s("a"), i(1)))
	vs = append(vs, model.M())
	keys := []*model.V{s("a"), s("b"), s("abc"), i(1), model.N(), model.A(i(1))}
	for _, k := range keys {
		for _, x := range el {
			vs = append(vs, model.M(k, x))
		}
	}
	val := []*model.V{i(1), i(3), s("a"), model.N()}
	for a := range keys[:4] {
		for b := range keys[:4] {
			if a == b {
				continue
			}
			for _, x := range val {
				for _, y := range val {
					vs = append(vs, model.M(keys[a], x, keys[b], y))
				}
			}
		}
	}
	for _, x := range val {
		for _, y := range val {
			for _, z := range val {
				vs = append(vs, model.M(s("a"), x, s("b"), y, s("c"), z))
			}
		}
	}
	// deeper
	in := []*model.V{model.A(), model.A(i(1)), model.A(i(3)), model.A(s("a")), model.A(i(1), s("a")), model.M(), model.M(s("a"), i(1)), model.M(s("a"), i(3)), model.M(s("a"), s("a")), model.M(s("b"), i(1)), model.M(s("a"), i(1), s("b"), i(1)), model.X(i(1)), model.X(s("a")), model.A(model.A(i(1))), model.M(s("a"), model.M(s("a"), i(1))), model.M(s("a"), model.M(s("a"), s("a"))), model.M(s("a"), model.A(i(1)))}
	for _, x := range in {
		vs = append(vs, model.A(x), model.M(s("a"), x), model.A(i(1), x), model.A(x, x), model.M(s("a"), i(1), s("b"), x), model.X(x), model.M(i(1), x))
		if thorough {
			for _, y := range in {
				vs = append(vs, model.A(x, y), model.M(s("a"), x, s("b"), y))
			}
		}
	}
	for _, t := range typeValueUniverse() {
		vs = append(vs, model.TV(t), model.A(model.TV(t)))
	}
	return dedup(vs)
}

func dedup(vs []*model.V) (r []*model.V) {
	seen := map[string]bool{}
	for _, v := range vs {
		c := v.Canon()
		if !seen[c] {
			seen[c] = true
			r = append(r, v)
		}
	}
	return
}

// typeValueUniverse are the types that are used as values
func typeValueUniverse() []*model.Ty {
	return []*model.Ty{model.TAny, model.TInt, model.TIntRange(1, 2, true), model.TExact(model.I(1)), model.TString, model.TExact(model.S("a")), model.TArr(model.TInt, 0, model.Inf), model.TNil}
}

// atoms are types that don't nest
func atomTypes() []*model.Ty {
	i, f, s, y := model.I, model.F, model.S, model.Y
	ts := []*model.Ty{
		model.TAny, model.TNil, model.TBool, model.TTrue, model.TFalse, model.TInt, model.TFloat, model.TString, model.TBin, model.TTime, model.TRegexp, model.TArray, model.TMap,
		model.TIntRange(1, 2, true), model.TIntRange(1, 3, false), model.TIntRange(1, 3, true), model.TIntRange(2, 4, true), model.TIntRange(0, model.Inf, true), model.TIntRange(-1<<63, 1, true), model.TIntRange(1, 4, false), model.TIntRange(1, 2, false),
		model.TFloatRange(1, 2, true), model.TFloatRange(1, 2, false), model.TFloatRange(0, 1, true), model.TFloatRange(0.5, 3, false),
		model.TStringSized(0, 1), model.TStringSized(1, 2), model.TStringSized(1, model.Inf), model.TStringSized(0, 0), model.TStringSized(2, 2), model.TStringSized(1, 1),
		model.TPattern("a"), model.TPattern("^b?$"), model.TCi("a"), model.TCi("AB"), model.TCi("B"),
		model.TBinSized(0, 1), model.TBinSized(1, 2), model.TBinSized(2, model.Inf), model.TBinSized(2, 2),
		model.TSens(model.TAny), model.TSens(model.TInt), model.TSens(model.TString), model.TSens(model.TIntRange(1, 2, true)), model.TSens(model.TArr(model.TInt, 0, model.Inf)),
	}
	for _, x := range []*model.V{i(1), i(2), f(1), f(1.5), s(""), s("a"), s("ab"), y("a"), model.T(uTime1), model.R("a"), model.A(), model.A(i(1)), model.A(i(1), i(1)), model.A(i(1), s("a")), model.M(), model.M(s("a"), i(1)), model.M(s("a"), i(1), s("b"), s("a")), model.M(i(1), i(1)), model.A(model.A(i(1))), model.M(s("a"), model.M(s("a"), i(1)))} {
		ts = append(ts, model.TExact(x))
	}
	var wit []*model.V
	w := func() []*model.V {
		if wit == nil {
			wit = append(scalarUniverse(), model.A(), model.A(i(1)), model.A(s("a")), model.M())
		}
		return wit
	}
	for _, t := range []*model.Ty{model.TAny, model.TInt, model.TIntRange(1, 2, true), model.TString, model.TNil} {
		ts = append(ts, model.TMeta(t, w))
	}
	return ts
}

// coreTypes are the types that are nested in others
func coreTypes() []*model.Ty {
	i, s := model.I, model.S
	return []*model.Ty{
		model.TAny, model.TInt, model.TIntRange(1, 2, true), model.TExact(i(1)), model.TString, model.TStringSized(1, 2), model.TExact(s("a")), model.TPattern("a"), model.TNil, model.TFloat,
		model.TArr(model.TInt, 0, model.Inf), model.TMapOf(model.TString, model.TInt, 0, model.Inf), model.TSens(model.TInt),
	}
}

// compose applies each type constructor to the types in core
func composeTypes(core []*model.Ty, pairs []*model.Ty) (ts []*model.Ty) {
	s := model.S
	inf := int64(model.Inf)
	for _, t := range core {
		ts = append(ts, model.TArr(t, 0, inf), model.TArr(t, 1, inf), model.TArr(t, 0, 1), model.TArr(t, 1, 2), model.TArr(t, 2, 2), model.TArr(t, 1, 1), model.TArr(t, 0, 0),
			model.TTuple(false, t), model.TTuple(true, t),
			model.TMapOf(model.TString, t, 0, inf), model.TMapOf(t, model.TAny, 0, inf), model.TMapOf(model.TAny, t, 1, 2), model.TMapOf(model.TString, t, 2, inf), model.TMapOf(model.TStringSized(1, 2), t, 0, 1), model.TMapOf(model.TInt, t, 0, inf),
			model.TStruct(false, model.SE{Key: s("a"), Req: true, Ty: t}), model.TStruct(false, model.SE{Key: s("a"), Req: false, Ty: t}), model.TStruct(true, model.SE{Key: s("a"), Req: true, Ty: t}), model.TStruct(true, model.SE{Key: s("a"), Req: false, Ty: t}),
			model.TNot(t), model.TSens(t))
	}
	for _, t := range pairs {
		for _, u := range pairs {
			ts = append(ts, model.TTuple(false, t, u), model.TTuple(true, t, u), model.TMapOf(t, u, 0, inf))
			for _, open := range []bool{false, true} {
				for q := 0; q < 4; q++ {
					ts = append(ts, model.TStruct(open, model.SE{Key: s("a"), Req: q&1 == 0, Ty: t}, model.SE{Key: s("b"), Req: q&2 == 0, Ty: u}))
				}
			}
			if t != u {
				ts = append(ts, model.TOr(t, u), model.TAnd(t, u), model.TOne(t, u))
			}
		}
	}
	return ts
}

// typeUniverse are all types up to the given nesting. Nesting 1 has the atoms, 2 the constructors applied to core types, 3
// the constructors applied to a selection of nested types.
func typeUniverse(nesting int) (ts []*model.Ty) {
	ts = atomTypes()
	s, i := model.S, model.I
	ts = append(ts, model.TTuple(false), model.TStruct(false), model.TStruct(true), model.TArr(model.TAny, 0, 0), model.TArr(model.TAny, 1, 2), model.TArr(model.TAny, 1, model.Inf), model.TMapOf(model.TAny, model.TAny, 0, 0), model.TMapOf(model.TAny, model.TAny, 1, 2))
	if nesting >= 2 {
		core := coreTypes()
		ts = append(ts, composeTypes(core, core[:9])...)
		// three operands, more keys
		ts = append(ts,
			model.TOr(model.TInt, model.TString, model.TNil), model.TAnd(model.TString, model.TPattern("a"), model.TStringSized(1, 2)), model.TOne(model.TInt, model.TIntRange(1, 2, true), model.TIntRange(2, 4, true)), model.TOne(model.TString, model.TPattern("a"), model.TStringSized(1, 1)),
			model.TOr(model.TExact(s("a")), model.TExact(s("b")), model.TExact(s("abc"))), model.TOr(model.TExact(i(1)), model.TExact(i(3))),
			model.TTuple(false, model.TInt, model.TString, model.TString), model.TTuple(true, model.TInt, model.TString, model.TIntRange(1, 2, true)), model.TTuple(false, model.TInt, model.TInt, model.TInt),
			model.TStruct(false, model.SE{Key: s("a"), Req: true, Ty: model.TInt}, model.SE{Key: s("b"), Req: false, Ty: model.TInt}, model.SE{Key: s("c"), Req: false, Ty: model.TString}),
			model.TStruct(true, model.SE{Key: i(1), Req: true, Ty: model.TInt}), model.TStruct(false, model.SE{Key: s("abc"), Req: false, Ty: model.TAny}, model.SE{Key: i(1), Req: false, Ty: model.TAny}),
			model.TStruct(false, model.SE{Key: model.N(), Req: false, Ty: model.TAny}, model.SE{Key: model.A(i(1)), Req: false, Ty: model.TInt}),
		)
	}
	if nesting >= 3 {
		ts = append(ts, composeTypes(nestCore(), nestCore())...)
	}
	return dedupTypes(ts)
}

func nestCore() []*model.Ty {
	s := model.S
	inf := int64(model.Inf)
	return []*model.Ty{
		model.TInt, model.TIntRange(1, 2, true), model.TString,
		model.TArr(model.TInt, 0, inf), model.TArr(model.TIntRange(1, 2, true), 1, 2), model.TTuple(false, model.TInt, model.TString), model.TTuple(true, model.TInt, model.TString), model.TTuple(true, model.TInt),
		model.TMapOf(model.TString, model.TInt, 0, inf), model.TMapOf(model.TString, model.TIntRange(1, 2, true), 1, 2),
		model.TStruct(false, model.SE{Key: s("a"), Req: true, Ty: model.TInt}), model.TStruct(true, model.SE{Key: s("a"), Req: false, Ty: model.TInt}), model.TStruct(false, model.SE{Key: s("a"), Req: false, Ty: model.TIntRange(1, 2, true)}),
		model.TOr(model.TInt, model.TString), model.TOr(model.TInt, model.TArr(model.TInt, 0, inf)), model.TAnd(model.TInt, model.TIntRange(1, 3, true)), model.TNot(model.TInt), model.TNot(model.TOr(model.TInt, model.TNil)), model.TOne(model.TInt, model.TIntRange(1, 2, true)),
		model.TSens(model.TInt), model.TExact(model.A(model.I(1))), model.TExact(model.M(s("a"), model.I(1))),
		model.TAnd(model.TArr(model.TAny, 1, 2), model.TArr(model.TInt, 0, inf)), model.TOr(model.TExact(s("a")), model.TExact(s("ab"))),
	}
}

func dedupTypes(ts []*model.Ty) (r []*model.Ty) {
	seen := map[string]bool{}
	for _, t := range ts {
		if !seen[t.Name] {
			seen[t.Name] = true
			r = append(r, t)
		}
	}
	return
}

// parseLocal parses a type without altering the default aliases
func parseLocal(s string) (t dgo.Type) {
	tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { t = typ.AsType(tf.ParseFile(a, "", s)) })
	return
}
