package props

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C23: rich data survives streaming and decoding

func init() {
	fw.Register(&fw.Check{ID: "C23", Level: "model_checking", Run: runC23,
		Rule: "every value graph of up to N objects (arrays, maps with string keys and with arbitrary keys, sensitives, binaries, times, long strings, types; every sharing), all graphs of up to 3 mutable objects with cycles, all types of the type universe, times and binaries of many kinds and long values are streamed with every deduplication level, dialect and with rich data on and off to JSON, to the collectors, to the decoder and to consumers of every capability that follow the documentation; what arrives is compared with the model of the value at every level, references being resolved independently by position"})
}

// richDialects excludes dialects that can't read the types that are streamed
func richDialects(m *model.V) []dialectCase {
	if hasType(m) {
		return dialectCases[:1]
	}
	return dialectCases
}

func hasType(m *model.V) bool {
	if m.K == model.Typ {
		return true
	}
	for _, e := range m.L {
		if hasType(e) {
			return true
		}
	}
	return false
}

func isRich(m *model.V) bool {
	switch m.K {
	case model.Arr, model.Map:
		for i, e := range m.L {
			if isRich(e) || m.K == model.Map && i%2 == 0 && e.K != model.Str {
				return true
			}
		}
		return false
	}
	return !plainData(m)
}

func richPositions(v *model.V) (r []*model.V) {
	s, i := model.S, model.I
	return []*model.V{v, model.A(v), model.A(v, v), model.A(i(1), v, s("a"), v), model.M(s("k"), v), model.M(i(1), v), model.M(v, s("x")), model.M(v, v), model.X(v), model.M(s("x"), model.A(v), model.A(s("y")), v), model.A(model.M(v, model.X(v)), model.X(v), v), model.A(model.X(model.M(i(1), v)), model.M(s("a"), v))}
}

// shareAll makes equal parts of a model identical
func shareAll(m *model.V, memo map[string]*model.V) *model.V {
	if len(m.L) == 0 && m.K != model.Bin && m.K != model.Time && m.K != model.Typ {
		return m
	}
	c := m.Canon()
	if x, ok := memo[c]; ok {
		return x
	}
	r := *m
	r.L = nil
	for _, e := range m.L {
		r.L = append(r.L, shareAll(e, memo))
	}
	memo[c] = &r
	return &r
}

func streamAll(t *fw.T, m *model.V) {
	dcs := richDialects(m)
	rich := isRich(m)
	streamCheck(t, "distinct", m.Build(false), m, rich, dcs)
	sm := shareAll(m, map[string]*model.V{})
	streamCheck(t, "shared", buildShared(sm, false, map[*model.V]dgo.Value{}), m, rich, dcs)
	streamCheck(t, "frozen", buildShared(sm, true, map[*model.V]dgo.Value{}), m, rich, dcs)
	t.State(m.Canon())
}

func runC23(c *fw.C) {
	s, i := model.S, model.I
	gcheck := func(t *fw.T, g *streamGraph) {
		m := g.model()
		checkGraph(t, g, isRich(m), richDialects(m))
	}
	tm := model.T(uTime2)
	c.Stage("graphs")
	exploreGraphs(c, []string{"arr0", "arr1", "arr2", "map0", "mapa", "mapba", "rich1", "richk", "rich2", "richx", "sens"}, []*model.V{i(1), s(longString), model.Y("abc"), tm, model.TV(model.TInt)}, 2, gcheck)
	c.Stage("graphs of three")
	exploreGraphs(c, []string{"arr2", "mapa", "rich1", "richk", "richx", "sens"}, []*model.V{i(1), model.Y("abc")}, 3, gcheck)
	if c.Thorough {
		c.Stage("more graphs of three")
		exploreGraphs(c, []string{"arr2", "map0", "mapa", "rich1", "richk", "rich2", "richx", "sens"}, []*model.V{s(longString), tm, model.TV(model.TInt)}, 3, gcheck)
		c.Stage("graphs of four")
		exploreGraphs(c, []string{"arr2", "rich1", "richk", "richx", "sens"}, []*model.V{model.Y("abc")}, 4, gcheck)
	}

	one := func(v *model.V) {
		c.Case(func() string { return short(v.Canon()) }, func(t *fw.T) {
			for _, m := range richPositions(v) {
				streamAll(t, m)
			}
		})
	}
	c.Stage("times")
	zones := []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("X", -12*3600-30*60), time.FixedZone("Y", 14*3600), time.FixedZone("Z", 0)}
	for _, z := range zones {
		for _, y := range []int{0, 1, 1677, 1969, 1970, 2020, 2262, 2263, 9998} {
			for _, ns := range []int{0, 1, 1000, 120000000, 999999999} {
				one(model.T(time.Date(y, 2, 28, 23, 59, 59, ns, z)))
			}
		}
	}

	c.Stage("binaries")
	for n := 0; n < 70; n++ {
		b := make([]byte, n)
		for k := range b {
			b[k] = byte(k*37 + n)
		}
		one(model.Y(string(b)))
	}
	for b := 0; b < 256; b++ {
		one(model.Y(string([]byte{byte(b)})))
	}

	c.Stage("values")
	for _, v := range append(valueUniverse(c.Thorough), nearScalars()...) {
		if hasKind(v, model.Rx) || hasKind(v, model.Other) || v.K == model.Str && !utf8.ValidString(v.S) {
			continue
		}
		v := v
		c.Case(v.Canon, func(t *fw.T) {
			streamAll(t, v)
			streamAll(t, model.A(v, v))
			streamAll(t, model.M(i(1), v, s("x"), v))
		})
	}

	streamPairs(c, func(v *model.V) bool {
		return !hasKind(v, model.Rx) && !hasKind(v, model.Other) && (v.K != model.Str || utf8.ValidString(v.S))
	}, func(t *fw.T, m *model.V) {
		streamCheck(t, "", m.Build(true), m, isRich(m), richDialects(m))
	})

	c.Stage("what precedes a reference")
	for _, pq := range beforeRefs(true) {
		pq := pq
		c.Case(func() string { return short(pq[0].Canon()) + " " + short(pq[1].Canon()) }, func(t *fw.T) {
			for _, m := range afterTwo(pq[0], pq[1], true) {
				m = shareAll(m, map[string]*model.V{})
				streamCheck(t, "shared", buildShared(m, false, map[*model.V]dgo.Value{}), m, isRich(m), richDialects(m))
				t.State(m.Canon())
			}
		})
	}

	c.Stage("types")
	nest := 1
	if c.Thorough {
		nest = 2
	}
	for _, ty := range append(typeUniverse(nest), deepTypes()...) {
		if uses(ty, "binary", "binsized", "time", "regexp", "tuple0", "sensexact", "pattern") || !printable(ty) {
			continue
		}
		tv := model.TV(ty)
		c.Case(func() string { return ty.Name }, func(t *fw.T) {
			if c.Thorough {
				for _, m := range []*model.V{tv, model.A(tv, i(1), tv), model.M(s("k"), tv, i(1), tv), model.X(tv)} {
					streamAll(t, m)
				}
				return
			}
			m := model.A(tv, model.M(s("k"), tv, i(1), model.X(tv)), tv)
			streamCheck(t, "distinct", m.Build(false), m, true, dialectCases[:1])
			m = shareAll(m, map[string]*model.V{})
			streamCheck(t, "shared", buildShared(m, false, map[*model.V]dgo.Value{}), m, true, dialectCases[:1])
		})
	}

	c.Stage("types in the pcore dialect")
	for _, ty := range []*model.Ty{model.TInt, model.TString, model.TStringSized(1, 3), model.TArr(model.TInt, 0, model.Inf)} {
		ty := ty
		c.Case(func() string { return ty.Name }, func(t *fw.T) {
			d := ty.Build()
			r, p := fetch(func() dgo.Value {
				return streamer.UnmarshalJSON(streamer.MarshalJSON(d, dialectCases[1].d), dialectCases[1].d)
			})
			if p != "" || !d.Equals(r) {
				t.Failf("stream", "", "%s comes back as %v %s", d, r, p)
			}
		})
	}

	c.Stage("aliases")
	for _, am := range []string{"ne=string[1]", "ne=string[1]|nil", "x=[](string|int)", "pt=map[string]int"} {
		am := am
		c.Case(func() string { return am }, func(t *fw.T) { streamAlias(t, am) })
	}

	c.Stage("named values")
	for kind := 0; kind < 3; kind++ {
		kind := kind
		c.Case(func() string { return fmt.Sprintf("kind %d", kind) }, func(t *fw.T) { streamNamed(t, kind) })
	}

	c.Stage("unsupported")
	for _, x := range []struct {
		n string
		v dgo.Value
	}{{"regexp", vf.Regexp(regexp.MustCompile("a"))}, {"error", vf.Value(errors.New("x"))}, {"native", vf.Value(struct{ A int }{1})}, {"function", vf.Value(func() {})}, {"chan", vf.Value(make(chan int))}, {"ptr", vf.Value(&struct{ A []int }{})}} {
		x := x
		c.Case(func() string { return x.n }, func(t *fw.T) {
			for _, v := range []dgo.Value{x.v, vf.MutableValues(1, x.v), vf.MutableValues(1, x.v, x.v), vf.MutableMap("a", x.v), vf.MutableMap(1, vf.MutableValues(x.v)), vf.Sensitive(x.v)} {
				for _, dl := range []streamer.DedupLevel{streamer.NoDedup, streamer.NoKeyDedup, streamer.MaxDedup} {
					for _, rd := range []bool{true, false} {
						for k, mk := range []func() streamer.Consumer{func() streamer.Consumer { return streamer.NewCollector() }, func() streamer.Consumer { return streamer.DataCollector() }, func() streamer.Consumer { return streamer.DataDecoder(nil, nil) }, func() streamer.Consumer { return streamer.JSON(&bytes.Buffer{}) }} {
							e, rt := fw.Try(func() {
								streamer.New(nil, &streamer.Options{DedupLevel: dl, Dialect: streamer.DgoDialect(), RichData: rd}).Stream(v, mk())
							})
							if e == nil || rt {
								t.Failf("unsupported", fmt.Sprintf("%d %v %d", dl, rd, k), "%s: %v", x.n, e)
							}
							t.Count("transitions", 1)
						}
					}
				}
			}
		})
	}

	c.Stage("large")
	for _, v := range largeValues(c.Thorough) {
		v := v
		c.Case(func() string { return fmt.Sprintf("%d %s", len(v.L), short(v.Canon())) }, func(t *fw.T) {
			streamAll(t, v)
			streamAll(t, model.A(v, model.X(v), s(longString), v, s(longString)))
		})
	}

	c.Stage("cycles")
	n := 2
	if c.Thorough {
		n = 3
	}
	streamCycles(c, n)
}

func hasKind(v *model.V, k model.Kind) bool {
	if v.K == k {
		return true
	}
	for _, e := range v.L {
		if hasKind(e, k) {
			return true
		}
	}
	return false
}

func streamAlias(t *fw.T, text string) {
	var tp dgo.Type
	am := tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { tp = typ.AsType(tf.ParseFile(aa, "", text)) })
	name := vf.String(text[:strings.Index(text, "=")])
	for _, v := range []dgo.Value{tp, vf.Values(tp, 1, tp), vf.Map("a", tp, 3, tp), vf.Values(typ.Integer, tp, tf.Array(tp, 0, 3), tp), vf.Sensitive(tp)} {
		for _, dl := range []streamer.DedupLevel{streamer.NoDedup, streamer.NoKeyDedup, streamer.MaxDedup} {
			o := &streamer.Options{DedupLevel: dl, Dialect: streamer.DgoDialect(), RichData: true}
			for k := 0; k < 4; k++ {
				for _, collect := range []bool{true, false} {
					sub := fmt.Sprintf("%d %d %v", dl, k, collect)
					var r dgo.Value
					decode := func(aa dgo.AliasAdder) {
						dd := streamer.DataDecoder(aa, nil)
						if k == 0 {
							streamer.New(am, o).Stream(v, dd)
						} else {
							co := []func() streamer.Collector{nil, streamer.NewCollector, streamer.DataCollector, streamer.DataCollector}[k]()
							streamer.New(am, o).Stream(v, co)
							data := co.Value()
							if k == 3 {
								// as JSON
								data = co.Value()
								r = streamer.UnmarshalJSON(streamer.MarshalJSON(data, nil), nil)
								return
							}
							streamer.New(nil, o).Stream(data, dd)
						}
						r = dd.Value()
					}
					var am2 dgo.AliasMap
					e, _ := fw.Try(func() {
						if collect {
							am2 = tf.BuiltInAliases().Collect(decode)
						} else {
							decode(nil)
						}
					})
					if e != nil {
						t.Failf("alias", sub, "%s: %s: panic %v", text, v, e)
						continue
					}
					if !v.Equals(r) || !r.Equals(v) {
						t.Failf("alias", sub, "%s: %s comes back as %s", text, v, r)
					}
					if am2 != nil && k != 3 {
						if !name.Equals(am2.GetName(tp)) {
							t.Failf("alias", sub, "%s: name of %s is %v", text, tp, am2.GetName(tp))
						}
						if g := am2.GetType(name); g == nil || !g.Equals(tp) {
							t.Failf("alias", sub, "%s: type of %s is %v", text, name, g)
						}
					}
					if tf.BuiltInAliases().GetType(name) != nil {
						t.Failf("alias", sub, "%s: builtin aliases have been changed", text)
					}
					t.Count("transitions", 1)
				}
			}
		}
	}
}

func streamNamed(t *fw.T, kind int) {
	const name = "mc.streamed"
	defer tf.RemoveNamed(name)
	var nt dgo.NamedType
	nt = tf.NewNamed(name, func(a dgo.Value) dgo.Value {
		switch x := a.(type) {
		case dgo.Map:
			return &mcNamed{x.Get("N").(dgo.Integer).GoInt(), nt}
		case dgo.Array:
			return &mcNamed{x.Get(1).(dgo.Integer).GoInt(), nt}
		}
		return &mcNamed{a.(dgo.Integer).GoInt(), nt}
	}, func(v dgo.Value) dgo.Value {
		n := v.(*mcNamed).N
		switch kind {
		case 0:
			return vf.Integer(n)
		case 1:
			return vf.Values("a string of 21 bytes.", n)
		}
		return vf.Map("N", n, "x", "a string of 21 bytes.")
	}, reflect.TypeOf(&mcNamed{}), nil, nil)
	o := func(n int64) func() dgo.Value { return func() dgo.Value { return &mcNamed{n, nt} } }
	a, b := model.O("named 1", o(1)), model.O("named 2", o(2))
	for _, dc := range dialectCases {
		for _, dl := range []streamer.DedupLevel{streamer.NoDedup, streamer.NoKeyDedup, streamer.MaxDedup} {
			for _, m := range []*model.V{a, model.A(a, b, a), model.A(model.S(longString), a, model.S(longString), a), model.M(model.S("x"), a, model.I(1), model.A(a, b), model.S("y"), a), model.X(a), model.A(model.Y("abc"), a, model.X(a), model.Y("abc"))} {
				v := buildShared(m, false, map[*model.V]dgo.Value{})
				op := &streamer.Options{DedupLevel: dl, Dialect: dc.d, RichData: true}
				for k := 0; k < 5; k++ {
					r, p := fetch(func() dgo.Value {
						dd := streamer.DataDecoder(nil, dc.d)
						switch k {
						case 0:
							streamer.New(nil, op).Stream(v, dd)
							return dd.Value()
						case 1, 2:
							co := []func() streamer.Collector{nil, streamer.NewCollector, streamer.DataCollector}[k]()
							streamer.New(nil, op).Stream(v, co)
							streamer.New(nil, op).Stream(co.Value(), dd)
							return dd.Value()
						case 3:
							return streamer.UnmarshalJSON(streamer.MarshalJSON(v, dc.d), dc.d)
						}
						co := streamer.DataCollector()
						streamer.New(nil, op).Stream(v, co)
						return streamer.UnmarshalJSON(streamer.MarshalJSON(co.Value(), dc.d), dc.d)
					})
					if p == "" {
						p = sameValue(r, m)
					}
					if p != "" {
						t.Failf("named", fmt.Sprintf("%s %d %d", dc.name, dl, k), "kind %d: %s: %s", kind, m.Canon(), p)
					}
					t.Count("transitions", 1)
				}
			}
		}
	}
}

// unrollTo describes a value down to a depth
func unrollTo(v dgo.Value, n int) string {
	b := &strings.Builder{}
	var rec func(v dgo.Value, n int)
	rec = func(v dgo.Value, n int) {
		switch v := v.(type) {
		case dgo.Type:
			b.WriteString("type " + v.String())
		case dgo.Array:
			fmt.Fprintf(b, "[%d", v.Len())
			if n > 0 {
				v.Each(func(e dgo.Value) { b.WriteString(" "); rec(e, n-1) })
			}
			b.WriteString("]")
		case dgo.Map:
			fmt.Fprintf(b, "{%d", v.Len())
			if n > 0 {
				v.EachEntry(func(e dgo.MapEntry) {
					b.WriteString(" ")
					rec(e.Key(), n-1)
					b.WriteString(":")
					rec(e.Value(), n-1)
				})
			}
			b.WriteString("}")
		case dgo.Sensitive:
			b.WriteString("sensitive ")
			if n > 0 {
				rec(v.Unwrap(), n-1)
			}
		default:
			b.WriteString(model.Observe(v).Canon())
		}
	}
	rec(v, n)
	return b.String()
}

func streamCycles(c *fw.C, max int) {
	kinds := []string{"arr", "map", "rich", "arr2"}
	width := map[string]int{"arr": 1, "map": 1, "rich": 2, "arr2": 2}
	// children: 0 and 1 leaves, then the objects, then the objects in a sensitive
	for n := 1; n <= max; n++ {
		nk := 1
		for i := 0; i < n; i++ {
			nk *= len(kinds)
		}
		for kc := 0; kc < nk; kc++ {
			ks := make([]string, n)
			slots := 0
			for i, x := 0, kc; i < n; i++ {
				ks[i] = kinds[x%len(kinds)]
				slots += width[ks[i]]
				x /= len(kinds)
			}
			ch := 2 + 2*n
			first := 1
			for i := 0; i < slots && i < 2; i++ {
				first *= ch
			}
			for f := 0; f < first; f++ {
				f := f
				c.Case(func() string { return fmt.Sprintf("%v from %d", ks, f) }, func(t *fw.T) {
					total := 1
					for i := 2; i < slots; i++ {
						total *= ch
					}
					for r := 0; r < total; r++ {
						streamCycle(t, ks, f+r*first, ch)
					}
				})
			}
		}
	}
}

func streamCycle(t *fw.T, ks []string, code, ch int) {
	n := len(ks)
	desc := fmt.Sprintf("%v %d", ks, code)
	build := func() dgo.Value {
		obj := make([]dgo.Value, n)
		for i, k := range ks {
			if strings.HasPrefix(k, "arr") {
				obj[i] = vf.MutableValues()
			} else {
				obj[i] = vf.MutableMap()
			}
		}
		sens := make([]dgo.Value, n)
		x := code
		child := func() dgo.Value {
			k := x % ch
			x /= ch
			switch {
			case k == 0:
				return vf.Integer(1)
			case k == 1:
				return vf.String(longString)
			case k < 2+n:
				return obj[k-2]
			}
			if sens[k-2-n] == nil {
				sens[k-2-n] = vf.Sensitive(obj[k-2-n])
			}
			return sens[k-2-n]
		}
		for i, k := range ks {
			switch k {
			case "arr":
				obj[i].(dgo.Array).Add(child())
			case "arr2":
				obj[i].(dgo.Array).Add(child())
				obj[i].(dgo.Array).Add(child())
			case "map":
				obj[i].(dgo.Map).Put("k", child())
			case "rich":
				obj[i].(dgo.Map).Put(1, child())
				obj[i].(dgo.Map).Put("l", child())
			}
		}
		return obj[0]
	}
	v := build()
	d := 2*n + 4
	want := unrollTo(v, d)
	for _, dc := range dialectCases {
		for _, dl := range []streamer.DedupLevel{streamer.NoKeyDedup, streamer.MaxDedup} {
			op := &streamer.Options{DedupLevel: dl, Dialect: dc.d, RichData: true}
			for k := 0; k < 4; k++ {
				r, p := fetch(func() dgo.Value {
					dd := streamer.DataDecoder(nil, dc.d)
					switch k {
					case 0:
						streamer.New(nil, op).Stream(v, dd)
						return dd.Value()
					case 1, 2:
						co := []func() streamer.Collector{nil, streamer.NewCollector, streamer.DataCollector}[k]()
						streamer.New(nil, op).Stream(v, co)
						streamer.New(nil, op).Stream(co.Value(), dd)
						return dd.Value()
					}
					return streamer.UnmarshalJSON(streamer.MarshalJSON(v, dc.d), dc.d)
				})
				t.Count("transitions", 1)
				if p == "" {
					if g := unrollTo(r, d); g != want {
						p = "comes back as " + short(g)
					} else if !r.Equals(v) || !v.Equals(r) {
						p = "isn't equal"
					}
				}
				if p != "" {
					t.Failf("cycle", fmt.Sprintf("%s %d %d", dc.name, dl, k), "%s: %s: %s", desc, short(want), p)
				}
			}
		}
	}
	t.State(want)
}
