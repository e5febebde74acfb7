package props

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
)

// C22: JSON encoding and decoding preserves plain data

func init() {
	fw.Register(&fw.Check{ID: "C22", Level: "model_checking", Run: runC22,
		Rule: "every value graph of up to N objects (arrays, string keyed maps, shared in every way, built with and without sharing, mutable and frozen), every valid UTF-8 string of a set and every character, boundary numbers, strings around the deduplication threshold, long and deep values are streamed with every deduplication level and dialect to JSON and to all collectors; the text is parsed by an independent strict JSON parser and must denote the value, and what is decoded must be the value with the same kinds and order; all JSON documents up to a size, with every spelling of scalars and white space, are decoded and compared with the value that the independent parser finds"})
}

// plainData is true for values that JSON can represent
func plainData(v *model.V) bool {
	switch v.K {
	case model.Nil, model.Bool, model.Int:
		return true
	case model.Float:
		return !math.IsNaN(v.F) && !math.IsInf(v.F, 0)
	case model.Str:
		return utf8.ValidString(v.S)
	case model.Arr, model.Map:
		for i, e := range v.L {
			if !plainData(e) || v.K == model.Map && i%2 == 0 && (e.K != model.Str || strings.HasPrefix(e.S, "__")) {
				return false
			}
		}
		return true
	}
	return false
}

func dataPositions(v *model.V) (r []*model.V) {
	s := model.S
	r = []*model.V{v, model.A(v), model.A(v, v), model.A(model.I(1), v, s("a")), model.M(s("k"), v), model.M(s("x"), model.A(v), s("y"), v), model.A(model.M(s("x"), v, s("y"), v), v)}
	if v.K == model.Str {
		r = append(r, model.M(v, v), model.A(model.M(v, model.I(1)), model.M(v, v), v), model.M(v, model.M(v, v), s("key 9"), v), model.A(v, model.M(v, v)))
	}
	return
}

var jsonNumbers = []string{"0", "-0", "1", "-1", "10", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "1.0", "0.0", "-0.0", "1.5", "1e0", "1E2", "1e+2", "1e-2", "-1.5e3", "0e5", "0.1", "123456789012345678", "1.7976931348623157e308", "5e-324", "1e-400", "100000000000000000000000", "2.5E+01", "9007199254740993", "9007199254740993.0"}
var jsonStrings = []string{`""`, `"a"`, `"\""`, `"\\"`, `"\/"`, `"\b\f\n\r\t"`, `"\u0000"`, `"\u0041"`, `"\u00e5"`, `"\uD83D\uDE00"`, `"\ud83d"`, `"\ude00"`, `"\ud83dx"`, `"\ud83d\u0041"`, `"å😀"`, `" a "`, `"[1,{"`, `"\u2028"`, `"__x"`, `"a string of 21 bytes."`}

func decodeDoc(t *fw.T, doc string) {
	nd, err := model.ParseJSON(doc)
	if err != nil {
		t.Failf("harness", "", "%q: %v", doc, err)
		return
	}
	r, p := fetch(func() dgo.Value { return streamer.UnmarshalJSON([]byte(doc), nil) })
	t.Count("transitions", 1)
	jr := nd.Denote(model.DgoWords, typeText)
	if jr.Err != "" {
		if p == "" {
			t.Failf("document", "accepted", "%s: accepted as %s: %s", short(doc), r, jr.Err)
		}
		return
	}
	if jr.Undet != "" {
		return
	}
	if p != "" {
		t.Failf("document", "rejected", "%s: %s", short(doc), p)
		return
	}
	if s := sameValue(r, jr.V); s != "" {
		t.Failf("document", "value", "%s: %s", short(doc), s)
	}
	t.State(jr.V.Canon())
}

func runC22(c *fw.C) {
	s, i := model.S, model.I
	ops := []string{"arr0", "arr1", "arr2", "map0", "mapa", "mapl", "mapba", "mapla"}

	c.Stage("graphs")
	n := 3
	exploreGraphs(c, ops, []*model.V{i(1), s("a"), s(longString)}, n, func(t *fw.T, g *streamGraph) { checkGraph(t, g, false, dialectCases) })
	if c.Thorough {
		c.Stage("graphs of four")
		exploreGraphs(c, []string{"arr1", "arr2", "mapa", "mapl", "mapba"}, []*model.V{i(1), s(longString)}, 4, func(t *fw.T, g *streamGraph) { checkGraph(t, g, false, dialectCases) })
	}

	one := func(v *model.V) {
		if !plainData(v) {
			return
		}
		c.Case(func() string { return short(v.Canon()) }, func(t *fw.T) {
			for _, m := range dataPositions(v) {
				streamCheck(t, "", m.Build(true), m, false, dialectCases)
			}
		})
	}
	c.Stage("what precedes a reference")
	for _, pq := range beforeRefs(false) {
		pq := pq
		c.Case(func() string { return short(pq[0].Canon()) + " " + short(pq[1].Canon()) }, func(t *fw.T) {
			for _, m := range afterTwo(pq[0], pq[1], false) {
				m = shareAll(m, map[string]*model.V{})
				streamCheck(t, "shared", buildShared(m, false, map[*model.V]dgo.Value{}), m, false, dialectCases)
				t.State(m.Canon())
			}
		})
	}

	c.Stage("scalars")
	for _, v := range []*model.V{model.N(), model.B(true), model.B(false)} {
		one(v)
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-1); d <= 1; d++ {
			one(i(int64(1)<<k + d))
			one(i(-(int64(1) << k) + d))
		}
	}
	fl := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.5, 100, 1e20, 1e21, 1e22, 1e-6, 1e-7, 123456789, 1 << 53, 1<<53 + 2, 9.2233720368547758e18, 1.8446744073709552e19, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, 1e15, 1e16, 1e17, -1e21, math.Pi}
	for k := -30; k < 31; k++ {
		fl = append(fl, math.Pow(10, float64(k)), 3*math.Pow(10, float64(k)))
	}
	for _, f := range fl {
		one(model.F(f))
	}

	c.Stage("strings")
	for _, x := range specialStrings() {
		one(s(x))
	}
	for b := 0; b < 0x100; b++ {
		one(s(string(rune(b))))
		one(s("0123456789012345678" + string(rune(b))))
	}
	max, step := 0x3000, 512
	if c.Thorough {
		max = 0x110000
	}
	for lo := 0; lo < max; lo += step {
		lo := lo
		c.Case(func() string { return fmt.Sprintf("U+%04X", lo) }, func(t *fw.T) {
			for r := lo; r < lo+step && r < max; r++ {
				x := string(rune(r))
				m := model.M(s(x), model.A(s(x+"0"), s("\\"+x)))
				if plainData(m) {
					streamCheck(t, "", m.Build(true), m, false, dialectCases[:1])
				}
			}
			t.Touch()
		})
	}

	c.Stage("threshold")
	for l1 := 17; l1 <= 23; l1++ {
		for l2 := 17; l2 <= 23; l2++ {
			l1, l2 := l1, l2
			c.Case(func() string { return fmt.Sprintf("lengths %d %d", l1, l2) }, func(t *fw.T) {
				a, b := s(strings.Repeat("a", l1)), s(strings.Repeat("b", l2))
				for _, k1 := range []*model.V{a, b, s("k")} {
					for _, v1 := range []*model.V{a, b, model.A(a), model.M(b, a)} {
						for _, k2 := range []*model.V{a, b, s("k")} {
							for _, v2 := range []*model.V{a, b, model.A(b), model.M(a, b)} {
								m := model.A(model.M(k1, v1), model.M(k2, v2, s("x"), v1), v1, a, b)
								streamCheck(t, "", m.Build(true), m, false, dialectCases)
							}
						}
					}
				}
			})
		}
	}
	// multi byte characters around the threshold
	for l := 5; l <= 21; l++ {
		one(s(strings.Repeat("å", l)))
		one(s(strings.Repeat("😀", l)))
	}

	streamPairs(c, plainData, func(t *fw.T, m *model.V) {
		streamCheck(t, "", m.Build(true), m, false, dialectCases)
	})

	c.Stage("large")
	for _, v := range largeValues(c.Thorough) {
		v := jsonable(v)
		if v == nil {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("%d %s", len(v.L), short(v.Canon())) }, func(t *fw.T) {
			streamCheck(t, "", v.Build(true), v, false, dialectCases)
			w := model.A(v, v, s(longString), v, s(longString))
			streamCheck(t, "", buildShared(w, false, map[*model.V]dgo.Value{}), w, false, dialectCases)
			w = model.A(model.M(s("a"), v), v, s(longString), model.M(s("b"), s(longString), s("a"), v))
			streamCheck(t, "", buildShared(w, false, map[*model.V]dgo.Value{}), w, false, dialectCases)
		})
	}
	for _, n := range []int{100, 1000} {
		for k := 0; k < 3; k++ {
			n, k := n, k
			c.Case(func() string { return fmt.Sprintf("depth %d kind %d", n, k) }, func(t *fw.T) {
				doc := deepDoc(n, k)
				a, p := fetch(func() dgo.Value { return streamer.UnmarshalJSON([]byte(doc), nil) })
				if p != "" {
					t.Failf("document", "rejected", "%s: %s", short(doc), p)
					return
				}
				if x := string(streamer.MarshalJSON(a, nil)); x != doc {
					t.Failf("document", "value", "%s was encoded as %s", short(doc), short(x))
				}
			})
		}
	}

	c.Stage("documents")
	for _, x := range append(append([]string{"null", "true", "false"}, jsonNumbers...), jsonStrings...) {
		x := x
		c.Case(func() string { return x }, func(t *fw.T) {
			for _, f := range []string{"%s", " %s", "%s ", "\n\t\r %s \n", "[%s]", "[ %s ]", "[%s,%s]", "[%s , %s]", `{"a":%s}`, `{ "a" : %s , "b":%s}`, `[[%s],{"a":%s}]`, `{"a":[%s],"b":{"c":%s}}`} {
				decodeDoc(t, strings.ReplaceAll(f, "%s", x))
				for _, y := range []string{"1", `"a"`, "null", "[]", "{}", "1.5"} {
					if strings.Count(f, "%s") == 2 {
						decodeDoc(t, fmt.Sprintf(f, x, y))
						decodeDoc(t, fmt.Sprintf(f, y, x))
					}
				}
			}
			if x[0] == '"' {
				decodeDoc(t, `{`+x+`:1}`)
				decodeDoc(t, `{"k":2, `+x+` : {`+x+`: [`+x+`]}}`)
			}
		})
	}

	c.Stage("document structures")
	depth := 9
	if c.Thorough {
		depth = 11
	}
	jsonDocs(c, depth)
}

// jsonable returns a value with string keys only, or nil
func jsonable(v *model.V) *model.V {
	switch v.K {
	case model.Arr:
		r := model.A()
		for _, e := range v.L {
			if x := jsonable(e); x != nil {
				r.L = append(r.L, x)
			}
		}
		return r
	case model.Map:
		r := model.M()
		for i := 0; i < len(v.L); i += 2 {
			if x := jsonable(v.L[i+1]); x != nil && v.L[i].K == model.Str {
				r.L = append(r.L, v.L[i], x)
			}
		}
		return r
	}
	if plainData(v) {
		return v
	}
	return nil
}

func deepDoc(n, k int) string {
	b, e := &strings.Builder{}, []string{}
	for i := 0; i < n; i++ {
		if k == 0 || k == 2 && i%2 == 0 {
			b.WriteString("[")
			e = append(e, "]")
		} else {
			b.WriteString(`{"k":`)
			e = append(e, "}")
		}
	}
	b.WriteString("1")
	for i := n - 1; i >= 0; i-- {
		b.WriteString(e[i])
	}
	return b.String()
}

// jsonDocs decodes all documents of up to n tokens (structure tokens and scalars)
func jsonDocs(c *fw.C, n int) {
	scal := []string{"1", "2.5", `"a"`, "null"}
	keys := []string{`"a"`, `"b"`, `"__value"`}
	// all values of exactly k tokens, where a key with its colon is one token and commas aren't counted
	memo := map[int][]string{}
	var vals func(k int) []string
	// sequences of values or entries with k tokens
	var seqs func(k int, obj bool) []string
	smemo := map[[2]int][]string{}
	seqs = func(k int, obj bool) (r []string) {
		o := 0
		if obj {
			o = 1
		}
		if r, ok := smemo[[2]int{k, o}]; ok {
			return r
		}
		defer func() { smemo[[2]int{k, o}] = r }()
		if k == 0 {
			return []string{""}
		}
		pre := []string{""}
		if obj {
			pre = nil
			for _, x := range keys {
				pre = append(pre, x+":")
			}
		}
		for f := 1; f+o <= k; f++ {
			rest := seqs(k-f-o, obj)
			for _, v := range vals(f) {
				for _, p := range pre {
					for _, x := range rest {
						if x != "" {
							x = "," + x
						}
						r = append(r, p+v+x)
					}
				}
			}
		}
		return
	}
	vals = func(k int) (r []string) {
		if r, ok := memo[k]; ok {
			return r
		}
		defer func() { memo[k] = r }()
		if k == 1 {
			return scal
		}
		for _, x := range seqs(k-2, false) {
			r = append(r, "["+x+"]")
		}
		for _, x := range seqs(k-2, true) {
			r = append(r, "{"+x+"}")
		}
		return
	}
	for k := 1; k <= n; k++ {
		docs := vals(k)
		for lo := 0; lo < len(docs); lo += 2000 {
			lo, k := lo, k
			c.Case(func() string { return fmt.Sprintf("%d tokens from %d", k, lo) }, func(t *fw.T) {
				for j := lo; j < lo+2000 && j < len(docs); j++ {
					decodeDoc(t, docs[j])
				}
				t.Touch()
			})
		}
	}
}
