package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// Helpers of the properties on streaming: C22, C23 and C24

type dialectCase struct {
	name  string
	d     streamer.Dialect
	words *model.JDialect
}

var dialectCases = []dialectCase{{"dgo", streamer.DgoDialect(), model.DgoWords}, {"pcore", pcore.Dialect(), model.PcoreWords}}

// typeText denotes a type by its text
func typeText(s string) *model.V { return model.O("type "+s, nil) }

// sameModel compares models in which a type of one may be denoted by its text in the other
func sameModel(a, b *model.V) bool {
	if a.K == model.Typ && b.K == model.Other {
		return b.S == "type "+a.Make().String()
	}
	if b.K == model.Typ && a.K == model.Other {
		return sameModel(b, a)
	}
	if a.K != b.K || len(a.L) != len(b.L) {
		return false
	}
	if len(a.L) == 0 {
		return a.Canon() == b.Canon()
	}
	for i := range a.L {
		if !sameModel(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

// sameValue compares a value with the model of what it must be, including the kind and order at every level
func sameValue(d dgo.Value, m *model.V) string {
	switch m.K {
	case model.Arr:
		a, ok := d.(dgo.Array)
		if !ok || a.Len() != len(m.L) {
			return fmt.Sprintf("%T %s instead of %s", d, d, m.Canon())
		}
		for i := range m.L {
			if s := sameValue(a.Get(i), m.L[i]); s != "" {
				return s
			}
		}
		return ""
	case model.Map:
		dm, ok := d.(dgo.Map)
		if !ok || dm.Len() != m.MapLen() {
			return fmt.Sprintf("%T %s instead of %s", d, d, m.Canon())
		}
		i, r := 0, ""
		dm.EachEntry(func(e dgo.MapEntry) {
			if r == "" {
				r = sameValue(e.Key(), m.L[i])
			}
			if r == "" {
				r = sameValue(e.Value(), m.L[i+1])
			}
			i += 2
		})
		return r
	case model.Sens:
		s, ok := d.(dgo.Sensitive)
		if !ok {
			return fmt.Sprintf("%T %s instead of %s", d, d, m.Canon())
		}
		return sameValue(s.Unwrap(), m.L[0])
	case model.Typ, model.Other:
		w := m.Make
		if w == nil {
			if _, ok := d.(dgo.Type); !ok || "type "+d.String() != m.S {
				return fmt.Sprintf("%T %s instead of %s", d, d, m.S)
			}
			return ""
		}
		x := w()
		if _, ok := x.(dgo.Type); ok {
			if _, ok = d.(dgo.Type); !ok {
				return fmt.Sprintf("%T %s instead of type %s", d, d, x)
			}
		}
		if !x.Equals(d) || !d.Equals(x) {
			return fmt.Sprintf("%T %s instead of %s", d, d, x)
		}
		return ""
	}
	if o := model.Observe(d); o.Canon() != m.Canon() {
		return fmt.Sprintf("%s instead of %s", o.Canon(), m.Canon())
	}
	return ""
}

// contractConsumer interprets a stream as the documentation of streamer.Consumer says
type contractConsumer struct {
	binary, time, complex bool
	threshold             int
	done                  []*model.V
	stack                 []*model.V
	problem               string
	refs                  int
}

func (c *contractConsumer) err(f string, a ...interface{}) {
	if c.problem == "" {
		c.problem = fmt.Sprintf(f, a...)
	}
}

func (c *contractConsumer) CanDoBinary() bool         { return c.binary }
func (c *contractConsumer) CanDoTime() bool           { return c.time }
func (c *contractConsumer) CanDoComplexKeys() bool    { return c.complex }
func (c *contractConsumer) StringDedupThreshold() int { return c.threshold }

func (c *contractConsumer) push(v *model.V) {
	if len(c.stack) == 0 {
		c.stack = append(c.stack, v)
		return
	}
	top := c.stack[len(c.stack)-1]
	top.L = append(top.L, v)
}

func (c *contractConsumer) coll(k model.Kind, doer dgo.Doer) {
	v := &model.V{K: k}
	c.push(v)
	i := len(c.done)
	c.done = append(c.done, nil)
	n := len(c.stack)
	if !(n == 1 && c.stack[0] == v) {
		c.stack = append(c.stack, v)
	}
	doer()
	c.stack = c.stack[:n]
	if k == model.Map && len(v.L)%2 != 0 {
		c.err("odd number of keys and values")
		v.L = append(v.L, model.N())
	}
	c.done[i] = v
}

func (c *contractConsumer) AddArray(_ int, doer dgo.Doer) { c.coll(model.Arr, doer) }
func (c *contractConsumer) AddMap(_ int, doer dgo.Doer)   { c.coll(model.Map, doer) }

func (c *contractConsumer) Add(e dgo.Value) {
	v := model.Observe(e)
	switch v.K {
	case model.Nil, model.Bool, model.Int, model.Float, model.Str:
	case model.Bin:
		if !c.binary {
			c.err("binary was added")
		}
	case model.Time:
		if !c.time {
			c.err("time was added")
		}
	default:
		c.err("%s was added", v.Canon())
	}
	if !c.complex && len(c.stack) > 0 {
		if top := c.stack[len(c.stack)-1]; top.K == model.Map && len(top.L)%2 == 0 && v.K != model.Str {
			c.err("key %s was added", v.Canon())
		}
	}
	c.push(v)
	c.done = append(c.done, v)
}

func (c *contractConsumer) AddRef(ref int) {
	c.refs++
	if ref < 0 || ref >= len(c.done) {
		c.err("reference %d of %d", ref, len(c.done))
		c.push(model.N())
		return
	}
	v := c.done[ref]
	if v == nil {
		c.err("reference %d to an incomplete value", ref)
		v = model.N()
	}
	if v.K == model.Str && len(v.S) < c.threshold {
		c.err("reference %d to the short string %q", ref, v.S)
	}
	if !c.complex && len(c.stack) > 0 {
		if top := c.stack[len(c.stack)-1]; top.K == model.Map && len(top.L)%2 == 0 {
			c.err("reference %d as key", ref)
		}
	}
	c.push(v)
}

func (c *contractConsumer) result(w *model.JDialect) (*model.V, string) {
	if c.problem != "" {
		return nil, c.problem
	}
	if len(c.stack) != 1 {
		return nil, "nothing was added"
	}
	res := &model.JResult{}
	v := model.Enrich(c.stack[0], w, typeText, res)
	if res.Err != "" {
		return nil, res.Err
	}
	if res.Undet != "" {
		return nil, res.Undet
	}
	return v, ""
}

// fetch calls a function and turns panics into a text
func fetch(f func() dgo.Value) (v dgo.Value, p string) {
	e, rt := fw.Try(func() { v = f() })
	if e != nil {
		p = fmt.Sprintf("panic %v", e)
		if rt {
			p = "runtime error " + p
		}
	}
	return
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// streamCheck streams a value on all routes and compares the outcome with the model. rich is set when the value contains
// something else than data.
func streamCheck(t *fw.T, ctx string, v dgo.Value, m *model.V, rich bool, dcs []dialectCase) {
	before := model.Observe(v).Canon()
	n := int64(0)
	expect := func(route, sub string, r dgo.Value, p string) {
		n++
		if p != "" {
			t.Failf("stream", route+"|"+sub, "%s: %s: %s", ctx, m.Canon(), p)
			return
		}
		if s := sameValue(r, m); s != "" {
			t.Failf("stream", route+"|"+sub, "%s: %s: %s", ctx, m.Canon(), s)
			return
		}
		if !r.Equals(v) || !v.Equals(r) {
			t.Failf("stream", route+"|"+sub, "%s: %s: result isn't equal", ctx, m.Canon())
		}
	}
	for _, dc := range dcs {
		for _, dl := range []streamer.DedupLevel{streamer.NoDedup, streamer.NoKeyDedup, streamer.MaxDedup} {
			for _, rd := range []bool{true, false} {
				opts := &streamer.Options{DedupLevel: dl, Dialect: dc.d, RichData: rd}
				sub := fmt.Sprintf("%s %d %v", dc.name, dl, rd)
				st := streamer.New(nil, opts)
				decode := func(data dgo.Value) (dgo.Value, string) {
					return fetch(func() dgo.Value {
						dd := streamer.DataDecoder(nil, dc.d)
						streamer.New(nil, &streamer.Options{DedupLevel: streamer.NoKeyDedup, Dialect: dc.d, RichData: true}).Stream(data, dd)
						return dd.Value()
					})
				}
				if !rd && rich {
					// only data must be accepted. Consumers that take binaries and so on get them
					for k := 0; k < 8; k++ {
						cc := &contractConsumer{binary: k&1 != 0, time: k&2 != 0, complex: k&4 != 0}
						n++
						e, rt := fw.Try(func() { st.Stream(v, cc) })
						if rt {
							t.Failf("stream", "notrich|"+sub, "%s: %s: runtime error %v", ctx, m.Canon(), e)
						}
						ok := onlyData(m, cc)
						if e == nil && !ok {
							t.Failf("notrich", fmt.Sprintf("%s|%d", sub, k), "%s: %s was streamed although rich data is off", ctx, m.Canon())
						}
						if e != nil && !rt && ok {
							t.Failf("notrich", fmt.Sprintf("%s|%d", sub, k), "%s: %s wasn't streamed: %v", ctx, m.Canon(), e)
						}
					}
					continue
				}
				// consumers that follow the contract
				for k := 0; k < 8; k++ {
					if k > 0 && !rich && k != 7 {
						continue
					}
					for _, th := range []int{0, 20} {
						if th == 20 && k != 0 && k != 7 {
							continue
						}
						cc := &contractConsumer{binary: k&1 != 0, time: k&2 != 0, complex: k&4 != 0, threshold: th}
						n++
						csub := fmt.Sprintf("%s|%d %d", sub, k, th)
						e, _ := fw.Try(func() { st.Stream(v, cc) })
						if e != nil {
							t.Failf("stream", "contract|"+csub, "%s: %s: panic %v", ctx, m.Canon(), e)
							continue
						}
						got, p := cc.result(dc.words)
						if p != "" {
							t.Failf("stream", "contract|"+csub, "%s: %s: %s", ctx, m.Canon(), p)
						} else if !sameModel(m, got) {
							t.Failf("stream", "contract|"+csub, "%s: %s: %s", ctx, m.Canon(), got.Canon())
						}
						if dl == streamer.NoDedup && cc.refs > 0 {
							t.Failf("stream", "contract|"+csub, "%s: %s: %d references without deduplication", ctx, m.Canon(), cc.refs)
						}
					}
				}
				// collectors
				r, p := fetch(func() dgo.Value {
					dd := streamer.DataDecoder(nil, dc.d)
					st.Stream(v, dd)
					return dd.Value()
				})
				expect("decoder", sub, r, p)
				for k, mk := range []func() streamer.Collector{streamer.NewCollector, streamer.DataCollector} {
					name := []string{"collector", "datacollector"}[k]
					data, p := fetch(func() dgo.Value {
						c := mk()
						st.Stream(v, c)
						return c.Value()
					})
					if p != "" {
						expect(name, sub, nil, p)
						continue
					}
					if !rich {
						expect(name, sub, data, "")
					}
					if k == 1 {
						if s := notData(data, 0); s != "" {
							t.Failf("stream", name+"|"+sub, "%s: %s: collected %s", ctx, m.Canon(), s)
						}
					}
					r, p = decode(data)
					expect(name+" decoder", sub, r, p)
				}
				// JSON
				if dc.name == "dgo" {
					var text string
					_, p := fetch(func() dgo.Value {
						b := &bytes.Buffer{}
						st.Stream(v, streamer.JSON(b))
						text = b.String()
						return nil
					})
					jsonRoute(t, ctx, "json", sub, text, p, m, dc, expect)
					if p == "" && dl == streamer.NoDedup {
						nd, _ := model.ParseJSON(text)
						if nd != nil && nd.Denote(dc.words, typeText).Refs > 0 {
							t.Failf("stream", "json|"+sub, "%s: %s: %s has references", ctx, m.Canon(), text)
						}
					}
				}
			}
		}
		var text string
		_, p := fetch(func() dgo.Value { text = string(streamer.MarshalJSON(v, dc.d)); return nil })
		jsonRoute(t, ctx, "marshal", dc.name, text, p, m, dc, expect)
		if dc.name == "dgo" {
			t2 := ""
			_, p = fetch(func() dgo.Value { t2 = string(streamer.MarshalJSON(v, nil)); return nil })
			n++
			if p != "" || t2 != text {
				t.Failf("stream", "marshal default", "%s: %s: %s instead of %s", ctx, m.Canon(), short(p+t2), short(text))
			}
		}
	}
	if after := model.Observe(v).Canon(); after != before {
		t.Failf("stream", "changed", "%s: %s was changed to %s", ctx, before, after)
	}
	t.Count("transitions", n)
}

func jsonRoute(t *fw.T, ctx, route, sub, text, p string, m *model.V, dc dialectCase, expect func(route, sub string, r dgo.Value, p string)) {
	if p != "" {
		expect(route, sub, nil, p)
		return
	}
	nd, err := model.ParseJSON(text)
	if err != nil || !json.Valid([]byte(text)) {
		t.Failf("stream", route+"|"+sub+"|syntax", "%s: %s: %s isn't valid JSON: %v", ctx, m.Canon(), short(text), err)
		return
	}
	jr := nd.Denote(dc.words, typeText)
	if jr.Err != "" || jr.Undet != "" {
		t.Failf("stream", route+"|"+sub+"|document", "%s: %s: %s: %s %s", ctx, m.Canon(), short(text), jr.Err, jr.Undet)
	} else if !sameModel(m, jr.V) {
		t.Failf("stream", route+"|"+sub+"|document", "%s: %s: %s denotes %s", ctx, m.Canon(), short(text), jr.V.Canon())
	}
	r, p := fetch(func() dgo.Value { return streamer.UnmarshalJSON([]byte(text), dc.d) })
	expect(route+" unmarshal", sub, r, p)
}

// onlyData returns true when a value can be streamed to the consumer without rich data
func onlyData(m *model.V, cc *contractConsumer) bool {
	switch m.K {
	case model.Nil, model.Bool, model.Int, model.Float, model.Str:
		return true
	case model.Bin:
		return cc.binary
	case model.Time:
		return cc.time
	case model.Arr:
	case model.Map:
		for i := 0; i < len(m.L); i += 2 {
			if m.L[i].K != model.Str && !cc.complex {
				return false
			}
		}
	default:
		return false
	}
	for _, e := range m.L {
		if !onlyData(e, cc) {
			return false
		}
	}
	return true
}

// notData finds something that isn't plain data
func notData(v dgo.Value, depth int) (r string) {
	if depth > 50 {
		return "endless"
	}
	switch v := v.(type) {
	case dgo.Type:
	case dgo.Nil, dgo.Boolean, dgo.Integer, dgo.Float, dgo.String:
		return ""
	case dgo.Array:
		v.Each(func(e dgo.Value) {
			if r == "" {
				r = notData(e, depth+1)
			}
		})
		return
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) {
			if _, ok := e.Key().(dgo.String); !ok {
				r = fmt.Sprintf("key %s", e.Key())
			}
			if r == "" {
				r = notData(e.Value(), depth+1)
			}
		})
		return
	}
	return fmt.Sprintf("%T %s", v, v)
}

// streamNode is an object of a value graph. The children are leaves (negative numbers, -1 being the first leaf) or earlier objects
type streamNode struct {
	op   string
	kids []int
}

type streamGraph struct {
	leaves []*model.V
	nodes  []streamNode
}

func (g *streamGraph) key() string {
	b := &strings.Builder{}
	for i, n := range g.nodes {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(b, "o%d=%s(", i, n.op)
		for j, k := range n.kids {
			if j > 0 {
				b.WriteString(",")
			}
			if k < 0 {
				b.WriteString(short(g.leaves[-1-k].Canon()))
			} else {
				fmt.Fprintf(b, "o%d", k)
			}
		}
		b.WriteString(")")
	}
	return b.String()
}

// connected returns true when all objects are used by the last one
func (g *streamGraph) connected() bool {
	used := make([]bool, len(g.nodes))
	used[len(g.nodes)-1] = true
	for i := len(g.nodes) - 1; i >= 0; i-- {
		if !used[i] {
			return false
		}
		for _, k := range g.nodes[i].kids {
			if k >= 0 {
				used[k] = true
			}
		}
	}
	return true
}

const longString = "a string of 21 bytes."

// streamOps are the ways to make an object of children
var streamOps = map[string]struct {
	kids int
	mk   func(ks []*model.V) *model.V
}{
	"arr0":  {0, func(ks []*model.V) *model.V { return model.A() }},
	"arr1":  {1, func(ks []*model.V) *model.V { return model.A(ks...) }},
	"arr2":  {2, func(ks []*model.V) *model.V { return model.A(ks...) }},
	"map0":  {0, func(ks []*model.V) *model.V { return model.M() }},
	"mapa":  {1, func(ks []*model.V) *model.V { return model.M(model.S("a"), ks[0]) }},
	"mapl":  {1, func(ks []*model.V) *model.V { return model.M(model.S(longString), ks[0]) }},
	"mapba": {2, func(ks []*model.V) *model.V { return model.M(model.S("b"), ks[0], model.S("a"), ks[1]) }},
	"mapla": {2, func(ks []*model.V) *model.V { return model.M(model.S(longString), ks[0], model.S("a"), ks[1]) }},
	"rich1": {1, func(ks []*model.V) *model.V { return model.M(model.I(1), ks[0]) }},
	"richk": {1, func(ks []*model.V) *model.V { return model.M(ks[0], model.I(1)) }},
	"rich2": {2, func(ks []*model.V) *model.V { return model.M(ks[0], ks[1]) }},
	"richx": {2, func(ks []*model.V) *model.V { return model.M(model.S("a"), ks[0], model.A(model.I(1)), ks[1]) }},
	"sens":  {1, func(ks []*model.V) *model.V { return model.X(ks[0]) }},
}

// model of the graph
func (g *streamGraph) model() *model.V {
	vs := make([]*model.V, len(g.nodes))
	for i, n := range g.nodes {
		ks := make([]*model.V, len(n.kids))
		for j, k := range n.kids {
			if k < 0 {
				ks[j] = g.leaves[-1-k]
			} else {
				ks[j] = vs[k]
			}
		}
		vs[i] = streamOps[n.op].mk(ks)
	}
	return vs[len(vs)-1]
}

// buildShared creates one dgo value for each object of a model
func buildShared(m *model.V, frozen bool, memo map[*model.V]dgo.Value) (r dgo.Value) {
	if r, ok := memo[m]; ok {
		return r
	}
	defer func() { memo[m] = r }()
	switch m.K {
	case model.Arr:
		a := vf.ArrayWithCapacity(len(m.L))
		for _, e := range m.L {
			a.Add(buildShared(e, frozen, memo))
		}
		if frozen {
			a.Freeze()
		}
		return a
	case model.Map:
		x := vf.MapWithCapacity(m.MapLen())
		for i := 0; i < len(m.L); i += 2 {
			x.Put(buildShared(m.L[i], frozen, memo), buildShared(m.L[i+1], frozen, memo))
		}
		if frozen {
			x.Freeze()
		}
		return x
	case model.Sens:
		return vf.Sensitive(buildShared(m.L[0], frozen, memo))
	}
	return m.Build(frozen)
}

// exploreGraphs runs check on all graphs of up to n objects
func exploreGraphs(c *fw.C, ops []string, leaves []*model.V, n int, check func(t *fw.T, g *streamGraph)) {
	choices := func(made int) (r []streamNode) {
		var cand []int
		for i := range leaves {
			cand = append(cand, -1-i)
		}
		for i := 0; i < made; i++ {
			cand = append(cand, i)
		}
		for _, op := range ops {
			switch streamOps[op].kids {
			case 0:
				r = append(r, streamNode{op, nil})
			case 1:
				for _, a := range cand {
					r = append(r, streamNode{op, []int{a}})
				}
			case 2:
				for _, a := range cand {
					for _, b := range cand {
						r = append(r, streamNode{op, []int{a, b}})
					}
				}
			}
		}
		return
	}
	var rec func(t *fw.T, g *streamGraph)
	rec = func(t *fw.T, g *streamGraph) {
		if t.Expired() {
			return
		}
		if g.connected() {
			check(t, g)
		}
		if len(g.nodes) == n {
			return
		}
		for _, x := range choices(len(g.nodes)) {
			rec(t, &streamGraph{leaves, append(append([]streamNode{}, g.nodes...), x)})
		}
	}
	first := choices(0)
	second := choices(1)
	for _, a := range first {
		g := &streamGraph{leaves, []streamNode{a}}
		c.Case(g.key, func(t *fw.T) { check(t, g) })
		if n < 2 {
			continue
		}
		for _, b := range second {
			g := &streamGraph{leaves, []streamNode{a, b}}
			c.Case(g.key, func(t *fw.T) { rec(t, g); t.Touch() })
		}
	}
}

func checkGraph(t *fw.T, g *streamGraph, rich bool, dcs []dialectCase) {
	m := g.model()
	streamCheck(t, "shared "+g.key(), buildShared(m, false, map[*model.V]dgo.Value{}), m, rich, dcs)
	streamCheck(t, "frozen "+g.key(), buildShared(m, true, map[*model.V]dgo.Value{}), m, rich, dcs)
	if len(g.nodes) <= 2 {
		streamCheck(t, "distinct "+g.key(), m.Build(false), m, rich, dcs)
	}
	t.State(m.Canon())
}

// beforeRefs has documents where two values come before one that occurs twice, in many positions
func beforeRefs(rich bool) (r [][2]*model.V) {
	i, s := model.I, model.S
	ps := []*model.V{model.N(), i(1), model.F(1.5), s("a"), s(longString), model.A(), model.M(), model.A(model.A()), model.A(model.M()), model.M(s("a"), model.A()), model.M(s("a"), model.M()), model.A(i(1), s(longString)), model.M(s(longString), i(1))}
	if rich {
		ps = append(ps, model.Y(""), model.Y("abc"), model.T(uTime1), model.X(model.N()), model.X(model.A()), model.X(s(longString)), model.M(i(1), model.N()), model.M(model.A(), i(1)), model.M(s(longString), i(1), i(2), s(longString)), model.TV(model.TInt), model.TV(model.TExact(i(1))))
	}
	for _, p := range ps {
		for _, q := range ps {
			r = append(r, [2]*model.V{p, q})
		}
	}
	return
}

// afterTwo are the documents with p and q before x, which occurs twice
func afterTwo(p, q *model.V, rich bool) (r []*model.V) {
	i, s := model.I, model.S
	xs := []*model.V{model.A(s("x"), i(7)), s("another long string that repeats")}
	if rich {
		xs = append(xs, model.Y("xyz"), model.M(i(7), s("x")))
	}
	for _, x := range xs {
		r = append(r, model.A(p, q, x, x), model.M(s("k"), p, s("l"), q, s("m"), x, s("n"), x), model.A(model.A(p, x), model.M(s("k"), q, s("l"), x), x))
		if rich {
			r = append(r, model.X(model.A(p, model.X(q), x, model.X(x))), model.M(p, q, i(-5), x, s("n"), x))
		}
	}
	return
}

// confusable are values that something which is less than equality may take for one another: strings that are long
// enough to be deduplicated and differ in one position only, scalars that are almost equal, and collections of them
func confusable() (vs []*model.V) {
	const w = "abcdefghijklmnopqrstuvwxyz"
	for _, x := range []string{w, " " + w, w + " ", "\n" + w, w + "\t", w + "\x00", "A" + w[1:], strings.ToUpper(w), w[:25] + "Z", w[:25] + "y", w[1:], w[:25], w + w, w[:20], w[:19] + "u", w[:12] + "é" + w[13:], w[:12] + "e\u0301" + w[13:], w[:12] + "\ufffd" + w[13:],
		w[:12] + "ß" + w[13:], w[:12] + "ss" + w[13:], w[:12] + "\\" + w[13:], w[:12] + "\"" + w[13:], w[:12] + "  " + w[13:], w[:12] + " " + w[13:], strings.Repeat("1", 20), strings.Repeat("1", 21), "0" + strings.Repeat("1", 20), strings.Repeat("1", 20) + ".0", strings.Repeat("😀", 6), strings.Repeat("😀", 5) + "😁"} {
		vs = append(vs, model.S(x))
	}
	vs = append(vs, model.A(vs[0]), model.A(vs[2]), model.M(model.S("a"), vs[0]), model.M(model.S("a"), vs[2]), model.M(vs[0], model.I(1)), model.M(vs[2], model.I(1)), model.Y(w), model.Y(w[:25]+"y"), model.X(vs[0]), model.X(vs[2]))
	for _, x := range scalarUniverse() {
		vs = append(vs, x)
	}
	vs = append(vs, nearScalars()...)
	for _, x := range append([]*model.V{}, vs...) {
		if x.K == model.Time || x.K == model.Bin && len(x.S) == 1 {
			vs = append(vs, model.X(x), model.A(x), model.M(x, model.I(1)))
		}
	}
	return dedup(vs)
}

// streamPairs streams all pairs of confusable values that usable accepts
func streamPairs(c *fw.C, usable func(*model.V) bool, check func(t *fw.T, m *model.V)) {
	c.Stage("pairs")
	var vs []*model.V
	for _, v := range confusable() {
		if usable(v) {
			vs = append(vs, v)
		}
	}
	for n, x := range vs {
		n, x := n, x
		c.Case(func() string { return short(x.Canon()) }, func(t *fw.T) {
			for _, y := range vs[:n] {
				check(t, model.A(x, y, x, y))
				check(t, model.M(model.S("a"), y, model.S("b"), model.A(x)))
				if x.K == model.Str && y.K == model.Str {
					check(t, model.M(x, y, y, x))
				}
			}
			t.State(x.Canon())
		})
	}
}
