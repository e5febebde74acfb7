package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C14: validation of struct maps.

func init() {
	fw.Register(&fw.Check{ID: "C14", Level: "model_checking", Run: runC14,
		Rule: "all struct map types with up to three entries (each required or optional, of every type of a small alphabet; open or closed; built from entries, from a map and from text) against all maps over the keys of the type and unknown keys with all values of a small alphabet, and values that aren't maps: the errors are exactly the expected ones in the expected order, no error exactly when the map is in the denotation, and Instance and ValidateVerbose give the same verdict and name the same keys"})
}

type c14type struct {
	m    *model.Ty
	text string
}

func c14EntryTypes(thorough bool) []c14type {
	s, i := model.S, model.I
	l := []c14type{{model.TInt, "int"}, {model.TString, "string"}, {model.TAny, "any"}, {model.TExact(i(1)), "1"}, {model.TNil, "nil"},
		{model.TStruct(false, model.SE{Key: s("x"), Req: true, Ty: model.TInt}), "{x:int}"}}
	if thorough {
		l = append(l, c14type{model.TIntRange(1, 2, true), "1..2"}, c14type{model.TArr(model.TInt, 0, model.Inf), "[]int"}, c14type{model.TStruct(true, model.SE{Key: s("x"), Req: false, Ty: model.TString}), "{x?:string,...}"})
	}
	return l
}

func runC14(c *fw.C) {
	s, i := model.S, model.I
	ets := c14EntryTypes(c.Thorough)
	vals := []*model.V{nil, i(1), i(3), s("x"), model.N(), model.M(s("x"), i(1)), model.M(), model.X(i(1))}
	if c.Thorough {
		vals = append(vals, model.A(i(1)), model.M(s("x"), s("x"), s("y"), i(2)))
	}
	keys := []*model.V{s("a"), s("b"), i(1)}
	kt := []string{"a", "b", "1"}
	unknown := []*model.V{nil, s("d"), model.TV(model.TExact(s("a"))), model.A(s("a")), i(2), model.N()}
	// all maps over a prefix of the keys
	mapsFor := func(n int) (ms []*model.V) {
		var rec func(k int, m *model.V, rev bool)
		rec = func(k int, m *model.V, rev bool) {
			if k == len(keys) {
				for _, u := range unknown {
					x := m.Copy()
					if u != nil {
						x.L = append(x.L, u, i(1))
					}
					ms = append(ms, x)
				}
				if len(m.L) > 2 { // another order
					x := model.M()
					for q := len(m.L) - 2; q >= 0; q -= 2 {
						x.L = append(x.L, m.L[q], m.L[q+1])
					}
					ms = append(ms, x)
				}
				return
			}
			vs := vals
			if k >= n {
				vs = vals[:2]
			}
			if n == 3 && k > 0 {
				vs = vals[:4]
			}
			for _, v := range vs {
				x := m.Copy()
				if v != nil {
					x.L = append(x.L, keys[k], v)
				}
				rec(k+1, x, rev)
			}
		}
		rec(0, model.M(), false)
		return
	}
	var byN [4][]*model.V
	var built [4][]dgo.Value
	for n := range byN {
		byN[n] = mapsFor(n)
		for q, m := range byN[n] {
			built[n] = append(built[n], m.Build(q%2 == 0))
		}
	}
	c.Stage("validate")
	one := func(es []model.SE, texts []string, open bool) {
		ty := model.TStruct(open, es...)
		c.Case(func() string { return ty.Name }, func(t *fw.T) {
			n := len(es)
			if n == 3 && t.C().Thorough {
				n = 3
			}
			ents := make([]dgo.StructMapEntry, len(es))
			desc := vf.MutableMap()
			desc2 := vf.MutableMap()
			for q, e := range es {
				ents[q] = tf.StructMapEntry(e.Key.Build(true), e.Ty.Build(), e.Req)
				desc.Put(e.Key.Build(true), vf.Map("type", e.Ty.Build(), "required", e.Req))
				desc2.Put(e.Key.Build(true), vf.Map("type", texts[q][strings.LastIndex(texts[q], ":::")+3:], "required", e.Req))
			}
			forms := []dgo.StructMapType{tf.StructMap(open, ents...)}
			onlyStrings := true
			parts := make([]string, len(es))
			for q, e := range es {
				onlyStrings = onlyStrings && e.Key.K == model.Str
				parts[q] = strings.Replace(texts[q], ":::", ":", 1)
			}
			if open {
				parts = append(parts, "...")
			}
			pt, ok := tf.ParseType("{" + strings.Join(parts, ",") + "}").(dgo.StructMapType)
			if !ok && len(parts) > 0 {
				t.Failf("parse", "", "{%s} is not parsed as a struct map type", strings.Join(parts, ","))
			} else if ok {
				forms = append(forms, pt)
			}
			if onlyStrings {
				forms = append(forms, tf.StructMapFromMap(open, desc), tf.StructMapFromMap(open, desc2))
			}
			out := ""
			for fi, d := range forms {
				for mi, m := range byN[n] {
					if fi > 0 && mi%3 != 0 {
						continue
					}
					out += c14one(t, ty, es, open, d, fi, m, built[n][mi])
				}
				for _, x := range []interface{}{1, "a", vf.Values("a", 1), nil, typ.Map, vf.Sensitive(vf.Map("a", 1))} {
					if d.Instance(x) || len(d.Validate(nil, x)) != 1 || d.ValidateVerbose(x, util.NewIndenter("")) {
						t.Failf("notmap", fmt.Sprint(x), "form %d of %s accepts %v which is not a map", fi, d, x)
					}
				}
			}
			t.State(ty.Name)
			t.Outcome(out)
		})
	}
	label := func(q int, req bool, et c14type) string {
		opt := ""
		if !req {
			opt = "?"
		}
		return kt[q] + opt + ":::" + et.text
	}
	for _, open := range []bool{false, true} {
		one(nil, nil, open)
		for _, t0 := range ets {
			for r0 := 0; r0 < 2; r0++ {
				e0 := model.SE{Key: keys[0], Req: r0 == 1, Ty: t0.m}
				l0 := label(0, r0 == 1, t0)
				one([]model.SE{e0}, []string{l0}, open)
				for _, t1 := range ets {
					for r1 := 0; r1 < 2; r1++ {
						e1 := model.SE{Key: keys[1], Req: r1 == 1, Ty: t1.m}
						l1 := label(1, r1 == 1, t1)
						one([]model.SE{e0, e1}, []string{l0, l1}, open)
						for _, t2 := range ets[:3] {
							for r2 := 0; r2 < 2; r2++ {
								one([]model.SE{e0, e1, {Key: keys[2], Req: r2 == 1, Ty: t2.m}}, []string{l0, l1, label(2, r2 == 1, t2)}, open)
							}
						}
					}
				}
			}
		}
	}
}

func c14one(t *fw.T, ty *model.Ty, es []model.SE, open bool, d dgo.StructMapType, fi int, m *model.V, dm dgo.Value) string {
	sub := fmt.Sprintf("%s/%d", m.Canon(), fi)
	// what's expected
	var want []string
	failed := map[string]bool{}
	known := map[string]bool{}
	for _, e := range es {
		k := e.Key.EqCanon()
		known[k] = true
		if v := m.Get(e.Key); v != nil {
			if !e.Ty.Has(v) {
				want = append(want, "type "+k)
				failed[k] = true
			}
		} else if e.Req {
			want = append(want, "missing "+k)
			failed[k] = true
		}
	}
	for q := 0; !open && q < len(m.L); q += 2 {
		if k := m.L[q].EqCanon(); !known[k] {
			want = append(want, "unknown "+k)
			failed[k] = true
		}
	}
	if ty.Has(m) != (len(want) == 0) {
		t.Failf("model", sub, "the reference model is inconsistent")
	}
	if d.Instance(dm) != (len(want) == 0) {
		t.Failf("instance", sub, "%s accepts %s: %v", d, m.Canon(), !(len(want) == 0))
	}
	canon := func(k dgo.Value) string {
		if _, ok := k.(dgo.Type); ok {
			return model.TV(model.TExact(model.S("a"))).EqCanon()
		}
		return model.Observe(k).EqCanon()
	}
	var got, labels []string
	errs := d.Validate(func(k dgo.Value) string { l := "<" + canon(k) + ">"; labels = append(labels, l); return l }, dm)
	for _, e := range errs {
		msg := e.Error()
		a, b := strings.Index(msg, "<"), strings.LastIndex(msg, ">")
		if a < 0 || b < a {
			got = append(got, "?"+msg)
			continue
		}
		k := msg[a+1 : b]
		switch {
		case strings.HasPrefix(msg, "missing required <"):
			got = append(got, "missing "+k)
		case strings.HasPrefix(msg, "unknown <"):
			got = append(got, "unknown "+k)
		case strings.HasPrefix(msg, "<") && strings.Contains(msg, "> is not an instance of type "):
			got = append(got, "type "+k)
		default:
			got = append(got, "?"+msg)
		}
	}
	if g, w := strings.Join(got, ";"), strings.Join(want, ";"); g != w {
		t.Failf("validate", sub, "validating %s with %s reports %q, want %q", m.Canon(), d, g, w)
	}
	if n := len(d.Validate(nil, dm)); n != len(want) {
		t.Failf("validate", "default"+sub, "validating %s with %s and no label function reports %d errors, want %d", m.Canon(), d, n, len(want))
	}
	ind := util.NewIndenter("  ")
	ok := d.ValidateVerbose(dm, ind)
	text := ind.String()
	if ok != (len(want) == 0) {
		t.Failf("verbose", sub, "verbose validation of %s with %s is %v, want %v", m.Canon(), d, ok, len(want) == 0)
	}
	if f, o := strings.Count(text, "FAILED!"), strings.Count(text, "OK!"); f != len(want) || o > len(es) {
		t.Failf("verbose", "text"+sub, "verbose validation of %s with %s mentions %d failures, want %d:\n%s", m.Canon(), d, f, len(want), text)
	}
	for _, e := range es {
		if _, isS := e.Key.Build(true).(dgo.String); isS {
			if strings.Contains(text, "'"+e.Key.S+"' FAILED!") != failed[e.Key.EqCanon()] {
				t.Failf("verbose", "key"+sub, "verbose validation of %s with %s: failure of %s not explained:\n%s", m.Canon(), d, e.Key.S, text)
			}
			if strings.Contains(text, "'"+e.Key.S+"' OK!") != (m.Get(e.Key) != nil && !failed[e.Key.EqCanon()]) {
				t.Failf("verbose", "ok"+sub, "verbose validation of %s with %s: success of %s not explained:\n%s", m.Canon(), d, e.Key.S, text)
			}
		}
	}
	t.Count("transitions", 4)
	t.Count("pairs", 1)
	if len(want) == 0 {
		return "."
	}
	return itoa(len(want))
}
