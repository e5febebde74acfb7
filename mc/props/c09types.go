package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// rty is a type expression that may refer to the recursive types of its definition
type rty struct {
	op  string // int str any x y arr arr1 map st st? st... tup tup... or and one not sens
	sub []*rty
}

func (r *rty) text(name func(string) string) string {
	ts := make([]string, len(r.sub))
	for i := range ts {
		ts[i] = r.sub[i].text(name)
	}
	switch r.op {
	case "x", "y":
		return name(r.op)
	case "arr":
		return "[]" + ts[0]
	case "arr1":
		return "[0,1]" + ts[0]
	case "map":
		return "map[string]" + ts[0]
	case "st":
		return "{k:" + ts[0] + "}"
	case "st?":
		return "{k?:" + ts[0] + "}"
	case "st2":
		return "{k:" + ts[0] + ",l?:" + ts[1] + "}"
	case "tup":
		return "{" + strings.Join(ts, ",") + "}"
	case "tup...":
		return "{" + strings.Join(ts[:len(ts)-1], ",") + ",..." + ts[len(ts)-1] + "}"
	case "or":
		return "(" + strings.Join(ts, "|") + ")"
	case "and":
		return "(" + strings.Join(ts, "&") + ")"
	case "one":
		return "(" + strings.Join(ts, "^") + ")"
	case "not":
		return "!" + ts[0]
	case "sens":
		return "sensitive[" + ts[0] + "]"
	}
	return r.op
}

func (r *rty) String() string { return r.text(func(n string) string { return n }) }

func (r *rty) uses(op string) bool {
	if r.op == op {
		return true
	}
	for _, s := range r.sub {
		if s.uses(op) {
			return true
		}
	}
	return false
}

// guarded tells if every reference is below a constructor of a collection
func (r *rty) guarded() bool {
	switch r.op {
	case "x", "y":
		return false
	case "or", "and", "one", "not":
		for _, s := range r.sub {
			if !s.guarded() {
				return false
			}
		}
	}
	return true
}

func (r *rty) has(env map[string]*rty, v *model.V) bool {
	switch r.op {
	case "int":
		return v.K == model.Int
	case "string":
		return v.K == model.Str
	case "any":
		return true
	case "x", "y":
		return env[r.op].has(env, v)
	case "arr", "arr1":
		if v.K != model.Arr || r.op == "arr1" && len(v.L) > 1 {
			return false
		}
		for _, e := range v.L {
			if !r.sub[0].has(env, e) {
				return false
			}
		}
		return true
	case "tup", "tup...":
		n := len(r.sub)
		if v.K != model.Arr || r.op == "tup" && len(v.L) != n || len(v.L) < n-1 {
			return false
		}
		for i, e := range v.L {
			if !r.sub[min(i, n-1)].has(env, e) {
				return false
			}
		}
		return true
	case "map":
		if v.K != model.Map {
			return false
		}
		for i := 0; i < len(v.L); i += 2 {
			if v.L[i].K != model.Str || !r.sub[0].has(env, v.L[i+1]) {
				return false
			}
		}
		return true
	case "st", "st?", "st2":
		if v.K != model.Map {
			return false
		}
		seen := 0
		for i := 0; i < len(v.L); i += 2 {
			j := -1
			if v.L[i].K == model.Str {
				switch v.L[i].S {
				case "k":
					j = 0
				case "l":
					j = 1
				}
			}
			if j < 0 || j >= len(r.sub) || !r.sub[j].has(env, v.L[i+1]) {
				return false
			}
			if j == 0 {
				seen++
			}
		}
		return seen == 1 || r.op == "st?"
	case "or":
		return r.sub[0].has(env, v) || r.sub[1].has(env, v)
	case "and":
		return r.sub[0].has(env, v) && r.sub[1].has(env, v)
	case "one":
		return r.sub[0].has(env, v) != r.sub[1].has(env, v)
	case "not":
		return !r.sub[0].has(env, v)
	case "sens":
		return v.K == model.Sens && r.sub[0].has(env, v.L[0])
	}
	panic(r.op)
}

// hasG is the greatest relation that satisfies the definition, for a node of a graph (-1 is the scalar 1)
func (r *rty) hasG(env map[string]*rty, g graph, i int, prog map[string]bool) bool {
	k := fmt.Sprintf("%p %d", r, i)
	if prog[k] {
		return true
	}
	prog[k] = true
	defer delete(prog, k)
	switch r.op {
	case "int":
		return i < 0
	case "string":
		return false
	case "x", "y":
		return env[r.op].hasG(env, g, i, prog)
	case "or":
		return r.sub[0].hasG(env, g, i, prog) || r.sub[1].hasG(env, g, i, prog)
	case "and":
		return r.sub[0].hasG(env, g, i, prog) && r.sub[1].hasG(env, g, i, prog)
	}
	if i < 0 {
		return false
	}
	n := g[i]
	switch r.op {
	case "arr", "arr1", "tup", "tup...":
		if n.kind != 'A' || r.op == "arr1" && len(n.slots) > 1 || r.op == "tup" && len(n.slots) != len(r.sub) || r.op == "tup..." && len(n.slots) < len(r.sub)-1 {
			return false
		}
		for j, s := range n.slots {
			if !r.sub[min(j, len(r.sub)-1)].hasG(env, g, s, prog) {
				return false
			}
		}
		return true
	case "map", "st", "st?", "st2":
		if n.kind != 'M' || r.op != "map" && len(n.slots) > len(r.sub) || len(n.slots) == 0 && (r.op == "st" || r.op == "st2") {
			return false
		}
		for j, s := range n.slots {
			if r.op == "map" {
				j = 0
			}
			if !r.sub[j].hasG(env, g, s, prog) {
				return false
			}
		}
		return true
	case "sens":
		return n.kind == 'S' && r.sub[0].hasG(env, g, n.slots[0], prog)
	}
	panic(r.op)
}

// rtys gives all expressions up to a depth with the given references
func rtys(depth int, refs ...string) []*rty {
	ls := []*rty{{op: "int"}, {op: "string"}}
	for _, r := range refs {
		ls = append(ls, &rty{op: r})
	}
	if depth == 0 {
		return ls
	}
	in := rtys(depth-1, refs...)
	out := append([]*rty{}, ls...)
	for _, a := range in {
		for _, op := range []string{"arr", "arr1", "map", "st", "st?", "tup", "not", "sens"} {
			out = append(out, &rty{op, []*rty{a}})
		}
		for _, b := range in {
			if depth > 1 && !a.uses("x") && !b.uses("x") {
				continue
			}
			if depth > 1 && len(a.sub) > 0 && len(b.sub) > 0 {
				continue
			}
			for _, op := range []string{"tup", "tup...", "st2", "or", "and", "one"} {
				if a.op == b.op && len(a.sub) == 0 && (op == "or" || op == "and" || op == "one") {
					continue
				}
				out = append(out, &rty{op, []*rty{a, b}})
			}
		}
	}
	return out
}

func c09Values() []*model.V {
	i, s := model.I(1), model.S("a")
	k, l := model.S("k"), model.S("l")
	level := []*model.V{i, s}
	all := append([]*model.V{model.N(), model.F(1.5)}, level...)
	for d := 0; d < 3; d++ {
		prev := level
		if d == 2 {
			prev = prev[:10]
		}
		level = []*model.V{model.A(), model.M()}
		for _, a := range prev {
			level = append(level, model.A(a), model.M(k, a), model.M(l, a), model.X(a))
		}
		for _, a := range prev {
			for _, b := range []*model.V{i, s, prev[len(prev)-1]} {
				level = append(level, model.A(a, b), model.A(b, a), model.M(k, a, l, b), model.M(k, b, l, a))
			}
		}
		level = dedup(level)
		all = append(all, level...)
		if d == 0 {
			level = append(append([]*model.V{}, level...), i, s)
		}
	}
	return dedup(all)
}

type rdef struct {
	text string
	tp   dgo.Type
	has  []bool
}

func c09TypeOps(t *fw.T, text string, tp dgo.Type, env map[string]*rty, body *rty, mvs []*model.V, dvs []dgo.Value) (has []bool) {
	for i, v := range mvs {
		var in bool
		e, _ := fw.Try(func() { in = tp.Instance(dvs[i]) })
		t.Count("transitions", 1)
		want := in
		if body != nil {
			want = body.has(env, v)
		}
		if e != nil || in != want {
			t.Failf("instance", text+" "+v.Canon(), "%s accepts %s is %v (%v), expected %v", text, v.Canon(), in, e, want)
		}
		has = append(has, in)
	}
	e, _ := fw.Try(func() {
		if d := lenCheck(tp.String()) + lenCheck(fmt.Sprintf("%v", tp)); d != "" {
			t.Failf("print", text, "printing %s %s", text, d)
		}
		tp.HashCode()
		tp.Type().HashCode()
		if !tp.Equals(tp) || !tp.Assignable(tp) || !tp.Type().Instance(tp) {
			t.Failf("reflexive", text, "%s isn't equal to itself, assignable to itself or an instance of its meta type", text)
		}
		tp.ReflectType()
		tp.TypeIdentifier()
		g := typ.Generic(tp)
		for i := range has {
			if has[i] && !g.Instance(dvs[i]) {
				t.Failf("generic", text+" "+mvs[i].Canon(), "the generic type %s of %s doesn't accept %s", g, text, mvs[i].Canon())
			}
		}
		for i := range has {
			if has[i] && !hasSens(mvs[i]) && !tp.Assignable(dvs[i].Type()) {
				t.Failf("exact", text+" "+mvs[i].Canon(), "%s accepts %s but isn't assignable from its type", text, mvs[i].Canon())
			}
			if !has[i] && tp.Assignable(dvs[i].Type()) {
				t.Failf("exact", text+" "+mvs[i].Canon(), "%s is assignable from the type of %s but doesn't accept it", text, mvs[i].Canon())
			}
		}
		if st, ok := tp.(dgo.StructMapType); ok {
			for i := range dvs {
				es := st.Validate(nil, dvs[i])
				if (len(es) == 0) != has[i] {
					t.Failf("validate", text+" "+mvs[i].Canon(), "%s: instance of %s is %v but %v", mvs[i].Canon(), text, has[i], es)
				}
				out := util.NewIndenter("  ")
				if st.ValidateVerbose(dvs[i], out) != has[i] {
					t.Failf("validate", text+" "+mvs[i].Canon(), "%s: instance of %s is %v, ValidateVerbose differs: %s", mvs[i].Canon(), text, has[i], out)
				}
			}
		}
	})
	if e != nil {
		t.Failf("panic", text, "%s: %v", text, e)
	}
	return
}

func hasSens(v *model.V) bool {
	if v.K == model.Sens {
		return true
	}
	for _, e := range v.L {
		if hasSens(e) {
			return true
		}
	}
	return false
}

func c09Types2(c *fw.C) {
	mvs := c09Values()
	dvs := make([]dgo.Value, len(mvs))
	for i, v := range mvs {
		dvs[i] = v.Build(true)
	}
	c.Stage("recursive types")
	depth := 2
	var bodies []*rty
	for _, b := range rtys(depth, "x") {
		if b.uses("x") && b.op != "x" {
			bodies = append(bodies, b)
		}
	}
	step := 1
	if c.Thorough {
		for _, b := range rtys(2, "x") {
			if b.uses("x") && b.guarded() && b.op != "x" {
				bodies = append(bodies, &rty{"or", []*rty{{op: "int"}, {"arr", []*rty{b}}}}, &rty{"st2", []*rty{b, {op: "x"}}}, &rty{"not", []*rty{{"map", []*rty{b}}}})
			}
		}
	}
	for i := 0; i < len(bodies); i += step {
		b := bodies[i]
		text := "x=" + b.String()
		c.Case(func() string { return text }, func(t *fw.T) {
			v, am, err := synParse(text)
			if err != nil && !b.guarded() && !isSynRuntime(err.Error()) {
				return // rejected
			}
			if err != nil {
				t.Failf("parse", text, "%s: %v", text, err)
				return
			}
			t.Touch()
			tp := typ.AsType(v)
			var ref *rty
			env := map[string]*rty{"x": b}
			if b.guarded() {
				ref = b
			}
			has := c09TypeOps(t, text, tp, env, ref, mvs, dvs)
			t.State(text)
			// the type built again and the unrolled type
			n := 0
			unrolled := b.text(func(string) string {
				n++
				if n == 1 {
					return "(" + text + ")"
				}
				return "x"
			})
			for k, other := range []string{text, unrolled} {
				w, _, err := synParse(other)
				if err != nil {
					t.Failf("parse", other, "%s: %v", other, err)
					continue
				}
				wt := typ.AsType(w)
				e, _ := fw.Try(func() {
					if eq := tp.Equals(wt); k == 0 && (!eq || tp.HashCode() != wt.HashCode() || !tp.Assignable(wt)) {
						t.Failf("same", text, "two types created from %s: equal %v, hash codes %d and %d", text, eq, tp.HashCode(), wt.HashCode())
					}
					tp.Assignable(wt)
					wt.Assignable(tp)
					for i := range dvs {
						if ref != nil && wt.Instance(dvs[i]) != has[i] {
							t.Failf("unrolled", other+" "+mvs[i].Canon(), "%s accepts %s is %v but %s accepts it is %v", text, mvs[i].Canon(), has[i], other, !has[i])
						}
					}
				})
				if e != nil {
					t.Failf("panic", other, "%s: %v", other, e)
				}
			}
			_ = am
		})
	}

	c.Stage("recursive types of cyclic values")
	gs := append(graphs(1, 2, "AM"), graphs(2, 2, "AMS")...)
	for _, b := range rtys(2, "x") {
		if !b.uses("x") || !b.guarded() || b.uses("not") || b.uses("one") {
			continue
		}
		b := b
		text := "x=" + b.String()
		c.Case(func() string { return text }, func(t *fw.T) {
			v, _, err := synParse(text)
			if err != nil {
				return
			}
			tp := typ.AsType(v)
			for _, g := range gs {
				x := g.build()[0]
				want := b.hasG(map[string]*rty{"x": b}, g, 0, map[string]bool{})
				var in, as bool
				e, _ := fw.Try(func() { in = tp.Instance(x); as = tp.Assignable(x.Type()) })
				t.Count("transitions", 2)
				if e != nil || in != want {
					t.Failf("cyclic", text+" "+g.String(), "%s accepts %s is %v (%v), expected %v", text, g, in, e, want)
				}
				if as && !in || in && !as && !g.has('S') {
					t.Failf("cyclic exact", text+" "+g.String(), "%s accepts %s is %v, assignability of its type is %v", text, g, in, as)
				}
			}
			t.Touch()
		})
	}

	c.Stage("mutually recursive types")
	small := rtys(1, "x", "y")
	for _, bx := range small {
		for _, by := range small {
			if bx.op == "x" || bx.op == "y" || by.op == "x" || by.op == "y" || !bx.uses("y") || !by.uses("x") {
				continue
			}
			if !bx.guarded() && !by.guarded() && (bx.uses("not") || by.uses("not") || bx.uses("one") || by.uses("one")) {
				continue
			}
			bx, by := bx, by
			text := "{x=" + bx.String() + ",y=" + by.String() + "}"
			c.Case(func() string { return text }, func(t *fw.T) {
				_, am, err := synParse(text)
				if err != nil && !(bx.guarded() && by.guarded()) && !isSynRuntime(err.Error()) {
					return // rejected
				}
				if err != nil {
					t.Failf("parse", text, "%s: %v", text, err)
					return
				}
				env := map[string]*rty{"x": bx, "y": by}
				for n, b := range env {
					var ref *rty
					if bx.guarded() && by.guarded() {
						ref = b
					}
					c09TypeOps(t, n+" of "+text, am.GetType(vf.String(n)), env, ref, mvs[:150], dvs[:150])
				}
				t.State(text)
				t.Touch()
			})
		}
	}

	c.Stage("assignability of recursive types")
	var defs []*rdef
	for _, b := range rtys(2, "x") {
		if !b.uses("x") && len(b.sub) > 0 || !b.guarded() || b.uses("not") || b.uses("one") || b.uses("and") {
			continue
		}
		defs = append(defs, &rdef{text: "x=" + b.String()})
	}
	if !c.Thorough && false {
		var few []*rdef
		for i, d := range defs {
			if i < 20 || i%8 == 0 {
				few = append(few, d)
			}
		}
		defs = few
	}
	defs = append(defs, &rdef{text: "data"}, &rdef{text: "richdata"}, &rdef{text: "[]any"}, &rdef{text: "map[string]any"})
	get := func(d *rdef) *rdef {
		if d.tp == nil {
			v, _, err := synParse(d.text)
			if err != nil {
				panic(err)
			}
			d.tp = typ.AsType(v)
			for _, v := range dvs {
				d.has = append(d.has, d.tp.Instance(v))
			}
		}
		return d
	}
	for _, d := range defs {
		d := d
		c.Case(func() string { return d.text }, func(t *fw.T) {
			get(d)
			for _, o := range defs {
				get(o)
				var as bool
				e, _ := fw.Try(func() { as = d.tp.Assignable(o.tp); d.tp.Equals(o.tp) })
				t.Count("transitions", 1)
				if e != nil {
					t.Failf("panic", o.text, "assignability of %s from %s: %v", d.text, o.text, e)
				}
				if as {
					for i := range dvs {
						if o.has[i] && !d.has[i] {
							t.Failf("unsound", o.text, "%s is assignable from %s but doesn't accept %s", d.text, o.text, mvs[i].Canon())
							break
						}
					}
				}
			}
			t.Touch()
		})
	}
	_ = tf.ParseType
}
