package props

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C16: function calls and function types

func init() {
	fw.Register(&fw.Check{ID: "C16", Level: "model_checking", Run: runC16,
		Rule: "every Go function signature over an alphabet of parameter types up to the stated number of parameters, variadic and not, is called with every argument list over a value alphabet up to two more arguments than parameters; the arguments seen by the Go function and the results are compared with the reference conversion; all pairs of function types up to two parameters and results are compared for equality, hash, assignability and instance component by component"})
}

type c16Sig struct {
	in, out  []reflect.Type
	variadic bool
}

func (s c16Sig) String() string {
	return reflect.FuncOf(s.in, s.out, s.variadic).String()
}

func c16Call(t *fw.T, sig c16Sig, lists [][]*model.V) {
	ft := reflect.FuncOf(sig.in, sig.in, false)
	if sig.variadic {
		ft = reflect.FuncOf(sig.in, sig.in, true)
	}
	called := 0
	var seen []reflect.Value
	gf := reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		called++
		seen = args
		return args // results are the parameters
	})
	f, ok := vf.Value(gf.Interface()).(dgo.Function)
	if !ok {
		t.Failf("function", sig.String(), "%s isn't a function", sig)
		return
	}
	n := len(sig.in)
	fixed := n
	if sig.variadic {
		fixed--
	}
	tp := f.Type().(dgo.FunctionType)
	if tp.Variadic() != sig.variadic || tp.In().Len() != n || tp.Out().Len() != n || tp.In().Variadic() != sig.variadic || tp.Out().Variadic() {
		t.Failf("type", sig.String(), "%s has the type %s", sig, tp)
	}
	for i, p := range sig.in {
		if !tp.Out().Element(i).Equals(typ.AsType(tf.FromReflected(p))) {
			t.Failf("type", sig.String(), "result %d of %s has the type %s", i, sig, tp.Out().Element(i))
		}
		if sig.variadic && i == fixed {
			p = p.Elem()
		}
		if !tp.In().Element(i).Equals(tf.FromReflected(p)) {
			t.Failf("type", sig.String(), "parameter %d of %s has the type %s", i, sig, tp.In().Element(i))
		}
	}
	for _, l := range lists {
		key := sig.String() + " " + names(l)
		want := len(l) == n || sig.variadic && len(l) >= fixed
		count := want
		res := goOK
		var checks []func(reflect.Value) string
		for i := 0; i < len(l) && want; i++ {
			p := sig.in[min(i, n-1)]
			if sig.variadic && i >= fixed {
				p = p.Elem()
			}
			ck, r := refToGo(l[i], p)
			checks = append(checks, ck)
			if r == goFail {
				want = false
			} else if r == goAny {
				res = goAny
			}
		}
		for form := 0; form < 3; form++ {
			es := make([]interface{}, len(l))
			for i, e := range l {
				es[i] = e.Build(form != 1)
			}
			var args dgo.Array
			switch form {
			case 0:
				args = vf.Values(es...)
			case 1:
				args = vf.MutableValues(es...)
			case 2:
				args = vf.Arguments(es...)
			}
			before := model.Observe(args).Canon()
			called, seen = 0, nil
			var rs []dgo.Value
			e, rt := fw.Try(func() { rs = f.Call(args) })
			t.Count("transitions", 1)
			if model.Observe(args).Canon() != before {
				t.Failf("arguments", key, "calling %s changes its arguments %s to %s", sig, before, args)
			}
			if inst := tp.In().Instance(args); inst && e != nil && form < 2 && !hasFuncParam(sig) && !unhashableKey(model.A(l...)) {
				t.Failf("instance", key, "%s is an instance of the parameters of %s but the call fails: %v", before, tp, e)
			}
			if rt {
				if unhashableKey(model.A(l...)) {
					continue
				}
				t.Failf("runtime", key, "calling %s with %s: %v", sig, before, e)
				continue
			}
			if res == goAny {
				continue
			}
			if !want {
				if e == nil || called != 0 {
					t.Failf("accepts", key, "calling %s with %s gives %v, called %d times", sig, before, rs, called)
				} else if _, isErr := e.(error); !count && !isErr {
					t.Failf("error", key, "calling %s with %s panics with a %T", sig, before, e)
				}
				continue
			}
			if e != nil || called != 1 {
				t.Failf("fails", key, "calling %s with %s fails: %v, called %d times", sig, before, e, called)
				continue
			}
			for i := range l {
				var g reflect.Value
				if sig.variadic && i >= fixed {
					if seen[fixed].Len() != len(l)-fixed {
						t.Failf("variadic", key, "calling %s with %s gives the variadic %v", sig, before, seen[fixed])
						break
					}
					g = seen[fixed].Index(i - fixed)
				} else {
					g = seen[i]
				}
				if d := checks[i](g); d != "" {
					t.Failf("argument", key, "calling %s with %s: argument %d is %s", sig, before, i, d)
				}
			}
			if sig.variadic && seen[fixed].Len() != max(0, len(l)-fixed) {
				t.Failf("variadic", key, "calling %s with %s gives the variadic %v", sig, before, seen[fixed])
			}
			if len(rs) != n {
				t.Failf("results", key, "calling %s with %s gives %d results", sig, before, len(rs))
				continue
			}
			for i, r := range rs {
				w := vf.ValueFromReflected(seen[i])
				if (r == nil) != (w == vf.Nil) && !(r == vf.Nil && w == vf.Nil && seen[i].Type().Implements(rtValue)) || r != nil && !r.Equals(w) && model.Observe(r).Canon() != model.Observe(w).Canon() {
					t.Failf("results", key, "calling %s with %s: result %d is %v, expected %v", sig, before, i, r, w)
				}
			}
			t.Outcome(sig.String())
		}
	}
}

func hasFuncParam(s c16Sig) bool {
	for _, p := range s.in {
		for p.Kind() == reflect.Slice || p.Kind() == reflect.Ptr || p.Kind() == reflect.Map {
			p = p.Elem()
		}
		if p.Kind() == reflect.Func {
			return true
		}
	}
	return false
}

func runC16(c *fw.C) {
	vals := goValues(false)
	c.Stage("one parameter")
	one := append(goTypes(1), dgoIfaceTypes()...)
	if c.Thorough {
		one = append(goTypes(2), dgoIfaceTypes()...)
	}
	for _, p := range one {
		for _, variadic := range []bool{false, true} {
			p, variadic := p, variadic
			if variadic {
				if pt := p; pt.PkgPath() != "" && pt.Kind() != reflect.Slice && pt.Kind() != reflect.Map && pt.Kind() != reflect.Interface && pt != rtTime || pt.Kind() == reflect.Ptr && pt != rtRx && pt.Elem().PkgPath() != "" && pt.Elem() != rtTime {
					continue // the result of the function would be a slice of natives
				}
				p = reflect.SliceOf(p)
			}
			sig := c16Sig{in: []reflect.Type{p}, variadic: variadic}
			c.Case(sig.String, func(t *fw.T) {
				lists := [][]*model.V{{}}
				for _, v := range vals {
					lists = append(lists, []*model.V{v})
				}
				c16Call(t, sig, lists)
				t.Touch()
			})
		}
	}
	c.Stage("more parameters")
	i, s := model.I, model.S
	few := []*model.V{i(1), i(300), i(-1), s("a"), model.F(1.5), model.B(true), model.N(), model.A(i(1)), model.A(s("a")), model.M(s("a"), i(1)), model.Y("b"), model.X(i(1))}
	ptypes := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(""), reflect.TypeOf([]int{}), reflect.TypeOf(map[string]int{}), rtAny, rtValue, reflect.TypeOf((*string)(nil))}
	if c.Thorough {
		ptypes = append(ptypes, reflect.TypeOf(uint64(0)), reflect.TypeOf(1.5), reflect.TypeOf([]interface{}{}), rtError, reflect.TypeOf([]byte{}))
	}
	var lists [][]*model.V
	depth := 3
	var rec func(l []*model.V)
	rec = func(l []*model.V) {
		lists = append(lists, append([]*model.V{}, l...))
		if len(l) == depth {
			return
		}
		for _, v := range few {
			if len(l) >= 2 && v.K == model.Y("").K {
				continue
			}
			rec(append(l, v))
		}
	}
	rec(nil)
	lists = append(lists, []*model.V{i(1), i(1), i(1), i(1)}, []*model.V{s("a"), s("b"), s("c"), s("d"), s("e")})
	c.Case(func() string { return "func()" }, func(t *fw.T) { c16Call(t, c16Sig{}, lists) })
	for _, p1 := range ptypes {
		for _, p2 := range ptypes {
			sigs := []c16Sig{{in: []reflect.Type{p1, p2}}, {in: []reflect.Type{p1, reflect.SliceOf(p2)}, variadic: true}}
			for _, p3 := range ptypes[:3] {
				sigs = append(sigs, c16Sig{in: []reflect.Type{p1, p2, p3}}, c16Sig{in: []reflect.Type{p1, p2, reflect.SliceOf(p3)}, variadic: true})
			}
			for _, sig := range sigs {
				sig := sig
				c.Case(sig.String, func(t *fw.T) { c16Call(t, sig, lists); t.Touch() })
			}
		}
	}

	// all argument lists with up to six or seven arguments of three values
	c.Stage("long")
	n := 6
	if c.Thorough {
		n = 8
	}
	alphabets := []struct {
		p  reflect.Type
		vs []*model.V
	}{
		{reflect.TypeOf(0), []*model.V{i(1), i(2), i(0)}}, {reflect.TypeOf(""), []*model.V{s("a"), s("b"), s("")}}, {reflect.TypeOf((*string)(nil)), []*model.V{s("a"), model.N(), s("")}},
		{rtAny, []*model.V{i(1), model.N(), s("a")}}, {rtValue, []*model.V{i(1), model.N(), model.A(i(1))}}, {reflect.TypeOf([]int{}), []*model.V{model.A(i(1)), model.A(), model.A(i(1), i(2))}},
		{reflect.TypeOf(false), []*model.V{model.B(true), model.B(false), i(1)}}, {reflect.TypeOf(int8(0)), []*model.V{i(1), i(300), i(0)}},
	}
	for _, a := range alphabets {
		var ls [][]*model.V
		var rec func(l []*model.V)
		rec = func(l []*model.V) {
			ls = append(ls, append([]*model.V{}, l...))
			if len(l) < n {
				for _, v := range a.vs {
					rec(append(l[:len(l):len(l)], v))
				}
			}
		}
		rec(nil)
		for _, k := range []int{9, 16, 17, 33} {
			l := make([]*model.V, k)
			for j := range l {
				l[j] = a.vs[j*j%3]
			}
			ls = append(ls, l)
		}
		for fixed := 0; fixed <= n; fixed += 2 {
			in := make([]reflect.Type, fixed)
			for j := range in {
				in[j] = a.p
			}
			for _, sig := range []c16Sig{{in: in}, {in: append(in[:fixed:fixed], reflect.SliceOf(a.p)), variadic: true}} {
				sig := sig
				c.Case(sig.String, func(t *fw.T) { c16Call(t, sig, ls); t.Touch() })
			}
		}
	}
	c.Stage("functions")
	type fcase struct {
		f    interface{}
		args []interface{}
		want []interface{}
		fail string
	}
	inc := func(i int) int { return i + 1 }
	for ci, fc := range []fcase{
		{f: func(g func(int) int) int { return g(3) }, args: []interface{}{inc}, want: []interface{}{4}},
		{f: func(g func(int) int, gs ...func(int) int) int {
			x := g(1)
			for _, h := range gs {
				x = h(x)
			}
			return x
		}, args: []interface{}{inc, inc, inc}, want: []interface{}{4}},
		{f: func() func(int) int { return inc }, want: []interface{}{inc}},
		{f: func() (int, error) { return 1, nil }, want: []interface{}{1, nil}},
		{f: func() error { return errors.New("x") }, want: []interface{}{errors.New("x")}},
		{f: func() (*int, []string, map[string]int, interface{}) { return nil, nil, nil, nil }, want: []interface{}{nil, nil, nil, nil}},
		{f: func() dgo.Value { return vf.Nil }, want: []interface{}{vf.Nil}},
		{f: func() dgo.Value { return nil }, want: []interface{}{nil}},
		{f: func() {}, want: []interface{}{}},
		{f: func(func(int) string) {}, args: []interface{}{inc}, fail: "another function type"},
		{f: func(func(int) int) {}, args: []interface{}{1}, fail: "not a function"},
		{f: func(int) {}, args: []interface{}{inc}, fail: "a function"},
		{f: func(f func(int) int) bool { return f == nil }, args: []interface{}{nil}, want: []interface{}{true}},
		{f: func(f dgo.Function) dgo.Value { return f.Call(vf.Values(1))[0] }, args: []interface{}{inc}, want: []interface{}{2}},
		{f: func(f interface{}) int { return f.(func(int) int)(1) }, args: []interface{}{inc}, want: []interface{}{2}},
		{f: func() int { panic("oops") }, fail: "panics"},
	} {
		fc := fc
		c.Case(func() string { return fmt.Sprintf("%d %T", ci, fc.f) }, func(t *fw.T) {
			f := vf.Value(fc.f).(dgo.Function)
			var rs []dgo.Value
			e, rt := fw.Try(func() { rs = f.Call(vf.Values(fc.args...)) })
			t.Count("transitions", 1)
			if rt || (e == nil) != (fc.fail == "") {
				t.Fatalf("outcome", "", "calling %s with %v fails with %v", f.Type(), fc.args, e)
			}
			if fc.fail != "" {
				return
			}
			if len(rs) != len(fc.want) {
				t.Fatalf("results", "", "calling %s gives %v", f.Type(), rs)
			}
			for i, w := range fc.want {
				if (rs[i] == nil) != (w == nil) || w != nil && !rs[i].Equals(w) {
					t.Failf("results", "", "result %d of %s is %v, expected %v", i, f.Type(), rs[i], w)
				}
			}
		})
	}
	c16Types(c)
}

// c16Types compares all pairs of function types
func c16Types(c *fw.C) {
	type ftype struct {
		in, out  []dgo.Type
		variadic bool
		tps      []dgo.FunctionType
		fn       dgo.Value
		name     string
	}
	gts := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(""), rtAny, reflect.TypeOf([]int{}), reflect.TypeOf((*string)(nil))}
	nIn := 2
	var all []*ftype
	mk := func(in, out []reflect.Type, variadic bool) {
		gt := reflect.FuncOf(in, out, variadic)
		f := &ftype{variadic: variadic, name: gt.String(), fn: vf.Value(reflect.Zero(gt).Interface())}
		var ti, to []interface{}
		for i, p := range in {
			if variadic && i == len(in)-1 {
				p = p.Elem()
			}
			f.in = append(f.in, tf.FromReflected(p))
			ti = append(ti, f.in[i])
		}
		for i, p := range out {
			f.out = append(f.out, tf.FromReflected(p))
			to = append(to, f.out[i])
		}
		tin := tf.Tuple(ti...)
		if variadic {
			tin = tf.VariadicTuple(ti...)
		}
		f.tps = []dgo.FunctionType{tf.FromReflected(gt).(dgo.FunctionType), tf.Function(tin, tf.Tuple(to...)), f.fn.Type().(dgo.FunctionType)}
		if p, ok := tf.ParseType(f.tps[1].String()).(dgo.FunctionType); ok {
			f.tps = append(f.tps, p)
		}
		all = append(all, f)
	}
	var ins [][]reflect.Type
	ins = append(ins, nil)
	for _, a := range gts {
		ins = append(ins, []reflect.Type{a})
		for _, b := range gts {
			ins = append(ins, []reflect.Type{a, b})
			if nIn > 2 || c.Thorough {
				ins = append(ins, []reflect.Type{a, b, gts[0]}, []reflect.Type{a, b, gts[2]})
			}
		}
	}
	outs := [][]reflect.Type{nil, {gts[0]}, {gts[2]}, {gts[3]}, {gts[0], gts[2]}}
	for _, in := range ins {
		for _, out := range outs {
			mk(in, out, false)
			if len(in) > 0 {
				vin := append([]reflect.Type{}, in...)
				vin[len(vin)-1] = reflect.SliceOf(vin[len(vin)-1])
				mk(vin, out, true)
			}
		}
	}
	// position p of a parameter list
	at := func(f *ftype, p int) dgo.Type {
		if f.variadic && p >= len(f.in)-1 {
			return f.in[len(f.in)-1]
		}
		if p < len(f.in) {
			return f.in[p]
		}
		return nil
	}
	asg := func(a, b *ftype) bool {
		if a.variadic != b.variadic || len(a.out) != len(b.out) {
			return false
		}
		n := max(len(a.in), len(b.in))
		if !a.variadic && len(a.in) != len(b.in) || len(a.in) > len(b.in) {
			return false
		}
		for p := 0; p < n; p++ {
			if !at(a, p).Assignable(at(b, p)) {
				return false
			}
		}
		for i := range a.out {
			if !a.out[i].Assignable(b.out[i]) {
				return false
			}
		}
		return true
	}
	eq := func(a, b *ftype) bool {
		if a.variadic != b.variadic || len(a.in) != len(b.in) || len(a.out) != len(b.out) {
			return false
		}
		for i := range a.in {
			if !a.in[i].Equals(b.in[i]) {
				return false
			}
		}
		for i := range a.out {
			if !a.out[i].Equals(b.out[i]) {
				return false
			}
		}
		return true
	}
	c.Stage("types")
	for _, a := range all {
		a := a
		c.Case(func() string { return a.name }, func(t *fw.T) {
			h := a.tps[0].HashCode()
			for ai, ta := range a.tps {
				if ta.HashCode() != h || ta.String() != a.tps[0].String() {
					t.Failf("forms", itoa(ai), "form %d of %s: %s", ai, a.name, ta)
				}
				if ta.Variadic() != a.variadic || ta.In().Len() != len(a.in) || ta.Out().Len() != len(a.out) {
					t.Failf("forms", itoa(ai), "form %d of %s: %s", ai, a.name, ta)
				}
				if !typ.Function.Assignable(ta) && a.variadic {
					t.Failf("default", itoa(ai), "the function type isn't assignable from the variadic %s", ta)
				}
				for _, b := range all {
					wa, we := asg(a, b), eq(a, b)
					if inst := ta.Instance(b.fn); inst != wa {
						t.Failf("instance", b.name, "a function %s is an instance of %s: %t", b.name, ta, inst)
					}
					for bi, tb := range b.tps {
						if got := ta.Assignable(tb); got != wa {
							t.Failf("assignable", b.name, "%s (%d) is assignable from %s (%d): %t", ta, ai, tb, bi, got)
						}
						if got := ta.Equals(tb); got != we {
							t.Failf("equals", b.name, "%s (%d) equals %s (%d): %t", ta, ai, tb, bi, got)
						}
						t.Count("transitions", 2)
					}
				}
				if ta.Instance(ta) || ta.Instance(1) || ta.Instance(nil) {
					t.Failf("instance", "other", "something else is an instance of %s", ta)
				}
			}
			t.State(a.name)
		})
	}
}
