package props

import (
	"fmt"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C33: the pcore type language

func init() {
	fw.Register(&fw.Check{ID: "C33", Level: "model_checking", Run: runC33,
		Rule: "for every viable pcore token prefix up to N tokens over several alphabets extended by every token, every text of up to M characters over several character alphabets, every type expression of a pcore type grammar up to nesting 2 and every parameterization of every type with up to 3 arguments: the parser accepts exactly when a reference lexer and grammar do, otherwise panics with an error (never a Go runtime error) whose position is inside or directly after the text, gives the same answer when the text is parsed again, and what is accepted denotes the value or type that the reference gives it (equal to the value or to the type built by the factory functions, and accepting the same values)"})
}

var pcAlphabets = []synAlphabet{
	{"all", []string{"{", "}", "(", ")", "[", "]", ",", "=>", "=", "1", "2.5", "'a'", "/a/", "b", "default", "true", "undef", "type", "X", "Any", "Array", "Callable", "Enum", "Hash", "Integer", "Optional", "String", "Struct", "Tuple", "Variant", "<"}, 5, 6},
	{"names", []string{"[", "]", "(", ",", "1", "Any", "Array", "Binary", "Boolean", "Callable", "Enum", "False", "Float", "Hash", "Integer", "NotUndef", "Number", "Optional", "Pattern", "Regexp", "Sensitive", "String", "Struct", "Timestamp", "True", "Tuple", "Type", "Undef", "Variant", "a"}, 5, 5},
	{"values", []string{"{", "}", "[", "]", ",", "=>", "1", "2.5", "'a'", "/a/", "b", "true", "undef", "type", "Any"}, 6, 7},
	{"sizes", []string{"[", "]", ",", "1", "2", "-3", "default", "Array", "Integer", "Hash", "Float", "2.5", "Tuple", "String", "Callable"}, 7, 8},
	{"callables", []string{"Callable", "[", "]", ",", "String", "Undef", "1", "0", "default"}, 8, 9},
	{"structs", []string{"Struct", "[", "]", "{", "}", "=>", ",", "a", "1", "Optional", "Integer"}, 8, 9},
	{"aliases", []string{"type", "X", "Y", "=", "[", "]", ",", "Array", "Variant", "Integer", "1", "Undef", "NotUndef"}, 7, 8},
	{"calls", []string{"Integer", "String", "Array", "(", ")", ",", "1", "'a'", "[", "]", "=>"}, 6, 7},
}

func pcParse(text string) (v dgo.Value, err error) {
	e, rt := fw.Try(func() {
		tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { v = pcore.ParseFile(a, "", text) })
	})
	switch {
	case e == nil:
		return v, nil
	case rt:
		return nil, fmt.Errorf("GO RUNTIME ERROR %v", e)
	}
	if x, ok := e.(error); ok {
		return nil, x
	}
	return nil, fmt.Errorf("NOT AN ERROR %v", e)
}

func runC33(c *fw.C) {
	var vals []synVal
	for _, m := range append(synValues(), model.T(time.Unix(1, 0)), model.X(model.I(1)), model.Y("ab")) {
		vals = append(vals, synVal{m, m.Build(true)})
	}
	// check what the text is parsed as
	check := func(t *fw.T, text string, d model.Denoted, undet bool, serr *model.SynErr) {
		v, err := pcParse(text)
		t.Count("transitions", 1)
		switch {
		case err != nil && isSynRuntime(err.Error()):
			t.Failf("runtime", text, "%q: %v", text, err)
		case undet:
		case err == nil && serr != nil:
			t.Failf("accepted", text, "%q is accepted as %v but isn't an expression: %s", text, v, serr.Msg)
		case err != nil && serr == nil:
			t.Failf("rejected", text, "%q is rejected: %v", text, err)
		}
		v2, err2 := pcParse(text)
		if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() {
			t.Failf("nondeterministic", text, "%q gives %v and then %v", text, err, err2)
		} else if err == nil && !undet && !v.Equals(v2) {
			t.Failf("nondeterministic", text, "%q gives %v and then %v", text, v, v2)
		}
		if err != nil {
			if p := synPosition(text, err.Error()); p != "" {
				t.Failf("position", text, "%q: %s: %v", text, p, err)
			}
			t.Outcome("rejected")
			return
		}
		t.Outcome("accepted")
		switch {
		case undet || serr != nil || !d.Known():
			t.Count("accepted, denotation not compared", 1)
		case d.V != nil:
			want := d.V.Build(true)
			if !want.Equals(v) || !v.Equals(want) {
				t.Failf("value", text, "%q is parsed as %v, expected %v", text, v, want)
			}
			t.State(d.V.Canon())
		default:
			tp, ok := v.(dgo.Type)
			if !ok {
				t.Failf("denotes", text, "%q is parsed as %v which isn't a type", text, v)
				return
			}
			want := d.T.Build()
			if !tp.Equals(want) || !want.Equals(tp) {
				t.Failf("denotes", text, "%q is parsed as %s, expected %s", text, tp, want)
			}
			for _, x := range vals {
				if tp.Instance(x.v) != d.T.Has(x.m) {
					t.Failf("instance", text, "%q: %s is an instance: %v", text, x.m.Canon(), tp.Instance(x.v))
				}
			}
			t.State(d.T.Name)
		}
	}
	lexed := func(t *fw.T, text string) {
		ts, ok := model.LexPcore(text)
		var d model.Denoted
		var serr *model.SynErr
		undet := false
		if ok {
			d, undet, serr = model.ParsePcore(ts)
		} else {
			serr = &model.SynErr{Msg: "not a token"}
		}
		check(t, text, d, undet, serr)
	}

	for _, al := range pcAlphabets {
		al := al
		c.Stage("tokens " + al.name)
		n := al.n
		if c.Thorough {
			n = al.m
		}
		toks := make([]model.Tok, len(al.toks))
		for i, s := range al.toks {
			ts, ok := model.LexPcore(s)
			if !ok || len(ts) != 1 {
				panic("alphabet " + s)
			}
			toks[i] = ts[0]
		}
		var rec func(t *fw.T, pre []model.Tok, max int, leaf func(pre []model.Tok))
		rec = func(t *fw.T, pre []model.Tok, max int, leaf func(pre []model.Tok)) {
			for _, k := range toks {
				ts := append(pre[:len(pre):len(pre)], k)
				d, undet, err := model.ParsePcore(ts)
				if t != nil {
					var sb strings.Builder
					for i, x := range ts {
						if i > 0 {
							sb.WriteByte(' ')
						}
						sb.WriteString(x.Text)
					}
					check(t, sb.String(), d, undet, err)
				}
				if err == nil || !err.Final {
					if len(ts) < max {
						rec(t, ts, max, leaf)
					} else if leaf != nil {
						leaf(ts)
					}
				}
			}
		}
		c.Case(func() string { return al.name + " short" }, func(t *fw.T) { rec(t, nil, 3, nil) })
		rec(nil, nil, 3, func(pre []model.Tok) {
			pre = append([]model.Tok{}, pre...)
			c.Case(func() string { return al.name + " " + pre[0].Text + " " + pre[1].Text + " " + pre[2].Text }, func(t *fw.T) {
				rec(t, pre, n, nil)
				t.Touch()
			})
		})
	}

	c.Stage("code points")
	codePoints(c, lexed)

	for _, ca := range []struct {
		name, s string
		n, m    int
	}{
		{"delimiters", "{}()[]<>,:=.1aA\"'/# \n", 4, 5},
		{"numbers", "0189.-+eExXaf_ ", 5, 6},
		{"strings", "\"'\\/x0u4n\n", 6, 7},
		{"bytes", "\x00\x01\x02\x03\x04\x05\x06\x07\x08\t\n\r \x7f\xc3\xa5\xff\"a", 4, 5},
		{"identifiers", "aB1_:[", 6, 7},
		{"comments", "#\n1[],'", 6, 7},
	} {
		ca := ca
		c.Stage("characters " + ca.name)
		n := ca.n
		if c.Thorough {
			n = ca.m
		}
		var rec func(t *fw.T, b []byte, n int)
		rec = func(t *fw.T, b []byte, n int) {
			lexed(t, string(b))
			if n > 0 {
				for i := 0; i < len(ca.s); i++ {
					rec(t, append(b[:len(b):len(b)], ca.s[i]), n-1)
				}
			}
		}
		c.Case(func() string { return ca.name + " short" }, func(t *fw.T) { rec(t, nil, 1) })
		for i := 0; i < len(ca.s); i++ {
			for j := 0; j < len(ca.s); j++ {
				b := []byte{ca.s[i], ca.s[j]}
				c.Case(func() string { return fmt.Sprintf("%s %q", ca.name, b) }, func(t *fw.T) { rec(t, b, n-2); t.Touch() })
			}
		}
	}

	names := []string{"Array", "Binary", "Callable", "Float", "Enum", "Hash", "Integer", "Number", "NotUndef", "Optional", "Pattern", "Regexp", "Sensitive", "String", "Struct", "Tuple", "Type", "Variant"}
	atoms := append([]string{"Any", "Boolean", "False", "True", "Timestamp", "Undef"}, names...)
	nums := []string{"0", "3", "-3", "9223372036854775807", "-9223372036854775808", "9007199254740993", "2.0", "2.5", "3.5", "-2.5", "1e300", "-1e300", "9223372036854775807.0", "-9223372036854775808.0", "9223372036854773760.0", "0x10", "default"}

	// every type with every combination of numeric limits
	c.Stage("limits")
	for _, n := range []string{"Integer", "Float", "Number", "String", "Binary", "Array", "Hash", "Array[Any,", "Hash[Any,Any,", "Tuple[String,", "Callable[String,"} {
		for _, a := range nums {
			n, a := n, a
			c.Case(func() string { return n + " " + a }, func(t *fw.T) {
				open := n
				if !strings.Contains(n, "[") {
					open += "["
				}
				lexed(t, open+a+"]")
				for _, b := range nums {
					lexed(t, open+a+","+b+"]")
					lexed(t, open+a+","+b+",1]")
				}
			})
		}
	}

	// all types with up to three arguments
	c.Stage("arguments")
	args := append([]string{"1", "2", "0", "-1", "2.5", "'a'", "a", "default", "true", "undef", "/a/", "'('", "[]", "[1]", "[Integer]", "[Integer,Callable]", "[a=>Integer]", "{}", "{a=>Integer}", "{a=>1}", "{Optional[a]=>String}", "Variant[Undef,Integer]", "Callable[String]", "Optional[a]", "Integer[1,2]", "Enum[a,b]", "Type[Integer]", "Sensitive[String]", "a=>1", "b=>Integer", "Optional[b]=>Any"}, atoms...)
	for _, n := range append(names, "Any", "True", "X") {
		for _, a := range args {
			n, a := n, a
			c.Case(func() string { return n + "[" + a }, func(t *fw.T) {
				lexed(t, n+"["+a+"]")
				for _, b := range args {
					lexed(t, n+"["+a+","+b+"]")
					third := []string{"1", "true", "Integer", "Callable", "default"}
					if c.Thorough {
						third = args
					}
					for _, x := range third {
						lexed(t, n+"["+a+","+b+","+x+"]")
						if n == "Callable" {
							lexed(t, n+"[["+a+","+b+","+x+"],String]")
							lexed(t, n+"["+a+","+b+","+x+",Callable]")
						}
						if n == "Tuple" || n == "Hash" {
							lexed(t, n+"["+a+","+b+","+x+",2]")
						}
					}
				}
			})
		}
	}

	// type expressions of nesting up to three
	c.Stage("grammar")
	leaf := []string{"Any", "Undef", "Boolean", "True", "Integer", "Integer[1,2]", "Integer[1,1]", "Float", "String", "String[1,2]", "a", "Enum[a,b]", "Enum[a,b,true]", "Pattern[/a/]", "Type", "Binary"}
	compose := func(ts []string) (r []string) {
		for _, a := range ts {
			r = append(r, "Array["+a+"]", "Array["+a+",1,2]", "Tuple["+a+"]", "Tuple["+a+",1]", "Optional["+a+"]", "NotUndef["+a+"]", "Type["+a+"]", "Sensitive["+a+"]", "Struct[{x=>"+a+"}]", "Struct[Optional[x]=>"+a+"]", "Hash[String,"+a+"]", "Hash["+a+",String,1]", "Variant["+a+"]", "Callable["+a+"]", "Callable[["+a+"],"+a+"]", "Callable["+a+",1,2,Callable]", "["+a+"]", "{x=>"+a+"}", "{"+a+"=>x}", "Struct[{"+a+"=>Any}]")
		}
		return
	}
	pairs := func(as, bs []string) (r []string) {
		for _, a := range as {
			for _, b := range bs {
				r = append(r, "Variant["+a+","+b+"]", "Tuple["+a+","+b+"]", "Struct[{x=>"+a+",y=>"+b+"}]", "Hash["+a+","+b+"]", "Callable["+a+","+b+"]")
			}
		}
		return
	}
	two := append(compose(leaf), pairs(leaf, leaf)...)
	mixed := pairs(compose(leaf), leaf)
	deep := compose(two)
	if c.Thorough {
		mixed = append(mixed, compose(deep)...)
	}
	all := append(append(append(append([]string{}, leaf...), two...), mixed...), deep...)
	for i := 0; i < len(all); i += 50 {
		end := i + 50
		if end > len(all) {
			end = len(all)
		}
		chunk := all[i:end]
		c.Case(func() string { return "from " + chunk[0] }, func(t *fw.T) {
			for _, s := range chunk {
				lexed(t, s)
			}
		})
	}

	// a call creates what New of the type creates
	c.Stage("calls")
	callArgs := []string{"", "1", "'1'", "'x'", "2.5", "true", "undef", "[1]", "[[a,1]]", "a=>1", "{a=>1}", "Integer", "/a/", "'a','b'", "1,2", "'10',2", "[1],2", "Integer[1,2],3"}
	for _, n := range append(append([]string{}, atoms...), "Integer[1,2]", "String[1,2]", "Array[Integer]", "Hash[String,Integer]", "Enum[a,b]", "Optional[Integer]", "Variant[Integer,String]", "Struct[{a=>Integer}]", "Sensitive[String]") {
		for _, a := range callArgs {
			n, a := n, a
			c.Case(func() string { return n + "(" + a + ")" }, func(t *fw.T) {
				text := n + "(" + a + ")"
				got, gerr := pcParse(text)
				tp, _ := pcParse(n)
				as, _ := pcParse("[" + a + "]")
				t.Count("transitions", 1)
				var want dgo.Value
				e, _ := fw.Try(func() { want = vf.New(tp.(dgo.Type), vf.ArgumentsFromArray(as.(dgo.Array))) })
				if gerr != nil && isSynRuntime(gerr.Error()) {
					t.Failf("runtime", "", "%s: %v", text, gerr)
				}
				if (e == nil) != (gerr == nil) {
					t.Failf("call", "", "%s gives %v, %v, New gives %v, %v", text, got, gerr, want, e)
				} else if e == nil && !want.Equals(got) {
					t.Failf("call", "", "%s gives %v, New gives %v", text, got, want)
				}
				// as an element, a value and an argument of another call
				if gerr == nil {
					for _, w := range [][2]string{{"[", "]"}, {"{k=>", "}"}, {"[1,[", "],2]"}} {
						v, err := pcParse(w[0] + text + w[1])
						if err != nil {
							t.Failf("call", "nested", "%s: %v", w[0]+text+w[1], err)
							continue
						}
						var in dgo.Value
						switch w[0] {
						case "[":
							in = v.(dgo.Array).Get(0)
						case "{k=>":
							in = v.(dgo.Map).Get("k")
						default:
							in = v.(dgo.Array).Get(1).(dgo.Array).Get(0)
						}
						if !in.Equals(got) {
							t.Failf("call", "nested", "%s: %v", w[0]+text+w[1], in)
						}
					}
				}
			})
		}
	}

	// recursive aliases accept what their definition says
	c.Stage("recursive")
	i, a := model.I, model.A
	for _, r := range []struct {
		text string
		has  func(v *model.V) bool
	}{
		{"type M=Array[Variant[Integer,M]]", func(v *model.V) bool { return pcTree(v, false) }},
		{"type M=Array[Optional[M]]", func(v *model.V) bool { return pcTree2(v, true) }},
		{"type M=Variant[Undef,Array[NotUndef[M]]]", func(v *model.V) bool { return v.K == model.Nil || pcTree2(v, false) }},
		{"type M=Variant[Undef,Array[Optional[M]]]", func(v *model.V) bool { return v.K == model.Nil || pcTree2(v, true) }},
		{"type M=Hash[String,Variant[Integer,M]]", func(v *model.V) bool { return pcTree(v, true) }},
		{"type M=Variant[Integer,Tuple[M]]", func(v *model.V) bool {
			for v.K == model.Arr && len(v.L) == 1 {
				v = v.L[0]
			}
			return v.K == model.Int
		}},
		{"type M=Variant[Integer,Struct[{a=>M}]]", func(v *model.V) bool {
			for v.K == model.Map && v.MapLen() == 1 && v.Get(model.S("a")) != nil {
				v = v.Get(model.S("a"))
			}
			return v.K == model.Int
		}},
	} {
		r := r
		c.Case(func() string { return r.text }, func(t *fw.T) {
			v, err := pcParse(r.text)
			if err != nil {
				t.Fatalf("rejected", "%s: %v", r.text, err)
			}
			ms := []*model.V{}
			base := []*model.V{model.N(), i(1), model.S("a"), a(), model.M()}
			lvl := base
			for n := 0; n < 2; n++ {
				var next []*model.V
				for k, x := range lvl {
					next = append(next, a(x), model.M(model.S("a"), x), model.M(i(1), x), a(x, lvl[(k+1)%len(lvl)]), a(i(1), x))
				}
				lvl = append(append([]*model.V{}, base...), next...)
			}
			ms = lvl
			for _, m := range ms {
				t.Count("transitions", 1)
				if got := v.(dgo.Type).Instance(m.Build(true)); got != r.has(m) {
					t.Failf("instance", m.Canon(), "%s: %s is an instance: %v", r.text, m.Canon(), got)
				}
			}
		})
	}

	// what is parsed first doesn't matter for what is parsed next, unless it declares aliases
	c.Stage("histories")
	texts := []string{"Integer", "X", "type X=Integer", "type X=", "type X=3", "[type X=Integer,Y", "[type X=Integer,X]", "type Y=X", "Array[X]", "Type[X", "type X=Y", "[type Y=X,type X=Y]", "X(1)", "[type X=Integer,X(a)]"}
	for _, a := range texts {
		for _, b := range texts {
			a, b := a, b
			c.Case(func() string { return a + " then " + b }, func(t *fw.T) {
				t.Count("transitions", 2)
				want, werr := pcParse(b)
				_, aerr := pcParse(a)
				got, gerr := pcParse(b)
				if fmt.Sprint(werr) != fmt.Sprint(gerr) || werr == nil && !want.Equals(got) {
					t.Failf("history", "", "%q after %q: %v %v, without: %v %v", b, a, got, gerr, want, werr)
				}
				if aerr == nil {
					return
				}
				// a failed parse declares nothing
				before := tf.DefaultAliases()
				fw.Try(func() { pcore.Parse(a) })
				if tf.DefaultAliases().GetType(tfString("x")) != nil || tf.DefaultAliases() != before {
					t.Failf("leak", "default", "%q failed but declares", a)
				}
			})
		}
	}

	// the entry points: without an alias map, with a file name, types only, and of the dialect
	c.Stage("entry points")
	for _, s := range append(append([]string{}, texts...), "Data", "1", "a", "[", "'", "[1\n2", "Hash[String,Data]", "undef", "[1,a]", "{a=>1}", "(") {
		s := s
		c.Case(func() string { return s }, func(t *fw.T) {
			t.Count("transitions", 4)
			v, err := pcParse(s)
			alias := strings.ContainsAny(s, "XY") || strings.Contains(s, "Data")
			var v2, v3, v4, v5 dgo.Value
			e2, rt := fw.Try(func() { v2 = pcore.ParseFile(nil, "f.pp", s) })
			if rt || e2 != nil && isSynRuntime(fmt.Sprint(e2)) {
				t.Failf("runtime", "no alias map", "%s: %v", s, e2)
			}
			if !alias {
				if (e2 == nil) != (err == nil) || err == nil && !v.Equals(v2) {
					t.Failf("entry", "file", "%s: %v %v, %v %v", s, v, err, v2, e2)
				}
			} else if e2 == nil {
				t.Failf("entry", "no alias map", "%s: accepted as %v", s, v2)
			}
			if e2 != nil && !strings.Contains(fmt.Sprint(e2), "(file: f.pp, line: ") {
				t.Failf("entry", "file name", "%s: %v", s, e2)
			}
			am := tf.BuiltInAliases()
			e3, rt := fw.Try(func() {
				am = am.Collect(func(a dgo.AliasAdder) { v3 = pcore.Dialect().ParseType(a, vf.String(s)) })
			})
			if rt || (e3 == nil) != (err == nil) || err == nil && !typ.AsType(v).Equals(v3) {
				t.Failf("entry", "dialect", "%s: %v %v, %v %v", s, v, err, v3, e3)
			}
			if err == nil && strings.Contains(s, "type X=") && am.GetType(tfString("x")) == nil {
				t.Failf("entry", "dialect alias", "%s: not declared in the given map", s)
			}
			if tf.DefaultAliases().GetType(tfString("x")) != nil {
				t.Failf("entry", "leak", "%s: declared in the default aliases", s)
			}
			if !strings.ContainsAny(s, "XY") {
				e4, rt4 := fw.Try(func() { v4 = pcore.ParseType(s) })
				e5, rt5 := fw.Try(func() { v5 = pcore.Dialect().ParseType(nil, vf.String(s)) })
				if rt4 || rt5 || (e4 == nil) != (err == nil) || (e5 == nil) != (err == nil) || err == nil && (!typ.AsType(v).Equals(v4) || !typ.AsType(v).Equals(v5)) {
					t.Failf("entry", "type", "%s: %v %v, %v %v, %v %v", s, v, err, v4, e4, v5, e5)
				}
			}
		})
	}

	c.Stage("nested")
	depth := 2000
	if c.Thorough {
		depth = 20000
	}
	for _, o := range [][2]string{{"[", "]"}, {"{a=>", "}"}, {"Array[", "]"}, {"Variant[Undef,", "]"}, {"Struct[{a=>", "}]"}, {"Hash[String,", "]"}, {"Type[", "]"}, {"Callable[", "]"}, {"Tuple[", "]"}, {"a=>[", "]"}} {
		for _, k := range []int{50, depth} {
			for _, cut := range []bool{false, true} {
				o, k, cut := o, k, cut
				c.Case(func() string { return fmt.Sprintf("%s%s %d %v", o[0], o[1], k, cut) }, func(t *fw.T) {
					text := strings.Repeat(o[0], k) + "Integer" + strings.Repeat(o[1], k)
					if cut {
						text = strings.Repeat(o[0], k)
					}
					ts, ok := model.LexPcore(text)
					if !ok {
						t.Fatalf("lex", "%s", o[0])
					}
					_, undet, serr := model.ParsePcore(ts)
					t.Count("transitions", 1)
					_, err := pcParse(text)
					if !undet && (err == nil) != (serr == nil) {
						t.Failf("nested", "", "nesting of %s: %v, expected %v", o[0], err, serr)
					}
					if err != nil && isSynRuntime(err.Error()) {
						t.Failf("runtime", "", "%v", err)
					}
				})
			}
		}
	}
}

// pcTree is an array of integers and such arrays, or a map from strings to integers and such maps
func pcTree(v *model.V, asMap bool) bool {
	if asMap {
		if v.K != model.Map {
			return false
		}
		for n := 0; n < len(v.L); n += 2 {
			if v.L[n].K != model.Str || v.L[n+1].K != model.Int && !pcTree(v.L[n+1], true) {
				return false
			}
		}
		return true
	}
	if v.K != model.Arr {
		return false
	}
	for _, e := range v.L {
		if e.K != model.Int && !pcTree(e, false) {
			return false
		}
	}
	return true
}

// pcTree2 is an array of such arrays, and of nil
func pcTree2(v *model.V, undef bool) bool {
	if v.K != model.Arr {
		return false
	}
	for _, e := range v.L {
		if !(undef && e.K == model.Nil) && !pcTree2(e, undef) {
			return false
		}
	}
	return true
}
