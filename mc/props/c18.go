package props

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C18: type expressions denote what the syntax says, and printing them is the inverse of parsing.

func init() {
	fw.Register(&fw.Check{ID: "C18", Level: "model_checking", Run: runC18,
		Rule: "every type expression of up to N tokens over several token alphabets (all viable prefixes are extended by all tokens) denotes the type that a reference parser assigns to it (equal to the type built by the factory functions and accepting the same values), and every such type and every type of a type grammar up to nesting 3 is printed as text that parses to an equal type which prints the same text and accepts the same values"})
	fw.Register(&fw.Check{ID: "C19", Level: "model_checking", Run: runC19,
		Rule: "for every viable token prefix up to N tokens over several alphabets extended by every token, every text of up to M characters over several character alphabets, and a set of deeply nested texts: the parser accepts exactly when the reference lexer and grammar do, otherwise panics with an error (never a Go runtime error) whose position is inside or directly after the text, and gives the same answer when the text is parsed again"})
}

type synAlphabet struct {
	name string
	toks []string
	n, m int // quick, thorough
}

var synAlphabets = []synAlphabet{
	{"all", []string{"{", "}", "(", ")", "[", "]", "<", ">", ",", ":", "?", "|", "&", "^", "!", "~", "=", "..", "...", ".", "1", "2.5", `"a"`, "/a/", "int", "string", "map", "type", "func", "nil", "sensitive", "x", "#"}, 5, 6},
	{"operators", []string{"(", ")", "|", "&", "^", "!", "1", "int", "[", "]", "func", "~", `"a"`, "..."}, 7, 9},
	{"lists", []string{"{", "}", ",", ":", "?", "...", "..", "1", "x", "int", `"a"`, "2.5"}, 7, 9},
	{"functions", []string{"func", "(", ")", ",", "...", "int", "|", "1", "..", "[", "]"}, 8, 10},
	{"brackets", []string{"map", "[", "]", ",", "int", "type", "string", "1", "sensitive", "|", "2", "!"}, 8, 9},
	{"aliases", []string{"x", "=", "{", "}", ",", "int", "|", "<", ">", ":", "y", "1"}, 7, 9},
	{"ranges", []string{"1", "-2", "2.5", "-1E+20", "..", "...", "|", "{", "}", ",", "9223372036854775807", "-9223372036854775808"}, 6, 8},
}

// closers are texts that close the open brackets of a text
func closers(text string) []string {
	var open []byte
	for _, f := range strings.Fields(text) {
		switch f {
		case "{", "(", "[", "<":
			open = append(open, map[byte]byte{'{': '}', '(': ')', '[': ']', '<': '>'}[f[0]])
		case "}", ")", "]", ">":
			if len(open) > 0 {
				open = open[:len(open)-1]
			}
		}
	}
	if len(open) == 0 {
		return nil
	}
	e := ""
	for i := len(open) - 1; i >= 0; i-- {
		e += " " + string(open[i])
	}
	return []string{e, " int" + e}
}

func synLex(tok string) model.Tok {
	ts, ok := model.Lex(tok)
	if !ok || len(ts) != 1 {
		panic("alphabet " + tok)
	}
	return ts[0]
}

// synExplore calls visit for every viable prefix of tokens extended by every token
func synExplore(c *fw.C, visit func(t *fw.T, text string, d model.Denoted, undet bool, err *model.SynErr)) {
	for _, al := range synAlphabets {
		al := al
		c.Stage("tokens " + al.name)
		n := al.n
		if c.Thorough {
			n = al.m
		}
		toks := make([]model.Tok, len(al.toks))
		for i, s := range al.toks {
			toks[i] = synLex(s)
		}
		var rec func(t *fw.T, pre []model.Tok, max int, leaf func(pre []model.Tok))
		rec = func(t *fw.T, pre []model.Tok, max int, leaf func(pre []model.Tok)) {
			for _, k := range toks {
				ts := append(pre[:len(pre):len(pre)], k)
				d, undet, err := model.ParseSyntax(ts)
				if t != nil {
					var sb strings.Builder
					for i, x := range ts {
						if i > 0 {
							sb.WriteByte(' ')
						}
						sb.WriteString(x.Text)
					}
					t.Count("transitions", 1)
					visit(t, sb.String(), d, undet, err)
				}
				if err == nil || !err.Final {
					if len(ts) < max {
						rec(t, ts, max, leaf)
					} else if leaf != nil {
						leaf(ts)
					}
				}
			}
		}
		c.Case(func() string { return al.name + " short" }, func(t *fw.T) { rec(t, nil, 2, nil) })
		rec(nil, nil, 2, func(pre []model.Tok) {
			pre = append([]model.Tok{}, pre...)
			c.Case(func() string { return al.name + " " + pre[0].Text + " " + pre[1].Text }, func(t *fw.T) {
				rec(t, pre, n, nil)
				t.Touch()
			})
		})
	}
}

// parse in a fresh alias map
func synParse(text string) (v dgo.Value, am dgo.AliasMap, err error) {
	e, rt := fw.Try(func() {
		am = tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { v = tf.ParseFile(a, "", text) })
	})
	switch {
	case e == nil:
		return v, am, nil
	case rt:
		return nil, nil, fmt.Errorf("GO RUNTIME ERROR %v", e)
	}
	if x, ok := e.(error); ok {
		return nil, nil, x
	}
	return nil, nil, fmt.Errorf("NOT AN ERROR %v", e)
}

func isSynRuntime(s string) bool {
	return strings.Contains(s, "runtime error") || strings.Contains(s, "interface conversion") || strings.Contains(s, "GO RUNTIME") || strings.Contains(s, "NOT AN ERROR")
}

var synPos = regexp.MustCompile(`: \((?:file: [^,]*, )?(?:line: (-?\d+), )?column: (-?\d+)\)$`)

func synPosition(text, msg string) string {
	m := synPos.FindStringSubmatch(msg)
	if m == nil {
		return "no position"
	}
	lines := strings.Split(text, "\n")
	ln := 1
	if m[1] != "" {
		ln, _ = strconv.Atoi(m[1])
	}
	col, _ := strconv.Atoi(m[2])
	if ln < 1 || ln > len(lines) || col < 1 || col > len([]rune(lines[ln-1]))+1 {
		return "position outside of the text"
	}
	return ""
}

func runC19(c *fw.C) {
	check := func(t *fw.T, text string, undet bool, serr *model.SynErr) {
		v, _, err := synParse(text)
		switch {
		case err != nil && isSynRuntime(err.Error()):
			t.Failf("runtime", text, "%q: %v", text, err)
		case undet:
		case err == nil && serr != nil:
			t.Failf("accepted", text, "%q is accepted as %v but isn't an expression: %s", text, v, serr.Msg)
		case err != nil && serr == nil:
			t.Failf("rejected", text, "%q is rejected: %v", text, err)
		}
		if err != nil {
			if p := synPosition(text, err.Error()); p != "" {
				t.Failf("position", text, "%q: %s: %v", text, p, err)
			}
			t.Outcome("rejected")
		} else {
			t.Outcome("accepted")
		}
		v2, _, err2 := synParse(text)
		if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() {
			t.Failf("nondeterministic", text, "%q gives %v and then %v", text, err, err2)
		} else if err == nil && !v.Equals(v2) && !undet {
			t.Failf("nondeterministic", text, "%q gives %v and then %v", text, v, v2)
		}
	}
	synExplore(c, func(t *fw.T, text string, d model.Denoted, undet bool, err *model.SynErr) {
		check(t, text, undet, err)
		// an error that nothing can mend stays one when the brackets are closed
		if err != nil && err.Final {
			for _, e := range closers(text) {
				t.Count("transitions", 1)
				check(t, text+e, undet, err)
			}
		}
	})

	charAlphabets := []struct {
		name, s string
		n, m    int
	}{
		{"delimiters", "{}()[]<>,:?|&^!~=.1a\"'/` ", 4, 5},
		{"numbers", "0189.-+eExXafA_ ", 5, 6},
		{"numbers2", "01.eE-+x", 7, 8},
		{"strings", "\"\\`/nx0u4q\n", 6, 7},
		{"strings2", "\"\\uxU0Fd1", 7, 8},
		{"regexps", "/\\a(*[]", 7, 8},
		{"bytes", "\x00\x01\x02\x03\x04\x05\x06\x07\t\n\r \x7f\xc3\xa5\xff\xed\xa0\xef\xbf\xbd\"/`a", 4, 5},
		{"keywords", "intrue1[", 5, 6},
	}
	for _, ca := range charAlphabets {
		ca := ca
		c.Stage("characters " + ca.name)
		n := ca.n
		if c.Thorough {
			n = ca.m
		}
		var rec func(t *fw.T, b []byte, n int)
		rec = func(t *fw.T, b []byte, n int) {
			ts, ok := model.Lex(string(b))
			var serr *model.SynErr
			undet := false
			if ok {
				_, undet, serr = model.ParseSyntax(ts)
			} else {
				serr = &model.SynErr{Msg: "not a token"}
			}
			t.Count("transitions", 1)
			check(t, string(b), undet, serr)
			if n > 0 {
				for i := 0; i < len(ca.s); i++ {
					rec(t, append(b[:len(b):len(b)], ca.s[i]), n-1)
				}
			}
		}
		c.Case(func() string { return ca.name + " short" }, func(t *fw.T) { rec(t, nil, 1) })
		for i := 0; i < len(ca.s); i++ {
			for j := 0; j < len(ca.s); j++ {
				b := []byte{ca.s[i], ca.s[j]}
				c.Case(func() string { return fmt.Sprintf("%s %q", ca.name, b) }, func(t *fw.T) { rec(t, b, n-2); t.Touch() })
			}
		}
	}

	c.Stage("code points")
	codePoints(c, func(t *fw.T, text string) {
		ts, ok := model.Lex(text)
		serr, undet := &model.SynErr{Msg: "not a token"}, false
		if ok {
			_, undet, serr = model.ParseSyntax(ts)
		}
		t.Count("transitions", 1)
		check(t, text, undet, serr)
	})

	c.Stage("nested")
	depth := 2000
	if c.Thorough {
		depth = 20000
	}
	for _, o := range [][2]string{{"(", ")"}, {"{", "}"}, {"[", "]int"}, {"[]", ""}, {"map[", "]int"}, {"map[int]", ""}, {"type[", "]"}, {"sensitive[", "]"}, {"func(", ")"}, {"{a:", "}"}, {"int|(", ")"}, {"x=", ""}, {"<", ">"}, {"!(", ")"}, {"func() ", ""}, {"[int,", "]int"}, {"1|", ""}, {"{1,", "}"}} {
		for _, k := range []int{50, depth} {
			for _, cut := range []bool{false, true} {
				o, k, cut := o, k, cut
				c.Case(func() string { return fmt.Sprintf("%s%s %d %v", o[0], o[1], k, cut) }, func(t *fw.T) {
					text := strings.Repeat(o[0], k) + "int" + strings.Repeat(o[1], k)
					if cut {
						text = strings.Repeat(o[0], k)
					}
					ts, ok := model.Lex(text)
					if !ok {
						t.Fatalf("lex", "%s", o[0])
					}
					_, undet, serr := model.ParseSyntax(ts)
					t.Count("transitions", 1)
					_, _, err := synParse(text)
					if !undet && (err == nil) != (serr == nil) {
						t.Failf("nested", "", "nesting of %s: %v, expected %v", o[0], err, serr)
					}
					if err != nil && isSynRuntime(err.Error()) {
						t.Failf("runtime", "", "%v", err)
					}
				})
			}
		}
	}

	// what is parsed first doesn't matter for what is parsed next, unless it declares aliases
	c.Stage("histories")
	texts := []string{"int", "x", "x=int", "x=", "{x=int,y", "x=1|", "{x=int,x}", "y=x", "[]x", "type[x]", "<x>", "(x", "x=y", "{y=x,x=y}"}
	for _, a := range texts {
		for _, b := range texts {
			a, b := a, b
			c.Case(func() string { return a + " then " + b }, func(t *fw.T) {
				t.Count("transitions", 2)
				want, _, werr := synParse(b)
				_, _, aerr := synParse(a)
				got, _, gerr := synParse(b)
				if fmt.Sprint(werr) != fmt.Sprint(gerr) || werr == nil && !want.Equals(got) {
					t.Failf("history", "", "%q after %q: %v %v, without: %v %v", b, a, got, gerr, want, werr)
				}
				// a failed parse declares nothing
				if aerr != nil {
					am := tf.BuiltInAliases()
					fw.Try(func() { am = am.Collect(func(x dgo.AliasAdder) { tf.ParseFile(x, "", a) }) })
					if am.GetType(tfString("x")) != nil || am.GetType(tfString("y")) != nil {
						t.Failf("leak", "", "%q failed but declares", a)
					}
					before := tf.DefaultAliases()
					fw.Try(func() { tf.Parse(a) })
					if tf.DefaultAliases().GetType(tfString("x")) != nil || tf.DefaultAliases() != before {
						t.Failf("leak", "default", "%q failed but declares", a)
					}
				}
			})
		}
	}
}

func sensExact(t *model.Ty) bool {
	if t.Val != nil && strings.Contains(t.Name, "sensitive") || t.Val != nil && hasSensV(t.Val) {
		return true
	}
	for _, s := range t.Sub {
		if sensExact(s) {
			return true
		}
	}
	return false
}

func hasSensV(v *model.V) bool {
	if v.K == model.Sens {
		return true
	}
	for _, x := range v.L {
		if hasSensV(x) {
			return true
		}
	}
	return false
}

func synValues() (vs []*model.V) {
	i, s, f := model.I, model.S, model.F
	vs = []*model.V{model.N(), model.B(true), model.B(false), i(-9223372036854775808), i(-2), i(0), i(1), i(2), i(9223372036854775807), f(1), f(2), f(2.5), f(-1e20), f(1e300), s(""), s("a"), s("A"), s("b"), s("ba"),
		model.Y(""), model.Y("ab"), model.A(), model.A(i(1)), model.A(i(2)), model.A(s("a")), model.A(i(1), i(1)), model.A(i(1), s("a")), model.A(s("a"), i(1)), model.A(i(1), i(2), i(3)), model.A(model.A(i(1))), model.A(f(2.5)), model.A(model.N()),
		model.M(), model.M(s("x"), i(1)), model.M(s("x"), s("a")), model.M(s("a"), i(1)), model.M(i(1), i(1)), model.M(i(1), i(2)), model.M(s("x"), i(1), s("a"), i(1)), model.M(s("int"), i(1)), model.M(model.B(true), i(1)), model.M(model.N(), i(1)), model.M(s("x"), model.M(s("x"), i(1))), model.M(f(2.5), i(1)), model.M(s("a"), s("a")), model.M(i(2), i(1), i(1), i(2)),
		model.X(i(1)), model.X(s("a")), model.X(model.N())}
	return
}

type synVal struct {
	m *model.V
	v dgo.Value
}

// printParse checks that the text of the type is parsed as an equal type
func printParse(t *fw.T, ctx string, tp dgo.Type, am dgo.AliasMap, vals []synVal) {
	text := stringer.TypeStringWithAliasMap(tp, am)
	var back dgo.Type
	e, _ := fw.Try(func() {
		am.Collect(func(a dgo.AliasAdder) { back = typ.AsType(parser.ParseFile(a, "", text)) })
	})
	t.Count("transitions", 1)
	if e != nil {
		t.Failf("unparsable", ctx, "%s is printed as %s which can't be parsed: %v", ctx, text, e)
		return
	}
	if !tp.Equals(back) || !back.Equals(tp) {
		t.Failf("unequal", ctx, "%s is printed as %s which is parsed as %s", ctx, text, back)
		return
	}
	if s := stringer.TypeStringWithAliasMap(back, am); s != text {
		t.Failf("unstable", ctx, "%s is printed as %s, parsed and printed again as %s", ctx, text, s)
	}
	for _, v := range vals {
		if tp.Instance(v.v) != back.Instance(v.v) {
			t.Failf("acceptance", ctx, "%s and its text %s differ on %s", ctx, text, v.m.Canon())
		}
	}
}

func runC18(c *fw.C) {
	var vals []synVal
	for _, m := range synValues() {
		vals = append(vals, synVal{m, m.Build(true)})
	}
	synExplore(c, func(t *fw.T, text string, d model.Denoted, undet bool, serr *model.SynErr) {
		if undet || serr != nil {
			return
		}
		v, am, err := synParse(text)
		if err != nil {
			t.Failf("rejected", text, "%q is rejected: %v", text, err)
			return
		}
		tp := typ.AsType(v)
		if d.Known() {
			ty := d.Type()
			if !sensExact(ty) {
				want := ty.Build()
				if !tp.Equals(want) || !want.Equals(tp) {
					t.Failf("denotes", text, "%q is parsed as %s, expected %s", text, tp, want)
				}
				for _, x := range vals {
					if tp.Instance(x.v) != ty.Has(x.m) {
						t.Failf("instance", text, "%q: %s is an instance: %v", text, x.m.Canon(), tp.Instance(x.v))
					}
				}
				t.State(ty.Name)
			}
			if d.V != nil && !hasSensV(d.V) && !d.V.Build(true).Equals(v) {
				t.Failf("value", text, "%q is parsed as %s", text, v)
			}
		}
		switch {
		case d.Known() && sensExact(d.Type()):
		case strings.Contains(text, "=") && strings.Contains(text, ":"):
			// Aliases that are struct map keys (known finding)
			t.Count("aliases not compared", 1)
		default:
			printParse(t, text, tp, am, vals)
		}
	})

	c.Stage("types")
	for _, ty := range append(typeUniverse(3), deepTypes()...) {
		ty := ty
		if uses(ty, "binary", "binsized", "time", "regexp", "tuple0", "sensexact") || !printable(ty) {
			continue
		}
		c.Case(func() string { return ty.Name }, func(t *fw.T) {
			printParse(t, ty.Name, ty.Build(), tf.BuiltInAliases(), vals)
		})
	}

	// whatever order the limits are given in and whatever their signs
	c.Stage("limits")
	lims := []int64{math.MinInt64, -3, -1, 0, 1, 2, math.MaxInt64}
	for _, a := range lims {
		for _, b := range lims {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("%d,%d", a, b) }, func(t *fw.T) {
				am := tf.BuiltInAliases()
				printParse(t, "string", tf.String(a, b), am, vals)
				printParse(t, "array", tf.Array(typ.Integer, a, b), am, vals)
				printParse(t, "map", tf.Map(typ.String, typ.Any, a, b), am, vals)
				printParse(t, "int", tf.Integer(a, b, true), am, vals)
				printParse(t, "float", tf.Float(float64(a), float64(b), true), am, vals)
				if a != b {
					printParse(t, "int...", tf.Integer(a, b, false), am, vals)
					printParse(t, "float...", tf.Float(float64(a), float64(b), false), am, vals)
				}
			})
		}
	}

	c.Stage("strings")
	i := model.I
	for _, s := range specialStrings() {
		s := s
		for k, ty := range []*model.Ty{model.TExact(model.S(s)), model.TCi(s), model.TStruct(false, model.SE{Key: model.S(s), Req: true, Ty: model.TInt}), model.TStruct(false, model.SE{Key: model.S(s), Req: false, Ty: model.TExact(model.S(s))}), model.TOr(model.TExact(model.S(s)), model.TExact(i(1))), model.TTuple(false, model.TExact(model.S(s)), model.TInt), model.TExact(model.M(model.S(s), model.S(s))), model.TExact(model.A(model.S(s)))} {
			ty := ty
			c.Case(func() string { return fmt.Sprintf("%q %d", s, k) }, func(t *fw.T) {
				printParse(t, ty.Name, ty.Build(), tf.BuiltInAliases(), append([]synVal{{model.S(s), model.S(s).Build(true)}}, vals...))
			})
		}
	}

	c.Stage("patterns")
	for _, p := range []string{"", "a", "^a$", "a/b", "/", "//", "[/]", "a|b", "(a)", "å", "a b", "\"", "'", "`", "[^a]", "a{2,3}", "(?i)a", "a\\d", "\\\\", "a\\/b", "a\\.b", "a\tb", "a\nb", "a\rb", "a\x14b", "\\\t"} {
		p := p
		ty := model.TPattern(p)
		c.Case(func() string { return fmt.Sprintf("%q", p) }, func(t *fw.T) {
			ctl := strings.ContainsAny(p, "\t\n\r\x14") || strings.Contains(p, `\/`)
			var pv []synVal
			for _, s := range []string{"", "a", "b", "a/b", "a\\/b", "/", "//", "å", "aa", "A", "a1", "\\", "a.b", "axb", "a\tb", "a\nb", "a\rb", "a\x14b", "\t", "a b", "\"", "'", "`", "a\\db", "\\\\"} {
				pv = append(pv, synVal{model.S(s), model.S(s).Build(true)})
			}
			if !ctl {
				printParse(t, "", ty.Build(), tf.BuiltInAliases(), pv)
				return
			}
			// accepts the same values
			tp := ty.Build()
			var back dgo.Type
			e, _ := fw.Try(func() { back = parseLocal(tp.String()) })
			if e != nil {
				t.Failf("unparsable", "", "%q is printed as %s which can't be parsed: %v", p, tp, e)
				return
			}
			for _, v := range pv {
				if tp.Instance(v.v) != back.Instance(v.v) {
					t.Failf("acceptance", "", "%q and its text %s differ on %q", p, tp, v.m.S)
					return
				}
			}
		})
	}

	c.Stage("aliases")
	c18Aliases(c, vals)

	c.Stage("recursive")
	for _, text := range []string{"x=map[string](int|x)", "x=[]x", "x={a:int,b?:x}", "x=int|[]x", "{x=int,x,[]x}", "{x={a:y},y=int|x}", "x={int,...x}", "x=func(x) x", "[](x=1|{x})", "{x=[]y,y=map[x]x}", "x=type[x]", "x=sensitive[x]", "data", "richdata", "[]data", "map[string]data", "{a:data}", "{types:{ascii=1..127,slug=/^[a-z0-9-]+$/},x:map[slug]{token:ascii,value:string}}", `{tp="key",{key:2}}`} {
		text := text
		c.Case(func() string { return text }, func(t *fw.T) {
			v, am, err := synParse(text)
			if err != nil {
				t.Failf("rejected", "", "%q: %v", text, err)
				return
			}
			tp := typ.AsType(v)
			printParse(t, "", tp, am, vals)
		})
	}
}

// c18Aliases compares types that are written with aliases, declared before or after they are used, with the types that
// are written without them
func c18Aliases(c *fw.C, vals []synVal) {
	ctxs := []string{"[]%s", "[0,2]%s", "map[string]%s", "map[%s]int", "map[%s,1,2]%s", "{a:%s}", "{a?:%s,...}", "{a:int,b?:%s}", "{%s,bool}", "{bool,...%s}", "(%s|nil)", "(%s&any)", "(%s^nil)", "!%s", "sensitive[%s]", "type[%s]",
		"func(%s) bool", "func() %s", "func(...%s)", "func(bool,%s) (bool,%s)", "func(bool,...%s) bool", "(func(%s) bool|nil)", "[1,1]%s", "{%s}", "{%s,1}", "{...%s}", "(%s|int)", "(%s&int)", "(%s^int)", "(%s|%s)", "map[%s]%s", "map[%s,1,1]%s", "{a:1,b:%s}", "{a:%s,...}", "!(%s|int)"}
	leafs := []string{"int", "1..3", "string", "[]int", "{a:int}", "(1|\"a\")", "data", "[2]string", "map[string](int|string)", "any", "(nil|int)", "string[1,2]", "1", "\"a\"", "true", "{1,2}", "{a:1}", "(1|2)"}
	hashable := func(s string) bool { return s != "data" && s != "any" }
	var exprs [][2]string // one without and one with the alias u, of t
	for _, l := range leafs {
		for _, x := range ctxs {
			if strings.HasPrefix(x, "map[%s") && !hashable(l) {
				continue
			}
			exprs = append(exprs, [2]string{strings.Replace(x, "%s", l, -1), strings.Replace(x, "%s", "u", -1) + "\x00" + l})
		}
	}
	one := exprs
	for _, e := range one {
		for _, x := range ctxs {
			if strings.HasPrefix(x, "map[%s") || strings.Contains(e[0], "(nil") && strings.Contains(x, "nil") || !c.Thorough && !strings.HasSuffix(e[1], "\x00int") && !strings.HasSuffix(e[1], "\x00{a:int}") {
				continue
			}
			exprs = append(exprs, [2]string{strings.Replace(x, "%s", e[0], -1), strings.Replace(x, "%s", strings.Split(e[1], "\x00")[0], -1) + "\x00" + strings.Split(e[1], "\x00")[1]})
		}
	}
	for _, v := range []interface{}{typ.Integer, typ.String, typ.Any, tf.Integer(1, 2, true), vf.Integer(2).Type(), typ.Array, tf.Array(typ.Integer, 0, 3), tf.Array(tf.Integer(1, 2, true)), vf.Values(1, 2).Type(), typ.Map,
		tf.Map(typ.String, typ.Integer), parseLocal("{a:int}"), parseLocal("{a:1}"), parseLocal("sensitive[int]"), parseLocal("int|string"), parseLocal("type[int]"), parseLocal("func(int) bool"),
		func(int) bool { return false }, func() int { return 0 }, func(...int) {}, func(bool, int) (bool, int) { return false, 0 }, func(string) bool { return false }, func() string { return "" }, func([]int) bool { return false }, func(int64) bool { return false }} {
		vals = append(vals[:len(vals):len(vals)], synVal{model.S(fmt.Sprint(v)), vf.Value(v)})
	}
	for i := range exprs {
		e := exprs[i]
		x := strings.Split(e[1], "\x00")
		c.Case(func() string { return e[1] }, func(t *fw.T) {
			pv, _, err := synParse(e[0])
			if err != nil {
				t.Count("not in the grammar", 1)
				return
			}
			want := typ.AsType(pv)
			for _, text := range []string{"{u=" + x[1] + "," + x[0] + "}", "{" + x[0] + ",u=" + x[1] + "}", "{types:{u=" + x[1] + "},x:" + x[0] + "}", "{x:" + x[0] + ",types:{u=" + x[1] + "}}", "{w=" + x[0] + ",w,u=" + x[1] + "}", "{w,w=" + x[0] + ",u=" + x[1] + "}", "{u=v," + x[0] + ",v=" + x[1] + "}"} {
				v, _, err := synParse(text)
				t.Count("transitions", 1)
				if err != nil {
					t.Failf("alias rejected", text, "%s: %v", text, err)
					continue
				}
				var got dgo.Type
				switch tp := typ.AsType(v).(type) {
				case dgo.StructMapType:
					got = tp.Get("x").Value().(dgo.Type)
				case dgo.TupleType:
					got = tp.ElementTypes().Get(1).(dgo.Type)
					if strings.HasPrefix(text, "{"+x[0]) || strings.HasPrefix(text, "{w,") {
						got = tp.ElementTypes().Get(0).(dgo.Type)
					}
				}
				if got == nil {
					t.Fatalf("shape", "", "%s is parsed as %s", text, v)
				}
				if e := got.Equals(want) && want.Equals(got); !e || got.HashCode() != want.HashCode() {
					t.Failf("alias unequal", text, "%s: %s isn't equal to %s", text, got, want)
				}
				if s := got.String(); s != want.String() {
					t.Failf("alias text", text, "%s: is printed as %s, expected %s", text, s, want)
				}
				if !got.Assignable(want) || !want.Assignable(got) {
					t.Failf("alias assignable", text, "%s: %s and %s aren't mutually assignable", text, got, want)
				}
				for _, y := range vals {
					if got.Instance(y.v) != want.Instance(y.v) {
						t.Failf("alias instance", text+y.m.Canon(), "%s: %s accepts %s is %v", text, got, y.m.Canon(), got.Instance(y.v))
					}
				}
			}
		})
	}
}

// printable tells if the documented syntax has an expression for the type
func printable(t *model.Ty) bool {
	switch t.Op {
	case "exact":
		if !printableV(t.Val) {
			return false
		}
	case "tuple":
		if len(t.Sub) == 0 {
			return false
		}
	case "sensitive":
		// The parser insists on a type that isn't a literal
		switch t.Sub[0].Op {
		case "exact", "nil", "true", "false":
			return false
		}
	}
	for _, k := range t.Keys {
		if !printableV(k) {
			return false
		}
	}
	for _, s := range t.Sub {
		if !printable(s) {
			return false
		}
	}
	return true
}

func printableV(v *model.V) bool {
	switch v.K {
	case model.Nil, model.Bool, model.Int, model.Str:
		return true
	case model.Float:
		return v.F-v.F == 0
	case model.Arr:
		if len(v.L) == 0 {
			return false
		}
	case model.Map:
	default:
		return false
	}
	for _, x := range v.L {
		if !printableV(x) {
			return false
		}
	}
	return true
}

func specialStrings() (ss []string) {
	for i := 0; i < 256; i++ {
		ss = append(ss, string([]byte{byte(i)}))
	}
	for _, s := range []string{"", "a b", "'", "\"\"", "\\\\", "\\n", "\\x41", "%s", "${a}", "nil", "true", "false", "int", "map", "type", "func", "string", "sensitive", "dgo", "any", "x", "$x", "_", "a.b", "a-b", "1", "1.5", "-1", "å", "日本", "\u2028", "\u200b", "\ufeff", "\ufffd", "\U0001f600", "\U0010ffff", "\u0085", "\u00a0", "\xc3", "\xed\xa0\x80", "a\x00b", "a\nb", "a\\", "\\", "`", "``", "/", "//", "{", "}", "[", "]", ",", ":", "a:b", "?", "...", "..", "=", "|", "\x7f\x80", "\r\n", "<x>", "(", ")", "\u00e9e\u0301", "K", "ſ"} {
		ss = append(ss, s)
	}
	return
}

func tfString(s string) dgo.String { return vf.String(s) }

// codePoints calls f with texts that have a code point in different positions, for all code points of the first blocks
// and those at the limits of the encodings
func codePoints(c *fw.C, f func(t *fw.T, text string)) {
	var cps []rune
	for r := rune(0); r < 0x300; r++ {
		cps = append(cps, r)
	}
	for _, r := range []rune{0x660, 0x7ff, 0x800, 0x966, 0x1680, 0x2000, 0x2028, 0x2029, 0x203f, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xff11, 0xff21, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d7d8, 0x1f600, 0x10ffff} {
		for d := rune(-1); d <= 1; d++ {
			if x := r + d; x <= 0x10ffff && (x < 0xd800 || x > 0xdfff) {
				cps = append(cps, x)
			}
		}
	}
	for i := 0; i < len(cps); i += 8 {
		end := i + 8
		if end > len(cps) {
			end = len(cps)
		}
		chunk := cps[i:end]
		c.Case(func() string { return fmt.Sprintf("U+%04X", chunk[0]) }, func(t *fw.T) {
			for _, r := range chunk {
				for _, x := range []string{"%", "%a", "a%", "a%b", "1%", "1.%", "1.5%", "1e%", "-%", "0x%", "0x1%", "%1", "\"%\"", "'%'", "`%`", "/%/", "/\\%/", "\"\\%\"", "'\\%'", "\"\\u%0041\"", "\"\\x%1\"", "\"\\u{%}\"", "[%]", "[%", "{a%:1}", "{%:1}", "int%", "int[1%]", "int[%1,2]", "%%", "a %", "% a", "1 %", "..%", "1..%", "~%", "~\"%\"", "A%", "A::%", "A%::B", "#%", "\"", "x=%", "%=1", "type[%]", "Integer[%]", "Array[%1]", "Enum[%]"} {
					f(t, strings.ReplaceAll(x, "%", string(r)))
				}
			}
		})
	}
}
