package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
)

// C20: the text of a literal value denotes the value

func init() {
	fw.Register(&fw.Check{ID: "C20", Level: "model_checking", Run: runC20,
		Rule: "every string of up to 2 bytes, every string of up to N characters over an alphabet of special characters, boundary integers and floats (every power of two and ten and its neighbours), and every value of up to N nodes over a small scalar alphabet is printed compact and indented; both texts have the tokens (reference lexer) of the value's own rendering, and are parsed as the exact type of a value equal to it with the same order"})
}

// litTokens is the sequence of tokens that the text of a value must have
func litTokens(v *model.V) (ts []string) {
	var add func(v *model.V)
	add = func(v *model.V) {
		switch v.K {
		case model.Arr:
			ts = append(ts, "{")
			for i, e := range v.L {
				if i > 0 {
					ts = append(ts, ",")
				}
				add(e)
			}
			ts = append(ts, "}")
		case model.Map:
			ts = append(ts, "{")
			for i := 0; i < len(v.L); i += 2 {
				if i > 0 {
					ts = append(ts, ",")
				}
				add(v.L[i])
				ts = append(ts, ":")
				add(v.L[i+1])
			}
			ts = append(ts, "}")
		default:
			ts = append(ts, v.Canon())
		}
	}
	add(v)
	return
}

func lexLits(text string) (ts []string, ok bool) {
	tt, ok := model.Lex(text)
	if !ok {
		return nil, false
	}
	for _, k := range tt {
		switch k.K {
		case model.KInt:
			ts = append(ts, model.I(k.I).Canon())
		case model.KFloat:
			ts = append(ts, model.F(k.F).Canon())
		case model.KStr:
			ts = append(ts, model.S(k.S).Canon())
		case model.KIdent:
			switch k.S {
			case "nil":
				ts = append(ts, model.N().Canon())
			case "true", "false":
				ts = append(ts, model.B(k.S == "true").Canon())
			default:
				ts = append(ts, k.Text)
			}
		case model.KEnd:
		default:
			ts = append(ts, k.Text)
		}
	}
	return ts, true
}

func literalTexts(d dgo.Value) (texts []string) {
	if ia, ok := d.(dgo.Indentable); ok {
		texts = append(texts, util.ToString(ia), util.ToIndentedString(ia))
		if _, ok := d.(dgo.String); !ok && !d.Equals(nil) {
			texts = append(texts, d.String())
		}
	} else {
		texts = append(texts, d.String())
	}
	return
}

func checkLiteral(t *fw.T, m *model.V, frozen bool) {
	d := m.Build(frozen)
	want := strings.Join(litTokens(m), " ")
	key := m.Canon()
	for i, text := range literalTexts(d) {
		if i == 1 && (m.K == model.Arr || m.K == model.Map) && len(m.L) > 0 {
			for _, ln := range strings.Split(text, "\n") {
				if strings.TrimRight(ln, " \t") != ln {
					t.Failf("trailing", key, "%s is printed with trailing white space: %q", key, text)
				}
			}
		}
		ts, ok := lexLits(text)
		if !ok {
			t.Failf("lex", key, "%s is printed as %q which isn't a sequence of tokens", key, text)
			continue
		}
		if got := strings.Join(ts, " "); got != want {
			t.Failf("tokens", key, "%s is printed as %q with tokens %s instead of %s", key, text, got, want)
			continue
		}
		t.Count("transitions", 1)
		v, _, err := synParse(text)
		if err != nil {
			t.Failf("unparsable", key, "%s is printed as %q: %v", key, text, err)
			continue
		}
		tp := d.Type()
		var got dgo.Value
		if pt, ok := v.(dgo.Type); ok {
			if !pt.Equals(tp) || !tp.Equals(pt) {
				t.Failf("type", key, "%s is printed as %q which is parsed as the type %s", key, text, pt)
				continue
			}
			xt, ok := pt.(dgo.ExactType)
			if !ok {
				t.Failf("exact", key, "%s is printed as %q which is parsed as the type %s, not an exact type", key, text, pt)
				continue
			}
			got = xt.ExactValue()
		} else {
			got = v
		}
		if !got.Equals(d) || !d.Equals(got) {
			t.Failf("unequal", key, "%s is printed as %q which is parsed as %s", key, text, model.Observe(got).Canon())
			continue
		}
		if o := model.Observe(got); o.Canon() != key && !strings.Contains(o.Canon(), "too deep") {
			t.Failf("content", key, "%s is printed as %q which is parsed as %s", key, text, o.Canon())
		}
		t.State(text)
	}
}

func runC20(c *fw.C) {
	s := model.S

	c.Stage("bytes")
	for i := 0; i < 256; i++ {
		i := i
		c.Case(func() string { return fmt.Sprintf("byte %d", i) }, func(t *fw.T) {
			checkLiteral(t, s(string([]byte{byte(i)})), true)
			for j := 0; j < 256; j++ {
				checkLiteral(t, s(string([]byte{byte(i), byte(j)})), true)
			}
		})
	}

	c.Stage("characters")
	step := 4096
	max := 0x3000
	if c.Thorough {
		max = 0x110000
	}
	for lo := 0; lo < max; lo += step {
		lo := lo
		c.Case(func() string { return fmt.Sprintf("U+%04X", lo) }, func(t *fw.T) {
			for r := lo; r < lo+step && r < max; r++ {
				checkLiteral(t, s(string(rune(r))), true)
				if c.Thorough || r < 0x800 {
					checkLiteral(t, model.A(s(string(rune(r))+"0"), s("\\"+string(rune(r)))), false)
				}
			}
			t.Touch()
		})
	}

	c.Stage("strings")
	alpha := []string{"a", "\"", "\\", "`", "\n", "\r", "\t", " ", "/", "'", "\x00", "\x01", "\x7f", "\x80", "\xff", "å", "\u2028", "\ufffd", "\U0001f600", "0", "x41", "u0041", "{", "#", "%", "$", "\\n", "\ufeff"}
	n := 4
	if c.Thorough {
		n = 5
	}
	for _, a := range alpha {
		a := a
		c.Case(func() string { return fmt.Sprintf("%q", a) }, func(t *fw.T) {
			var rec func(pre string, n int)
			rec = func(pre string, n int) {
				checkLiteral(t, s(pre), true)
				if n > 1 {
					for _, b := range alpha {
						rec(pre+b, n-1)
					}
				}
			}
			rec(a, n)
		})
	}

	positions := func(v *model.V) []*model.V {
		return []*model.V{v, model.A(v), model.A(v, v), model.A(model.I(1), v, s("a")), model.M(s("k"), v), model.M(v, s("x")), model.M(v, v, s("k2"), v), model.A(model.A(v)), model.A(model.M(s("x"), v)), model.M(s("x"), model.A(v)), model.M(model.A(v), v), model.M(model.M(v, v), model.N())}
	}
	c.Stage("special strings")
	ss := specialStrings()
	for i := range ss {
		v := s(ss[i])
		c.Case(func() string { return v.Canon() }, func(t *fw.T) {
			for _, p := range positions(v) {
				checkLiteral(t, p, true)
				checkLiteral(t, p, false)
			}
		})
	}

	c.Stage("numbers")
	ints := map[int64]bool{}
	var il []int64
	addI := func(i int64) {
		if !ints[i] {
			ints[i] = true
			il = append(il, i)
		}
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			addI(int64(uint64(1)<<k) + d)
			addI(-int64(uint64(1)<<k) + d)
		}
	}
	for p := int64(1); p < 1e18; p *= 10 {
		for d := int64(-1); d <= 1; d++ {
			addI(p + d)
			addI(-p + d)
		}
	}
	for _, i := range il {
		i := i
		c.Case(func() string { return itoa(int(i)) }, func(t *fw.T) {
			for _, p := range positions(model.I(i)) {
				checkLiteral(t, p, true)
			}
		})
	}
	var fl []float64
	fs := map[uint64]bool{}
	addF := func(f float64) {
		if b := math.Float64bits(f); f-f == 0 && !fs[b] && b != 1<<63 {
			fs[b] = true
			fl = append(fl, f)
		}
	}
	for e := -1074; e < 1024; e++ {
		f := math.Ldexp(1, e)
		addF(f)
		addF(math.Nextafter(f, math.Inf(1)))
		addF(math.Nextafter(f, 0))
	}
	for e := -324; e < 309; e++ {
		for _, m := range []float64{1, 1.5, 9.99, 1.2345678901234567} {
			f := m * math.Pow(10, float64(e))
			addF(f)
			addF(math.Nextafter(f, 0))
		}
	}
	for i := 0; i < 64; i++ {
		addF(float64(i) / 8)
		addF(float64(i) / 10)
		addF(float64(i) * 1e15)
	}
	addF(math.MaxFloat64)
	addF(math.SmallestNonzeroFloat64)
	step = 64
	for lo := 0; lo < len(fl); lo += step {
		part := fl[lo:]
		if len(part) > step {
			part = part[:step]
		}
		c.Case(func() string { return fmt.Sprintf("floats from %v", part[0]) }, func(t *fw.T) {
			for _, f := range part {
				for _, v := range []*model.V{model.F(f), model.F(-f)} {
					for _, p := range positions(v)[:6] {
						checkLiteral(t, p, true)
					}
				}
			}
		})
	}

	c.Stage("structures")
	size := 6
	if c.Thorough {
		size = 7
	}
	scal := []*model.V{model.N(), model.B(true), model.I(1), model.I(-2), model.F(1), model.F(-2.5), s(""), s("a"), s("nil"), s("a\nb  \n")}
	memo := map[int][]*model.V{}
	var gen func(n int) []*model.V
	// seqs returns all sequences of k values with n nodes
	var seqs func(n, k int) [][]*model.V
	seqs = func(n, k int) (r [][]*model.V) {
		if k == 0 {
			if n == 0 {
				r = append(r, nil)
			}
			return
		}
		for i := 1; i <= n-k+1; i++ {
			for _, h := range gen(i) {
				for _, tl := range seqs(n-i, k-1) {
					r = append(r, append([]*model.V{h}, tl...))
				}
			}
		}
		return
	}
	gen = func(n int) (r []*model.V) {
		if m, ok := memo[n]; ok {
			return m
		}
		if n == 1 {
			r = append(append(r, scal...), model.M())
		} else {
			sc := scal
			if n > 3 {
				// fewer scalars in larger values
				scal = []*model.V{model.N(), model.I(1), s("a\nb  \n")}
				mm := memo
				memo = map[int][]*model.V{1: append(append([]*model.V{}, scal...), model.M())}
				defer func() { scal = sc; memo = mm; memo[n] = r }()
			}
			for k := 1; k < n; k++ {
				for _, q := range seqs(n-1, k) {
					r = append(r, model.A(q...))
					if k%2 == 0 {
						m := model.M()
						for i := 0; i < k; i += 2 {
							if m.Get(q[i]) != nil {
								m = nil
								break
							}
							m.L = append(m.L, q[i], q[i+1])
						}
						if m != nil {
							r = append(r, m)
						}
					}
				}
			}
		}
		memo[n] = r
		return
	}
	for i := 1; i <= size; i++ {
		vs := gen(i)
		for lo := 0; lo < len(vs); lo += 256 {
			part := vs[lo:]
			if len(part) > 256 {
				part = part[:256]
			}
			c.Case(func() string { return fmt.Sprintf("size %d from %s", i, part[0].Canon()) }, func(t *fw.T) {
				for _, v := range part {
					checkLiteral(t, v, true)
					checkLiteral(t, v, false)
				}
			})
		}
	}

	c.Stage("depth")
	for _, n := range []int{10, 50, 200} {
		n := n
		c.Case(func() string { return itoa(n) }, func(t *fw.T) {
			a, m, k := s("x"), s("x"), s("x")
			for i := 0; i < n; i++ {
				a = model.A(a)
				m = model.M(s("k"), m)
				if i < 50 {
					k = model.M(k, model.A(model.I(int64(i))))
				}
			}
			for _, v := range []*model.V{a, m, k} {
				checkLiteral(t, v, true)
			}
		})
	}
}
