package model

import (
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
)

// This file is a reference for the dgo type syntax: a lexer, and a parser that tells whether a sequence of tokens is an
// expression and what the expression denotes. It shares nothing with the implementation.

// TokKind is the kind of a token. Punctuation has the character as its kind
type TokKind int

const (
	KEnd TokKind = -1 - iota
	KInt
	KFloat
	KStr
	KRegexp
	KIdent
	KDots2
	KDots3
)

// Tok is a token
type Tok struct {
	K TokKind
	S string
	I int64
	F float64
	// Text is the source of the token
	Text string
}

// Denoted is what an expression denotes: a literal value (V), a type (T) or something that the model can't express (neither)
type Denoted struct {
	V *V
	T *Ty
}

// Known tells whether the model can express what is denoted
func (d Denoted) Known() bool { return d.V != nil || d.T != nil }

// Type is the denoted type
func (d Denoted) Type() *Ty {
	if d.V != nil {
		return TExact(d.V)
	}
	return d.T
}

// SynErr says why and where an expression was rejected
type SynErr struct {
	At  int // index of token, number of tokens for the end of the text
	Msg string
	// Final errors can't be mended by more tokens
	Final bool
}

type synParser struct {
	ts      []Tok
	p       int
	aliases map[string]Denoted
	refs    map[string]bool
	undet   bool
	// the last list was variadic
	lastEllipsis bool
	open         map[string]bool // being declared
}

// ParseSyntax parses the tokens. The reference can't tell if the expression is valid when undet is true
func ParseSyntax(ts []Tok) (d Denoted, undet bool, err *SynErr) {
	p := &synParser{ts: ts, aliases: map[string]Denoted{}, refs: map[string]bool{}, open: map[string]bool{}}
	for _, n := range []string{"data", "richdata", "dgo"} {
		p.aliases[n] = Denoted{}
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*SynErr)
			if !ok {
				panic(r)
			}
			err = e
			undet = p.undet
		}
	}()
	d = p.anyOf()
	if p.peek().K != KEnd {
		p.fail("end")
	}
	var names []string
	for n := range p.refs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if _, ok := p.aliases[n]; !ok {
			return d, p.undet, &SynErr{At: len(ts), Msg: "unresolved " + n}
		}
	}
	if len(names) > 0 {
		d = Denoted{} // declared after it was referenced
	}
	return d, p.undet, nil
}

func (p *synParser) peek() Tok {
	if p.p < len(p.ts) {
		return p.ts[p.p]
	}
	return Tok{K: KEnd}
}

func (p *synParser) next() Tok { t := p.peek(); p.p++; return t }

// fail at the token that is next
func (p *synParser) fail(msg string) {
	panic(&SynErr{At: p.p, Msg: msg, Final: p.p < len(p.ts)})
}

// semantic errors are final
func (p *synParser) bad(msg string) { panic(&SynErr{At: p.p, Msg: msg, Final: true}) }

func (p *synParser) need(k TokKind) {
	if p.peek().K != k {
		p.fail("missing token")
	}
	p.p++
}

func (p *synParser) ternary(op TokKind, sub func() Denoted, mk func(ts ...*Ty) *Ty) Denoted {
	d := sub()
	if p.peek().K != op {
		return d
	}
	known := d.Known()
	ts := []*Ty{}
	if known {
		ts = append(ts, d.Type())
	}
	for p.peek().K == op {
		p.p++
		e := sub()
		if e.Known() {
			ts = append(ts, e.Type())
		} else {
			known = false
		}
	}
	if !known {
		return Denoted{}
	}
	return Denoted{T: mk(ts...)}
}

func (p *synParser) anyOf() Denoted { return p.ternary('|', p.oneOf, TOr) }
func (p *synParser) oneOf() Denoted { return p.ternary('^', p.allOf, TOne) }
func (p *synParser) allOf() Denoted { return p.ternary('&', p.unary, TAnd) }

func (p *synParser) unary() Denoted {
	neg, ci := false, false
	if p.peek().K == '!' {
		neg = true
		p.p++
	}
	if p.peek().K == '~' {
		ci = true
		p.p++
	}
	d := p.primary()
	if ci {
		if d.V == nil || d.V.K != Str {
			p.bad("literal string expected")
		}
		d = Denoted{T: TCi(d.V.S)}
	}
	if neg && d.Known() {
		d = Denoted{T: TNot(d.Type())}
	}
	return d
}

func (p *synParser) primary() Denoted {
	t := p.peek()
	switch t.K {
	case '{':
		p.p++
		return p.list('}', true)
	case '(':
		p.p++
		d := p.anyOf()
		p.need(')')
		return d
	case '[':
		p.p++
		args := p.params(']')
		e := p.unary()
		min, max, ok := p.sizes(args)
		if !e.Known() || !ok {
			return Denoted{}
		}
		return Denoted{T: TArr(e.Type(), min, max)}
	case '<':
		p.p++
		n := p.peek()
		if n.K != KIdent {
			p.fail("identifier expected")
		}
		p.p++
		// the implementation looks the name up first but fails all the same when there is no '>'
		p.need('>')
		return p.ref(n.S)
	case KInt:
		p.p++
		n := p.peek()
		if n.K == KDots2 || n.K == KDots3 {
			p.p++
			x := p.peek()
			switch x.K {
			case KInt:
				p.p++
				return p.intRange(t.I, x.I, n.K == KDots2)
			case KFloat:
				p.p++
				return p.floatRange(float64(t.I), x.F, n.K == KDots2)
			}
			return p.intRange(t.I, math.MaxInt64, n.K == KDots2)
		}
		return Denoted{V: I(t.I)}
	case KFloat:
		p.p++
		n := p.peek()
		if n.K == KDots2 || n.K == KDots3 {
			p.p++
			x := p.peek()
			switch x.K {
			case KInt:
				p.p++
				return p.floatRange(t.F, float64(x.I), n.K == KDots2)
			case KFloat:
				p.p++
				return p.floatRange(t.F, x.F, n.K == KDots2)
			}
			return p.floatRange(t.F, math.MaxFloat64, n.K == KDots2)
		}
		return Denoted{V: F(t.F)}
	case KDots2, KDots3:
		p.p++
		x := p.peek()
		switch x.K {
		case KInt:
			p.p++
			return p.intRange(math.MinInt64, x.I, t.K == KDots2)
		case KFloat:
			p.p++
			return p.floatRange(-math.MaxFloat64, x.F, t.K == KDots2)
		}
		p.fail("number expected")
	case KIdent:
		p.p++
		if p.peek().K == '=' {
			return p.declare(t.S)
		}
		return p.ident(t.S)
	case KStr:
		p.p++
		return Denoted{V: S(t.S)}
	case KRegexp:
		p.p++
		if _, err := regexp.Compile(t.S); err != nil {
			p.bad("bad regexp")
		}
		return Denoted{T: TPattern(t.S)}
	}
	p.fail("type expression expected")
	return Denoted{}
}

func (p *synParser) intRange(min, max int64, incl bool) Denoted {
	if min > max {
		min, max = max, min
	}
	if min == max && !incl {
		p.bad("empty range")
	}
	return Denoted{T: TIntRange(min, max, incl)}
}

func (p *synParser) floatRange(min, max float64, incl bool) Denoted {
	if min > max {
		min, max = max, min
	}
	if min == max && !incl {
		p.bad("empty range")
	}
	return Denoted{T: TFloatRange(min, max, incl)}
}

// sizes are zero, one or two integers
func (p *synParser) sizes(args []Denoted) (min, max int64, ok bool) {
	min, max, ok = 0, Inf, true
	if len(args) > 2 {
		p.bad("too many arguments")
	}
	for i, a := range args {
		if a.V == nil || a.V.K != Int {
			p.bad("integer expected")
		}
		if i == 0 {
			min = a.V.I
		} else {
			max = a.V.I
		}
	}
	if min < 0 {
		min = 0
	}
	if max < 0 {
		max = 0
	}
	if max < min {
		min, max = max, min
	}
	return
}

var synKeywords = map[string]Denoted{"any": {T: TAny}, "bool": {T: TBool}, "int": {T: TInt}, "float": {T: TFloat}, "binary": {T: TBin},
	"true": {V: B(true)}, "false": {V: B(false)}, "nil": {V: N()}, "dgo": {}}

func (p *synParser) ref(n string) Denoted {
	if d, ok := p.aliases[n]; ok {
		if p.open[n] {
			p.undet = true
		}
		return d
	}
	p.refs[n] = true
	return Denoted{}
}

func (p *synParser) declare(n string) Denoted {
	if _, ok := synKeywords[n]; ok {
		p.bad("redeclaration")
	}
	switch n {
	case "map", "string", "type", "sensitive", "func":
		p.bad("redeclaration")
	}
	if _, ok := p.aliases[n]; ok {
		p.bad("redeclaration")
	}
	p.p++
	p.aliases[n] = Denoted{}
	p.open[n] = true
	d := p.anyOf()
	delete(p.open, n)
	if d.V != nil {
		d = Denoted{T: TExact(d.V)}
	}
	p.aliases[n] = d
	return d
}

// exprEnd tells if the next token ends an expression
func (p *synParser) exprEnd() bool {
	switch p.peek().K {
	case KEnd, ')', '}', ']', ',', ':', '?', '|', '&', '^', '.':
		return true
	}
	return false
}

func (p *synParser) ident(n string) Denoted {
	if d, ok := synKeywords[n]; ok {
		return d
	}
	switch n {
	case "map":
		p.need('[')
		k := p.anyOf()
		var args []Denoted
		if p.peek().K == ',' {
			p.p++
			args = p.params(']')
		} else {
			p.need(']')
		}
		v := p.unary()
		min, max, ok := p.sizes(args)
		if !ok || !k.Known() || !v.Known() {
			return Denoted{}
		}
		return Denoted{T: TMapOf(k.Type(), v.Type(), min, max)}
	case "type":
		if p.peek().K != '[' {
			return Denoted{T: synMeta(TAny)}
		}
		p.p++
		d := p.anyOf()
		p.need(']')
		if !d.Known() {
			return Denoted{}
		}
		return Denoted{T: synMeta(d.Type())}
	case "string":
		if p.peek().K != '[' {
			return Denoted{T: TString}
		}
		p.p++
		args := p.params(']')
		if len(args) == 1 {
			if args[0].V != nil && args[0].V.K == Str {
				return Denoted{T: TExact(args[0].V)}
			}
		}
		min, max, ok := p.sizes(args)
		if !ok {
			return Denoted{}
		}
		return Denoted{T: TStringSized(min, max)}
	case "sensitive":
		if p.peek().K == '[' {
			p.p++
			args := p.params(']')
			switch len(args) {
			case 0:
				return Denoted{T: TSens(TAny)}
			case 1:
				if args[0].V != nil {
					p.bad("type expected")
				}
				if args[0].T == nil {
					return Denoted{}
				}
				return Denoted{T: TSens(args[0].T)}
			}
			p.bad("too many arguments")
		}
		if p.exprEnd() {
			return Denoted{T: TSens(TAny)}
		}
		d := p.anyOf()
		if d.V != nil {
			return Denoted{V: X(d.V)}
		}
		if d.T == nil {
			p.undet = true // the type of an unresolved alias
		}
		return Denoted{V: X(O("type", nil))}
	case "func":
		p.need('(')
		in := p.list(')', false)
		var out Denoted
		variadic := false
		switch {
		case p.peek().K == '(':
			p.p++
			out = p.list(')', false)
			variadic = p.lastEllipsis
		case p.exprEnd():
			out = Denoted{T: TTuple(false)}
		default:
			out = p.anyOf()
			if out.Known() {
				out = Denoted{T: TTuple(false, out.Type())}
			}
		}
		if variadic && !(out.T != nil && len(out.T.Sub) == 1 && out.T.Sub[0].Op == "any") {
			p.bad("variadic return")
		}
		if !in.Known() || !out.Known() {
			return Denoted{}
		}
		return Denoted{T: TFunc(in.T, out.T)}
	}
	return p.ref(n)
}

// params are elements up to the end token, a trailing comma is accepted
func (p *synParser) params(end TokKind) (ds []Denoted) {
	for {
		if p.peek().K == end {
			p.p++
			return
		}
		_, d, _ := p.element(0)
		ds = append(ds, d)
		if p.peek().K == end {
			p.p++
			return
		}
		p.need(',')
	}
}

// element is a type or, unless mode is zero, an association. Mode 1 means that the first element hasn't been seen yet and
// 2 that all elements must be associations
func (p *synParser) element(mode int) (key *Denoted, d Denoted, optional bool) {
	t := p.peek()
	if t.K == KIdent && p.p+1 < len(p.ts) && (p.ts[p.p+1].K == ':' || p.ts[p.p+1].K == '?') {
		if mode == 0 {
			p.bad("association not allowed")
		}
		p.p++
		switch t.S {
		case "true", "false", "nil":
			d = synKeywords[t.S]
		default:
			d = Denoted{V: S(t.S)}
		}
	} else {
		d = p.anyOf()
	}
	if p.peek().K == '?' {
		optional = true
		p.p++
		if p.peek().K != ':' {
			p.fail("':' expected")
		}
	}
	if p.peek().K == ':' {
		if mode == 0 {
			p.bad("association not allowed")
		}
		p.p++
		k := d
		return &k, p.anyOf(), optional
	}
	if mode == 2 {
		p.bad("association expected")
	}
	return nil, d, false
}

func (p *synParser) list(end TokKind, assoc bool) Denoted {
	mode := 0
	if assoc {
		mode = 1
	}
	var keys []Denoted
	var opt []bool
	var ds []Denoted
	ellipsis := false
	for {
		if p.peek().K == KDots3 {
			p.p++
			ellipsis = true
			if p.peek().K == end && mode != 0 {
				p.p++
				break
			}
			if mode == 2 {
				p.fail("end of list expected")
			}
			mode = 0
			ds = append(ds, p.anyOf())
			p.need(end)
			break
		}
		if p.peek().K == end {
			p.p++
			break
		}
		k, d, o := p.element(mode)
		if k != nil {
			mode = 2
			keys = append(keys, *k)
			opt = append(opt, o)
		} else {
			mode = 0
		}
		ds = append(ds, d)
		if p.peek().K == end {
			p.p++
			break
		}
		p.need(',')
	}
	p.lastEllipsis = ellipsis
	known := true
	for _, d := range ds {
		known = known && d.Known()
	}
	if mode == 0 && !known {
		return Denoted{}
	}
	if mode == 0 {
		ts := make([]*Ty, len(ds))
		for i := range ds {
			ts[i] = ds[i].Type()
		}
		return Denoted{T: TTuple(ellipsis, ts...)}
	}
	var es []SE
	for i, d := range ds {
		k := keys[i].V
		if k == nil {
			if keys[i].T == nil {
				p.undet = true
				return Denoted{}
			}
			ok := false
			if k, ok = ExactOf(keys[i].T); !ok {
				p.undet = true
				return Denoted{}
			}
			if k == nil {
				p.bad("exact key expected")
			}
		}
		for _, e := range es {
			if e.Key.Equal(k) {
				p.undet = true
				return Denoted{}
			}
		}
		es = append(es, SE{Key: k, Req: !opt[i], Ty: d.Type()})
	}
	if !known {
		return Denoted{}
	}
	return Denoted{T: TStruct(ellipsis, es...)}
}

// ExactOf returns the only value of a type that is known to have exactly one value, nil if it isn't such a type. The
// boolean is false if that is undecided
func ExactOf(t *Ty) (*V, bool) {
	switch t.Op {
	case "exact":
		return t.Val, true
	case "nil":
		return N(), true
	case "intrange":
		if t.Min == t.Max && t.Incl {
			return I(t.Min), true
		}
	case "floatrange":
		if t.FMin == t.FMax && t.Incl {
			return F(t.FMin), true
		}
	case "or":
		// a member that has more than one value, or members with different values, make it a type with many values
		var first *V
		for _, st := range t.Sub {
			v, ok := ExactOf(st)
			if ok && (v == nil || first != nil && !first.Equal(v)) {
				return nil, true
			}
			if ok {
				first = v
			}
		}
		return nil, false
	case "meta", "func", "sensitive":
		return nil, true
	case "tuple", "struct", "array", "one", "and", "map", "not":
		return nil, false
	}
	return nil, true
}

func synMeta(t *Ty) *Ty {
	return &Ty{Name: "type[" + t.Name + "]", Op: "meta", Sub: []*Ty{t}, build: func() dgo.Type { return tf.Meta(t.Build()) },
		has: func(v *V) bool { return false }}
}

// TFunc is a function type, it has no members in the model
func TFunc(in, out *Ty) *Ty {
	return &Ty{Name: "func" + in.Name + out.Name, Op: "func", Sub: []*Ty{in, out}, build: func() dgo.Type {
		return tf.Function(synTuple(in), synTuple(out))
	}, has: func(v *V) bool { return false }}
}

func synTuple(t *Ty) dgo.TupleType {
	if len(t.Sub) == 0 {
		return typ.EmptyTuple
	}
	return t.Build().(dgo.TupleType)
}

var synNum = regexp.MustCompile(`^[-+]?([0-9]+)`)

// Lex splits the text into tokens. The returned boolean is false if the text contains something that isn't a token.
func Lex(s string) (ts []Tok, ok bool) {
	if !utf8.ValidString(s) || strings.IndexByte(s, 0) >= 0 {
		return nil, false
	}
	letter := func(i int) bool {
		return i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z')
	}
	dig := func(i int) bool { return i < len(s) && s[i] >= '0' && s[i] <= '9' }
	hex := func(i int) bool {
		return i < len(s) && (dig(i) || s[i] >= 'a' && s[i] <= 'f' || s[i] >= 'A' && s[i] <= 'F')
	}
	at := func(i int, x string) bool { return i <= len(s) && strings.HasPrefix(s[i:], x) }
	for i := 0; i < len(s); {
		c := s[i]
		b := i
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
			continue
		case c == '`':
			e := strings.IndexByte(s[i+1:], '`')
			if e < 0 {
				return nil, false
			}
			i += e + 2
			ts = append(ts, Tok{K: KStr, S: s[b+1 : i-1]})
		case c == '"':
			v, n, good := lexString(s[i+1:])
			if !good {
				return nil, false
			}
			i += n + 1
			ts = append(ts, Tok{K: KStr, S: v})
		case c == '/':
			v := ""
			for i++; ; i++ {
				if i >= len(s) || s[i] == '\n' {
					return nil, false
				}
				if s[i] == '/' {
					break
				}
				if s[i] == '\\' {
					i++
					if i >= len(s) {
						return nil, false
					}
					if s[i] != '/' {
						v += `\`
					}
				}
				v += s[i : i+1]
			}
			i++
			ts = append(ts, Tok{K: KRegexp, S: v})
		case at(i, "..."):
			i += 3
			ts = append(ts, Tok{K: KDots3})
		case at(i, ".."):
			i += 2
			ts = append(ts, Tok{K: KDots2})
		case dig(i) || (c == '-' || c == '+'):
			m := synNum.FindString(s[i:])
			if m == "" {
				return nil, false
			}
			first := i
			if !dig(first) {
				first++
			}
			i += len(m)
			isFloat := false
			if (at(i, "x") || at(i, "X")) && s[first] == '0' {
				i++
				if !hex(i) {
					return nil, false
				}
				for hex(i) {
					i++
				}
			} else {
				if at(i, "x") || at(i, "X") {
					return nil, false
				}
				if at(i, ".") && !at(i, "..") {
					isFloat = true
					i++
					if !dig(i) {
						return nil, false
					}
					for dig(i) {
						i++
					}
					if at(i, ".") && !at(i, "..") || at(i, "x") || at(i, "X") {
						return nil, false
					}
				}
				if at(i, "e") || at(i, "E") {
					isFloat = true
					i++
					if at(i, "+") || at(i, "-") {
						i++
					}
					if !dig(i) {
						return nil, false
					}
					for dig(i) {
						i++
					}
					if letter(i) || at(i, ".") && !at(i, "..") {
						return nil, false
					}
				}
			}
			txt := strings.TrimPrefix(s[b:i], "+")
			if isFloat {
				f, err := strconv.ParseFloat(txt, 64)
				if err != nil {
					return nil, false
				}
				ts = append(ts, Tok{K: KFloat, F: f})
			} else {
				n, err := strconv.ParseInt(txt, 0, 64)
				if err != nil {
					// only an error if the token is used as an integer, and it can't be used as anything else
					return nil, false
				}
				ts = append(ts, Tok{K: KInt, I: n})
			}
		case letter(i) || c == '$' || c == '_':
			for letter(i) || dig(i) || at(i, "$") || at(i, "_") {
				i++
			}
			ts = append(ts, Tok{K: KIdent, S: s[b:i]})
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			i += n
			ts = append(ts, Tok{K: TokKind(r)})
		}
		ts[len(ts)-1].Text = s[b:i]
	}
	return ts, true
}

// lexString interprets the text up to the ending quote and returns the number of bytes consumed
func lexString(s string) (v string, n int, ok bool) { return lexStringTo(s, '"') }

func lexStringTo(s string, quote byte) (v string, n int, ok bool) {
	b := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] == quote {
			return string(b), i + 1, true
		}
		switch s[i] {
		case '"':
			b = append(b, '"')
		case '\n':
			return
		case '\\':
			i++
			if i >= len(s) {
				return
			}
			w := 0
			switch s[i] {
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'a':
				b = append(b, 7)
			case 'b':
				b = append(b, 8)
			case 'f':
				b = append(b, 12)
			case 'v':
				b = append(b, 11)
			case '\\', quote:
				b = append(b, s[i])
			case 'x':
				w = 2
			case 'u':
				w = 4
			case 'U':
				w = 8
			default:
				return
			}
			if w > 0 {
				if i+w >= len(s) {
					return
				}
				x, err := strconv.ParseUint(s[i+1:i+1+w], 16, 64)
				if err != nil || strings.ContainsAny(s[i+1:i+1+w], "+-_") {
					return
				}
				if w == 2 {
					b = append(b, byte(x))
				} else {
					if x > utf8.MaxRune || !utf8.ValidRune(rune(x)) {
						return
					}
					b = utf8.AppendRune(b, rune(x))
				}
				i += w
			}
		default:
			b = append(b, s[i])
		}
	}
	return
}
