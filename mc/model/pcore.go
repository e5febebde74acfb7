package model

import (
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// This file is a reference for the pcore type language: a lexer, and a parser that tells whether a sequence of tokens is
// an expression and what the expression denotes. It shares nothing with the implementation.

const (
	KName   TokKind = -100
	KRocket TokKind = -101
)

// pcD is what a pcore expression denotes
type pcD struct {
	V *V  // a value
	T *Ty // a type
	// typ is true for a type that isn't known, unk is true for something that isn't known (it may or may not be a type)
	typ, unk   bool
	isList     bool
	list       []pcD
	isMap      bool
	keys, vals []pcD
}

func pcT(t *Ty) pcD { return pcD{T: t} }

func (d pcD) isType() bool { return d.T != nil || d.typ }

// value is the denoted value, nil if it isn't known
func (d pcD) value() *V {
	switch {
	case d.V != nil:
		return d.V
	case d.T != nil:
		return TV(d.T)
	case d.isList:
		es := make([]*V, len(d.list))
		for i, e := range d.list {
			if es[i] = e.value(); es[i] == nil {
				return nil
			}
		}
		return A(es...)
	case d.isMap:
		m := M()
		for i, k := range d.keys {
			kv, ev := k.value(), d.vals[i].value()
			if kv == nil || ev == nil {
				return nil
			}
			m.Put(kv, ev)
		}
		return m
	}
	return nil
}

// asTy is the type that accepts what is denoted: a type, or the exact type of a value
func (d pcD) asTy() *Ty {
	if d.T != nil {
		return d.T
	}
	if v := d.value(); v != nil {
		return TExact(v)
	}
	return nil
}

type pcParser struct {
	ts      []Tok
	p       int
	aliases map[string]pcD
	refs    map[string]bool
	open    map[string]bool
	undet   bool
}

// ParsePcore parses the tokens. The reference can't tell if the expression is valid when undet is true
func ParsePcore(ts []Tok) (d Denoted, undet bool, err *SynErr) {
	p := &pcParser{ts: ts, aliases: map[string]pcD{}, refs: map[string]bool{}, open: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*SynErr)
			if !ok {
				panic(r)
			}
			err = e
			undet = p.undet
		}
	}()
	x := p.element()
	if p.peek().K == KRocket {
		p.p++
		v := p.element()
		x = pcD{isMap: true, keys: []pcD{x}, vals: []pcD{v}}
	}
	if p.peek().K != KEnd {
		p.fail("end")
	}
	var names []string
	for n := range p.refs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if _, ok := p.aliases[n]; !ok {
			return d, p.undet, &SynErr{At: len(ts), Msg: "unresolved " + n}
		}
	}
	switch {
	case len(names) > 0: // declared after it was referenced
	case x.T != nil:
		d.T = x.T
	default:
		d.V = x.value()
	}
	return d, p.undet, nil
}

func (p *pcParser) peek() Tok {
	if p.p < len(p.ts) {
		return p.ts[p.p]
	}
	return Tok{K: KEnd}
}

func (p *pcParser) fail(msg string) { panic(&SynErr{At: p.p, Msg: msg, Final: p.p < len(p.ts)}) }

func (p *pcParser) bad(msg string) { panic(&SynErr{At: p.p, Msg: msg, Final: true}) }

func (p *pcParser) need(k TokKind) {
	if p.peek().K != k {
		p.fail("missing token")
	}
	p.p++
}

func (p *pcParser) element() pcD {
	t := p.peek()
	switch t.K {
	case '{':
		p.p++
		return p.hash()
	case '[':
		p.p++
		return p.array(']')
	case KInt:
		p.p++
		return pcD{V: I(t.I)}
	case KFloat:
		p.p++
		return pcD{V: F(t.F)}
	case KStr:
		p.p++
		return pcD{V: S(t.S)}
	case KRegexp:
		p.p++
		if _, err := regexp.Compile(t.S); err != nil {
			p.bad("bad regexp")
		}
		return pcD{V: R(t.S)}
	case KIdent:
		p.p++
		switch t.S {
		case "true":
			return pcD{V: B(true)}
		case "false":
			return pcD{V: B(false)}
		case "undef":
			return pcD{V: N()}
		case "type":
			if p.peek().K == KName {
				n := p.peek().S
				p.p++
				p.need('=')
				return p.declare(n)
			}
		}
		return pcD{V: S(t.S)}
	case KName:
		p.p++
		d := p.typeName(t.S)
		if p.peek().K == '(' {
			p.p++
			p.array(')')
			p.undet = true
			return pcD{unk: true}
		}
		return d
	}
	p.fail("literal expected")
	return pcD{}
}

// array is a list of elements and entries, where adjacent entries form a hash. A trailing comma is accepted
func (p *pcParser) array(end TokKind) pcD {
	l := pcD{isList: true}
	entries := false
	for p.peek().K != end {
		d := p.element()
		if p.peek().K == KRocket {
			p.p++
			v := p.element()
			if n := len(l.list); entries {
				l.list[n-1].keys = append(l.list[n-1].keys, d)
				l.list[n-1].vals = append(l.list[n-1].vals, v)
			} else {
				l.list = append(l.list, pcD{isMap: true, keys: []pcD{d}, vals: []pcD{v}})
			}
			entries = true
		} else {
			entries = false
			l.list = append(l.list, d)
		}
		if p.peek().K == end {
			break
		}
		p.need(',')
	}
	p.p++
	return l
}

func (p *pcParser) hash() pcD {
	m := pcD{isMap: true}
	for p.peek().K != '}' {
		k := p.element()
		p.need(KRocket)
		v := p.element()
		m.keys = append(m.keys, k)
		m.vals = append(m.vals, v)
		if p.peek().K == '}' {
			break
		}
		p.need(',')
	}
	p.p++
	return m
}

var pcSimple = map[string]*Ty{"Any": TAny, "Boolean": TBool, "False": TExact(B(false)), "True": TExact(B(true)), "Timestamp": TTime, "Undef": TNil}

var pcParam = map[string]bool{"Array": true, "Binary": true, "Callable": true, "Float": true, "Enum": true, "Hash": true, "Integer": true, "Number": true, "NotUndef": true, "Optional": true, "Pattern": true, "Regexp": true, "Sensitive": true, "String": true, "Struct": true, "Tuple": true, "Type": true, "Variant": true}

func (p *pcParser) declare(n string) pcD {
	if _, ok := p.aliases[n]; ok || pcSimple[n] != nil || pcParam[n] {
		p.bad("redeclaration")
	}
	p.aliases[n] = pcD{typ: true}
	p.open[n] = true
	d := p.element()
	delete(p.open, n)
	if !d.isType() && !d.unk {
		p.bad("alias of a value")
	}
	if d.unk {
		p.undet = true
	}
	p.aliases[n] = d
	return d
}

func (p *pcParser) typeName(n string) pcD {
	if t := pcSimple[n]; t != nil {
		return pcT(t)
	}
	if pcParam[n] {
		if p.peek().K != '[' {
			return pcDefault(n)
		}
		p.p++
		args := p.array(']').list
		return p.parameterized(n, args)
	}
	if d, ok := p.aliases[n]; ok {
		if p.open[n] {
			p.undet = true
		}
		return d
	}
	p.refs[n] = true
	return pcD{typ: true}
}

func pcDefault(n string) pcD {
	anys := TTuple(true, TAny)
	switch n {
	case "Array":
		return pcT(TArr(TAny, 0, Inf))
	case "Binary":
		return pcT(TBin)
	case "Callable":
		return pcT(TFunc(anys, anys))
	case "Enum", "Pattern", "String":
		return pcT(TString)
	case "Float":
		return pcT(TFloat)
	case "Hash":
		return pcT(TMapOf(TAny, TAny, 0, Inf))
	case "Integer":
		return pcT(TInt)
	case "Number":
		return pcT(TOr(TInt, TFloat))
	case "NotUndef":
		return pcT(TNot(TNil))
	case "Optional":
		return pcT(TAny)
	case "Regexp":
		return pcT(TRegexp)
	case "Sensitive":
		return pcT(TSens(TAny))
	case "Struct":
		return pcT(TStruct(true))
	case "Tuple":
		return pcT(anys)
	case "Type":
		return pcT(synMeta(TAny))
	}
	return pcD{typ: true}
}

func (p *pcParser) count(args []pcD, min, max int) {
	if len(args) < min || len(args) > max {
		p.bad("argument count")
	}
}

// ifSize is an integer or default
func (p *pcParser) ifSize(d pcD, dflt int64) (int64, bool) {
	switch {
	case d.unk:
		p.undet = true
	case d.V != nil && d.V.K == Int:
		return d.V.I, true
	case d.V != nil && d.V.K == Str && d.V.S == "default":
		return dflt, true
	}
	return 0, false
}

func (p *pcParser) size(d pcD, dflt int64) int64 {
	n, ok := p.ifSize(d, dflt)
	if !ok {
		p.bad("size expected")
	}
	return n
}

func (p *pcParser) sizes(args []pcD) (min, max int64) {
	max = Inf
	if len(args) > 0 {
		min = p.size(args[0], 0)
	}
	if len(args) > 1 {
		max = p.size(args[1], Inf)
	}
	if min < 0 {
		min = 0
	}
	if max < 0 {
		max = 0
	}
	if min > max {
		min, max = max, min
	}
	return
}

func (p *pcParser) float(d pcD, dflt float64) float64 {
	if d.V != nil && d.V.K == Float {
		return d.V.F
	}
	n, ok := p.ifSize(d, 0)
	if !ok {
		p.bad("number expected")
	}
	if d.V.K == Str {
		return dflt
	}
	return float64(n)
}

func (p *pcParser) needType(d pcD) *Ty {
	if d.unk {
		p.undet = true
	}
	if !d.isType() {
		p.bad("type expected")
	}
	return d.T
}

func (p *pcParser) parameterized(n string, args []pcD) pcD {
	unknown := pcD{typ: true}
	switch n {
	case "Array":
		p.count(args, 1, 3)
		et := TAny
		if len(args) < 3 {
			if _, ok := p.ifSize(args[0], 0); !ok {
				et = p.needType(args[0])
				args = args[1:]
			}
		} else {
			et = p.needType(args[0])
			args = args[1:]
		}
		min, max := p.sizes(args)
		if et == nil {
			return unknown
		}
		return pcT(TArr(et, min, max))
	case "Binary":
		p.count(args, 1, 2)
		return pcT(TBinSized(p.sizes(args)))
	case "Callable":
		return p.callable(args)
	case "Enum":
		p.count(args, 1, math.MaxInt32)
		ci := false
		if l := args[len(args)-1]; l.V != nil && l.V.K == Bool {
			ci = l.V.B
			args = args[:len(args)-1]
		} else if l.unk {
			p.undet = true
		}
		ts := []*Ty{}
		for _, a := range args {
			if a.unk {
				p.undet = true
				return unknown
			}
			if a.V == nil || a.V.K != Str {
				p.bad("string expected")
			}
			if ci {
				ts = append(ts, TCi(a.V.S))
			} else {
				ts = append(ts, TExact(a.V))
			}
		}
		switch len(ts) {
		case 0:
			p.undet = true
			return unknown
		case 1:
			return pcT(ts[0])
		}
		return pcT(TOr(ts...))
	case "Float":
		p.count(args, 1, 2)
		from := p.float(args[0], -math.MaxFloat64)
		to := math.MaxFloat64
		if len(args) > 1 {
			to = p.float(args[1], to)
		}
		if from > to {
			from, to = to, from
		}
		return pcT(TFloatRange(from, to, true))
	case "Integer":
		p.count(args, 1, 2)
		from := p.size(args[0], math.MinInt64)
		to := int64(math.MaxInt64)
		if len(args) > 1 {
			to = p.size(args[1], to)
		}
		if from > to {
			from, to = to, from
		}
		return pcT(TIntRange(from, to, true))
	case "Number":
		return p.number(args)
	case "Hash":
		p.count(args, 1, 4)
		kt, vt := TAny, TAny
		sized := false
		if len(args) < 3 {
			_, sized = p.ifSize(args[0], 0)
		}
		if !sized && len(args) == 1 {
			p.bad("size expected")
		}
		if !sized {
			kt, vt = p.needType(args[0]), p.needType(args[1])
			args = args[2:]
		}
		min, max := p.sizes(args)
		if kt == nil || vt == nil {
			return unknown
		}
		return pcT(TMapOf(kt, vt, min, max))
	case "NotUndef":
		p.count(args, 1, 1)
		if args[0].V != nil && args[0].V.K == Str {
			p.undet = true
		}
		t := p.needType(args[0])
		switch {
		case t == nil:
			return unknown
		case t.Op == "any":
			return pcT(TNot(TNil))
		case t.Has(N()):
			return pcT(TAnd(TNot(TNil), t))
		}
		return pcT(t)
	case "Optional":
		p.count(args, 1, 1)
		var t *Ty
		if a := args[0]; a.V != nil && a.V.K == Str {
			t = TExact(a.V)
		} else if t = p.needType(a); t == nil {
			return unknown
		}
		if t.Has(N()) {
			return pcT(t)
		}
		return pcT(TOr(TNil, t))
	case "Pattern":
		p.count(args, 1, math.MaxInt32)
		ts := make([]*Ty, len(args))
		for i, a := range args {
			rx, ok := p.rx(a)
			if !ok {
				return unknown
			}
			ts[i] = TPattern(rx)
		}
		if len(ts) == 1 {
			return pcT(ts[0])
		}
		return pcT(TOr(ts...))
	case "Regexp":
		p.count(args, 1, 1)
		rx, ok := p.rx(args[0])
		if !ok {
			return unknown
		}
		return pcT(TExact(R(rx)))
	case "Sensitive":
		p.count(args, 0, 1)
		if len(args) == 0 {
			p.undet = true
			return unknown
		}
		if t := p.needType(args[0]); t != nil {
			return pcT(TSens(t))
		}
		return unknown
	case "String":
		p.count(args, 1, 2)
		if a := args[0]; len(args) == 1 && a.V != nil && a.V.K == Str {
			if a.V.S == "default" { // a size or a string?
				p.undet = true
				return unknown
			}
			return pcT(TExact(a.V))
		}
		return pcT(TStringSized(p.sizes(args)))
	case "Struct":
		return p.strct(args)
	case "Tuple":
		p.count(args, 1, math.MaxInt32)
		if t := p.tuple(args); t != nil {
			return pcT(t)
		}
		return unknown
	case "Type":
		p.count(args, 1, 1)
		if t := p.needType(args[0]); t != nil {
			return pcT(synMeta(t))
		}
		return unknown
	case "Variant":
		if len(args) == 0 {
			p.undet = true
			return unknown
		}
		ts := make([]*Ty, len(args))
		known := true
		for i, a := range args {
			if ts[i] = p.needType(a); ts[i] == nil {
				known = false
			}
		}
		switch {
		case !known:
			return unknown
		case len(ts) == 1:
			return pcT(ts[0])
		}
		return pcT(TOr(ts...))
	}
	panic(n)
}

func (p *pcParser) rx(d pcD) (string, bool) {
	if d.unk {
		p.undet = true
		return "", false
	}
	if d.V == nil || d.V.K != Str && d.V.K != Rx {
		p.bad("pattern expected")
	}
	if _, err := regexp.Compile(d.V.S); err != nil {
		p.bad("bad pattern")
	}
	return d.V.S, true
}

// number is the floats between the limits and the integers between them
func (p *pcParser) number(args []pcD) pcD {
	p.count(args, 1, 2)
	lo, hi := args[0], pcD{V: S("default")}
	from := p.float(lo, -math.MaxFloat64)
	if len(args) > 1 {
		hi = args[1]
	}
	to := p.float(hi, math.MaxFloat64)
	if from > to {
		from, to = to, from
		lo, hi = hi, lo
	}
	fr := TFloatRange(from, to, true)
	in := func(n int64) bool {
		ok := true
		switch lo.V.K {
		case Int:
			ok = n >= lo.V.I
		case Float:
			ok = bigCmp(n, lo.V.F) >= 0
		}
		switch hi.V.K {
		case Int:
			ok = ok && n <= hi.V.I
		case Float:
			ok = ok && bigCmp(n, hi.V.F) <= 0
		}
		return ok
	}
	min, max := int64(math.MinInt64), int64(math.MaxInt64)
	// the smallest and largest numbers that are in the range
	limit := func(d pcD, dflt int64) int64 {
		switch d.V.K {
		case Int:
			return d.V.I
		case Float:
			switch {
			case d.V.F < -9223372036854775808:
				return math.MinInt64
			case d.V.F >= 9223372036854775808:
				return math.MaxInt64
			}
			return int64(d.V.F)
		}
		return dflt
	}
	min, max = limit(lo, min), limit(hi, max)
	for !in(min) && min < max {
		min++
	}
	for !in(max) && min < max {
		max--
	}
	if min > max || !in(min) {
		return pcT(fr)
	}
	return pcT(TOr(TIntRange(min, max, true), fr))
}

// bigCmp compares exactly
func bigCmp(n int64, f float64) int {
	switch {
	case f >= 9223372036854775808:
		return -1
	case f < -9223372036854775808:
		return 1
	}
	i := int64(f)
	switch {
	case n < i:
		return -1
	case n > i:
		return 1
	}
	switch r := f - float64(i); {
	case r > 0:
		return -1
	case r < 0:
		return 1
	}
	return 0
}

// tuple sizes other than the number of types are approximated by a variadic tuple
func (p *pcParser) tuple(args []pcD) *Ty {
	exact := true
	l := len(args)
	// tells if the size is the number of types that remain
	sz := func(d pcD, l int) (bool, bool) {
		n, ok := p.ifSize(d, int64(l))
		if n < 0 {
			p.undet = true
		}
		return n == int64(l), ok
	}
	if l > 0 {
		if _, ok := sz(args[l-1], l-1); ok {
			exact = false
			l--
			if l > 0 {
				if is, ok := sz(args[l-1], l-1); ok {
					l--
					isMax, _ := sz(args[l+1], l)
					exact = is && isMax
				}
			}
		}
	}
	ts := make([]*Ty, l)
	known := true
	for i, a := range args[:l] {
		if ts[i] = p.needType(a); ts[i] == nil {
			known = false
		}
	}
	switch {
	case !known:
		return nil
	case exact:
		return TTuple(false, ts...)
	case l == 0:
		return TTuple(true, TAny)
	}
	return TTuple(true, ts...)
}

func (p *pcParser) callable(args []pcD) pcD {
	p.count(args, 1, math.MaxInt32)
	out := TTuple(false)
	if len(args) == 2 && args[0].isList {
		rt := p.needType(args[1])
		args = args[0].list
		if rt == nil {
			out = nil
		} else {
			out = TTuple(false, rt)
		}
	}
	if l := len(args); l > 1 {
		if b := args[l-1]; b.T != nil && b.T.Op == "func" {
			// the block goes first, it's not counted
			as := append([]pcD{b}, args[:l-1]...)
			inc := func(i int, dflt int64) bool {
				n, ok := p.ifSize(as[i], dflt)
				if ok && n == -1 {
					p.undet = true
				}
				if ok && n != math.MinInt64 {
					as[i] = pcD{V: I(n + 1)}
				}
				return ok
			}
			if inc(l-1, math.MinInt64) && l > 2 {
				inc(l-2, 0) // here, the default is zero
			}
			args = as
		} else if b.typ || b.unk {
			p.undet = p.undet || b.unk
		}
	}
	in := p.tuple(args)
	if in == nil || out == nil {
		return pcD{typ: true}
	}
	return pcT(TFunc(in, out))
}

func (p *pcParser) strct(args []pcD) pcD {
	p.count(args, 1, 1)
	m := args[0]
	if m.unk {
		p.undet = true
		return pcD{typ: true}
	}
	if !m.isMap {
		p.bad("hash expected")
	}
	var es []SE
	known := true
	for i, k := range m.keys {
		req := true
		if k.T != nil && k.T.Op == "or" && len(k.T.Sub) == 2 && k.T.Sub[0].Op == "nil" {
			req = false
			k = pcT(k.T.Sub[1])
		}
		var kv *V
		switch {
		case k.unk, k.typ:
			p.undet = true
		case k.T != nil:
			v, ok := ExactOf(k.T)
			if !ok {
				p.undet = true
			} else if v == nil {
				p.bad("exact key expected")
			}
			kv = v
		default:
			if kv = k.value(); kv == nil {
				p.undet = true
			}
		}
		t := m.vals[i].asTy()
		if kv == nil || t == nil {
			known = false
			continue
		}
		for _, e := range es {
			if e.Key.Equal(kv) {
				p.undet = true
				known = false
			}
		}
		es = append(es, SE{Key: kv, Req: req, Ty: t})
	}
	if !known {
		return pcD{typ: true}
	}
	return pcT(TStruct(false, es...))
}

// PcoreType is a type and its pcore text
type PcoreType struct {
	Text string
	Ty   *Ty
}

// LexPcore splits the text into tokens. The returned boolean is false if the text contains something that isn't a token.
func LexPcore(s string) (ts []Tok, ok bool) {
	if !utf8.ValidString(s) || strings.IndexByte(s, 0) >= 0 {
		return nil, false
	}
	is := func(i int, set string) bool {
		if i >= len(s) {
			return false
		}
		c := s[i]
		for _, k := range set {
			switch k {
			case 'a':
				if c >= 'a' && c <= 'z' {
					return true
				}
			case 'A':
				if c >= 'A' && c <= 'Z' {
					return true
				}
			case '0':
				if c >= '0' && c <= '9' {
					return true
				}
			default:
				if c == byte(k) {
					return true
				}
			}
		}
		return false
	}
	for i := 0; i < len(s); {
		b := i
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
			continue
		case c == '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		case c == '\'' || c == '"':
			v, n, good := lexStringTo(s[i+1:], c)
			if !good {
				return nil, false
			}
			i += n + 1
			ts = append(ts, Tok{K: KStr, S: v})
		case c == '/':
			v := ""
			for i++; ; i++ {
				if i >= len(s) || s[i] == '\n' {
					return nil, false
				}
				if s[i] == '/' {
					break
				}
				if s[i] == '\\' {
					i++
					if i >= len(s) {
						return nil, false
					}
					if s[i] != '/' {
						v += `\`
					}
				}
				v += s[i : i+1]
			}
			i++
			ts = append(ts, Tok{K: KRegexp, S: v})
		case c == '=' && i+1 < len(s) && s[i+1] == '>':
			i += 2
			ts = append(ts, Tok{K: KRocket})
		case is(i, "0-+"):
			txt, n, isFloat := lexNumber(s[i:])
			if n == 0 {
				return nil, false
			}
			i += n
			if isFloat {
				f, err := strconv.ParseFloat(txt, 64)
				if err != nil {
					return nil, false
				}
				ts = append(ts, Tok{K: KFloat, F: f})
			} else {
				n, err := strconv.ParseInt(txt, 0, 64)
				if err != nil {
					return nil, false
				}
				ts = append(ts, Tok{K: KInt, I: n})
			}
		case is(i, "aA"):
			first, k := "a_", KIdent
			if is(i, "A") {
				first, k = "A", KName
			}
			for i++; ; {
				for is(i, "aA0_") {
					i++
				}
				if !is(i, ":") {
					break
				}
				if !is(i+1, ":") || !is(i+2, first) {
					return nil, false
				}
				i += 3
			}
			ts = append(ts, Tok{K: k, S: s[b:i]})
		case c < ' ':
			return nil, false
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			i += n
			ts = append(ts, Tok{K: TokKind(r)})
		}
		ts[len(ts)-1].Text = s[b:i]
	}
	return ts, true
}

func lexNumber(s string) (txt string, n int, isFloat bool) {
	// a number ends with the longest prefix of the text that can be extended to a number, which must be a number
	rx := synNumber.FindString(s)
	if rx == "" {
		return
	}
	rest := s[len(rx):]
	frac := strings.Contains(rx, ".")
	hex := strings.ContainsAny(rx, "xX")
	exp := !hex && strings.ContainsAny(rx, "eE")
	switch {
	case rest == "":
	case hex:
	case strings.HasPrefix(rest, ".."):
	case rest[0] == '.' || rest[0] == 'x' || rest[0] == 'X' || rest[0] == 'e' || rest[0] == 'E':
		return "", 0, false
	case exp && (rest[0] >= 'a' && rest[0] <= 'z' || rest[0] >= 'A' && rest[0] <= 'Z'):
		return "", 0, false
	}
	return strings.TrimPrefix(rx, "+"), len(rx), frac || exp
}

var synNumber = regexp.MustCompile(`^[-+]?(0[xX][0-9a-fA-F]+|[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?)`)
