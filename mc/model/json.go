package model

import (
	"encoding/base64"
	"fmt"
	"math"
	"strconv"
	"time"
	"unicode/utf8"
)

// JNode is a node of a JSON document. K is one of n (null), t, f, # (number), " (string), [ and {. The elements of an
// array and the keys and values of an object are in L.
type JNode struct {
	K byte
	S string
	L []*JNode
}

type jsonParser struct {
	s   string
	pos int
}

type jsonErr string

func (p *jsonParser) fail(f string, a ...interface{}) { panic(jsonErr(fmt.Sprintf(f, a...))) }

func (p *jsonParser) ws() {
	for p.pos < len(p.s) {
		switch p.s[p.pos] {
		case ' ', '\t', '\r', '\n':
			p.pos++
		default:
			return
		}
	}
}

func (p *jsonParser) peek() byte {
	if p.pos < len(p.s) {
		return p.s[p.pos]
	}
	return 0
}

func (p *jsonParser) value(depth int) *JNode {
	p.ws()
	if p.pos >= len(p.s) {
		p.fail("unexpected end")
	}
	switch c := p.s[p.pos]; {
	case c == '[':
		p.pos++
		n := &JNode{K: '['}
		p.ws()
		if p.peek() == ']' {
			p.pos++
			return n
		}
		for {
			n.L = append(n.L, p.value(depth+1))
			p.ws()
			switch p.peek() {
			case ',':
				p.pos++
			case ']':
				p.pos++
				return n
			default:
				p.fail("expected , or ] at %d", p.pos)
			}
		}
	case c == '{':
		p.pos++
		n := &JNode{K: '{'}
		p.ws()
		if p.peek() == '}' {
			p.pos++
			return n
		}
		for {
			p.ws()
			if p.peek() != '"' {
				p.fail("expected string at %d", p.pos)
			}
			n.L = append(n.L, p.value(depth+1))
			p.ws()
			if p.peek() != ':' {
				p.fail("expected : at %d", p.pos)
			}
			p.pos++
			n.L = append(n.L, p.value(depth+1))
			p.ws()
			switch p.peek() {
			case ',':
				p.pos++
			case '}':
				p.pos++
				return n
			default:
				p.fail("expected , or } at %d", p.pos)
			}
		}
	case c == '"':
		return p.str()
	case c == '-' || c >= '0' && c <= '9':
		return p.num()
	}
	for _, w := range []string{"null", "true", "false"} {
		if len(p.s)-p.pos >= len(w) && p.s[p.pos:p.pos+len(w)] == w {
			p.pos += len(w)
			return &JNode{K: w[0]}
		}
	}
	p.fail("unexpected character at %d", p.pos)
	return nil
}

func (p *jsonParser) digits() {
	if c := p.peek(); c < '0' || c > '9' {
		p.fail("expected digit at %d", p.pos)
	}
	for c := p.peek(); c >= '0' && c <= '9'; c = p.peek() {
		p.pos++
	}
}

func (p *jsonParser) num() *JNode {
	st := p.pos
	if p.peek() == '-' {
		p.pos++
	}
	if p.peek() == '0' {
		p.pos++
	} else {
		p.digits()
	}
	if p.peek() == '.' {
		p.pos++
		p.digits()
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.pos++
		if c := p.peek(); c == '+' || c == '-' {
			p.pos++
		}
		p.digits()
	}
	return &JNode{K: '#', S: p.s[st:p.pos]}
}

func (p *jsonParser) hex4() (r rune) {
	if len(p.s)-p.pos < 4 {
		p.fail("short escape")
	}
	for i := 0; i < 4; i++ {
		c := p.s[p.pos]
		p.pos++
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | rune(c-'A'+10)
		default:
			p.fail("bad escape at %d", p.pos)
		}
	}
	return
}

func (p *jsonParser) str() *JNode {
	p.pos++
	var b []byte
	put := func(r rune) { b = append(b, string(r)...) }
	for {
		if p.pos >= len(p.s) {
			p.fail("unterminated string")
		}
		c := p.s[p.pos]
		switch {
		case c == '"':
			p.pos++
			return &JNode{K: '"', S: string(b)}
		case c < 0x20:
			p.fail("control character at %d", p.pos)
		case c == '\\':
			p.pos++
			e := p.peek()
			p.pos++
			switch e {
			case '"', '\\', '/':
				b = append(b, e)
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'u':
				r := p.hex4()
				switch {
				case r >= 0xd800 && r < 0xdc00:
					if len(p.s)-p.pos >= 6 && p.s[p.pos] == '\\' && p.s[p.pos+1] == 'u' {
						sv := p.pos
						p.pos += 2
						if r2 := p.hex4(); r2 >= 0xdc00 && r2 < 0xe000 {
							put((r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000)
							break
						}
						p.pos = sv
					}
					put(0xfffd)
				case r >= 0xdc00 && r < 0xe000:
					put(0xfffd)
				default:
					put(r)
				}
			default:
				p.fail("bad escape at %d", p.pos)
			}
		default:
			r, w := utf8.DecodeRuneInString(p.s[p.pos:])
			put(r)
			p.pos += w
		}
	}
}

// ParseJSON is a strict parser of one JSON document
func ParseJSON(s string) (n *JNode, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			n, err = nil, fmt.Errorf("%s", string(e))
		}
	}()
	p := &jsonParser{s: s}
	n = p.value(0)
	p.ws()
	if p.pos < len(p.s) {
		p.fail("trailing characters at %d", p.pos)
	}
	return
}

// JDialect are the reserved words of a dialect
type JDialect struct{ Type, Value, Ref, Alias, Binary, Map, Sensitive, Time string }

var (
	DgoWords   = &JDialect{"__type", "__value", "__ref", "alias", "binary", "map", "sensitive", "time"}
	PcoreWords = &JDialect{"__ptype", "__pvalue", "__pref", "Alias", "Binary", "Hash", "Sensitive", "Timestamp"}
)

// JResult is the meaning of a document
type JResult struct {
	V *V // the value, with shared parts copied
	// Err says why the document must be rejected
	Err string
	// Undet is set when the document uses reserved keys in a way that has no defined meaning or denotes a cycle
	Undet string
	// Refs is the number of references
	Refs int
}

type jsonDenoter struct {
	ref  string
	done []*V // by reference index. nil while a collection is incomplete
	res  *JResult
}

// Denote gives the meaning of a document: references are resolved using the position in the sequence of values and keys,
// and reserved keys denote rich data. typeOf gives the value that a type string denotes.
func (n *JNode) Denote(d *JDialect, typeOf func(string) *V) *JResult {
	x := &jsonDenoter{ref: d.Ref, res: &JResult{}}
	v := x.node(n)
	if x.res.Err == "" && x.res.Undet == "" {
		v = Enrich(v, d, typeOf, x.res)
	}
	x.res.V = v
	return x.res
}

// Plain is the content of the document without any interpretation of reserved keys
func (n *JNode) Plain() *V {
	x := &jsonDenoter{res: &JResult{}}
	v := x.node(n)
	if x.res.Err != "" {
		return nil
	}
	return v
}

// Raw is the content of the document with its references resolved
func (n *JNode) Raw(d *JDialect) *JResult {
	x := &jsonDenoter{ref: d.Ref, res: &JResult{}}
	x.res.V = x.node(n)
	return x.res
}

func (r *JResult) err(f string, a ...interface{}) {
	if r.Err == "" {
		r.Err = fmt.Sprintf(f, a...)
	}
}

func (r *JResult) undet(f string, a ...interface{}) {
	if r.Undet == "" {
		r.Undet = fmt.Sprintf(f, a...)
	}
}

func (x *jsonDenoter) add(v *V) *V { x.done = append(x.done, v); return v }

func (x *jsonDenoter) node(n *JNode) *V {
	switch n.K {
	case 'n':
		return x.add(N())
	case 't':
		return x.add(B(true))
	case 'f':
		return x.add(B(false))
	case '"':
		return x.add(S(n.S))
	case '#':
		if i, err := strconv.ParseInt(n.S, 10, 64); err == nil {
			return x.add(I(i))
		}
		f, err := strconv.ParseFloat(n.S, 64)
		if err != nil || math.IsInf(f, 0) {
			x.res.err("number out of range")
		}
		return x.add(F(f))
	case '[':
		i := len(x.done)
		x.add(nil)
		v := A()
		for _, e := range n.L {
			v.L = append(v.L, x.node(e))
		}
		x.done[i] = v
		return v
	}
	if x.ref != "" && len(n.L) > 0 && n.L[0].S == x.ref {
		x.res.Refs++
		num := n.L[1]
		r, err := strconv.ParseInt(num.S, 10, 64)
		if num.K != '#' || err != nil {
			x.res.err("reference isn't an integer")
			return N()
		}
		if len(n.L) != 2 {
			x.res.err("something after reference")
			return N()
		}
		if r < 0 || r >= int64(len(x.done)) {
			x.res.err("dangling reference")
			return N()
		}
		if v := x.done[r]; v != nil {
			return v
		}
		x.res.undet("cycle")
		return N()
	}
	i := len(x.done)
	x.add(nil)
	v := M()
	for k := 0; k < len(n.L); k += 2 {
		key := x.node(n.L[k])
		val := x.node(n.L[k+1])
		if v.Get(key) != nil {
			x.res.undet("same key twice")
		}
		v.Put(key, val)
	}
	x.done[i] = v
	return v
}

// Enrich replaces all maps that denote rich values with the rich values
func Enrich(v *V, d *JDialect, typeOf func(string) *V, res *JResult) *V {
	if v.K != Arr && v.K != Map {
		return v
	}
	r := &V{K: v.K}
	for _, e := range v.L {
		r.L = append(r.L, Enrich(e, d, typeOf, res))
	}
	v = r
	if v.K == Arr {
		return v
	}
	ts := v.Get(S(d.Type))
	if ts == nil || ts.K != Str {
		return v
	}
	if v.MapLen() == 1 {
		t := typeOf(ts.S)
		if t == nil {
			res.undet("type %s", ts.S)
			return v
		}
		return t
	}
	mv := v.Get(S(d.Value))
	if mv == nil || v.MapLen() != 2 {
		res.undet("shape of rich value")
		return v
	}
	switch ts.S {
	case d.Sensitive:
		return X(mv)
	case d.Binary:
		if mv.K != Str {
			res.err("binary isn't a string")
			return v
		}
		bs, err := base64.StdEncoding.Strict().DecodeString(mv.S)
		if err != nil {
			if _, err = base64.StdEncoding.DecodeString(mv.S); err != nil {
				res.err("not base64")
			} else {
				res.undet("sloppy base64")
			}
			return v
		}
		return Y(string(bs))
	case d.Time:
		if mv.K != Str {
			res.err("time isn't a string")
			return v
		}
		tv, err := time.Parse(time.RFC3339Nano, mv.S)
		if err != nil {
			res.err("not a time")
			return v
		}
		return T(tv)
	case d.Map:
		if mv.K != Arr {
			res.err("map content isn't an array")
			return v
		}
		if len(mv.L)%2 != 0 {
			res.undet("odd map content")
			return v
		}
		m := M()
		for i := 0; i < len(mv.L); i += 2 {
			if m.Get(mv.L[i]) != nil {
				res.undet("same key twice")
			}
			m.Put(mv.L[i], mv.L[i+1])
		}
		return m
	}
	res.undet("rich value %s", ts.S)
	return v
}
