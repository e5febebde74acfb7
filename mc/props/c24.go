package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
)

// C24: decoding arbitrary input either fails with an error or yields a value

func init() {
	fw.Register(&fw.Check{ID: "C24", Level: "model_checking", Run: runC24,
		Rule: "every byte string of up to N bytes over an alphabet of JSON bytes, every sequence of up to N tokens (including reserved keys and words), every prefix and every one byte deletion, insertion and replacement of a set of documents, every placement of references in and out of range in a set of templates, every combination of a reserved type word with contents of every shape, and deep documents are decoded in both dialects; a strict independent parser and reference resolver decides if the input must be rejected and what it denotes otherwise; a runtime error is never accepted"})
}

// parsedType denotes a type text by what the type parser returns
func parsedType(words *model.JDialect) func(s string) *model.V {
	return func(s string) *model.V {
		if words != model.DgoWords {
			return nil
		}
		v, p := fetch(func() dgo.Value { return typ.AsType(tf.ParseFile(nil, "", s)) })
		if p != "" {
			return nil
		}
		return model.O("type "+v.String(), func() dgo.Value { return v })
	}
}

// decodeAny decodes any input. It returns true when the input was accepted.
func decodeAny(t *fw.T, kind, doc string, dc dialectCase) bool {
	t.Count("transitions", 1)
	var r dgo.Value
	e, rt := fw.Try(func() { r = streamer.UnmarshalJSON([]byte(doc), dc.d) })
	if rt {
		t.Failf(kind, "runtime error", "%s %q: %v", dc.name, short(doc), e)
		return false
	}
	if e != nil {
		if _, ok := e.(error); !ok {
			t.Failf(kind, "not an error", "%s %q: panic with %T %v", dc.name, short(doc), e, e)
		}
	}
	nd, err := model.ParseJSON(doc)
	if err != nil {
		if e == nil {
			t.Failf(kind, "accepted", "%s %q: accepted as %s: %v", dc.name, short(doc), r, err)
		}
		return false
	}
	jr := nd.Denote(dc.words, parsedType(dc.words))
	switch {
	case jr.Err != "":
		if e == nil {
			t.Failf(kind, "accepted", "%s %q: accepted as %s: %s", dc.name, short(doc), r, jr.Err)
		}
	case jr.Undet != "":
		if e == nil {
			if r == nil {
				t.Failf(kind, "no value", "%s %q: no value", dc.name, short(doc))
				return true
			}
			// the value must be usable
			if p, _ := fw.Try(func() { _ = r.String(); _ = r.HashCode(); _ = r.Equals(r) }); p != nil {
				t.Failf(kind, "unusable", "%s %q: the result can't be used: %v", dc.name, short(doc), p)
			}
		}
	case e != nil:
		t.Failf(kind, "rejected", "%s %q: %v", dc.name, short(doc), e)
	default:
		if s := sameValue(r, jr.V); s != "" {
			t.Failf(kind, "value", "%s %q: %s", dc.name, short(doc), s)
		}
		t.State(jr.V.Canon())
	}
	return e == nil
}

func decodeDocs(d *model.JDialect) []string {
	t, v, r := d.Type, d.Value, d.Ref
	rich := func(w, x string) string { return fmt.Sprintf(`{"%s":"%s","%s":%s}`, t, w, v, x) }
	return []string{
		`null`, `true`, `-12.5e+3`, `"a\u00e5\n\"b"`, `[]`, `{}`, `[1,2.5,"x",null,false]`, `{"a":1,"b":[{"c":null}],"d":{}}`,
		` { "a" : [ 1 , 2 ] , "b" : { } } `,
		fmt.Sprintf(`[{"x":"xxxxxxxxxxxxxxxxxxxxx","y":{"%s":3}}]`, r),
		fmt.Sprintf(`[["a"],{"%s":1},{"k":{"%s":2}}]`, r, r),
		rich(d.Binary, `"AQID"`), rich(d.Sensitive, `"a"`), rich(d.Map, `[1,2,"x",[3]]`), rich(d.Time, `"2019-10-06T07:15:00-07:00"`),
		rich(d.Alias, `["ne","string"]`), fmt.Sprintf(`{"%s":"int"}`, t),
		`[` + rich(d.Sensitive, rich(d.Map, `[`+rich(d.Binary, `"AQ=="`)+`,1]`)) + fmt.Sprintf(`,{"%s":1},{"%s":6}]`, r, r),
		rich("no.such.type", `1`),
	}
}

var docAlphabet = []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "0", "1", "9", "-", "+", ".", "e", "E", "t", "n", "u", "a", " ", "\n", "\x00", "\x7f", "\x80", "\xff", "å", "/", "_"}

func runC24(c *fw.C) {
	dgoD := dialectCases[0]

	c.Stage("bytes")
	alpha := []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "0", "1", "-", ".", "e", "n", "u", "l", " ", "a", "\n", "\x00", "\x80"}
	n := 5
	if c.Thorough {
		n = 6
	}
	for _, a := range alpha {
		for _, b := range append([]string{""}, alpha...) {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("%q", a+b) }, func(t *fw.T) {
				var rec func(pre string, k int)
				rec = func(pre string, k int) {
					decodeAny(t, "bytes", pre, dgoD)
					if k > 0 {
						for _, x := range alpha {
							rec(pre+x, k-1)
						}
					}
				}
				if b == "" {
					decodeAny(t, "bytes", a, dgoD)
					return
				}
				rec(a+b, n-2)
			})
		}
	}
	c.Case(func() string { return "empty" }, func(t *fw.T) {
		decodeAny(t, "bytes", "", dgoD)
		for x := 0; x < 256; x++ {
			for y := 0; y < 256; y++ {
				decodeAny(t, "bytes", string([]byte{byte(x), byte(y)}), dgoD)
				decodeAny(t, "bytes", `"`+string([]byte{byte(x), byte(y)})+`"`, dgoD)
				decodeAny(t, "bytes", `[1`+string([]byte{byte(x), byte(y)})+`2]`, dgoD)
				decodeAny(t, "bytes", `[1]`+string([]byte{byte(x), byte(y)}), dgoD)
			}
		}
	})

	c.Stage("literals")
	for _, w := range append(append([]string{"null", "true", "false"}, jsonNumbers...), jsonStrings...) {
		w := w
		c.Case(func() string { return w }, func(t *fw.T) {
			for i := 0; i <= len(w); i++ {
				decodeAny(t, "literal", w[:i], dgoD)
				decodeAny(t, "literal", "["+w[:i], dgoD)
				decodeAny(t, "literal", "["+w[:i]+"]", dgoD)
				decodeAny(t, "literal", "{"+w[:i]+":1}", dgoD)
				for _, a := range docAlphabet {
					decodeAny(t, "literal", w[:i]+a+w[i:], dgoD)
					decodeAny(t, "literal", "["+w[:i]+a+w[i:]+"]", dgoD)
					if i < len(w) {
						decodeAny(t, "literal", w[:i]+a+w[i+1:], dgoD)
						decodeAny(t, "literal", "["+w[:i]+a+w[i+1:]+"]", dgoD)
					}
				}
			}
		})
	}

	c.Stage("tokens")
	for _, dc := range dialectCases {
		dc := dc
		w := dc.words
		q := func(s string) string { return `"` + s + `"` }
		toks := []string{"{", "}", "[", "]", ",", ":", "1", "-1", `"a"`, "null", q(w.Ref), q(w.Type), q(w.Value), q(w.Map), q(w.Sensitive)}
		n := 5
		if c.Thorough {
			n = 7
		} else if dc.name == "dgo" {
			n = 6
		}
		for _, a := range toks {
			for _, b := range toks {
				a, b := a, b
				c.Case(func() string { return dc.name + " " + a + " " + b }, func(t *fw.T) {
					var rec func(pre string, k int)
					rec = func(pre string, k int) {
						decodeAny(t, "tokens", pre, dc)
						if k > 0 {
							for _, x := range toks {
								rec(pre+x, k-1)
							}
						}
						if k > 3 {
							t.Touch()
						}
					}
					rec(a+b, n-2)
				})
			}
		}
	}

	c.Stage("mutations")
	for _, dc := range dialectCases {
		dc := dc
		for _, doc := range decodeDocs(dc.words) {
			doc := doc
			c.Case(func() string { return dc.name + " " + doc }, func(t *fw.T) {
				decodeAny(t, "unchanged", doc, dc)
				for i := 0; i < len(doc); i++ {
					decodeAny(t, "truncated", doc[:i], dc)
					decodeAny(t, "removed", doc[:i]+doc[i+1:], dc)
					decodeAny(t, "repeated", doc[:i+1]+doc[i:], dc)
					for _, x := range docAlphabet {
						decodeAny(t, "inserted", doc[:i]+x+doc[i:], dc)
						decodeAny(t, "replaced", doc[:i]+x+doc[i+1:], dc)
						if c.Thorough {
							for j := i + 1; j < len(doc); j++ {
								decodeAny(t, "replaced twice", doc[:i]+x+doc[i+1:j]+x+doc[j+1:], dc)
							}
						}
					}
					for j := i + 1; j <= len(doc); j++ {
						decodeAny(t, "cut", doc[:i]+doc[j:], dc)
					}
				}
				for _, x := range docAlphabet {
					decodeAny(t, "appended", doc+x, dc)
				}
				for _, d2 := range decodeDocs(dc.words) {
					decodeAny(t, "appended", doc+d2, dc)
					decodeAny(t, "appended", doc+" "+d2, dc)
					for i := 0; i < len(d2); i++ {
						decodeAny(t, "appended", doc+d2[:i], dc)
					}
				}
			})
		}
	}

	c.Stage("references")
	for _, dc := range dialectCases {
		dc := dc
		w := dc.words
		var refs []string
		for k := -2; k <= 14; k++ {
			refs = append(refs, fmt.Sprint(k))
		}
		refs = append(refs, "1e0", "1.5", "1.0", `"1"`, "null", "true", "[1]", "{}", "2147483648", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "00", "")
		for _, tpl := range []string{
			`R`, `[R]`, `{"a":R}`, `[R,1]`, `[1,R]`, `[[1],R,R]`, `[1,[2,[3]],R,R]`, `[{"a":1,"b":[2]},R,R]`, `{"a":[1,2],"b":R,"c":[R]}`, `[R,R]`, `{"a":R,"b":{"c":R}}`,
			`{"T":"sensitive","V":R}`, `[1,{"T":"sensitive","V":[1]},R,R]`, `{"T":"map","V":[1,R,"x",[R]]}`, `{"T":"map","V":R}`, `[[1,2],{"T":"map","V":R},R]`, `[{"T":"map","V":[R,1]},R]`,
			`["AQID",{"T":"binary","V":R},R]`, `["2019-10-06T07:15:00-07:00",{"T":"time","V":R},R]`, `["int",{"T":R},R]`, `["sensitive",{"T":R,"V":R}]`,
			`{"T":"map","V":["a",{"T":"sensitive","V":R},"b",R]}`, `{"T":"map","V":["a",{"T":"map","V":[1,R]},"b",R]}`, `[{"T":"sensitive","V":{"T":"sensitive","V":R}},R]`, `{"T":"map","V":[{"a":R},R]}`, `{"T":"map","V":[{"T":"sensitive","V":R},R]}`, `{"T":"alias","V":["x",R]}`, `["int",["x","int"],{"T":"alias","V":R},R]`,
			`{"T":"sensitive","V":[R,{"T":"sensitive","V":[R]}]}`,
		} {
			tpl := tpl
			c.Case(func() string { return dc.name + " " + tpl }, func(t *fw.T) {
				x := strings.NewReplacer(`"T"`, `"`+w.Type+`"`, `"V"`, `"`+w.Value+`"`, `"sensitive"`, `"`+w.Sensitive+`"`, `"map"`, `"`+w.Map+`"`, `"binary"`, `"`+w.Binary+`"`, `"time"`, `"`+w.Time+`"`, `"alias"`, `"`+w.Alias+`"`).Replace(tpl)
				for _, a := range refs {
					for _, b := range refs {
						ps := strings.Split(x, "R")
						doc := ps[0]
						for k, p := range ps[1:] {
							doc += fmt.Sprintf(`{"%s":%s}`, w.Ref, []string{a, b}[k]) + p
						}
						decodeAny(t, "references", doc, dc)
						if len(ps) < 3 {
							break
						}
					}
					ps := strings.SplitN(x, "R", 2)
					for _, f := range []string{`{"%s":%s,"a":1}`, `{"a":1,"%s":%s}`, `{"%s":%s`, `{"%s":%s,}`, `{"%s":%s]`} {
						decodeAny(t, "references", ps[0]+fmt.Sprintf(f, w.Ref, a)+strings.ReplaceAll(ps[1], "R", "2"), dc)
					}
				}
			})
		}
	}

	c.Stage("rich values")
	for _, dc := range dialectCases {
		dc := dc
		w := dc.words
		shapes := []string{`null`, `true`, `1`, `1.5`, `""`, `"a"`, `"AQID"`, `"AQ=="`, `"AQ"`, `"AR=="`, `"A"`, `"!"`, `"=AQI"`, `"2019-10-06T07:15:00-07:00"`, `"2019-10-06T07:15:00Z"`, `"2019-02-30T07:15:00Z"`, `"2019-10-06"`, `[]`, `[1]`, `[1,2]`, `[1,2,3]`, `[[1],2]`, `[1,2,1,3]`, `["a","int"]`, `["a","a=int"]`, `["a",1]`, `[1,"int"]`, `["a"]`, `{}`, `{"a":1}`, `[{},1,[],2]`, `[null,1,null,2]`,
			fmt.Sprintf(`{"%s":"%s","%s":1}`, w.Type, w.Sensitive, w.Value), fmt.Sprintf(`[{"%s":"%s","%s":[1,2]},3]`, w.Type, w.Map, w.Value), fmt.Sprintf(`{"%s":"int"}`, w.Type)}
		words := []string{w.Alias, w.Binary, w.Map, w.Sensitive, w.Time, "int", "string[1,2]", "", "x", "[", "a=int", "dgo", "3", "{", "map[", "sensitive[int]", "type", "no such", "\\u0000", "func()", "\\\"a\\\"", "1..", "/a", "String[1]", "Enum", "Struct[{a=>Integer}]", "Optional[", "Tuple[]", "Hash[String]", "Pattern[1]", "Variant[]", "Callable[[],1]", "NotUndef[1]", "Sensitive[1,2]"}
		for _, wd := range words {
			wd := wd
			c.Case(func() string { return dc.name + " " + wd }, func(t *fw.T) {
				ty := `"` + wd + `"`
				decodeAny(t, "rich", fmt.Sprintf(`{"%s":%s}`, w.Type, ty), dc)
				decodeAny(t, "rich", fmt.Sprintf(`[{"%s":%s},2]`, w.Type, ty), dc)
				for _, s := range shapes {
					for _, f := range []string{`{"T":W,"V":S}`, `{"V":S,"T":W}`, `{"T":W,"x":S}`, `{"T":W,"V":S,"x":1}`, `{"T":W,"T":S}`, `{"T":S,"V":W}`, `{"T":S}`, `{"V":S}`, `[{"T":W,"V":S},1,{"R":1}]`, `{"T":W,"V":{"T":W,"V":S}}`, `{"T":W,"V":[S,S]}`, `{"T":W,"V":["a",S]}`, `{"a":{"T":W,"V":S},"b":{"R":2}}`} {
						doc := strings.NewReplacer("T", w.Type, "V", w.Value, "R", w.Ref, "W", ty, "S", s).Replace(f)
						decodeAny(t, "rich", doc, dc)
					}
				}
			})
		}
	}

	c.Stage("depth")
	for _, n := range []int{10, 100, 1000, 9000, 100000, 1000000} {
		for k := 0; k < 3; k++ {
			n, k := n, k
			c.Case(func() string { return fmt.Sprintf("depth %d kind %d", n, k) }, func(t *fw.T) {
				doc := deepDoc(n, k)
				if n <= 9000 {
					e, _ := fw.Try(func() { streamer.UnmarshalJSON([]byte(doc), nil) })
					if e != nil {
						t.Failf("depth", "rejected", "%s: %v", short(doc), e)
					}
				} else {
					_, rt := fw.Try(func() { streamer.UnmarshalJSON([]byte(doc), nil) })
					if rt {
						t.Failf("depth", "runtime error", "%s", short(doc))
					}
				}
				for _, cut := range []int{1, 2, n, len(doc) / 2} {
					e, rt := fw.Try(func() { streamer.UnmarshalJSON([]byte(doc[:len(doc)-cut]), nil) })
					if e == nil || rt {
						t.Failf("depth", "accepted", "truncated %s: %v", short(doc), e)
					}
				}
			})
		}
	}
}
