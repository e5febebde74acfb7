package conc

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/internal"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/shim/sched"
	"github.com/lyraproj/dgo/verif/shim/sync"
	"github.com/lyraproj/dgo/vf"
)

// C30: aliases

func init() {
	fw.Register(&fw.Check{ID: "C30", Level: "model_checking", Race: true, Run: runC30,
		Rule: "every history of declarations, additions, lookups and uses of aliases up to the stated depth is compared with a reference, and every program of two or three goroutines with such operations is executed under every schedule within the stated bounds with the race detector on; the results must be those of some sequential order"})
}

// alWorld is an alias map that is shared: the default one or one with a lock of its own
type alWorld struct {
	own  bool
	m    dgo.AliasMap
	lock sync.Mutex
}

func (w *alWorld) reset() {
	if w.own {
		w.m = tf.BuiltInAliases()
	} else {
		internal.ResetDefaultAliases()
	}
}

func (w *alWorld) add(f func(a dgo.AliasAdder)) {
	if w.own {
		tf.AddAliases(&w.m, &w.lock, f)
	} else {
		tf.AddDefaultAliases(f)
	}
}

func (w *alWorld) current() dgo.AliasMap {
	if w.own {
		w.lock.Lock()
		defer w.lock.Unlock()
		return w.m
	}
	return tf.DefaultAliases()
}

func (w *alWorld) parse(s string) dgo.Type {
	if w.own {
		var v dgo.Value
		w.add(func(a dgo.AliasAdder) { v = tf.ParseFile(a, "", s) })
		if t, ok := v.(dgo.Type); ok {
			return t
		}
		return v.Type()
	}
	return tf.ParseType(s)
}

// alModel maps names to the printed form of types
type alModel struct{ m map[string]string }

type alOp struct {
	op, text string
	decl     [][2]string // what it declares, in order; a type may be the name of an alias
}

func (o alOp) String() string { return o.op + "(" + o.text + ")" }

func alOps() []alOp {
	return []alOp{
		{"parse", "mcax=string[1]", [][2]string{{"mcax", "string[1]"}}},
		{"parse", "mcax=int", [][2]string{{"mcax", "int"}}},
		{"parse", "{a:mcax=string[1],b:mcay=bool}", [][2]string{{"mcax", "string[1]"}, {"mcay", "bool"}}},
		{"parse", "mcay=[]mcax", [][2]string{{"mcay", "[]mcax"}}},
		{"parse", "mcay=map[string]mcay", [][2]string{{"mcay", "map[string]mcay"}}},
		{"add", "mcax", [][2]string{{"mcax", "float"}}},
		{"add", "mcax mcay", [][2]string{{"mcax", "float"}, {"mcay", "bool"}}},
		{"fail", "mcax", nil},
		{"nothing", "", nil},
		{"get", "mcax", nil},
		{"get", "mcay", nil},
		{"both", "", nil},
		{"use", "[]mcax", nil},
		{"data", "[]data", nil},
		{"redecl", "data=int", nil},
		{"dgo", "mcax=int", nil},
	}
}

var alAdded = map[string]dgo.Type{"float": tf.ParseType("float"), "bool": tf.ParseType("bool")}

func (w *alWorld) show(t dgo.Type) string {
	if t == nil {
		return "none"
	}
	return alStruct(t, 3)
}

// alStruct prints a type without use of aliases
func alStruct(t dgo.Type, depth int) string {
	if depth == 0 {
		return "..."
	}
	switch t := t.(type) {
	case dgo.TernaryType:
		var ss []string
		t.Operands().Each(func(v dgo.Value) { ss = append(ss, alStruct(v.(dgo.Type), depth-1)) })
		sort.Strings(ss)
		return strings.Join(ss, "|")
	case dgo.TupleType:
	case dgo.ArrayType:
		return "[]" + alStruct(t.ElementType(), depth-1)
	case dgo.MapType:
		return "map[" + alStruct(t.KeyType(), depth-1) + "]" + alStruct(t.ValueType(), depth-1)
	}
	return t.TypeIdentifier().String() + " " + string(rune('0'+t.HashCode()%10))
}

// known forms of types
var alForms = map[string]string{}

func alForm(name string, m map[string]string, depth int) string {
	def, ok := m[name]
	if !ok {
		return "none"
	}
	if depth == 0 {
		return "..."
	}
	return alDef(name, def, m, depth)
}

func alDef(name, def string, m map[string]string, depth int) string {
	switch {
	case depth == 0:
		return "..."
	case strings.HasPrefix(def, "[]"):
		return "[]" + alDef("", def[2:], m, depth-1)
	case def == "map[string]mcay":
		return "map[" + alPrim("string", depth-1) + "]" + alForm("mcay", m, depth-1)
	}
	return alPrim(def, depth)
}

func alPrim(s string, depth int) string {
	if depth == 0 {
		return "..."
	}
	return alForms[s]
}

func (o alOp) call(w *alWorld) call {
	c := call{name: o.String()}
	fails := func(got string) bool { return strings.HasPrefix(got, "fails: ") }
	decls := func(m *alModel, got string, declare bool) bool {
		n := map[string]string{}
		for k, v := range m.m {
			n[k] = v
		}
		for _, d := range o.decl {
			if _, ok := n[d[0]]; ok && declare {
				return fails(got)
			}
			if d[1] == "[]mcax" && n["mcax"] == "" {
				return fails(got)
			}
			n[d[0]] = d[1]
			if d[1] == "[]mcax" {
				n[d[0]] = "[]" + n["mcax"] // what it means now
			}
		}
		m.m = n
		return got == "ok"
	}
	switch o.op {
	case "parse":
		c.real = func() string { w.parse(o.text); return "ok" }
		c.accept = func(mi interface{}, got string) bool { return decls(mi.(*alModel), got, true) }
	case "add":
		c.real = func() string {
			w.add(func(a dgo.AliasAdder) {
				for _, d := range o.decl {
					sched.Yield("adder")
					a.Add(alAdded[d[1]], vf.String(d[0]))
				}
			})
			return "ok"
		}
		c.accept = func(mi interface{}, got string) bool { return decls(mi.(*alModel), got, false) }
	case "fail":
		// an adder that fails adds nothing
		c.real = func() string {
			w.add(func(a dgo.AliasAdder) {
				a.Add(alAdded["bool"], vf.String("mcax"))
				sched.Yield("adder")
				panic(fmt.Errorf("adder"))
			})
			return "ok"
		}
		c.accept = func(_ interface{}, got string) bool { return fails(got) }
	case "nothing":
		c.real = func() string {
			n := 0
			w.add(func(a dgo.AliasAdder) { n++; a.GetType(vf.String("mcax")) })
			return fmt.Sprint(n)
		}
		c.accept = func(_ interface{}, got string) bool { return got == "1" }
	case "get":
		c.real = func() string { return w.show(w.current().GetType(vf.String(o.text))) }
		c.accept = func(mi interface{}, got string) bool { return got == alForm(o.text, mi.(*alModel).m, 3) }
	case "both":
		// one map never changes
		c.real = func() string {
			m := w.current()
			x := w.show(m.GetType(vf.String("mcax")))
			sched.Yield("reader")
			return x + " and " + w.show(m.GetType(vf.String("mcay")))
		}
		c.accept = func(mi interface{}, got string) bool {
			m := mi.(*alModel).m
			return got == alForm("mcax", m, 3)+" and "+alForm("mcay", m, 3)
		}
	case "use":
		c.real = func() string { return w.show(w.parse(o.text)) }
		c.accept = func(mi interface{}, got string) bool {
			if m := mi.(*alModel).m; m["mcax"] != "" {
				return got == "[]"+alForm("mcax", m, 2)
			}
			return fails(got)
		}
	case "data":
		c.real = func() string {
			t := w.parse(o.text)
			return fmt.Sprintf("%v %v %s", t.Instance(vf.Values(1, "a", vf.Values(2))), t.Instance(vf.Values(vf.Sensitive(1))), t)
		}
		c.accept = func(_ interface{}, got string) bool { return got == "true false []data" }
	case "dgo":
		// the type of text in the dgo syntax
		c.real = func() string { return fmt.Sprint(typ.DgoString.Instance(vf.String(o.text))) }
		c.accept = func(mi interface{}, got string) bool {
			return got == fmt.Sprint(w.own || mi.(*alModel).m["mcax"] == "")
		}
	case "redecl":
		c.real = func() string { w.parse(o.text); return "ok" }
		c.accept = func(_ interface{}, got string) bool { return fails(got) }
	}
	return c
}

func (w *alWorld) final() string {
	m := w.current()
	s := w.show(m.GetType(vf.String("mcax"))) + " and " + w.show(m.GetType(vf.String("mcay")))
	for _, n := range []string{"mcax", "mcay"} {
		if t := m.GetType(vf.String(n)); t != nil {
			if g := m.GetName(t); g == nil || m.GetType(g) == nil || !m.GetType(g).Equals(t) {
				s += fmt.Sprintf(" the name of the type of %s is %v", n, g)
			}
		}
	}
	return s
}

func alProgram(own bool, setup []alOp, threads [][]alOp) *program {
	w := &alWorld{own: own}
	w.reset()
	init := &alModel{m: map[string]string{}}
	for _, o := range setup {
		c := o.call(w)
		if got := try(c.real); !c.accept(init, got) {
			panic(fmt.Sprintf("%s gives %s", o, got))
		}
	}
	before := w.current()
	formB := w.show(before.GetType(vf.String("mcax"))) + w.show(before.GetType(vf.String("mcay")))
	p := &program{cleanup: internal.ResetDefaultAliases}
	p.model = func() interface{} {
		m := map[string]string{}
		for k, v := range init.m {
			m[k] = v
		}
		return &alModel{m: m}
	}
	p.final = func() string {
		if s := w.show(before.GetType(vf.String("mcax"))) + w.show(before.GetType(vf.String("mcay"))); s != formB {
			return "the map from before has changed from " + formB + " to " + s
		}
		return w.final()
	}
	p.refFinal = func(mi interface{}) string {
		m := mi.(*alModel).m
		return alForm("mcax", m, 3) + " and " + alForm("mcay", m, 3)
	}
	for _, t := range threads {
		var cs []call
		for _, o := range t {
			cs = append(cs, o.call(w))
		}
		p.threads = append(p.threads, cs)
	}
	return p
}

func runC30(c *fw.C) {
	for _, n := range []string{"string[1]", "int", "float", "bool", "string"} {
		alForms[n] = alStruct(tf.ParseType(n), 3)
	}
	ops := alOps()
	depth := 4
	if c.Thorough {
		depth = 5
	}
	for _, own := range []bool{false, true} {
		own := own
		which := "default aliases"
		if own {
			which = "own alias map"
		}
		c.Stage(fmt.Sprintf("%s: all histories of %d operations", which, depth))
		for _, o1 := range ops {
			for _, o2 := range ops {
				prefix := []alOp{o1, o2}
				c.Case(func() string { return fmt.Sprint(prefix) }, func(t *fw.T) {
					n := 1
					for i := len(prefix); i < depth; i++ {
						n *= len(ops)
					}
					for i := 0; i < n && !t.Expired(); i++ {
						h := append([]alOp{}, prefix...)
						for x, j := i, len(prefix); j < depth; j++ {
							h = append(h, ops[x%len(ops)])
							x /= len(ops)
						}
						w := &alWorld{own: own}
						w.reset()
						m := &alModel{m: map[string]string{}}
						for j, o := range h {
							k := o.call(w)
							got := try(k.real)
							t.Count("transitions", 1)
							if !k.accept(m, got) {
								t.Fatalf("result", o.op, "%s gives %s after %v", o, got, h[:j])
							}
							want := alForm("mcax", m.m, 3) + " and " + alForm("mcay", m.m, 3)
							if fin := w.final(); fin != want {
								t.Fatalf("final", o.op, "after %v the aliases are %s, expected %s", h[:j+1], fin, want)
							}
							t.State(want)
							t.Outcome(got)
						}
						if own && tf.DefaultAliases() != tf.BuiltInAliases() {
							t.Fatalf("isolation", "", "%v altered the default aliases", h)
						}
						if i&255 == 0 {
							t.Touch()
						}
						t.Count("histories", 1)
					}
					internal.ResetDefaultAliases()
				})
			}
		}
		run := func(pre int, setup []alOp, threads [][]alOp) {
			if !alAtomic(threads) {
				return
			}
			c.Case(func() string { return fmt.Sprintf("%v: %v", setup, threads) }, func(t *fw.T) {
				explore(t, pre, func() *program { return alProgram(own, setup, threads) })
			})
		}
		b21, b111 := 1, 1
		many, few := ops, ops
		if c.Thorough {
			b21, b111 = 2, 2
		} else {
			few = nil
			for _, o := range ops {
				if o.op != "nothing" && o.op != "data" && o.op != "redecl" && o.op != "dgo" && o.text != "mcax=int" {
					few = append(few, o)
				}
			}
			if own {
				many = few
			}
		}
		for _, setup := range [][]alOp{nil, {ops[0]}} {
			c.Stage(which + ": two threads, one call each, all interleavings")
			for i, a := range ops {
				for _, b := range ops[i:] {
					run(-1, setup, [][]alOp{{a}, {b}})
				}
			}
			c.Stage(fmt.Sprintf("%s: two threads, two calls against one, preemption bound %d", which, b21))
			for _, a := range many {
				for _, a2 := range many {
					for _, b := range many {
						run(b21, setup, [][]alOp{{a, a2}, {b}})
					}
				}
			}
			c.Stage(fmt.Sprintf("%s: three threads, one call each, preemption bound %d", which, b111))
			for i, a := range few {
				for j, b := range few[i:] {
					for _, d := range few[i+j:] {
						run(b111, setup, [][]alOp{{a}, {b}, {d}})
					}
				}
			}
			if c.Thorough {
				c.Stage(which + ": two threads, two calls each, preemption bound 2")
				for _, a := range few {
					for _, a2 := range few {
						for _, b := range few {
							for _, b2 := range few {
								run(2, setup, [][]alOp{{a, a2}, {b, b2}})
							}
						}
					}
				}
			}
		}
	}
}

// alAtomic tells if all calls are atomic: text that refers to an alias while another thread replaces that alias, which only
// an adder can do, uses what it was at some time during the call
func alAtomic(threads [][]alOp) bool {
	for i, t := range threads {
		for _, o := range t {
			if o.text != "mcay=[]mcax" {
				continue
			}
			for j, u := range threads {
				for _, p := range u {
					if i != j && p.op == "add" {
						return false
					}
				}
			}
		}
	}
	return true
}
