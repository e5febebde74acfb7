package conc

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/vf"
)

// C31: the registry of named types

func init() {
	fw.Register(&fw.Check{ID: "C31", Level: "model_checking", Race: true, Run: runC31,
		Rule:        "every history of registrations, removals, lookups by name, by Go type and by parsing, and assignability tests, up to the stated depth is compared with a reference, and every program of two or three goroutines with such operations is executed under every schedule within the stated bounds with the race detector on; the results must be those of some sequential order",
		Assumptions: []string{"a lookup by Go type that runs while a type for it is removed and another one is added may find none (sync.Map.Range isn't a snapshot)"}})
}

type (
	regI interface{ Mark() int }
	regA struct{}
	regB struct{ X int }
)

func (*regA) Mark() int { return 1 }
func (*regB) Mark() int { return 2 }

var regKinds = []struct{ impl, ifd reflect.Type }{
	{reflect.TypeOf(&regA{}), nil},
	{reflect.TypeOf(&regB{}), nil},
	{reflect.TypeOf(&regB{}), reflect.TypeOf((*regI)(nil)).Elem()},
	{nil, nil},
}

var regNames = []string{"mcregx", "mcregy"}

type regOp struct {
	op   string
	a, b int
}

func (o regOp) String() string { return fmt.Sprintf("%s(%d,%d)", o.op, o.a, o.b) }

type regModel struct{ kind [2]int } // -1 when not registered

func newRegModel(init [2]int) *regModel { return &regModel{kind: init} }

func regTag(n, k int) string { return fmt.Sprintf("%s kind %d", regNames[n], k) }

func (o regOp) real() string {
	switch o.op {
	case "reg":
		return try(func() string {
			k := regKinds[o.b]
			tag := regTag(o.a, o.b)
			t := tf.NewNamed(regNames[o.a], func(v dgo.Value) dgo.Value { return v },
				func(dgo.Value) dgo.Value { return vf.String(tag) }, k.impl, k.ifd, nil)
			return regShow(t)
		})
	case "get":
		return try(func() string {
			t := tf.Named(regNames[o.a])
			if t == nil {
				return "none"
			}
			return regShow(t)
		})
	case "parse":
		return try(func() string {
			t := tf.ParseType(regNames[o.a])
			return regShow(t.(dgo.NamedType))
		})
	case "refl":
		return try(func() string {
			t := tf.NamedFromReflected(regKinds[o.a].impl)
			if t == nil {
				return "none"
			}
			return regShow(t)
		})
	case "remove":
		return try(func() string { tf.RemoveNamed(regNames[o.a]); return "" })
	case "asg":
		return try(func() string {
			t, u := tf.Named(regNames[o.a]), tf.Named(regNames[o.b])
			if t == nil || u == nil {
				return "none"
			}
			return fmt.Sprint(t.Assignable(u))
		})
	}
	panic(o.op)
}

func regShow(t dgo.NamedType) string {
	s := ""
	if t.Name() != "" {
		s = t.ExtractInitArg(vf.String("")).String()
	}
	if !strings.HasPrefix(s, t.Name()+" ") || t.String() != t.Name() {
		return fmt.Sprintf("%s printed as %s with init argument %s", t.Name(), t, s)
	}
	return s
}

func (o regOp) accept(m *regModel, got string, weak bool) bool {
	is := func(x string) bool { return got == x }
	switch o.op {
	case "reg":
		if m.kind[o.a] >= 0 {
			return strings.HasPrefix(got, "fails: ") && strings.Contains(got, regNames[o.a])
		}
		m.kind[o.a] = o.b
		return is(regTag(o.a, o.b))
	case "get":
		if m.kind[o.a] < 0 {
			return is("none")
		}
		return is(regTag(o.a, m.kind[o.a]))
	case "parse":
		if m.kind[o.a] < 0 {
			return strings.HasPrefix(got, "fails: ")
		}
		return is(regTag(o.a, m.kind[o.a]))
	case "refl":
		found := false
		for n, k := range m.kind {
			if k >= 0 && regKinds[k].impl == regKinds[o.a].impl {
				found = true
				if is(regTag(n, k)) {
					return true
				}
			}
		}
		return (!found || weak) && is("none")
	case "remove":
		m.kind[o.a] = -1
		return is("")
	case "asg":
		if m.kind[o.a] < 0 || m.kind[o.b] < 0 {
			return is("none")
		}
		at, rt := regKinds[m.kind[o.a]].ifd, regKinds[m.kind[o.b]].impl
		if at == nil {
			at = regKinds[m.kind[o.a]].impl
		}
		if at == nil || rt == nil {
			return is(fmt.Sprint(o.a == o.b))
		}
		return is(fmt.Sprint(rt.AssignableTo(at)))
	}
	panic(o.op)
}

func regOps() (r []regOp) {
	for n := range regNames {
		for k := range regKinds {
			r = append(r, regOp{"reg", n, k})
		}
		r = append(r, regOp{"get", n, 0}, regOp{"parse", n, 0}, regOp{"remove", n, 0}, regOp{"asg", n, 1 - n}, regOp{"refl", n, 0})
	}
	return
}

func regCleanup() {
	for _, n := range regNames {
		tf.RemoveNamed(n)
	}
}

func regSetup(init [2]int) {
	regCleanup()
	for n, k := range init {
		if k >= 0 {
			regOp{"reg", n, k}.real()
		}
	}
}

func regFinal() string {
	s := ""
	for n := range regNames {
		s += regOp{"get", n, 0}.real() + ", "
	}
	return s
}

func (m *regModel) final() string {
	s := ""
	for n, k := range m.kind {
		if k < 0 {
			s += "none, "
		} else {
			s += regTag(n, k) + ", "
		}
	}
	return s
}

func regProgram(init [2]int, threads [][]regOp) *program {
	regSetup(init)
	weak := false
	var has [3]bool
	for _, t := range threads {
		for _, o := range t {
			has[0] = has[0] || o.op == "refl"
			has[1] = has[1] || o.op == "reg"
			has[2] = has[2] || o.op == "remove"
		}
	}
	weak = has[0] && has[1] && has[2]
	p := &program{model: func() interface{} { return newRegModel(init) }, cleanup: regCleanup, final: regFinal}
	p.refFinal = func(m interface{}) string { return m.(*regModel).final() }
	for _, t := range threads {
		var cs []call
		for _, o := range t {
			o := o
			cs = append(cs, call{name: o.String(), real: o.real, accept: func(m interface{}, got string) bool { return o.accept(m.(*regModel), got, weak) }})
		}
		p.threads = append(p.threads, cs)
	}
	return p
}

func runC31(c *fw.C) {
	ops := regOps()
	depth := 4
	if c.Thorough {
		depth = 5
	}
	c.Stage(fmt.Sprintf("all histories of %d operations", depth))
	// one case explores all histories that begin with two operations
	for _, o1 := range ops {
		for _, o2 := range ops {
			prefix := []regOp{o1, o2}
			c.Case(func() string { return fmt.Sprint(prefix) }, func(t *fw.T) {
				n := 1
				for i := len(prefix); i < depth; i++ {
					n *= len(ops)
				}
				for i := 0; i < n && !t.Expired(); i++ {
					regCleanup()
					m := newRegModel([2]int{-1, -1})
					h := append([]regOp{}, prefix...)
					for x, j := i, len(prefix); j < depth; j++ {
						h = append(h, ops[x%len(ops)])
						x /= len(ops)
					}
					for j, o := range h {
						got := o.real()
						t.Count("transitions", 1)
						if !o.accept(m, got, false) {
							t.Fatalf("result", o.op, "%s gives %s after %v", o, got, h[:j])
						}
						t.State(m.final())
						t.Outcome(got)
					}
					if i&255 == 0 {
						t.Touch()
					}
					t.Count("histories", 1)
				}
				regCleanup()
			})
		}
	}
	inits := [][2]int{{-1, -1}, {0, -1}, {0, 1}}
	// a test of assignability looks up two names, it isn't one operation
	var single []regOp
	for _, o := range ops {
		if o.op != "asg" {
			single = append(single, o)
		}
	}
	ops = single
	var few []regOp
	for _, o := range ops {
		if o.op != "reg" || o.b < 2 {
			few = append(few, o)
		}
	}
	run := func(pre int, init [2]int, threads [][]regOp) {
		c.Case(func() string { return fmt.Sprintf("%v: %v", init, threads) }, func(t *fw.T) {
			explore(t, pre, func() *program { return regProgram(init, threads) })
		})
	}
	for _, init := range inits {
		c.Stage("two threads, one call each, all interleavings")
		for i, a := range ops {
			for _, b := range ops[i:] {
				run(-1, init, [][]regOp{{a}, {b}})
			}
		}
		c.Stage("two threads, two calls against one, all interleavings")
		for _, a := range few {
			for _, a2 := range few {
				for _, b := range few {
					run(-1, init, [][]regOp{{a, a2}, {b}})
				}
			}
		}
		c.Stage("three threads, one call each, preemption bound 2")
		for i, a := range few {
			for j, b := range few[i:] {
				for _, d := range few[i+j:] {
					run(2, init, [][]regOp{{a}, {b}, {d}})
				}
			}
		}
		if c.Thorough {
			c.Stage("two threads, two calls each, preemption bound 2")
			for i, a := range few {
				for _, a2 := range few {
					for _, b := range few[i:] {
						for _, b2 := range few {
							run(2, init, [][]regOp{{a, a2}, {b, b2}})
						}
					}
				}
			}
		}
	}
}
