package props

import (
	"reflect"

	"github.com/lyraproj/dgo/verif/model"
)

// Exported for package conc

// Call is a call of a method with generated arguments
type Call struct {
	Method, ID string
	args       []func(out *[]interface{}) reflect.Value
}

// CallsOf returns all methods of a value with all argument combinations
func CallsOf(v interface{}) (r []Call) {
	for _, c := range callsOf(v) {
		r = append(r, Call{c.name, c.id, c.args})
	}
	return
}

// Make calls the method and returns what was given to callbacks, what arguments were altered, and the results
func (c *Call) Make(v interface{}) (things []interface{}) {
	var args []reflect.Value
	for _, g := range c.args {
		args = append(args, g(&things))
	}
	for _, r := range reflect.ValueOf(v).MethodByName(c.Method).Call(args) {
		if r.CanInterface() {
			things = append(things, r.Interface())
		}
	}
	return
}

// Types of the type universe
func Types(nesting int) []*model.Ty { return typeUniverse(nesting) }

// AtomTypes are the types that don't nest
func AtomTypes() []*model.Ty { return atomTypes() }

// ComposeTypes applies each type constructor
func ComposeTypes(core, pairs []*model.Ty) []*model.Ty { return composeTypes(core, pairs) }

// Values of the value universe
func Values(thorough bool) []*model.V { return valueUniverse(thorough) }

// ScalarValues of the value universe
func ScalarValues() []*model.V { return scalarUniverse() }
