package main

// C18: dependencies are visited before their dependents, each once.

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C18"] = true
	checks["C18"] = checkC18
}

func checkC18(c *Ctx) {
	c.Explanation = "The methods of dependency.Graph are brought into a normal form (gated value graph, loops and recursion summarised by one step, effects in order) and compared with the reference definitions in analyzer/spec/dependency."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/dependency state the property", "sort.SearchInts does what it documents"}
	p := c.pkg("internal/dependency")
	ref := c.Spec["dependency"]
	if p == nil {
		c.Bad("graph", "internal/dependency", 0, "the package is missing")
		return
	}
	same := p.Type("Graph") != nil && c.sameFields(p.Type("Graph").Type(), ref.Type("Graph").Type())
	if same {
		typeKeys.Set(ref.Type("Graph").Type(), typeKey(p.Type("Graph").Type()))
	}
	variants := func(name string) (refs []string) {
		for _, k := range []string{"", "2", "3", "4", "5", "6"} {
			if ref.Func(name+k) != nil {
				refs = append(refs, name+k)
			}
		}
		return refs
	}
	steps := []step{{"Insert", "adds a number to a sorted list, once", func(f *ssa.Function) bool {
		return f.Signature.Recv() == nil && f.Signature.Params().Len() == 2 && f.Signature.Results().Len() == 1 && typeKey(f.Signature.Results().At(0).Type()) == "[]int" && typeKey(f.Params[0].Type()) == "[]int"
	}, variants("Insert"), false, false, false}}
	for _, x := range []struct{ name, what string }{
		{"Add", "adds the target and the dependency, once, in order"},
		{"Flatten", "visits every node once, after its dependencies, in order"},
		{"Len", "the number of targets"},
	} {
		f := c.MustFunc("internal/dependency", "Graph."+x.name)
		if f == nil {
			continue
		}
		if !same {
			c.undecided("graph", fname(f), f.Pos(), "graphs are represented in another way than in the reference definition")
			continue
		}
		steps = append(steps, step{x.name, x.what, func(g *ssa.Function) bool { return g == f }, variants(x.name), true, true, false})
	}
	c.steps("graph", "internal/dependency", "dependency", steps, func(e *gvf) {
		e.pureFn = func(name string) bool {
			return name == "sort.SearchInts" || name == "slices.BinarySearch" || name == "slices.Insert"
		}
	})
}

// sameFields: two structs with the same fields.
func (c *Ctx) sameFields(a, b types.Type) bool {
	s, ok1 := a.Underlying().(*types.Struct)
	t, ok2 := b.Underlying().(*types.Struct)
	if !ok1 || !ok2 || s.NumFields() != t.NumFields() {
		return false
	}
	have := map[string]types.Type{}
	for i := 0; i < s.NumFields(); i++ {
		have[s.Field(i).Name()] = s.Field(i).Type()
	}
	for i := 0; i < t.NumFields(); i++ {
		if h := have[t.Field(i).Name()]; h == nil || !types.Identical(h, t.Field(i).Type()) {
			return false
		}
	}
	return true
}
