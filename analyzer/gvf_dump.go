package main

import (
	"fmt"
	"os"
)

func init() {
	needSpec["dump"] = true
	checks["dump"] = func(c *Ctx) {
		e := newGVF(c)
		f := c.Func(os.Getenv("DUMP_PKG"), os.Getenv("DUMP_FN"))
		if f == nil {
			fmt.Println("no such function")
			return
		}
		if os.Getenv("DUMP_PRIM") == "2" {
			c.genPrims(e, nil)
		} else if os.Getenv("DUMP_PRIM") != "" {
			c.schemaPrims(e)
		}
		n, err := e.norm(f, nil)
		if err != nil {
			fmt.Println("FAIL", err)
			return
		}
		var m *gnorm
		if s := os.Getenv("DUMP_SPEC"); s != "" {
			m, err = e.norm(c.Spec[os.Getenv("DUMP_SPKG")].Func(s), nil)
			if err != nil {
				fmt.Println("SPEC FAIL", err)
				return
			}
			fmt.Println("DIFF:", e.diff(n, m))
		}
		fmt.Println("shapes", sortedSyms(e.hardShapes(n)))
		fmt.Println("terms", e.termsN, "nodes", len(e.byID))
		fmt.Println("normal:", e.showN(n.normal, 20))
		if op := os.Getenv("DUMP_OP"); op != "" {
			seen := map[*gterm]bool{}
			e.visitTerms(n, func(t *gterm) {
				if t.op == op && !seen[t] {
					seen[t] = true
					fmt.Println(op, t.id, e.showN(e.leaf(t), 12))
				}
			})
			return
		}
		v := n.vals
		if t, ok := v.(gtuple); ok {
			v = e.tupleVal(t)
		}
		if sv, ok := v.(*gsv); ok {
			for i, p := range e.parts(sv.typ) {
				fmt.Println("result", p.key, ":", e.showN(sv.f[i], 20))
			}
		} else if v != nil {
			fmt.Println("result:", e.showN(v, 20))
		}
		fmt.Println("events:", e.showEvents(n.events))
		for _, w := range n.writes {
			fmt.Println("write:", w.name, "=", e.showN(w.v, 20))
		}
	}
}
