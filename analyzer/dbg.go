package main

import (
	"fmt"
	"os"
	"sort"
)

// dbgDiff prints the nodes and terms that occur in only one of two results
// (for working on the engine).
func dbgDiff(ra, rb *gnorm) {
	if os.Getenv("DBG_DIFF") == "" {
		return
	}
	collect := func(r *gnorm) (map[*gterm]bool, map[*dd]bool) {
		ts, ds := map[*gterm]bool{}, map[*dd]bool{}
		var vt func(t *gterm)
		var vv func(v gval)
		var vd func(d *dd)
		vd = func(d *dd) {
			if ds[d] {
				return
			}
			ds[d] = true
			if d.leaf != nil {
				vt(d.leaf)
				return
			}
			vt(d.v.t)
			for _, k := range d.kids {
				vd(k)
			}
		}
		vv = func(v gval) {
			switch v := v.(type) {
			case *dd:
				vd(v)
			case *gsv:
				for _, f := range v.f {
					vv(f)
				}
			case gtuple:
				for _, f := range v {
					vv(f)
				}
			}
		}
		vt = func(t *gterm) {
			if t == nil || ts[t] {
				return
			}
			ts[t] = true
			for _, a := range t.args {
				vt(a)
			}
			for _, v := range t.vals {
				vv(v)
			}
		}
		vv(r.vals)
		for _, x := range r.events {
			vd(x.guard)
			vt(x.t)
		}
		vd(r.normal)
		return ts, ds
	}
	ta, da := collect(ra)
	tb, db := collect(rb)
	show := func(l string, ta, tb map[*gterm]bool, da, db map[*dd]bool) {
		var xs []*gterm
		for t := range ta {
			if !tb[t] {
				xs = append(xs, t)
			}
		}
		sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
		for _, t := range xs {
			s := fmt.Sprintf("%s t%d %s:%s", l, t.id, t.op, cutMid(t.s, 60))
			for _, a := range t.args {
				s += fmt.Sprintf(" t%d", a.id)
			}
			for _, v := range t.vals {
				s += " " + v.key()
			}
			fmt.Println(s)
		}
		var ys []*dd
		for d := range da {
			if !db[d] {
				ys = append(ys, d)
			}
		}
		sort.Slice(ys, func(i, j int) bool { return ys[i].id < ys[j].id })
		for _, d := range ys {
			s := fmt.Sprintf("%s d%d ", l, d.id)
			if d.leaf != nil {
				s += fmt.Sprintf("= t%d", d.leaf.id)
			} else {
				s += fmt.Sprintf("? t%d %c(%s:%s)", d.v.t.id, d.v.kind, d.v.t.op, cutMid(d.v.t.s, 40))
				for _, k := range d.kids {
					s += fmt.Sprintf(" d%d", k.id)
				}
			}
			fmt.Println(s)
		}
	}
	show("A", ta, tb, da, db)
	show("B", tb, ta, db, da)
}
