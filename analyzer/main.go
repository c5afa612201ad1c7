package main

import (
	"flag"
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

type check func(*Ctx)

var checks = map[string]check{}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory for evidence and known findings")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	if flag.NArg() < 1 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		os.Exit(2)
	}
	rc := 0
	base := make(map[bool]*Ctx) // the loaded repository, with and without the references
	for _, prop := range flag.Args() {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		c := &Ctx{Prop: prop, Tier: *tier, Repo: *repo, Verif: *verif, Seed: seed, Start: time.Now(), Fset: token.NewFileSet()}
		with := needSpec[prop]
		if base := base[with]; base != nil {
			c.Fset, c.Pkgs, c.ByPath, c.Prog, c.SSA, c.Funcs, c.Spec = base.Fset, base.Pkgs, base.ByPath, base.Prog, base.SSA, base.Funcs, base.Spec
		}
		if run(c, base[with] == nil) != 0 {
			rc = 1
		}
		if c.Prog != nil {
			base[with] = c
		}
	}
	os.Exit(rc)
}

func run(c *Ctx, load bool) (rc int) {
	defer func() {
		if r := recover(); r != nil {
			c.Bad("analyzer", "internal error", token.NoPos, "the analysis could not be completed: %v\n%s", r, debug.Stack())
			rc = c.finish()
		}
	}()
	fn, ok := checks[c.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", c.Prop)
		os.Exit(2)
	}
	if load {
		if err := c.load(); err != nil {
			c.Bad("load", "repository", token.NoPos, "%v", err)
			return c.finish()
		}
	}
	fn(c)
	return c.finish()
}
