package main

// Reference definitions: Go packages that state, with the types of the
// repository, what some of its functions compute.  They are never run; they
// are type-checked beside the repository's packages (in an overlay) and
// analysed in the same way, and the two results are compared.

import (
	"embed"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec
var specFS embed.FS

const specPath = modPath + "/zzspec/"

var needSpec = map[string]bool{}

func specOverlay(repo string) map[string][]byte {
	ov := map[string][]byte{}
	dirs, _ := specFS.ReadDir("spec")
	for _, d := range dirs {
		files, _ := specFS.ReadDir("spec/" + d.Name())
		for _, f := range files {
			data, err := specFS.ReadFile("spec/" + d.Name() + "/" + f.Name())
			if err == nil && strings.HasSuffix(f.Name(), ".go.txt") {
				ov[filepath.Join(repo, "zzspec", d.Name(), strings.TrimSuffix(f.Name(), ".txt"))] = data
			}
		}
	}
	return ov
}

func (c *Ctx) inSpec(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && strings.HasPrefix(p.Path(), specPath)
}
