package main

import (
	"fmt"
	"os"
)

func dbgMods(p *Program, names []string) {
	for _, n := range names {
		f := p.Fn(n)
		if f == nil {
			fmt.Println(n, "?")
			continue
		}
		fmt.Println(n, sortedKeys(p.Mods(f).Classes), pureFn(f))
		fmt.Println("  reads", sortedKeys(p.Reads(f)))
		for _, w := range p.Mods(f).Sites {
			fmt.Println("   site", w.Class, shortName(w.Fn), p.Pos(w.Pos))
		}
		for g := range p.Reach(f) {
			fmt.Println("   reach", shortName(g))
		}
	}
}

// deepest prints where two expressions part.
func deepest(a, b *Expr, path string, n *int) {
	if a == b || *n <= 0 {
		return
	}
	if a != nil && b != nil && a.Op == b.Op && a.Aux == b.Aux && len(a.Args) == len(b.Args) && len(a.Args) > 0 {
		any := false
		for i := range a.Args {
			if a.Args[i] != b.Args[i] {
				any = true
				deepest(a.Args[i], b.Args[i], fmt.Sprintf("%s/%s%s.%d", path, a.Op, a.Aux, i), n)
			}
		}
		if any {
			return
		}
	}
	*n--
	if len(path) > 160 {
		path = "…" + path[len(path)-160:]
	}
	fmt.Fprintf(os.Stderr, "PART %s\n   A %.1500s\n   B %.1500s\n", path, a.String(), b.String())
}
