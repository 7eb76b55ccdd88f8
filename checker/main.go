package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-prop" {
		fs := flag.NewFlagSet("chk", flag.ExitOnError)
		prop := fs.String("prop", "", "property id")
		tier := fs.String("tier", "quick", "quick or thorough")
		root := fs.String("root", "/repo", "repository")
		verif := fs.String("verif", "/verif", "where evidence goes")
		fs.Parse(os.Args[1:])
		os.Exit(runProp(*root, *verif, *prop, *tier))
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		root := "/repo"
		if r := os.Getenv("CHK_ROOT"); r != "" {
			root = r
		}
		p, err := LoadProgram(root)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dump(p, os.Stdout, os.Args[2], os.Args[3:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "uses" {
		p, err := LoadProgram("/repo")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		printUses(p)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "mods" {
		p, _ := LoadProgram("/repo")
		dbgMods(p, os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "cmp" {
		root := "/repo"
		if r := os.Getenv("CHK_ROOT"); r != "" {
			root = r
		}
		p, err := LoadProgram(root)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		specs := loadSpecs(p)
		for _, s := range specs {
			if len(os.Args) > 2 && !strings.Contains(s.Target, os.Args[2]) {
				continue
			}
			fn := p.Fn(s.Target)
			if fn == nil {
				fmt.Println("MISSING", s.Target)
				continue
			}
			t0 := time.Now()
			d, n, inl, err := s.Compare(p, fn, keepSet(specs, s))
			if err != nil {
				fmt.Println("ERR", s.Target, err)
				continue
			}
			st := "ok  "
			if len(d) > 0 {
				st = "DIFF"
			}
			fmt.Printf("%s %s %d obligations, %d functions %.1fs %v\n", st, s.Target, n, len(inl), time.Since(t0).Seconds(), s.Props)
			for _, x := range d {
				fmt.Println("   ", x)
			}
		}
		if len(os.Args) == 2 {
			structuralAll(p, specs)
		}
	}
}

// structuralAll prints what the structural rules of all properties find.
func structuralAll(p *Program, specs []*Spec) {
	for _, s := range specs {
		for _, id := range s.Props {
			extraRules[id] = append(extraRules[id], nil...)
		}
	}
	for id, rs := range extraRules {
		rs = append([]func(*Ctx){ruleHidden}, rs...)
		c := &Ctx{P: p, Specs: specs, Prop: id, Fns: map[string]bool{}, counts: map[string]int{}}
		for _, r := range rs {
			r(c)
		}
		for _, o := range c.Obs {
			if !o.OK {
				fmt.Printf("DIFF rule:%s [%s] %s %s\n    %s\n", o.Rule, id, o.Where, o.Pos, o.Detail)
			}
		}
	}
}
