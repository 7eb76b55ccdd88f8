package main

import (
	"fmt"
	"io"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dump prints a summary for people working on the rules.
func dump(p *Program, w io.Writer, name string, keep []string) {
	fn := p.Fn(name)
	if fn == nil {
		fmt.Fprintln(w, "no function", name)
		return
	}
	ks := map[string]bool{}
	for _, k := range keep {
		ks[k] = true
	}
	e := NewEngine(p, Config{Keep: func(f *ssa.Function) bool { return ks[shortName(f)] }})
	s, err := e.Analyze(fn)
	if err != nil {
		fmt.Fprintln(w, "UNDECIDED", err)
		return
	}
	dumpEvents(w, p, s.Events, "")
	fmt.Fprintln(w, "RET", s.RetG)
	for i, r := range s.Rets {
		fmt.Fprintf(w, "  r%d = %s\n", i, r)
	}
}

func dumpEvents(w io.Writer, p *Program, es []*Event, ind string) {
	for _, ev := range es {
		if ev.Loop != nil {
			l := ev.Loop
			fmt.Fprintf(w, "%sLOOP L%d at %s guard %s\n", ind, l.ID, p.Pos(ev.Pos), l.Entry)
			for _, v := range l.Vars {
				fmt.Fprintf(w, "%s  var %s init=%s head=%s next=%s\n", ind, v.Key, v.Init, v.Res, v.Next)
			}
			fmt.Fprintf(w, "%s  back %s\n", ind, l.Back)
			for _, x := range l.Exits {
				fmt.Fprintf(w, "%s  exit %s thr=%v\n", ind, x.Guard, x.Next)
			}
			dumpEvents(w, p, l.Events, ind+"    ")
			continue
		}
		var as []string
		for _, a := range ev.Args {
			as = append(as, a.String())
		}
		fmt.Fprintf(w, "%s#%d %s %s(%s) @%s if %s\n", ind, ev.Seq, ev.Kind, ev.Name, strings.Join(as, ", "), p.Pos(ev.Pos), ev.Guard)
	}
}
