package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation a rule has decided.
type Ob struct {
	Rule   string `json:"rule"`
	Where  string `json:"where"` // function or call site
	Pos    string `json:"pos"`
	What   string `json:"what"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

// Ctx collects what the rules of one property decide.
type Ctx struct {
	P         *Program
	Specs     []*Spec
	Prop      string
	Tier      string
	Obs       []Ob
	Undecided []Ob
	Assume    []string
	Fns       map[string]bool
	counts    map[string]int
	current   string
}

func (c *Ctx) Oblige(rule string, fn *ssa.Function, pos token.Pos, what string, ok bool, detail string) {
	w := ""
	if fn != nil {
		w = shortName(fn)
		c.Fns[w] = true
		if !pos.IsValid() {
			pos = fn.Pos()
		}
	}
	o := Ob{Rule: rule, Where: w, What: what, OK: ok}
	if pos.IsValid() {
		o.Pos = c.P.Pos(pos)
	}
	if !ok {
		o.Detail = detail
	}
	c.counts[rule]++
	c.Obs = append(c.Obs, o)
}

func (c *Ctx) Fail(rule, where, detail string) {
	c.Obs = append(c.Obs, Ob{Rule: rule, Where: where, What: "rule could be decided", OK: false, Detail: detail})
}

// Note records something the analysis could not decide; it is part of the
// evidence and is not an alarm.
func (c *Ctx) Note(rule, where, detail string) {
	c.Undecided = append(c.Undecided, Ob{Rule: rule, Where: where, What: "not decided", Detail: detail})
}

// AtLeast guards a rule against matching nothing.
func (c *Ctx) AtLeast(rule string, n int) {
	if c.counts[rule] < n {
		c.Fail(rule, "", fmt.Sprintf("found %d instances to decide, expected at least %d", c.counts[rule], n))
	}
}

func (c *Ctx) Anchor(rule, name string) *ssa.Function {
	f := c.P.Fn(name)
	if f == nil {
		c.Fail(rule, name, "anchored function is not there")
		return nil
	}
	c.Fns[name] = true
	return f
}

type PropDef struct {
	ID    string
	Rules []func(*Ctx)
	Text  string // rule applied, for evidence
	Asm   []string
}

var props = map[string]*PropDef{}

func register(id, text string, asm []string, rules ...func(*Ctx)) {
	props[id] = &PropDef{ID: id, Rules: rules, Text: text, Asm: asm}
}

// specRules compares every function specified for the property.
func specRules(c *Ctx) {
	for _, s := range c.Specs {
		mine := false
		for _, p := range s.Props {
			mine = mine || p == c.Prop
		}
		if !mine {
			continue
		}
		fn := c.P.Fn(s.Target)
		if fn == nil {
			// folded into its callers or renamed: its specification stands in
			// for it, and the callers are compared with its meaning in place
			c.Note("spec", s.Target, "is not there under this name; judged through its callers")
			continue
		}
		if s.Fn == nil {
			c.Note("spec", s.Target, "specification does not fit the code's declarations: "+s.Why)
			continue
		}
		d, n, inl, err := s.Compare(c.P, fn, keepSet(c.Specs, s))
		for _, f := range inl {
			c.Fns[shortName(f)] = true
		}
		c.Fns[s.Target] = true
		if err != nil {
			c.Note("spec", s.Target, err.Error())
			continue
		}
		for _, x := range d {
			c.Oblige("spec", fn, x.Pos, x.What, false, x.String())
		}
		for i := len(d); i < n; i++ {
			c.Oblige("spec", fn, fn.Pos(), fmt.Sprintf("agreement %d with specification", i), true, "")
		}
	}
}

type finding struct {
	Status   string `json:"status"` // known | fixed
	Property string `json:"property"`
	Rule     string `json:"rule,omitempty"`
	Where    string `json:"where,omitempty"`
	What     string `json:"what,omitempty"`
	Commit   string `json:"commit,omitempty"`
	Text     string `json:"text"`
}

func loadFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "" || strings.HasPrefix(ln, "#") || !strings.HasPrefix(ln, "{") {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(ln), &f) == nil {
			out = append(out, f)
		}
	}
	return out
}

func runProp(root, verif, id, tier string) int {
	t0 := time.Now()
	def := props[id]
	if def == nil {
		fmt.Println("no such property", id)
		return 2
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	c := &Ctx{Prop: id, Tier: tier, Fns: map[string]bool{}, counts: map[string]int{}}
	p, err := LoadProgram(root)
	if err != nil {
		fmt.Println("cannot analyse:", err)
		return 2
	} else {
		c.P = p
		c.Specs = loadSpecs(p)
		for _, r := range append([]func(*Ctx){specRules, ruleHidden}, extraRules[id]...) {
			func() {
				defer func() {
					if e := recover(); e != nil {
						if os.Getenv("CHK_DEBUG") != "" {
							panic(e)
						}
						if u, ok := e.(undecided); ok {
							e = u.msg
						}
						c.Note("analysis", "", fmt.Sprint(e))
					}
				}()
				r(c)
			}()
		}
	}
	known := loadFindings(filepath.Join(verif, "findings", "known.jsonl"))
	var bad []Ob
	nOK := 0
	for _, o := range c.Obs {
		if o.OK {
			nOK++
			continue
		}
		hit := false
		for _, k := range known {
			if k.Status == "known" && k.Property == id && k.Rule == o.Rule && k.Where == o.Where && k.What == o.What {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", id, o.Where, k.Text)
				hit = true
				break
			}
		}
		if !hit {
			bad = append(bad, o)
		}
	}
	for _, o := range c.Undecided {
		d := o.Detail
		if len(d) > 300 {
			d = strings.ToValidUTF8(d[:300], "") + "…"
		}
		fmt.Printf("not decided: %s %s: %s\n", o.Rule, o.Where, d)
	}
	if len(c.Obs) == 0 {
		fmt.Println("nothing could be decided")
		if len(c.Undecided) == 0 {
			return 2
		}
	}
	writeEvidence(verif, c, def, tier, nOK, bad, time.Since(t0))
	if len(bad) == 0 {
		fmt.Printf("ok property=%s obligations=%d functions=%d\n", id, len(c.Obs), len(c.Fns))
		return 0
	}
	replay := filepath.Join(verif, "evidence", id+".violation.json")
	b, _ := json.MarshalIndent(bad, "", " ")
	os.WriteFile(replay, b, 0o644)
	for i, o := range bad {
		if i >= 12 {
			fmt.Printf("... and %d more\n", len(bad)-i)
			break
		}
		d := o.Detail
		if len(d) > 900 {
			d = strings.ToValidUTF8(d[:900], "") + "…"
		}
		fmt.Printf("%s %s %s: %s: %s\n", o.Pos, o.Where, o.Rule, o.What, d)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func writeEvidence(verif string, c *Ctx, def *PropDef, tier string, ok int, bad []Ob, d time.Duration) {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var fns []string
	for f := range c.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	byRule := map[string]int{}
	for _, o := range c.Obs {
		byRule[o.Rule]++
	}
	var samples []Ob
	for i, o := range c.Obs {
		if len(samples) < 40 && (i%(1+len(c.Obs)/40) == 0) {
			samples = append(samples, o)
		}
	}
	ev := map[string]any{
		"property": c.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":          def.Text,
			"obligations":          len(c.Obs),
			"discharged":           ok,
			"obligations_by_rule":  byRule,
			"functions_analysed":   fns,
			"samples":              samples,
			"violated_obligations": bad,
			"not_decided":          c.Undecided,
		},
		"assumptions": append([]string{
			"callbacks (offset, relation and geometry functions) are pure",
			"floating point comparisons are made on non-NaN values; arithmetic is treated as exact",
			"unexported library state of the dependencies changes only through the listed methods",
		}, def.Asm...),
		"wall_s":     d.Seconds(),
		"violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.Prop+".json"), b, 0o644)
}
