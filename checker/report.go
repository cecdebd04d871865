package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Violation struct {
	Key    string // stable: rule/construct, no line numbers
	Pos    string
	Detail string
}

type Report struct {
	w           *World
	prop        string
	obligations int
	perRule     map[string]int
	constructs  map[string]bool
	viol        []Violation
	undecided   []string
	notes       []string
	samples     []string
	funcs       map[string]bool
	started     time.Time
	bounds      map[string]bool
	thorough    bool
	// a different question asked about the same scenarios, reported to parent
	override     func(s *Scen, o Outcome) (bool, string)
	overrideRule string
	parent       *Report
}

// again runs the scenarios of another property and asks a different question about each outcome.
func (r *Report) again(w *World, a *Anchors, id, rule string, check func(s *Scen, o Outcome) (bool, string)) {
	if f := os.Getenv("CC_FROM"); f != "" && f != id {
		return
	}
	sub := NewReport(w, id)
	sub.override, sub.overrideRule, sub.parent = check, rule, r
	props[id].run(w, a, sub)
	for f := range sub.funcs {
		r.funcs[f] = true
	}
	for b := range sub.bounds {
		r.bounds[b] = true
	}
}

func NewReport(w *World, prop string) *Report {
	return &Report{thorough: os.Getenv("VERIF_TIER") == "thorough", w: w, prop: prop, perRule: map[string]int{}, constructs: map[string]bool{}, funcs: map[string]bool{}, started: time.Now(), bounds: map[string]bool{}}
}

// Ob records one discharged or violated obligation of a rule on a construct.
func (r *Report) Ob(ok bool, rule, construct string, pos token.Pos, detail string, args ...any) {
	if r.override != nil {
		if !ok && rule == "budget" {
			r.parent.Ob(ok, rule, construct, pos, detail, args...)
		}
		return
	}
	r.obligations++
	r.perRule[rule]++
	r.constructs[construct] = true
	if len(args) > 0 {
		detail = fmt.Sprintf(detail, args...)
	}
	if !ok && (rule == "budget" || rule == "anchors") {
		// the analysis did not find or finish its subject: this is no answer, not a violation
		r.undecided = append(r.undecided, construct+": "+detail)
		return
	}
	if !ok {
		p := "-"
		if pos.IsValid() {
			p = r.w.pos(pos)
		}
		k := rule + "/" + construct
		for _, v := range r.viol {
			if v.Key == k {
				return
			}
		}
		r.viol = append(r.viol, Violation{Key: k, Pos: p, Detail: detail})
		// there is an answer: no need for all the time
		if d := r.started.Add(150 * time.Second); len(r.viol) > 8 && checkDeadline.After(d) {
			checkDeadline = d
		}
	} else if len(r.samples) < 60 {
		r.samples = append(r.samples, rule+" / "+construct)
	}
}

func (r *Report) Analysed(in *Interp) {
	for f := range in.entered {
		r.funcs[f.String()] = true
	}
	for t := range in.truncated {
		r.bounds[t] = true
	}
	if in.budgetHit {
		r.Ob(false, "budget", "analysis budget exhausted", token.NoPos, "the abstract exploration did not finish within its step budget")
	}
}

func uniq(l []string) []string {
	m := map[string]bool{}
	r := []string{}
	for _, x := range l {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func (r *Report) Note(f string, a ...any) { r.notes = append(r.notes, fmt.Sprintf(f, a...)) }

type known struct{ key, desc string }

func loadKnown(dir, prop string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" key=")
		// key is terminated by " :: "
		p := strings.SplitN(l, " :: ", 2)
		if len(p) == 2 {
			r = append(r, known{strings.TrimSpace(p[0]), p[1]})
		}
	}
	return r
}

func (r *Report) Finish(dir, level, explanation string, rules []string, assumptions []string) int {
	kn := loadKnown(dir, r.prop)
	var bad []Violation
	for _, v := range r.viol {
		hit := false
		for _, k := range kn {
			if k.key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", r.prop, k.desc, v.Key, v.Pos)
				hit = true
				break
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	sort.Strings(r.samples)
	var fl []string
	for f := range r.funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fl)
	var bl []string
	for b := range r.bounds {
		bl = append(bl, strings.ReplaceAll(b, modPath+"/", ""))
	}
	sort.Strings(bl)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(fl) > 400 {
		fl = fl[:400]
	}
	vs := []map[string]string{}
	for _, v := range bad {
		vs = append(vs, map[string]string{"key": v.Key, "at": v.Pos, "detail": v.Detail})
	}
	ev := map[string]any{
		"property": r.prop, "tier": tier, "seed": 1, "level": level,
		"coverage": map[string]any{
			"explanation":           explanation,
			"obligations":           r.obligations,
			"obligations_per_rule":  r.perRule,
			"distinct_constructs":   len(r.constructs),
			"rules":                 rules,
			"functions_analysed":    fl,
			"loops_bounded":         bl,
			"sample_obligations":    r.samples,
			"notes":                 r.notes,
			"undecided":             uniq(r.undecided),
			"violations_found":      vs,
			"known_findings_listed": len(kn),
		},
		"wall_s":      time.Since(r.started).Seconds(),
		"violations":  len(bad),
		"assumptions": assumptions,
	}
	_ = os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	_ = os.WriteFile(filepath.Join(dir, "evidence", r.prop+".json"), b, 0o644)
	for i, u := range uniq(r.undecided) {
		if i < 20 {
			fmt.Printf("UNDECIDED: property=%s %s\n", r.prop, u)
		}
	}
	fmt.Printf("%s: %d obligations over %d constructs in %d analysed functions, %d violations, %.1fs\n", r.prop, r.obligations, len(r.constructs), len(r.funcs), len(bad), time.Since(r.started).Seconds())
	if len(bad) == 0 {
		return 0
	}
	rp := filepath.Join(dir, "evidence", r.prop+".violation.txt")
	var sb strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n", v.Key, v.Pos, v.Detail)
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	for _, v := range bad {
		fmt.Printf("  %s at %s: %s\n", v.Key, v.Pos, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rp)
	return 1
}
