package main

// Obligations, violations and the evidence they leave behind.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Viol struct {
	Prop, Rule, Construct, Pos, Msg string
}

type PropRes struct {
	Obl   int
	Rules map[string]int
	Sites map[string]bool // constructs with at least one obligation
	Funcs map[string]bool
	Paths int
	Viol  []Viol
	seen  map[string]bool
}

// Report collects what the rules found, per property.
type Report struct {
	P     *Program
	Props map[string]*PropRes
	cur   []string // properties that path and function counts go to
}

func newReport(P *Program) *Report { return &Report{P: P, Props: map[string]*PropRes{}} }

func (R *Report) prop(id string) *PropRes {
	r := R.Props[id]
	if r == nil {
		r = &PropRes{Rules: map[string]int{}, Sites: map[string]bool{}, Funcs: map[string]bool{}, seen: map[string]bool{}}
		R.Props[id] = r
	}
	return r
}

func ids(props string) []string {
	if props == "" {
		return nil
	}
	return strings.Split(props, ",")
}

// ob records an obligation of a property; props may name several.
func (R *Report) ob(props, rule, construct string, pos token.Pos, ok bool, format string, a ...interface{}) bool {
	for _, id := range ids(props) {
		r := R.prop(id)
		r.Obl++
		r.Rules[rule]++
		r.Sites[construct] = true
		if ok {
			continue
		}
		v := Viol{Prop: id, Rule: rule, Construct: construct, Pos: R.P.pos(pos), Msg: fmt.Sprintf(format, a...)}
		k := v.Rule + "|" + v.Construct + "|" + v.Pos + "|" + v.Msg
		if !r.seen[k] {
			r.seen[k] = true
			r.Viol = append(r.Viol, v)
		}
	}
	return ok
}

// covered notes what an analysis looked at.
func (R *Report) covered(props string, A *Analysis) {
	for _, id := range ids(props) {
		r := R.prop(id)
		for f := range A.Exec.funcs {
			r.Funcs[short(f.String())] = true
		}
		r.Paths += len(A.Entry.Paths)
		for _, u := range A.Units {
			r.Paths += len(u.Paths)
		}
	}
	for _, e := range A.Exec.errs {
		R.ob(props, "analysis-complete", short(A.Entry.Fn.String()), A.Entry.Fn.Pos(), false, "undecided: %s", e)
	}
	for _, id := range ids(props) {
		r := R.prop(id)
		r.Obl++
		r.Rules["analysis-complete"]++
	}
}

// coveredExec is covered for a bare interpreter run.
func (R *Report) coveredExec(props string, name string, pos token.Pos, x *Exec, paths int) {
	for _, id := range ids(props) {
		r := R.prop(id)
		for f := range x.funcs {
			r.Funcs[short(f.String())] = true
		}
		r.Paths += paths
		r.Obl++
		r.Rules["analysis-complete"]++
	}
	for _, e := range x.errs {
		R.ob(props, "analysis-complete", name, pos, false, "undecided: %s", e)
	}
}

// need fails when fewer than min instances of a rule were found.
func (R *Report) need(id, rule string, min int) {
	n := R.prop(id).Rules[rule]
	R.ob(id, "instances", rule, token.NoPos, n >= min, "only %d instances of rule %q found, at least %d expected: the rule no longer matches the code it was written for", n, rule, min)
}

type knownFinding struct {
	prop, rule, construct, text string
}

// readKnown parses the known-findings file: lines
// "finding: property=<id> rule=<rule> construct=<construct> <what fails>".
func readKnown(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := knownFinding{}
		var rest []string
		for _, w := range strings.Fields(strings.TrimPrefix(l, "finding: ")) {
			switch {
			case strings.HasPrefix(w, "property=") && k.prop == "":
				k.prop = w[len("property="):]
			case strings.HasPrefix(w, "rule=") && k.rule == "":
				k.rule = w[len("rule="):]
			case strings.HasPrefix(w, "construct=") && k.construct == "":
				k.construct = w[len("construct="):]
			default:
				rest = append(rest, w)
			}
		}
		k.text = strings.Join(rest, " ")
		out = append(out, k)
	}
	return out
}

// finish writes the evidence and report files of one property and returns the
// exit status.
func (R *Report) finish(id, tier, seed, verif string, start time.Time, explain, ruleText string, assumptions []string, extra map[string]interface{}) int {
	r := R.prop(id)
	known := readKnown(filepath.Join(verif, "known_findings.txt"))
	var viol []Viol
	printed := map[string]bool{}
	for _, v := range r.Viol {
		hit := false
		for _, k := range known {
			if k.prop == id && k.rule == v.Rule && k.construct == v.Construct {
				hit = true
				s := fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.text)
				if !printed[s] {
					printed[s] = true
					fmt.Println(s)
				}
			}
		}
		if !hit {
			viol = append(viol, v)
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	var sites []string
	for s := range r.Sites {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	funcs := []string{}
	for f := range r.Funcs {
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	cov := map[string]interface{}{
		"explanation":         explain,
		"rule":                ruleText,
		"obligations":         r.Obl,
		"obligations_failed":  len(r.Viol),
		"functions_analysed":  len(r.Funcs),
		"functions":           funcs,
		"paths_analysed":      r.Paths,
		"constructs_judged":   len(sites),
		"constructs":          sites,
		"obligations_by_rule": r.Rules,
	}
	for k, v := range extra {
		cov[k] = v
	}
	var vs []map[string]string
	for _, v := range viol {
		vs = append(vs, map[string]string{"rule": v.Rule, "construct": v.Construct, "where": v.Pos, "what": v.Msg})
	}
	seedN := 0
	fmt.Sscan(seed, &seedN)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seedN, "level": "other",
		"coverage": cov, "assumptions": assumptions, "wall_s": time.Since(start).Seconds(),
		"violations": len(viol),
	}
	if len(vs) > 0 {
		ev["violation_list"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(verif, "evidence", id+".report.txt")
	if len(viol) == 0 {
		os.Remove(rp)
		fmt.Printf("property %s holds: %d obligations over %d constructs, %d functions, %d paths (%.1fs)\n", id, r.Obl, len(sites), len(r.Funcs), r.Paths, time.Since(start).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s: %s: [%s] %s\n", v.Pos, v.Construct, v.Rule, v.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "...\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}
