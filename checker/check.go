package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

const explainText = "The current source is type-checked and built to SSA; every function reachable from the constructs listed is " +
	"interpreted abstractly for symbolic arguments (all paths, loops and recursions by inferred invariants, goroutines by their effects between " +
	"start and join). Nothing is executed. Each obligation is one instance of a rule at a construct (function, call site, path or goroutine); " +
	"one that fails or cannot be decided is reported as a violation."

var assumptions = []string{
	"integer arithmetic in indices and counts does not overflow",
	"functions supplied by the user return or panic (with a value other than nil) and do not call runtime.Goexit",
	"the Go memory model, and the documented behaviour of the standard library functions that are used",
}

// title reads the property's title and statement.
func title(verif, id string) string {
	b, _ := os.ReadFile(filepath.Join(verif, "properties.jsonl"))
	for _, l := range strings.Split(string(b), "\n") {
		var p struct{ ID, Title, Statement string }
		if json.Unmarshal([]byte(l), &p) == nil && p.ID == id {
			return p.Title + ": " + p.Statement
		}
	}
	return id
}

func runCheck(args []string) int {
	id := args[0]
	repo, verif := "/repo", "/verif"
	tier := os.Getenv("VERIF_TIER")
	for i := 1; i < len(args); i++ {
		switch {
		case args[i] == "-repo" && i+1 < len(args):
			repo = args[i+1]
			i++
		case args[i] == "-verif" && i+1 < len(args):
			verif = args[i+1]
			i++
		case args[i] == "thorough" || args[i] == "quick":
			tier = args[i]
		}
	}
	if tier == "" {
		tier = "quick"
	}
	seed := os.Getenv("VERIF_SEED")
	start := time.Now()
	P, err := load(repo)
	if err != nil {
		fmt.Println("cannot load the code:", err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, "load")
		return 1
	}
	R := newReport(P)
	R.run(id)
	done := []string{"the build for this machine"}
	if tier == "thorough" {
		// files selected by build constraints and sizes of integers differ
		for _, c := range configs {
			P2, err := load(repo, c...)
			if err != nil {
				fmt.Printf("the configuration %v cannot be loaded: %v\n", c, err)
				R.ob(id, "configuration-loads", strings.Join(c, " "), 0, false, "undecided: %v", err)
				continue
			}
			R2 := newReport(P2)
			R2.run(id)
			R.merge(R2, id, strings.Join(c, " "))
			done = append(done, strings.Join(c, " "))
		}
	}
	return R.finish(id, tier, seed, verif, start, explainText, title(verif, id), assumptions, map[string]interface{}{"configurations": done})
}

// configs are the build configurations that the thorough tier adds.
var configs = [][]string{
	{"GOARCH=386"},
	{"GOOS=windows"},
	{"GOOS=darwin", "GOARCH=arm64"},
	{"tags=race"},
}

// merge adds the results for another configuration.
func (R *Report) merge(o *Report, id, config string) {
	r, s := R.prop(id), o.prop(id)
	r.Obl += s.Obl
	r.Paths += s.Paths
	for k, n := range s.Rules {
		r.Rules[k] += n
	}
	for k := range s.Sites {
		r.Sites[k] = true
	}
	for k := range s.Funcs {
		r.Funcs[k] = true
	}
	for _, v := range s.Viol {
		k := v.Rule + "|" + v.Construct + "|" + v.Pos + "|" + v.Msg
		if !r.seen[k] {
			r.seen[k] = true
			v.Msg += " (with " + config + ")"
			r.Viol = append(r.Viol, v)
		}
	}
}

func (R *Report) run(id string) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("PARGO_DEBUG") != "" {
				panic(r)
			}
			R.ob(id, "analysis-complete", "checker", 0, false, "undecided: the analysis failed: %v", r)
		}
	}()
	switch id[0] {
	case 'M':
		R.rulesM(id)
	case 'F':
		R.rulesF(id)
	case 'P':
		R.rulesP(id)
	case 'S':
		R.rulesS(id)
	default:
		R.ob(id, "known-property", id, 0, false, "no rule for this property")
	}
}
