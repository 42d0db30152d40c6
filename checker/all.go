package main

import (
	"fmt"
	"os"
	"sort"
)

// runAll judges every property in one process (for development).
func runAll(repo, fams string) int {
	P, err := load(repo)
	if err != nil {
		fmt.Println("cannot load:", err)
		return 2
	}
	R := newReport(P)
	for _, f := range fams {
		R.run(string(f))
	}
	var ids []string
	for id := range R.Props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	rc := 0
	for _, id := range ids {
		if os.Getenv("STATS") != "" {
			r := R.Props[id]
			fmt.Println(id, r.Obl, "obligations", len(r.Sites), "constructs", len(r.Funcs), "functions", r.Paths, "paths", r.Rules)
		}
		for i, v := range R.Props[id].Viol {
			rc = 1
			if i > 2 {
				fmt.Printf("%s ... %d in all\n", id, len(R.Props[id].Viol))
				break
			}
			m := v.Msg
			if len(m) > 220 {
				m = m[:220]
			}
			fmt.Printf("%s %s %s [%s] %s\n", id, v.Pos, v.Construct, v.Rule, m)
		}
	}
	fmt.Println("done", len(ids), "properties")
	return rc
}
