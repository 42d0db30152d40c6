package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
)

func dumpEvents(P *Program, es []*Event, ind string) {
	for _, e := range es {
		fmt.Printf("%s%-8s %s", ind, e.Kind, P.pos(e.Pos))
		if e.Name != "" {
			fmt.Printf(" %s", e.Name)
		}
		if e.Callee != nil {
			fmt.Printf(" callee=%v", e.Callee)
		}
		if len(e.Args) > 0 {
			fmt.Printf(" args=%v", e.Args)
		}
		if e.Addr != nil {
			fmt.Printf(" addr=%v", e.Addr)
		}
		if e.Val != nil {
			fmt.Printf(" val=%v", e.Val)
		}
		if len(e.Res) > 0 {
			fmt.Printf(" res=%v", e.Res)
		}
		if e.Raised != nil {
			fmt.Printf(" RAISED %v", e.Raised)
		}
		if e.Kind == "Select" {
			fmt.Printf(" chosen=%d", e.Chosen)
		}
		fmt.Println()
		if e.Loop != nil {
			for _, v := range e.Loop.Vars {
				fmt.Printf("%s  var init=%v head=%v nexts=%v\n", ind, v.Init, v.Head, v.Nexts)
			}
			for _, l := range e.Loop.Inv {
				fmt.Printf("%s  inv %v >= 0\n", ind, l.term())
			}
			for i, c := range e.Loop.Conts {
				fmt.Printf("%s  cont %d\n", ind, i)
				dumpEvents(P, c.Events, ind+"    ")
			}
		}
		if e.Kind == "Go" || e.Kind == "Alt" {
			dumpPaths(P, e.Sub, ind+"    ")
		}
		for i, b := range e.Par {
			fmt.Printf("%s  branch %d\n", ind, i)
			dumpPaths(P, b, ind+"    ")
		}
	}
}

func dumpPaths(P *Program, ps []*Path, ind string) {
	for i, p := range ps {
		fmt.Printf("%spath %d: %s ret=%v pval=%v\n", ind, i, p.Outcome, p.Ret, p.PVal)
		for _, l := range p.Facts.ge {
			fmt.Printf("%s   fact %v >= 0\n", ind, l.term())
		}
		for b, v := range p.Facts.bools {
			fmt.Printf("%s   fact %v = %v\n", ind, b, v)
		}
		dumpEvents(P, p.Events, ind+"  ")
	}
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2:]))
	}
	if len(os.Args) > 3 && os.Args[1] == "all" {
		os.Exit(runAll(os.Args[2], os.Args[3]))
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		repo := os.Getenv("REPO")
		if repo == "" {
			repo = "/repo"
		}
		P, err := load(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		parts := strings.Split(os.Args[2], ".")
		f := P.fn(parts[0], parts[1])
		if len(parts) == 3 {
			f = P.method(parts[0], parts[1], parts[2])
		}
		opts := strings.Join(os.Args[3:], ",")
		x := newExec(P, Config{Panics: strings.Contains(opts, "panics"), Models: strings.Contains(opts, "models"), WrapAtom: !strings.Contains(opts, "nowrap"), Loads: strings.Contains(opts, "loads")})
		if strings.Contains(opts, "sort") {
			x.cfg = P.sortCfg(f)
		}
		if strings.Contains(opts, "opq") {
			d := newReport(P).pipeInfo()
			x.cfg.Opaque = d.opaque
			x.cfg.Keep = d.keepPipeline
		}
		A := P.analyse(f, x.cfg, nil)
		dumpPaths(P, A.Entry.Paths, "")
		for _, u := range A.Units {
			fmt.Println("UNIT", u.Fn, u.Params)
			for _, l := range u.Pre {
				fmt.Println("   pre", l.term(), ">= 0")
			}
			dumpPaths(P, u.Paths, "    ")
		}
		fmt.Println(len(A.Entry.Paths), "paths", A.Exec.errs, A.Exec.steps)
	}
}

func init() {
	if len(os.Args) > 1 && os.Args[1] == "smoke" {
		P, err := load("/repo")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, pkg := range wantPkgs {
			for _, f := range P.exportedFuncs(pkg) {
				x := newExec(P, Config{Panics: true, Models: pkg == "sync" || pkg == "sort", WrapAtom: true, Loads: true})
				var args []*Term
				for _, p := range f.Params {
					args = append(args, fresh(p.Name(), p.Type()))
				}
				ps := x.runFunc(newState(), f, args, nil)
				fmt.Println(short(f.String()), len(ps), "paths", x.steps, "steps", x.errs)
			}
		}
		os.Exit(0)
	}
}
