package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type checkDef struct {
	specs []string
	run   func(p *Program, r *Report)
	expl  string
}

var checks = map[string]checkDef{}

func explanation(id string) string { return checks[id].expl }

func main() {
	if len(os.Args) >= 3 && os.Args[1] == "dump" {
		dump(os.Args[2:])
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "names" {
		namesCmd()
		return
	}
	if len(os.Args) >= 4 && os.Args[1] == "eval" {
		evalCmd(os.Args[2:])
		return
	}
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: engine check ID")
		os.Exit(2)
	}
	debug.SetMaxStack(512 << 20)
	id := os.Args[2]
	tier := "quick"
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	c, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	os.Exit(runCheck(id, c, tier))
}

func runCheck(id string, c checkDef, tier string) (code int) {
	if os.Getenv("CLIP") != "" {
		clipAt = 400000
	}
	start := time.Now()
	r := newReport(id)
	func() {
		defer func() {
			if x := recover(); x != nil {
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				r.fail("analysis", "engine", "-", "the analysis could not be completed: %v\n%s", x, st)
			}
		}()
		p, err := load(c.specs...)
		if err != nil {
			r.fail("load", "repository", "-", "the source could not be loaded: %v", err)
			return
		}
		if len(p.renamed) > 0 {
			r.notes = append(r.notes, "analysed under their names at the pinned commit: "+strings.Join(p.renamed, ", "))
		}
		c.run(p, r)
		if len(r.obl) == 0 {
			r.fail("instances", "all", "-", "no obligation was generated")
		}
	}()
	return r.finish(start, tier)
}
