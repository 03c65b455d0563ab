package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Obligation is one instance of a rule at one construct.
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos,omitempty"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

type Report struct {
	id       string
	obl      []Obligation
	analysed map[string]int
	funcs    map[string]bool
	notes    []string
}

func newReport(id string) *Report {
	return &Report{id: id, analysed: map[string]int{}, funcs: map[string]bool{}}
}

func (r *Report) add(rule, construct, pos string, ok bool, detail string) {
	r.obl = append(r.obl, Obligation{rule, construct, pos, ok, detail})
}
func (r *Report) pass(rule, construct, pos string) { r.add(rule, construct, pos, true, "") }
func (r *Report) fail(rule, construct, pos, format string, a ...interface{}) {
	r.add(rule, construct, pos, false, fmt.Sprintf(format, a...))
}
func (r *Report) check(ok bool, rule, construct, pos, format string, a ...interface{}) {
	if ok {
		r.pass(rule, construct, pos)
	} else {
		r.fail(rule, construct, pos, format, a...)
	}
}

// atLeast guards against rules that match nothing.
func (r *Report) atLeast(rule string, n int) {
	c := 0
	for _, o := range r.obl {
		if o.Rule == rule {
			c++
		}
	}
	if c < n {
		r.fail("instances", rule, "-", "the rule applied to %d constructs, expected at least %d", c, n)
	}
}

type known struct {
	prop, key string
}

func knownFindings() []known {
	var r []known
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		parts := strings.SplitN(l, " ", 2)
		if len(parts) == 2 {
			r = append(r, known{strings.TrimPrefix(parts[0], "property="), parts[1]})
		}
	}
	return r
}

func (r *Report) finish(start time.Time, tier string) int {
	disch := 0
	rules := map[string][2]int{}
	var bad []Obligation
	for _, o := range r.obl {
		c := rules[o.Rule]
		c[0]++
		if o.OK {
			disch++
			c[1]++
		} else {
			bad = append(bad, o)
		}
		rules[o.Rule] = c
	}
	var viol []Obligation
	for _, o := range bad {
		isKnown := false
		for _, k := range knownFindings() {
			if k.prop == r.id && strings.HasPrefix(k.key, o.Rule+" @ "+o.Construct) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k.key)
				isKnown = true
			}
		}
		if !isKnown {
			viol = append(viol, o)
		}
	}
	edir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(edir, 0o755)
	var rl []string
	for k, c := range rules {
		rl = append(rl, fmt.Sprintf("%s: %d/%d", k, c[1], c[0]))
	}
	sort.Strings(rl)
	var fl []string
	for f := range r.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	sample := r.obl
	if len(sample) > 400 {
		sample = sample[:400]
	}
	ev := map[string]interface{}{
		"property": r.id,
		"tier":     tier,
		"seed":     1,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":        explanation(r.id),
			"obligations":        len(r.obl),
			"discharged":         disch,
			"rules":              rl,
			"functions_analysed": len(fl),
			"functions":          fl,
			"analysed":           r.analysed,
			"instances":          sample,
			"notes":              r.notes,
			"toolchain":          goVersion(),
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(edir, r.id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.1fs\n", r.id, len(r.obl), disch, len(fl), time.Since(start).Seconds())
	for _, l := range rl {
		fmt.Println("  ", l)
	}
	replay := filepath.Join(edir, r.id+".violation.txt")
	os.Remove(replay)
	if len(viol) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&sb, "%s: rule %q violated at %s (%s)\n    %s\n", r.id, o.Rule, o.Construct, o.Pos, o.Detail)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	s := sb.String()
	if len(s) > 20000 {
		s = s[:20000] + "...\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, replay)
	return 1
}
