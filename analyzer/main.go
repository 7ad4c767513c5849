// Command aqlverify decides one property of the source in -repo.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"aqlverify/checks"
	"aqlverify/flow"
	"aqlverify/prog"
)

func main() {
	repo := flag.String("repo", "/repo", "source to analyse")
	out := flag.String("out", ".", "directory with the known findings, in which evidence is written")
	verbose := flag.Bool("v", false, "print what was analysed")
	first := flag.Bool("first", false, "stop at the first property that is violated")
	flag.Parse()
	debug.SetGCPercent(400)
	if flag.NArg() == 0 {
		fmt.Fprintln(os.Stderr, "usage: aqlverify [-repo dir] [-out dir] property...")
		os.Exit(2)
	}
	p, err := prog.Load(*repo)
	code := 0
	for _, id := range flag.Args() {
		if n := run(p, err, id, *repo, *out, *verbose); n > code {
			code = n
		}
		if *first && code != 0 {
			break
		}
	}
	os.Exit(code)
}

func run(p *prog.Program, loadErr error, id, repo, out string, verbose bool) int {
	start := time.Now()
	check, ok := checks.All[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for %s\n", id)
		return 2
	}
	c := checks.NewCtx(p, id)
	c.Dir = repo
	if loadErr != nil {
		c.Bad("load", repo, "", "the source cannot be analysed: %v", loadErr)
	} else {
		analyse(c, check)
	}
	known := readKnown(filepath.Join(out, "known_findings.txt"), id)
	var viol []checks.Violation
	for _, v := range c.Viol {
		if what, ok := match(known, v); ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			continue
		}
		viol = append(viol, v)
	}
	report := filepath.Join(out, "evidence", id+".violations.txt")
	os.MkdirAll(filepath.Dir(report), 0o755)
	os.Remove(report)
	if len(viol) > 0 {
		var sb strings.Builder
		for _, v := range viol {
			fmt.Fprintf(&sb, "%s: %s\n  at %s\n  %s\n", v.Rule, v.Construct, v.Where, v.Message)
		}
		os.WriteFile(report, []byte(sb.String()), 0o644)
		for _, v := range viol {
			fmt.Printf("%s: %s at %s: %s\n", v.Rule, v.Construct, v.Where, v.Message)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	total := 0
	for k, n := range c.Count {
		if !c.Info[k] {
			total += n
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(start).Seconds(),
		"violations": len(viol),
		"coverage": map[string]any{
			"explanation":        "Static analysis of the source in " + repo + "; nothing was executed. The rules below were applied to every instance found in this run; counts are per rule.",
			"rules":              c.Rules,
			"instances":          c.Count,
			"obligations":        total + len(viol),
			"discharged":         total,
			"functions_analysed": c.Functions(),
			"notes":              c.Notes,
			"findings":           viol,
		},
		"assumptions": append([]string{
			"go/packages, go/types and go/ssa represent the source faithfully",
			"library functions listed as pure in analyzer/flow/models.go have no effect besides their result",
		}, c.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if verbose {
		os.Stdout.Write(b)
	}
	var ks []string
	for k, n := range c.Count {
		ks = append(ks, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(ks)
	fmt.Printf("%s: %d functions, %s (%.1fs)\n", id, len(c.Fns), strings.Join(ks, ", "), time.Since(start).Seconds())
	if len(viol) > 0 {
		return 1
	}
	return 0
}

// analyse runs a check. Whatever it cannot decide is reported.
func analyse(c *checks.Ctx, check func(*checks.Ctx)) {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := flow.AsUndecided(r); ok {
				c.Bad("analysis", "property "+c.ID, "", "not decided: %s", m)
				return
			}
			if os.Getenv("AQLVERIFY_PANIC") != "" {
				panic(r)
			}
			c.Bad("analysis", "property "+c.ID, "", "the analysis failed: %v", r)
		}
	}()
	check(c)
	c.Limits()
	if len(c.Count) == 0 && len(c.Viol) == 0 {
		c.Bad("coverage", "property "+c.ID, "", "nothing was checked")
	}
}

type finding struct{ rule, construct, contains, what string }

// readKnown reads the findings of a property:
//
//	known: property=<id> rule=<rule> construct=<construct> message=<part of the message> :: <what fails>
//
// Lines starting with fixed: are a record and have no effect.
func readKnown(file, id string) []finding {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		head, what, ok := strings.Cut(l, " :: ")
		if !ok {
			continue
		}
		var k finding
		k.what = what
		k.rule = between(head, "rule=", " construct=")
		k.construct = between(head, "construct=", " message=")
		k.contains = between(head, "message=", "")
		if k.rule != "" && k.construct != "" && k.contains != "" {
			out = append(out, k)
		}
	}
	return out
}

func between(s, a, b string) string {
	_, r, ok := strings.Cut(s, a)
	if !ok {
		return ""
	}
	if b != "" {
		r, _, _ = strings.Cut(r, b)
	}
	return strings.TrimSpace(r)
}

func match(known []finding, v checks.Violation) (string, bool) {
	for _, k := range known {
		if k.rule == v.Rule && k.construct == v.Construct && strings.Contains(v.Message, k.contains) {
			return k.what, true
		}
	}
	return "", false
}
