// wbnfcheck decides the properties of /verif/properties.jsonl from /repo's source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/internal/load"
	"verif/internal/rules"
)

func main() {
	prop := flag.String("prop", "", "property to decide (empty: all)")
	repo := flag.String("repo", "/repo", "source tree")
	out := flag.String("out", "evidence", "evidence directory")
	known := flag.String("known", "known-findings.txt", "known findings")
	all := flag.Bool("v", false, "print every obligation")
	list := flag.Bool("list", false, "list the claimed properties")
	prof := flag.String("cpuprofile", "", "write a profile")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f) //nolint:errcheck
			defer pprof.StopCPUProfile()
		}
	}
	if *list {
		for _, id := range rules.IDs() {
			p := rules.Get(id)
			fmt.Printf("%s\t%s\t%s\n", id, p.Technique, p.Covers)
		}
		return
	}
	ids := []string{*prop}
	if *prop == "" {
		ids = rules.IDs()
	}
	start := time.Now()
	p, err := load.Load(*repo)
	bad := 0
	for _, id := range ids {
		pr := rules.Get(id)
		if pr == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		if len(ids) > 1 {
			start = time.Now()
		}
		c := rules.NewCtx(p)
		if err != nil {
			c.Fail("load", "module", "the tree does not load: %v", err)
		} else {
			c = guarded(pr, c, p)
		}
		if report(pr, c, *out, *known, *all, time.Since(start)) {
			bad++
		}
	}
	if bad > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}

// guarded runs a check within limits of time and memory: code on which the
// analysis does not come to an end is not shown to be right.
func guarded(pr *rules.Prop, c *rules.Ctx, p *load.Program) *rules.Ctx {
	const maxTime, maxHeap = 780 * time.Second, 22 << 30
	done := make(chan bool, 1)
	go func() { run(pr, c); done <- true }()
	begin, tick := time.Now(), time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return c
		case <-tick.C:
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if time.Since(begin) > maxTime || m.HeapAlloc > maxHeap {
				d := rules.NewCtx(p)
				d.Fail("internal", pr.ID, "the analysis comes to no end (%.0f s, %d MB): the code goes round in circles or is too different from what the rules expect", time.Since(begin).Seconds(), m.HeapAlloc>>20)
				return d
			}
		}
	}
}

func run(pr *rules.Prop, c *rules.Ctx) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok && strings.HasPrefix(e.Error(), "anchor not found") {
				c.Fail("anchor", pr.ID, "%v", e)
				return
			}
			c.Fail("internal", pr.ID, "the analysis failed: %v\n%s", r, debug.Stack())
		}
	}()
	pr.Run(c)
}

func relevant(pr *rules.Prop, rule string) bool {
	if strings.HasPrefix(rule, pr.ID+".") {
		return true
	}
	for _, g := range append([]string{"anchor", "internal", "load"}, pr.Groups...) {
		if strings.HasPrefix(rule, g) {
			return true
		}
	}
	return false
}

func report(pr *rules.Prop, c *rules.Ctx, out, known string, all bool, took time.Duration) bool {
	findings := knownFindings(known, pr.ID)
	var total, ok int
	var open, listed []*rules.Obligation
	var keys []string
	for _, o := range c.Obls {
		if !relevant(pr, o.Rule) {
			continue
		}
		total++
		keys = append(keys, o.Key)
		if all {
			fmt.Println(o.OK, o.Key, o.Pos, o.Detail)
		}
		if o.OK {
			ok++
			continue
		}
		if findings[o.Key] != "" {
			listed = append(listed, o)
		} else {
			open = append(open, o)
		}
	}
	if len(open) == 0 && total < pr.MinObl {
		open = append(open, &rules.Obligation{Key: "coverage", Rule: "coverage",
			Detail: fmt.Sprintf("only %d obligations were found where at least %d are expected: the analysis lost what it decides", total, pr.MinObl)})
	}
	for _, o := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", pr.ID, findings[o.Key], o.Detail, o.Pos)
	}
	os.MkdirAll(out, 0o755)
	replay := filepath.Join(out, pr.ID+".violations.txt")
	os.Remove(replay)
	if len(open) > 0 {
		var sb strings.Builder
		for _, o := range open {
			fmt.Fprintf(&sb, "%s at %s\n  %s\n", o.Key, o.Pos, o.Detail)
			for _, t := range o.Trail {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		abs, err := filepath.Abs(replay)
		if err != nil {
			abs = replay
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, abs)
	}
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, strings.ReplaceAll(f, load.Mod+"/", ""))
	}
	sort.Strings(fns)
	sort.Strings(keys)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":        pr.Covers,
			"obligations":        total,
			"discharged":         ok,
			"obligation_keys":    keys,
			"functions":          len(fns),
			"functions_analysed": fns,
			"states":             c.States,
			"notes":              c.Notes,
			"checker_cmd":        "bash check.sh " + pr.ID,
			"trusted_base":       "go/packages, go/types and go/ssa (golang.org/x/tools v0.52.0), the abstract interpreter in internal/absint and the contracts written in internal/rules",
		},
		"wall_s":     took.Seconds(),
		"violations": len(open),
		"known":      len(listed),
		"assumptions": []string{
			"calls that leave the module behave as documented; functions outside the module do not modify the module's state",
			"no data is changed through unsafe or reflection",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, pr.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("property=%s obligations=%d discharged=%d known=%d open=%d functions=%d states=%d time=%.1fs\n",
		pr.ID, total, ok, len(listed), len(open), len(fns), c.States, took.Seconds())
	return len(open) > 0
}

// knownFindings reads lines "known: property=<id> key=<obligation key> :: <what fails>".
func knownFindings(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		if key, what, ok := strings.Cut(rest, " :: "); ok {
			m[strings.TrimSpace(key)] = strings.TrimSpace(what)
		}
	}
	return m
}
