package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// RAlarm is one reported violation; key names rule and construct (not the line).
type RAlarm struct {
	key  string
	text string
}

// Report collects what one property check analysed and found.
type Report struct {
	prop    string
	tier    string
	mu      sync.Mutex
	oblig   int
	ok      int
	alarms  []RAlarm
	samples []string
	counts  map[string]int
	funcs   map[string]bool
	notes   []string
	assume  []string
	explain string
	rules   []string
}

func newReport(prop, tier string) *Report {
	return &Report{prop: prop, tier: tier, counts: map[string]int{}, funcs: map[string]bool{}}
}

func (r *Report) alarm(key, f string, a ...any) {
	r.mu.Lock()
	r.oblig++
	r.alarms = append(r.alarms, RAlarm{key, fmt.Sprintf(f, a...)})
	r.mu.Unlock()
}

func (r *Report) pass(f string, a ...any) {
	r.mu.Lock()
	r.oblig++
	r.ok++
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(f, a...))
	}
	r.mu.Unlock()
}

// check records one obligation.
func (r *Report) check(ok bool, key, f string, a ...any) bool {
	if ok {
		r.pass("%s", key)
	} else {
		r.alarm(key, f, a...)
	}
	return ok
}

func (r *Report) count(k string, n int) {
	r.mu.Lock()
	r.counts[k] += n
	r.mu.Unlock()
}

// atLeast fails the check when fewer instances were analysed than confirmed by reading the code.
func (r *Report) atLeast(k string, n int) {
	if r.counts[k] < n {
		r.alarm("instances "+k, "only %d %s analysed, at least %d exist: the analysis no longer reaches the code it decides", r.counts[k], k, n)
	}
}

func (r *Report) touch(fs map[string]bool) {
	r.mu.Lock()
	for f := range fs {
		r.funcs[f] = true
	}
	r.mu.Unlock()
}

func (r *Report) touched(f string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.funcs[f]
}

type finding struct{ prop, key, text string }

func loadFindings(path string) ([]finding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		var f finding
		parts := strings.SplitN(l, " | ", 3)
		if len(parts) != 3 {
			return nil, fmt.Errorf("bad line in %s: %s", path, l)
		}
		f.prop = strings.TrimPrefix(parts[0], "property=")
		f.key = strings.TrimPrefix(parts[1], "key=")
		f.text = parts[2]
		out = append(out, f)
	}
	return out, nil
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish(dir string, p *propDef, t0 time.Time, seed int) int {
	fs, err := loadFindings(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		r.alarm("known-findings", "cannot read the known findings: %v", err)
	}
	var bad []RAlarm
	known := map[string]string{}
	for _, a := range r.alarms {
		hit := false
		for _, f := range fs {
			if f.prop == r.prop && f.key == a.key {
				known[f.key] = f.text
				hit = true
			}
		}
		if !hit {
			bad = append(bad, a)
		}
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.prop, k, known[k])
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].key < bad[j].key })
	ed := filepath.Join(dir, "evidence")
	os.MkdirAll(ed, 0o755)
	var fns []string
	for f := range r.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"obligations":        r.oblig,
		"discharged":         r.ok,
		"counts":             r.counts,
		"functions_analysed": fns,
		"rules":              r.rules,
		"samples":            r.samples,
		"explanation":        r.explain,
		"known_findings":     ks,
	}
	if p.level == "proof" {
		cov["checker_cmd"] = "bash check.sh " + r.prop
		cov["trusted_base"] = trustedBase
	}
	if len(bad) > 0 {
		var v []string
		for _, a := range bad {
			v = append(v, a.key+": "+a.text)
		}
		cov["violations"] = v
	}
	if r.samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": seed, "level": p.level, "coverage": cov,
		"assumptions": append([]string{}, r.assume...), "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(ed, r.prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d (%.1fs)\n", r.prop, r.oblig, r.ok, time.Since(t0).Seconds())
		return 0
	}
	rp := filepath.Join(ed, r.prop+".violation.txt")
	var sb strings.Builder
	for _, a := range bad {
		fmt.Fprintf(&sb, "%s\n    %s\n", a.key, a.text)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, a := range bad {
		if i == 8 {
			fmt.Printf("  ... %d more in %s\n", len(bad)-i, rp)
			break
		}
		s := a.text
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		fmt.Printf("  %s: %s\n", a.key, s)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rp)
	return 1
}

var trustedBase = []string{
	"golang.org/x/tools go/packages, go/types and go/ssa (v0.29.0) represent the source faithfully",
	"the checker's model of the gnark frontend API (add, mul, select, isZero, lookup, range, hint semantics) matches gnark",
	"the checker's own algebra, interval, simplex and case-splitting code (/verif/checker)",
}

// stop flags: enough alarms collected, or out of time
var (
	stopAll   atomic.Bool
	deadline  time.Time
	alarmLoad atomic.Int32
)
