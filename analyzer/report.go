package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Violation is one broken obligation, tied to a construct of the source.
type Violation struct {
	Key   string // rule and construct, stable under edits elsewhere
	Where string
	Msg   string
	Trace []string
}

// Report collects what a check decided.
type Report struct {
	Prop        string
	Rule        string
	Obligations int
	Discharged  int
	Units       map[string]int // what was analysed, by name
	Counters    map[string]int
	Samples     []string
	Assume      []string
	viol        map[string]*Violation
	start       time.Time
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Units: map[string]int{}, Counters: map[string]int{}, viol: map[string]*Violation{}, start: time.Now()}
}

func (r *Report) fail(key, where, msg string, trace []string) {
	if v, ok := r.viol[key]; ok {
		if len(trace) > 0 && (len(v.Trace) == 0 || len(trace) < len(v.Trace)) {
			v.Trace, v.Msg, v.Where = trace, msg, where
		}
		return
	}
	r.viol[key] = &Violation{key, where, msg, trace}
}

// ob records one obligation; when it does not hold the construct is reported.
func (r *Report) ob(ok bool, key, where string, st *State, format string, args ...any) bool {
	r.Obligations++
	if ok {
		r.Discharged++
		return true
	}
	var tr []string
	if st != nil {
		tr = st.traceLines(40)
	}
	r.fail(key, where, fmt.Sprintf(format, args...), tr)
	return false
}

func (r *Report) sample(format string, args ...any) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	}
}

// absorb adds the findings of an engine run: what was not decided counts as violated.
func (r *Report) absorb(e *Engine, what string, where token.Pos) {
	r.Counters["abstract_steps"] += e.steps
	r.Counters["head_states"] += e.nshapes
	for fn := range e.touched {
		if e.inModule(fn) {
			r.Units[fn.String()]++
		}
	}
	for m, st := range e.find.bad {
		r.fail(what+":"+m, e.posStr(where), what+": "+m, st.traceLines(25))
	}
	for m, st := range e.find.undecided {
		r.fail("undecided:"+what+":"+stripPos(m), e.posStr(where), "cannot be decided for "+what+": "+m, st.traceLines(25))
	}
}

func stripPos(m string) string {
	if i := strings.Index(m, ": "); i >= 0 && strings.Contains(m[:i], ".go:") {
		return m[i+2:]
	}
	return m
}

func (r *Report) violations() []*Violation {
	var ks []string
	for k := range r.viol {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Violation
	for _, k := range ks {
		out = append(out, r.viol[k])
	}
	return out
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

// finish writes the evidence and the replay file and prints the verdict.
func (r *Report) finish(verif, tier string, seed int) int {
	known := loadKnown(filepath.Join(verif, "known_findings.jsonl"))
	var bad []*Violation
	for _, v := range r.violations() {
		hit := false
		for _, k := range known {
			if k.Property == r.Prop && k.Key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
				hit = true
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	evDir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	var units []string
	for u := range r.Units {
		units = append(units, u)
	}
	sort.Strings(units)
	cov := map[string]any{
		"explanation":        r.Rule,
		"obligations":        r.Obligations,
		"discharged":         r.Discharged,
		"functions_analysed": units,
		"functions":          len(units),
		"samples":            r.Samples,
	}
	for k, v := range r.Counters {
		cov[k] = v
	}
	ev := map[string]any{
		"property":    r.Prop,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": r.Assume,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	replay := filepath.Join(evDir, r.Prop+".replay.txt")
	if len(bad) == 0 {
		_ = os.Remove(replay)
		fmt.Printf("OK property=%s obligations=%d functions=%d\n", r.Prop, r.Obligations, len(units))
		return 0
	}
	var sb strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&sb, "%s\n  at   %s\n  rule %s\n", v.Msg, v.Where, v.Key)
		for _, t := range v.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
		sb.WriteByte('\n')
	}
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	for i, v := range bad {
		if i >= 8 {
			break
		}
		fmt.Printf("%s: %s [%s]\n", v.Where, v.Msg, v.Key)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
