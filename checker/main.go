package main

// Command line: checker -repo DIR -verif DIR [-tier quick|thorough] PROPERTY...

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation is one broken or undecided obligation
type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"` // function or table the rule was applied to
	Where     string `json:"where"`
	Detail    string `json:"detail"`
}

func (v Violation) key() string { return v.Rule + "|" + v.Construct }

// Report collects what a check did
type Report struct {
	id          string
	obligations map[string]int // by rule
	discharged  map[string]int
	violations  []Violation
	vseen       map[string]bool
	analysed    map[string]bool // functions
	samples     []string
	notes       map[string]bool
	states      int
	joins       int
	extra       map[string]interface{}
	thorough    bool
	deadline    time.Time
}

// no entry may use more than this, and no check more than checkBudget: a check always ends with a verdict
const (
	entryBudget = 200 * time.Second
	checkBudget = 780 * time.Second
)

// entryDeadline is when an analysis that starts now must be done
func (r *Report) entryDeadline() time.Time {
	d := time.Now().Add(entryBudget)
	if r.deadline.Before(d) {
		return r.deadline
	}
	return d
}

func newReport(id string) *Report {
	return &Report{id: id, obligations: map[string]int{}, discharged: map[string]int{}, vseen: map[string]bool{}, analysed: map[string]bool{}, notes: map[string]bool{}, extra: map[string]interface{}{}}
}

// ob records an obligation and whether it is met
func (r *Report) ob(ok bool, rule, construct, where string, detail func() string) bool {
	r.obligations[rule]++
	if ok {
		r.discharged[rule]++
		return true
	}
	r.fail(rule, construct, where, detail())
	return false
}

func (r *Report) fail(rule, construct, where, detail string) {
	k := rule + "|" + construct + "|" + where
	if r.vseen[k] {
		return
	}
	r.vseen[k] = true
	r.violations = append(r.violations, Violation{rule, construct, where, detail})
}

// timing prints how long one entry took, on request
func (r *Report) timing(name string, d time.Duration, x *Exec) {
	if os.Getenv("XTIME") != "" {
		fmt.Printf("  time %s %.1fs states %d joins %d steps %d\n", name, d.Seconds(), x.nStates, x.nJoins, x.steps)
	}
}

func (r *Report) sample(format string, a ...interface{}) {
	if len(r.samples) < 40 {
		r.samples = append(r.samples, fmt.Sprintf(format, a...))
	}
}

type check struct {
	id    string
	level string
	run   func(p *Program, r *Report)
	rule  string   // what is decided
	trust []string // assumptions
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

func guarded(r *Report, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case undecided:
				r.fail("undecided", what, "", e.msg)
			case anchorError:
				r.fail("anchor", what, "", e.msg)
			default:
				r.fail("internal", what, "", fmt.Sprintf("%v\n%s", e, debug.Stack()))
			}
		}
	}()
	f()
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence goes")
	dbg := flag.Bool("debug", false, "print joins")
	verbose := flag.Bool("v", false, "print everything")
	flag.Parse()
	debugAll = *dbg
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(6 << 30)
	go watchMemory(9 << 30)
	if f := os.Getenv("XPROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	var p *Program
	code := 0
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Printf("unknown property %s\n", id)
			os.Exit(2)
		}
		start := time.Now()
		r := newReport(id)
		r.thorough = tier == "thorough"
		r.deadline = start.Add(checkBudget)
		guarded(r, "load", func() {
			if p == nil {
				p = load(*repo)
			}
		})
		if p != nil {
			guarded(r, "check", func() { c.run(p, r) })
		}
		if finish(c, r, *verif, tier, seed, time.Since(start), *verbose) {
			code = 1
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

var debugAll bool

func finish(c *check, r *Report, verif, tier string, seed int, d time.Duration, verbose bool) bool {
	known := knownFindings(filepath.Join(verif, "KNOWN_FINDINGS"), c.id)
	var bad []Violation
	hit := map[string]bool{}
	for _, v := range r.violations {
		if desc, ok := known[v.key()]; ok {
			if !hit[v.key()] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, desc)
			}
			hit[v.key()] = true
			continue
		}
		bad = append(bad, v)
	}
	total, done := 0, 0
	for k, n := range r.obligations {
		total += n
		done += r.discharged[k]
	}
	if total == 0 && len(bad) == 0 {
		bad = append(bad, Violation{"vacuous", "check", "", "no obligation was generated"})
	}
	var fns []string
	for f := range r.analysed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	if len(r.samples) == 0 {
		r.samples = []string{"none"}
	}
	cov := map[string]interface{}{
		"explanation":         c.rule,
		"obligations":         total,
		"discharged":          done,
		"obligations_by_rule": r.obligations,
		"functions_analysed":  fns,
		"samples":             r.samples,
		"checker_cmd":         "checker " + c.id,
		"trusted_base":        c.trust,
	}
	if r.states > 0 {
		cov["abstract_blocks_visited"] = r.states
		cov["joins"] = r.joins
	}
	if len(r.notes) > 0 {
		cov["modelled_imprecisely"] = sortedNotes(r.notes)
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": c.level, "coverage": cov,
		"assumptions": c.trust, "wall_s": d.Seconds(), "violations": len(bad),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.1fs\n", c.id, total, done, len(fns), d.Seconds())
	if verbose {
		for _, s := range r.samples {
			fmt.Println("  sample:", s)
		}
		for _, n := range sortedNotes(r.notes) {
			fmt.Println("  note:", n)
		}
	}
	replay := filepath.Join(verif, "evidence", c.id+".violation.txt")
	if len(bad) == 0 {
		os.Remove(replay)
		return false
	}
	var sb strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&sb, "rule %s, %s, %s\n  %s\n", v.Rule, v.Construct, v.Where, strings.ReplaceAll(v.Detail, "\n", "\n  "))
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	for i, v := range bad {
		if i >= 12 && !verbose {
			fmt.Printf("  ... %d more in %s\n", len(bad)-i, replay)
			break
		}
		d := v.Detail
		if i := strings.IndexByte(d, '\n'); i > 0 && !verbose {
			d = d[:i]
		}
		fmt.Printf("  %s: %s %s: %s\n", v.Rule, v.Construct, v.Where, d)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return true
}

// knownFindings reads lines "known: property=<id> key=<rule|construct> <what fails>"
func knownFindings(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" key=")
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		m[l[:i]] = l[i+4:]
	}
	return m
}
