package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation is one broken obligation.
type Violation struct {
	Key    string `json:"key"`   // rule|function|construct, without line numbers
	Where  string `json:"where"` // file:line:col
	Rule   string `json:"rule"`
	Detail string `json:"detail"`
}

// Result is what a rule reports about one run.
type Result struct {
	Violations  []Violation
	Counts      map[string]int
	Samples     []string
	Explanation string
	Assumptions []string
}

func (r *Result) Count(name string, n int) {
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[name] += n
}

func (r *Result) Sample(format string, a ...interface{}) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

func (r *Result) Violate(rule, key, where, format string, a ...interface{}) {
	r.Violations = append(r.Violations, Violation{Key: rule + "|" + key, Where: where, Rule: rule, Detail: fmt.Sprintf(format, a...)})
}

// Floor makes a rule that has lost its subject fail instead of passing vacuously.
func (r *Result) Floor(name string, min int) {
	if r.Counts[name] < min {
		r.Violate("instance-floor", name, "-", "only %d %s found, at least %d expected: the rule has lost its subject", r.Counts[name], name, min)
	}
}

type checkFn func(p *Program, tier string) *Result

var checks = map[string]checkFn{}
var levels = map[string]string{}

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework directory")
	list := flag.Bool("list", false, "list properties")
	verbose := flag.Bool("v", false, "print all samples")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	start := time.Now()
	p, lerr := loadSafe(*repo)
	exit := 0
	for _, id := range ids {
		if !runOne(p, lerr, id, *tier, seed, *verif, start, *verbose) {
			exit = 1
		}
		start = time.Now()
	}
	os.Exit(exit)
}

func loadSafe(repo string) (p *Program, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("loading panicked: %v", e)
		}
	}()
	return Load(repo)
}

func runOne(p *Program, lerr error, id, tier string, seed int, verif string, start time.Time, verbose bool) bool {
	var res *Result
	fn := checks[id]
	func() {
		defer func() {
			if e := recover(); e != nil {
				res = &Result{}
				res.Violate("analysis-failure", "panic", "-", "the analysis itself panicked: %v\n%s", e, debug.Stack())
			}
		}()
		switch {
		case fn == nil:
			res = &Result{}
			res.Violate("analysis-failure", "unknown-property", "-", "no check for %s", id)
		case lerr != nil:
			res = &Result{}
			res.Violate("analysis-failure", "load", "-", "the repository could not be loaded: %v", lerr)
		default:
			res = fn(p, tier)
		}
	}()
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), id)
	sort.SliceStable(res.Violations, func(i, j int) bool { return res.Violations[i].Key < res.Violations[j].Key })
	var fresh []Violation
	hit := map[string]Violation{}
	for _, v := range res.Violations {
		if _, ok := known[v.Key]; ok {
			hit[v.Key] = v
			continue
		}
		fresh = append(fresh, v)
	}
	var keys []string
	for k := range hit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s)\n", id, known[k], hit[k].Where, k)
	}
	lvl := levels[id]
	if lvl == "" {
		lvl = "other"
	}
	cov := map[string]interface{}{"explanation": res.Explanation}
	for k, v := range res.Counts {
		cov[k] = v
	}
	if len(res.Samples) > 0 {
		cov["samples"] = res.Samples
	}
	if p != nil {
		cov["functions_in_module"] = len(p.All)
		cov["library_functions"] = len(p.Lib)
	}
	if len(keys) > 0 {
		cov["known_findings"] = keys
	}
	if lvl == "proof" {
		cov["checker_cmd"] = "/verif/check.sh " + id
		cov["trusted_base"] = res.Assumptions
	}
	replay := filepath.Join(verif, "evidence", id+".violations.json")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if len(fresh) > 0 {
		cov["violations"] = fresh
		data, _ := json.MarshalIndent(fresh, "", " ")
		os.WriteFile(replay, data, 0644)
	} else {
		os.Remove(replay)
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if len(res.Assumptions) > 0 {
		ev["assumptions"] = res.Assumptions
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(data, '\n'), 0644)
	var ck []string
	for k := range res.Counts {
		ck = append(ck, k)
	}
	sort.Strings(ck)
	var parts []string
	for _, k := range ck {
		parts = append(parts, fmt.Sprintf("%s=%d", k, res.Counts[k]))
	}
	fmt.Printf("%s: %s known=%d new=%d\n", id, strings.Join(parts, " "), len(keys), len(fresh))
	if verbose {
		for _, s := range res.Samples {
			fmt.Println("  sample:", s)
		}
	}
	for _, v := range fresh {
		fmt.Printf("  %s: [%s] %s\n      key=%s\n", v.Where, v.Rule, v.Detail, v.Key)
	}
	if len(fresh) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return false
	}
	return true
}

// loadKnown reads lines "known: property=<id> key=<key> :: <what fails>".
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	data, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(data), "\n") {
		pre := "known: property=" + id + " key="
		if !strings.HasPrefix(line, pre) {
			continue
		}
		rest := line[len(pre):]
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		out[rest[:i]] = rest[i+4:]
	}
	return out
}
