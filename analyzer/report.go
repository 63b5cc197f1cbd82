package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Report collects the obligations of one property's check.
type Report struct {
	ID          string
	Level       string
	Technique   string
	Explanation string
	Assumptions []string
	Trusted     []string
	start       time.Time
	obls        []Obl
	counts      map[string]int // rule -> sites
	failKeys    map[string]bool
	Notes       []string
}

// Obl is one decided obligation.
type Obl struct {
	Rule   string `json:"rule"`
	Key    string `json:"construct"`
	Pos    string `json:"pos,omitempty"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

func newReport(id string) *Report {
	return &Report{ID: id, Level: "other", start: time.Now(), counts: map[string]int{}, failKeys: map[string]bool{}}
}

func (r *Report) ok(rule, key, pos, detail string) {
	r.counts[rule]++
	r.obls = append(r.obls, Obl{rule, key, pos, true, detail})
}

func (r *Report) fail(rule, key, pos, detail string) {
	r.counts[rule]++
	k := rule + "|" + key
	if r.failKeys[k] {
		return
	}
	r.failKeys[k] = true
	r.obls = append(r.obls, Obl{rule, key, pos, false, detail})
}

func (r *Report) check(cond bool, rule, key, pos, okDetail, failDetail string) bool {
	if cond {
		r.ok(rule, key, pos, okDetail)
	} else {
		r.fail(rule, key, pos, failDetail)
	}
	return cond
}

// atLeast guards against rules that silently stop matching anything.
func (r *Report) atLeast(rule string, n int) {
	if r.counts[rule] < n {
		r.fail("instance-count", rule, "-", fmt.Sprintf("rule %q matched %d sites, expected at least %d", rule, r.counts[rule], n))
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// known findings: lines "known: property=<id> key=<rule|construct> <description>"
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+id+" key=\"") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		k, _ := strconv.Unquote(q)
		out[k] = strings.TrimSpace(rest[len(q):])
	}
	return out
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish() int {
	known := loadKnown(r.ID)
	var fails, knowns []Obl
	nOK := 0
	for _, o := range r.obls {
		if o.OK {
			nOK++
			continue
		}
		if _, isKnown := known[o.Rule+"|"+o.Key]; isKnown {
			knowns = append(knowns, o)
		} else {
			fails = append(fails, o)
		}
	}
	for _, o := range knowns {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s: %s\n", r.ID, o.Rule, o.Key, known[o.Rule+"|"+o.Key])
	}
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	var rules []string
	for k := range r.counts {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	ruleCounts := map[string]int{}
	for _, k := range rules {
		ruleCounts[k] = r.counts[k]
	}
	cov := map[string]any{
		"explanation":          r.Explanation,
		"technique":            r.Technique,
		"obligations":          len(r.obls),
		"discharged":           nOK,
		"known_findings":       len(knowns),
		"obligations_by_rule":  ruleCounts,
		"obligation_list":      r.obls,
		"checker_cmd":          "analyzer " + r.ID,
		"trusted_base":         append([]string{"the Go type checker and go/ssa construction (x/tools)", "the analyzer in /verif/analyzer"}, r.Trusted...),
		"analysed_source_tree": repoDir(),
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property":    r.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       r.Level,
		"coverage":    cov,
		"assumptions": r.Assumptions,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(fails),
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	evPath := filepath.Join(evDir, r.ID+".json")
	if err := os.WriteFile(evPath, append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations\n", r.ID, len(r.obls), nOK, len(knowns), len(fails))
	for _, k := range rules {
		fmt.Printf("  rule %-28s %d sites\n", k, r.counts[k])
	}
	if len(fails) > 0 {
		for _, o := range fails {
			fmt.Printf("  BROKEN [%s] %s (%s): %s\n", o.Rule, o.Key, o.Pos, o.Detail)
		}
		rp := filepath.Join(evDir, r.ID+".violation.txt")
		var sb strings.Builder
		for _, o := range fails {
			fmt.Fprintf(&sb, "[%s] %s (%s): %s\n", o.Rule, o.Key, o.Pos, o.Detail)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
		return 1
	}
	return 0
}
