package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Obl is one decided obligation.
type Obl struct {
	Rule, Construct, Pos, Msg string
	OK                        bool
}

func (o Obl) key() string { return o.Rule + "|" + o.Construct }

// Report collects the obligations of one check.
type Report struct {
	Prop, Verif, Tier string
	Rule              string // what the check does
	Obls              []Obl
	Units             map[string]int
	Assume            []string
	seen              map[string]bool
	minimum           map[string]int
}

// OK records a discharged obligation.
func (r *Report) OK(rule, construct, pos string) { r.add(Obl{rule, construct, pos, "", true}) }

// Fail records a violated or undecided obligation.
func (r *Report) Fail(rule, construct, pos, msg string) {
	r.add(Obl{rule, construct, pos, msg, false})
}

// Check records ok or failure.
func (r *Report) Check(ok bool, rule, construct, pos, msg string) bool {
	r.add(Obl{rule, construct, pos, msg, ok})
	return ok
}

func (r *Report) add(o Obl) {
	if r.seen == nil {
		r.seen = map[string]bool{}
	}
	if o.OK {
		o.Msg = ""
	}
	k := fmt.Sprint(o)
	if !o.OK {
		// the first failure of an obligation is enough
		k = fmt.Sprint("fail ", o.Rule, "|", o.Construct, "|", o.Pos)
	}
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Obls = append(r.Obls, o)
}

// Unit counts analysed things.
func (r *Report) Unit(name string, n int) {
	if r.Units == nil {
		r.Units = map[string]int{}
	}
	r.Units[name] += n
}

// AtLeast demands a minimal number of obligations of a rule: a rule that matches nothing decides nothing.
func (r *Report) AtLeast(rule string, n int) {
	if r.minimum == nil {
		r.minimum = map[string]int{}
	}
	r.minimum[rule] = n
}

func (r *Report) known() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(r.Verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=ID key=<rule|construct> :: description
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "finding:")), " :: ", 2)
		if len(f) != 2 {
			continue
		}
		h := strings.SplitN(f[0], " key=", 2)
		if len(h) != 2 || strings.TrimSpace(h[0]) != "property="+r.Prop {
			continue
		}
		out[strings.TrimSpace(h[1])] = f[1]
	}
	return out
}

// Finish prints the verdict and writes evidence; it reports whether the property is violated.
func (r *Report) Finish(wall float64, noev, verbose bool) bool {
	counts := map[string]int{}
	for _, o := range r.Obls {
		counts[o.Rule]++
	}
	var mins []string
	for k := range r.minimum {
		mins = append(mins, k)
	}
	sort.Strings(mins)
	for _, k := range mins {
		if counts[k] < r.minimum[k] {
			r.Fail("anchor", k, "", fmt.Sprintf("rule %s decided %d constructs, at least %d exist", k, counts[k], r.minimum[k]))
		}
	}
	known := r.known()
	var bad []Obl
	knownHit := map[string]bool{}
	discharged := 0
	for _, o := range r.Obls {
		if o.OK {
			discharged++
			continue
		}
		if _, ok := known[o.key()]; ok {
			knownHit[o.key()] = true
			continue
		}
		bad = append(bad, o)
	}
	var kh []string
	for k := range knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	for _, k := range kh {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, known[k])
	}
	if verbose {
		for _, o := range r.Obls {
			st := "ok  "
			if !o.OK {
				st = "FAIL"
			}
			fmt.Printf("  %s %s %s [%s] %s\n", st, o.Pos, o.Rule, o.Construct, o.Msg)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if !noev {
		rules := map[string]int{}
		for _, o := range r.Obls {
			rules[o.Rule]++
		}
		constructs := []string{}
		cs := map[string]bool{}
		for _, o := range r.Obls {
			if !cs[o.Construct] {
				cs[o.Construct] = true
				constructs = append(constructs, o.Construct)
			}
		}
		sort.Strings(constructs)
		var samples []any
		for i, o := range r.Obls {
			if i < 12 || !o.OK {
				samples = append(samples, o)
			}
			if len(samples) > 60 {
				break
			}
		}
		ev := map[string]any{
			"property": r.Prop, "tier": r.Tier, "seed": seed, "level": "other", "wall_s": wall,
			"violations": len(bad),
			"assumptions": append([]string{
				"the Go type checker and the SSA builder of golang.org/x/tools represent the source faithfully",
				"the standard library and the cedar trie behave as documented",
			}, r.Assume...),
			"coverage": map[string]any{
				"explanation":         r.Rule,
				"obligations":         len(r.Obls),
				"discharged":          discharged,
				"known_findings":      len(kh),
				"obligations_by_rule": rules,
				"constructs_analysed": constructs,
				"units":               r.Units,
				"samples":             samples,
			},
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		dir := filepath.Join(r.Verif, "evidence")
		os.MkdirAll(dir, 0o755)
		if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	if len(bad) == 0 {
		fmt.Printf("%s: held: %d obligations, %d discharged, %d known\n", r.Prop, len(r.Obls), discharged, len(r.Obls)-discharged)
		return false
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].key() < bad[j].key() })
	for i, o := range bad {
		if i > 20 && !verbose {
			fmt.Printf("... and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("%s: %s: [%s] %s: %s\n", r.Prop, o.Pos, o.Rule, o.Construct, o.Msg)
	}
	path := "-"
	if !noev {
		dir := filepath.Join(r.Verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		h := sha256.Sum256([]byte(fmt.Sprint(bad)))
		path = filepath.Join(dir, fmt.Sprintf("%s-%x.json", r.Prop, h[:6]))
		b, _ := json.MarshalIndent(map[string]any{
			"property": r.Prop, "violations": bad,
			"how_to_replay": "bash run.sh " + r.Prop + " re-analyses /repo and reports the same constructs",
		}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	return true
}
