package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one broken obligation.
type Finding struct {
	Rule      string   `json:"rule"`
	Func      string   `json:"function"`
	Construct string   `json:"construct"`
	Pos       string   `json:"position"`
	Msg       string   `json:"message"`
	Path      []string `json:"path,omitempty"`
	pkg       string
}

// Key identifies a finding without line numbers.
func (f Finding) Key() string {
	return f.Rule + "|" + f.Func + "|" + f.Construct
}

// looseKey identifies it up to the function it sits in (for constructs moved into a helper).
func (f Finding) looseKey() string {
	return f.Rule + "|" + keyPkg(f.Func) + "|" + f.Construct
}

func keyPkg(fn string) string {
	s := strings.TrimLeft(fn, "(*")
	if i := strings.Index(s, "."); i >= 0 {
		s = s[:i]
	}
	return s
}

// Result of one check.
type Result struct {
	Findings    []Finding
	Obligations int            // number of obligations decided
	Discharged  int            // of which shown to hold
	Counts      map[string]int // what was enumerated
	Samples     []string
	Rules       []string
	Assume      []string
}

func newResult() *Result { return &Result{Counts: map[string]int{}} }

func (r *Result) add(f Finding) { r.Findings = append(r.Findings, f) }

// oblig records one obligation with its verdict.
func (r *Result) oblig(ok bool, f Finding) {
	r.Obligations++
	if ok {
		r.Discharged++
	} else {
		r.add(f)
	}
}
func (r *Result) count(k string, n int) { r.Counts[k] += n }
func (r *Result) sample(s string) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, s)
	}
}

// floor demands that a rule met at least n instances: a rule that matches nothing decides nothing.
func (r *Result) floor(k string, n int) {
	if r.Counts[k] < n {
		r.Obligations++
		r.add(Finding{Rule: "anchor-lost", Func: "-", Construct: k,
			Msg: fmt.Sprintf("the rule found only %d instances of %q (expected at least %d): its anchor in the code is gone", r.Counts[k], k, n)})
	}
}

type knownEntry struct {
	prop, key, desc string
	used            bool
}

func readKnown(path string) ([]*knownEntry, error) {
	var out []*knownEntry
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		// property=Cnn key=<...> :: description
		parts := strings.SplitN(l, " :: ", 2)
		var e knownEntry
		if len(parts) == 2 {
			e.desc = parts[1]
		}
		hd := strings.SplitN(parts[0], " key=", 2)
		if len(hd) != 2 {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		e.prop = strings.TrimPrefix(hd[0], "property=")
		e.key = hd[1]
		out = append(out, &e)
	}
	return out, sc.Err()
}

// report prints the verdict, writes evidence, and returns the exit code.
func report(P *Prog, prop, verif string, r *Result, start time.Time) int {
	known, err := readKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key() < r.Findings[j].Key() })
	var left []Finding
	var matched []string
	for _, f := range r.Findings {
		hit := false
		for _, k := range known {
			if k.prop == prop && !k.used && k.key == f.Key() {
				k.used, hit = true, true
				matched = append(matched, fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s at %s]", prop, k.desc, f.Key(), f.Pos))
				break
			}
		}
		if !hit {
			left = append(left, f)
		}
	}
	// A known construct that moved into another function of the same package (a helper was extracted).
	var viol []Finding
	for _, f := range left {
		hit := false
		for _, k := range known {
			if k.prop != prop || k.used {
				continue
			}
			p := strings.SplitN(k.key, "|", 3)
			if len(p) == 3 && p[0]+"|"+keyPkg(p[1])+"|"+p[2] == f.looseKey() {
				k.used, hit = true, true
				matched = append(matched, fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s at %s, moved]", prop, k.desc, f.Key(), f.Pos))
				break
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	sort.Strings(matched)
	for _, m := range matched {
		fmt.Println(m)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	evdir := filepath.Join(verif, "evidence")
	if d := os.Getenv("PS_EVID"); d != "" {
		evdir = d
	}
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, prop+".violations.json")
	os.Remove(replay)
	if len(viol) > 0 {
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(replay, b, 0o644)
	}
	npk := map[string]bool{}
	for _, f := range P.Funcs {
		npk[pkgPath(f)] = true
	}
	cov := map[string]any{
		"explanation": fmt.Sprintf("Static analysis of /repo's working tree (no execution). Rules: %s. %d obligations decided, %d discharged, %d known findings, %d violations.",
			strings.Join(r.Rules, " | "), r.Obligations, r.Discharged, len(matched), len(viol)),
		"rules":                r.Rules,
		"obligations":          r.Obligations,
		"discharged":           r.Discharged,
		"known_findings":       len(matched),
		"packages_loaded":      len(npk),
		"functions_in_program": len(P.Funcs),
		"enumerated":           r.Counts,
		"samples":              r.Samples,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assume,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, prop+".json"), b, 0o644); err != nil {
		fmt.Println("error: cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known, %d violations (%.1fs)\n", prop, r.Obligations, r.Discharged, len(matched), len(viol), time.Since(start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	for _, f := range viol {
		fmt.Printf("  %s: [%s] %s: %s -- %s\n", f.Pos, f.Rule, f.Func, f.Construct, f.Msg)
		for _, s := range f.Path {
			fmt.Printf("      via %s\n", s)
		}
		if os.Getenv("PS_KEYS") != "" {
			fmt.Printf("      KEY known: property=%s key=%s :: %s\n", prop, f.Key(), f.Msg)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	return 1
}
