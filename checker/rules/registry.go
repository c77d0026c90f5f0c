package rules

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/checker/engine"
)

// Prop is one property with its rules.
type Prop struct {
	ID   string
	Note string // what is decided and what is not
	Min  int    // confirmed number of obligations; fewer means anchors were lost
	Run  func(c *Ctx)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// IDs lists the registered properties.
func IDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Get returns a property.
func Get(id string) *Prop { return props[id] }

type known struct{ prop, key, text string }

func readKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=P01 key=<key> :: text
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		head, text, _ := strings.Cut(l, " :: ")
		p, k, ok := strings.Cut(head, " key=")
		if !ok {
			continue
		}
		out = append(out, known{strings.TrimPrefix(p, "property="), strings.TrimSpace(k), text})
	}
	return out
}

// Check decides one property and returns the process exit code.
func Check(verif string, p *engine.Program, loadErr error, id, tier string, seed int, t0 time.Time, verbose bool) int {
	pr := props[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	c := NewCtx(p, id)
	if loadErr != nil {
		c.Ob("load|/repo", "", func() { Failf("source does not load: %v", loadErr) })
	} else {
		c.Ob("rules|"+id, "", func() { pr.Run(c) })
		c.Ob("coverage|"+id, "", func() {
			if len(c.Obls) < pr.Min {
				Failf("only %d obligations were generated, at least %d are expected", len(c.Obls), pr.Min)
			}
		})
	}
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	ok, bad := 0, 0
	var violations []Obl
	var knownHit []string
	for _, o := range c.Obls {
		if o.OK {
			ok++
			if verbose {
				fmt.Println("ok  ", o.Key, o.Anchor)
			}
			continue
		}
		hit := false
		for _, k := range kn {
			if k.prop == id && k.key == o.Key {
				knownHit = append(knownHit, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", id, k.text, o.Key))
				hit = true
				break
			}
		}
		if !hit {
			bad++
			violations = append(violations, o)
		}
	}
	for _, k := range knownHit {
		fmt.Println(k)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":       "Static analysis of the type-checked SSA of /repo. " + pr.Note,
			"obligations":       len(c.Obls),
			"discharged":        ok,
			"known_findings":    len(knownHit),
			"functions":         len(c.Funcs),
			"functions_list":    sortedKeys(c.Funcs),
			"obligation_list":   oblKeys(c.Obls),
			"rule":              "every obligation is decided on the program as it is in /repo now; an unresolved anchor or an undecided obligation counts as a violation",
			"analysed_packages": len(pkgs(p)),
		},
		"assumptions": []string{
			"different access paths denote different objects (no aliasing between inputs), maps hold no nil values",
			"library calls outside the repository behave as modelled (hive.go ierrors/safemath/lo, math/big, bytes, sync)",
		},
		"wall_s": time.Since(t0).Seconds(),
	}
	if bad > 0 {
		var vs []map[string]any
		for _, v := range violations {
			vs = append(vs, map[string]any{"rule": v.Key, "where": v.Anchor, "detail": v.Detail})
		}
		ev["violations"] = vs
	}
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(dir, id+".violation.txt")
	if bad == 0 {
		_ = os.Remove(rp)
		fmt.Printf("OK property=%s obligations=%d functions=%d\n", id, len(c.Obls), len(c.Funcs))
		return 0
	}
	var sb strings.Builder
	for _, v := range violations {
		fmt.Fprintf(&sb, "rule %s\n  at %s\n  %s\n\n", v.Key, v.Anchor, v.Detail)
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func pkgs(p *engine.Program) []string {
	var r []string
	if p != nil {
		for _, k := range p.Pkgs {
			r = append(r, k.PkgPath)
		}
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, strings.ReplaceAll(k, engine.RepoMod, "iotago"))
	}
	sort.Strings(r)
	return r
}

func oblKeys(os []Obl) []string {
	var r []string
	for _, o := range os {
		s := "ok "
		if !o.OK {
			s = "FAILED "
		}
		r = append(r, s+o.Key)
	}
	return r
}
