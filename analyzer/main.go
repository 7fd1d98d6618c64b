package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type violation struct {
	Rule      string `json:"rule"`
	Where     string `json:"where"`
	Construct string `json:"construct"`
	Message   string `json:"message"`
}

// key identifies the construct independently of line numbers.
func (v violation) key() string { return v.Rule + "|" + v.Construct }

// Ctx is one run of one property's check.
type Ctx struct {
	Prop  string
	Tier  string
	Repo  string
	Verif string

	progs map[string]*Prog

	obligations map[string]int
	samples     map[string][]string
	rules       map[string]string
	viols       []violation
	notes       []string
	counts      map[string]int
}

type checkFn func(c *Ctx)

type propDef struct {
	run         checkFn
	assumptions []string
}

var props = map[string]propDef{}

// Rule declares a rule and its text (for the evidence).
func (c *Ctx) Rule(id, text string) { c.rules[id] = text }

// Obl records that one instance of a rule was examined.
func (c *Ctx) Obl(rule, construct string) {
	c.obligations[rule]++
	if len(c.samples[rule]) < 12 {
		c.samples[rule] = append(c.samples[rule], construct)
	}
}

// Viol records a violation.
func (c *Ctx) Viol(rule, where, construct, format string, args ...interface{}) {
	v := violation{rule, where, construct, fmt.Sprintf(format, args...)}
	for _, o := range c.viols {
		if o == v {
			return
		}
	}
	c.viols = append(c.viols, v)
}

// Floor fails the check when a rule examined fewer instances than min: the
// construct it is about was not found.
func (c *Ctx) Floor(rule string, min int) {
	if c.obligations[rule] < min {
		c.Viol(rule, "-", "floor", "only %d instance(s) of this rule's construct found, expected at least %d: the code this property is about was not recognised or is gone", c.obligations[rule], min)
	}
}

func (c *Ctx) Count(name string, n int) { c.counts[name] += n }
func (c *Ctx) Note(format string, args ...interface{}) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}

// prog loads (once) a set of packages.
func (c *Ctx) prog(key, dir string, env, flags []string, pats ...string) *Prog {
	if p, ok := c.progs[key]; ok {
		return p
	}
	p, err := LoadProg(dir, env, flags, pats...)
	if err != nil {
		panic(fmt.Errorf("load %s: %w", key, err))
	}
	c.progs[key] = p
	c.Count("packages_loaded", len(p.Pkgs))
	c.Count("repository_functions", len(p.Funcs))
	return p
}

// RT is the runtime module.
func (c *Ctx) RT() *Prog {
	return c.prog("runtime", filepath.Join(c.Repo, "runtime"), nil, nil, "./core", "./functab", "./hook", "./internal/...", "./mock", "./tls", "./trace", "./trace/stack_model", "./trap")
}

// Instr is the instrumentation and support packages.
func (c *Ctx) Instr() *Prog {
	return c.prog("instr", c.Repo, nil, nil, "./instrument/...", "./support/...")
}

// Root is the whole tool: cmd/xgo and everything it is made of.
func (c *Ctx) Root() *Prog {
	return c.prog("root", c.Repo, nil, nil, "./instrument/...", "./support/...", "./cmd/xgo", "./cmd/xgo/exec_tool/...", "./cmd/xgo/trace/...", "./cmd/xgo/pathsum", "./cmd/xgo/upgrade", "./cmd/xgo/asset", "./cmd/xgo/coverage/...", "./cmd/xgo/test-explorer/...", "./cmd/go-tool-debug-compile")
}

func main() {
	prop := flag.String("property", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	list := flag.Bool("list", false, "list properties")
	dump := flag.Bool("dumpfuncs", false, "list the functions of the repository")
	flag.Parse()
	if *dump {
		fmt.Println(strings.Join(dumpFuncs(*repo), "\n"))
		return
	}
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	def, ok := props[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	start := time.Now()
	c := &Ctx{
		Prop: *prop, Tier: *tier, Repo: *repo, Verif: *verif,
		progs: map[string]*Prog{}, obligations: map[string]int{}, samples: map[string][]string{},
		rules: map[string]string{}, counts: map[string]int{},
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.Viol("analysis", "-", "analysis", "the analysis could not decide the property: %v", e)
				fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
			}
		}()
		def.run(c)
	}()
	os.Exit(c.finish(start, def))
}

type knownFinding struct{ prop, key, text string }

// known findings: lines "known: property=<id> key=<rule|construct> :: text"
func readKnown(verif string) []knownFinding {
	data, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		id, rest, ok := strings.Cut(rest, " key=")
		if !ok {
			continue
		}
		key, text, ok := strings.Cut(rest, " :: ")
		if !ok {
			continue
		}
		out = append(out, knownFinding{id, key, text})
	}
	return out
}

func (c *Ctx) finish(start time.Time, def propDef) int {
	known := readKnown(c.Verif)
	var open []violation
	knownHit := 0
	printed := map[string]bool{}
	for _, v := range c.viols {
		hit := false
		for _, k := range known {
			if k.prop == c.Prop && k.key == v.key() {
				hit = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.Prop, k.text, v.Where)
				}
			}
		}
		if hit {
			knownHit++
			continue
		}
		open = append(open, v)
	}
	total := 0
	var ruleIDs []string
	for r := range c.rules {
		ruleIDs = append(ruleIDs, r)
	}
	sort.Strings(ruleIDs)
	var expl []string
	for _, r := range ruleIDs {
		total += c.obligations[r]
		expl = append(expl, fmt.Sprintf("[%s] %s (%d instances)", r, c.rules[r], c.obligations[r]))
	}
	counts := map[string]interface{}{"obligations": total, "rules": len(c.rules), "violations": len(open), "known_findings": knownHit}
	for k, v := range c.counts {
		counts[k] = v
	}
	for _, r := range ruleIDs {
		counts["rule_"+r] = c.obligations[r]
	}
	var samples []interface{}
	for _, r := range ruleIDs {
		for _, s := range c.samples[r] {
			samples = append(samples, r+": "+s)
		}
	}
	if len(samples) > 120 {
		samples = samples[:120]
	}
	ev := map[string]interface{}{
		"property": c.Prop,
		"tier":     c.Tier,
		"seed":     envInt("VERIF_SEED", 1),
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation": "Static analysis of the current source of the repository (type-checked syntax and SSA); nothing is executed. Rules applied, with the number of constructs each was decided on: " + strings.Join(expl, " "),
			"counts":      counts,
			"samples":     samples,
		},
		"wall_s":      time.Since(start).Seconds(),
		"assumptions": append([]string{"go/types and golang.org/x/tools/go/ssa represent the source faithfully", "the build configuration analysed is the host's (linux/amd64, default tags) unless a rule says otherwise"}, def.assumptions...),
		"violations":  len(open),
	}
	if len(c.notes) > 0 {
		ev["coverage"].(map[string]interface{})["notes"] = c.notes
	}
	evDir := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(evDir, 0755)
	if len(open) > 0 {
		replay := filepath.Join(evDir, c.Prop+".violations.txt")
		var sb strings.Builder
		for _, v := range open {
			fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", v.Where, v.Rule, v.Construct, v.Message)
		}
		sb.WriteString("\nreplay: " + fmt.Sprintf("cd %s && ./check.sh %s %s\n", c.Verif, c.Prop, c.Tier))
		os.WriteFile(replay, []byte(sb.String()), 0644)
		fmt.Print(sb.String())
		for _, v := range open {
			fmt.Printf("key=%s\n", v.key())
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, replay)
	}
	writeJSON(filepath.Join(evDir, c.Prop+".json"), ev)
	if len(open) > 0 {
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d rules=%d known=%d wall=%.1fs\n", c.Prop, total, len(c.rules), knownHit, time.Since(start).Seconds())
	return 0
}

func envInt(k string, d int) int {
	var n int
	if _, err := fmt.Sscanf(os.Getenv(k), "%d", &n); err != nil {
		return d
	}
	return n
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
