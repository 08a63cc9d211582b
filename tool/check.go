package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check is one run of one property's rules over the resolved program.
type Check struct {
	w        *World
	id       string
	tier     string
	viol     map[string]*Violation
	discharg map[string]int // rule|construct -> times shown
	counts   map[string]int
	mins     map[string]int
	funcs    map[string]bool
	parts    int
	steps    int
	expl     map[*ssa.Function]*exploration
	assume   []string
	notes    []string
	findings []string // known findings met
	known    []knownFinding
	stab     *storageTable
	szKey    *Term
}

type exploration struct {
	ex    *Explorer
	paths []*Path
	fn    *ssa.Function
}

// Violation is one construct that breaks a rule.
type Violation struct {
	Rule, Construct, Pos, Msg string
	N                         int
}

type knownFinding struct{ property, key, text string }

func newCheck(w *World, id, tier string) *Check {
	return &Check{w: w, id: id, tier: tier, viol: map[string]*Violation{}, discharg: map[string]int{}, counts: map[string]int{},
		mins: map[string]int{}, funcs: map[string]bool{}, expl: map[*ssa.Function]*exploration{}}
}

func (c *Check) pos(p token.Pos) string {
	if !p.IsValid() || c.w == nil {
		return "-"
	}
	ps := c.w.Prog.Fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(c.w.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ok records a discharged obligation.
func (c *Check) ok(rule, construct string) { c.discharg[rule+"|"+construct]++ }

// fail records a violated obligation.
func (c *Check) fail(rule, construct string, p token.Pos, format string, a ...any) {
	k := rule + "|" + construct
	for _, kf := range c.known {
		if kf.property == c.id && kf.key == k {
			c.findings = append(c.findings, kf.text)
			return
		}
	}
	if v := c.viol[k]; v != nil {
		v.N++
		return
	}
	c.viol[k] = &Violation{Rule: rule, Construct: construct, Pos: c.pos(p), Msg: fmt.Sprintf(format, a...), N: 1}
}

// must records the obligation either way.
func (c *Check) must(cond bool, rule, construct string, p token.Pos, format string, a ...any) bool {
	if cond {
		c.ok(rule, construct)
	} else {
		c.fail(rule, construct, p, format, a...)
	}
	return cond
}

// min requires that at least n instances of what were examined.
func (c *Check) min(what string, n int) { c.mins[what] = n }
func (c *Check) count(what string)      { c.counts[what]++ }

func (c *Check) assumption(s string) {
	for _, x := range c.assume {
		if x == s {
			return
		}
	}
	c.assume = append(c.assume, s)
}

// explore analyses fn once per check and reports undecided constructs.
func (c *Check) explore(fn *ssa.Function, facts ...Lit) *exploration {
	return c.exploreWith(fn, nil, facts...)
}

func (c *Check) exploreWith(fn *ssa.Function, conf func(*Explorer), facts ...Lit) *exploration {
	if len(facts) == 0 && conf == nil {
		if e := c.expl[fn]; e != nil {
			return e
		}
	}
	ex := c.w.explorer()
	if conf != nil {
		conf(ex)
	}
	e := &exploration{ex: ex, fn: fn}
	e.paths = ex.Explore(fn, facts...)
	c.account(ex, len(e.paths))
	for _, u := range ex.Undec {
		c.fail("undecided", u, fn.Pos(), "the analysis of %s could not decide: %s", fn, u)
	}
	if len(facts) == 0 && conf == nil {
		c.expl[fn] = e
	}
	return e
}

func (c *Check) account(ex *Explorer, n int) {
	c.parts += n
	c.steps += ex.steps
	for f := range ex.covered {
		c.funcs[f.String()] = true
	}
}

func (c *Check) anchorFail(what string) {
	c.fail("anchor", what, token.NoPos, "cannot find %s in the current source", what)
}

// ---- anchors

func (c *Check) typeNamed(pkg, name string) types.Type {
	sp := c.w.SSA[modPath+"/"+pkg]
	if sp == nil {
		c.anchorFail("package " + pkg)
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		c.anchorFail(pkg + "." + name)
		return nil
	}
	return o.Type()
}

// fn finds a package level function or method "T.m" / "*T.m" by name.
func (c *Check) fn(pkg, name string) *ssa.Function {
	f := c.findFn(pkg, name)
	if f == nil {
		c.anchorFail(pkg + "." + name)
	}
	return f
}

func (c *Check) findFn(pkg, name string) *ssa.Function {
	sp := c.w.SSA[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, m := strings.TrimPrefix(name[:i], "*"), name[i+1:]
		o := sp.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
			if ms := c.w.Prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, m); ms != nil {
				f := c.w.Prog.MethodValue(ms)
				if f != nil && f.Synthetic != "" { // promoted or wrapper: take the declared one
					if g := c.w.Prog.FuncValue(ms.Obj().(*types.Func)); g != nil {
						return g
					}
				}
				return f
			}
		}
		return nil
	}
	return sp.Func(name)
}

// implementers lists the named types of the repository (non-interface) whose
// value or pointer implements the interface.
func (c *Check) implementers(it types.Type) []types.Type {
	i, _ := it.Underlying().(*types.Interface)
	var out []types.Type
	if i == nil {
		return nil
	}
	for _, p := range c.w.Pkgs {
		if strings.HasSuffix(p.PkgPath, "/pb") {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, ok := t.Underlying().(*types.Interface); ok {
				continue
			}
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(t, i) || types.Implements(types.NewPointer(t), i) {
				out = append(out, t)
			}
		}
	}
	return out
}

// method finds the source function of a method of t (through promotion).
func (c *Check) method(t types.Type, name string) *ssa.Function {
	for _, x := range []types.Type{types.NewPointer(t), t} {
		ms := c.w.Prog.MethodSets.MethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				return c.w.Prog.FuncValue(s.Obj().(*types.Func))
			}
		}
	}
	return nil
}

// ---- results

func (c *Check) finish(t0 time.Time) int {
	for what, n := range c.mins {
		if c.counts[what] < n {
			c.fail("instances", what, token.NoPos, "found %d instances of %s, expected at least %d: the rule no longer sees the code it is about", c.counts[what], what, n)
		}
	}
	var keys []string
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, c.id+".violations.txt")
	os.Remove(replay)
	for _, f := range uniq(c.findings) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, f)
	}
	fmt.Printf("%s: %d functions, %d partitions, %d obligations (%d constructs), %v\n", c.id, len(c.funcs), c.parts, sum(c.discharg), len(c.discharg), c.counts)
	if len(keys) > 0 {
		var sb strings.Builder
		for _, k := range keys {
			v := c.viol[k]
			fmt.Fprintf(&sb, "%s: [%s] %s: %s (%d path(s))\n", v.Pos, v.Rule, v.Construct, v.Msg, v.N)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
	}
	c.writeEvidence(dir, time.Since(t0), len(keys))
	if len(keys) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
		return 1
	}
	return 0
}

func uniq(s []string) []string {
	sort.Strings(s)
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func (c *Check) writeEvidence(dir string, d time.Duration, nv int) {
	var obl []string
	rules := map[string]int{}
	for k, n := range c.discharg {
		obl = append(obl, fmt.Sprintf("%s x%d", k, n))
		rules[strings.SplitN(k, "|", 2)[0]]++
	}
	sort.Strings(obl)
	if len(obl) > 60 {
		obl = append(obl[:60], fmt.Sprintf("... %d more", len(obl)-60))
	}
	var fs []string
	for f := range c.funcs {
		fs = append(fs, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fs)
	nf := len(fs)
	if nf > 80 {
		fs = append(fs[:80], fmt.Sprintf("... %d more", nf-80))
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	info := checkInfo[c.id]
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":          info.technique + ". " + info.rule,
			"functions_analysed":   nf,
			"functions":            fs,
			"path_partitions":      c.parts,
			"abstract_steps":       c.steps,
			"obligations_shown":    sum(c.discharg),
			"distinct_obligations": len(c.discharg),
			"by_rule":              rules,
			"instances":            c.counts,
			"samples":              obl,
			"known_findings":       uniq(c.findings),
		},
		"assumptions": append(append([]string{}, commonAssumptions...), c.assume...),
		"wall_s":      d.Seconds(),
		"violations":  nv,
	}
	if len(c.notes) > 0 {
		ev["coverage"].(map[string]any)["notes"] = c.notes
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
}

var commonAssumptions = []string{
	"the Go type checker and golang.org/x/tools SSA construction represent the source faithfully",
	"calls outside the repository follow the models in tool/models.go (pure functions, encoders, error contracts)",
	"github.com/continusec/objecthash is absent from this sandbox; a stand-in with the same exported signatures is used for type checking",
}

func readKnown(file string) []knownFinding {
	var out []knownFinding
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k knownFinding
		rest := strings.TrimPrefix(l, "finding: ")
		f := strings.SplitN(rest, " :: ", 3)
		if len(f) != 3 {
			continue
		}
		k.property = strings.TrimPrefix(f[0], "property=")
		k.key = strings.TrimPrefix(f[1], "key=")
		k.text = f[2]
		out = append(out, k)
	}
	return out
}

type checkDef struct {
	run             func(c *Check)
	technique, rule string
}

var checkInfo = map[string]*checkDef{}

func register(id string, run func(c *Check), technique, rule string) {
	checkInfo[id] = &checkDef{run, technique, rule}
}

func runCheck(w *World, loadErr error, id, tier string) (code int) {
	t0 := time.Now()
	c := newCheck(w, id, tier)
	c.known = readKnown(filepath.Join(verifDir, "known_findings.txt"))
	info := checkInfo[id]
	if info == nil {
		fmt.Println("no check", id)
		return 1
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.fail("internal", "analysis panicked", token.NoPos, "%v\n%s", r, debug.Stack())
			}
		}()
		if loadErr != nil {
			c.fail("load", "program", token.NoPos, "the program cannot be resolved: %v", loadErr)
			return
		}
		for _, u := range w.initUndec {
			c.fail("undecided", "package initialisation", token.NoPos, "%s", u)
		}
		info.run(c)
		if len(c.discharg) == 0 {
			c.fail("instances", "obligations", token.NoPos, "no obligation was generated")
		}
	}()
	return c.finish(t0)
}
