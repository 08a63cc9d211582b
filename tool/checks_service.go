package main

import "fmt"

// permission numbers and log types of the published API (pb/api.proto)
const (
	ltLog      = 0
	ltMutation = 1
	ltTreehead = 2
)

func init() {
	register("C01", checkC01, "path-sensitive dataflow over the SSA form of each operation: dominance of every storage read and queued mutation by a successful policy consultation, with value numbering of its arguments",
		"On every partition of each of the eight operations, every StorageReader.ExecuteReadOnly, KeyReader.Get and MutatorService.QueueMutation must come after an AuthorizationOracle.VerifyAllowed whose error is known nil at that point and whose account id, API key and name are those of the request's object and of the namespace used; a partition with a refusing answer must end in PermissionDenied, a nil response and none of those effects.")
	register("C02", checkC02, "path-sensitive dataflow over the SSA form of each operation, partitioned by log type: the permission constant that guards each effect",
		"For every effect of every operation and every log type value the path condition admits, the permission argument of the successful consultation must equal the published one (table permTable); no effect and no success for unknown log types or for adds to mutation and tree head logs.")
}

// permission required per operation and log type; -1: refused
var permTable = map[string][3]string{
	"LogAddEntry":         {"PERM_LOG_RAW_ADD", "", ""},
	"LogFetchEntries":     {"PERM_LOG_READ_ENTRY", "PERM_MAP_MUTATION_READ_ENTRY", "PERM_MAP_MUTATION_READ_HASH"},
	"LogTreeHash":         {"PERM_LOG_READ_HASH", "PERM_MAP_MUTATION_READ_HASH", "PERM_MAP_MUTATION_READ_HASH"},
	"LogConsistencyProof": {"PERM_LOG_READ_HASH", "PERM_MAP_MUTATION_READ_HASH", "PERM_MAP_MUTATION_READ_HASH"},
	"LogInclusionProof":   {"PERM_LOG_PROVE_INCLUSION", "PERM_MAP_MUTATION_READ_HASH", "PERM_MAP_MUTATION_READ_HASH"},
	"MapSetValue":         {"PERM_MAP_SET_VALUE"},
	"MapGetValue":         {"PERM_MAP_GET_VALUE"},
	"MapTreeHash":         {"PERM_MAP_GET_VALUE"},
}

func (c *Check) pbConst(typ, name string) (int64, bool) {
	sp := c.w.SSA[modPath+"/pb"]
	if sp == nil {
		c.anchorFail("package pb")
		return 0, false
	}
	o := sp.Const(typ + "_" + name)
	if o == nil {
		c.anchorFail("pb." + typ + "_" + name)
		return 0, false
	}
	return o.Value.Int64(), true
}

func isEffect(e *Event) bool { return isGet(e) || isRead(e) || isQueue(e) || isSet(e) }

func effectName(e *Event) string {
	switch {
	case isQueue(e):
		return "QueueMutation"
	case isRead(e):
		return "ExecuteReadOnly"
	case isSet(e):
		return "Set"
	}
	return "Get"
}

// consult is one policy consultation of a path.
func consults(p *Path) []*Event {
	var out []*Event
	for _, e := range p.St.events {
		if e.Kind == ECall && e.Callee == mVerifyAllowed {
			out = append(out, e)
		}
	}
	return out
}

func (c *Check) consultMatches(o *OpInfo, f *Facts, e *Event) string {
	want := []struct {
		i    int
		what string
		t    *Term
	}{{2, "account id", o.refField("Account", "Id")}, {3, "API key", o.refField("Account", "ApiKey")}, {4, "object name", o.refField("Name")}}
	for _, w := range want {
		if !eqv(f, e.Snap[w.i], w.t) {
			return fmt.Sprintf("the %s passed to the policy is %v, not %v", w.what, e.Snap[w.i], w.t)
		}
	}
	return ""
}

func checkC01(c *Check) {
	for _, o := range c.serviceOps() {
		for _, p := range o.e.paths {
			f := p.facts()
			cs := consults(p)
			refused := false
			for _, e := range cs {
				if failed(f, e) {
					refused = true
				}
			}
			effects := 0
			for _, e := range p.St.events {
				if !isEffect(e) {
					continue
				}
				effects++
				c.count("effects")
				fa := p.at(e)
				good, why := false, "no policy consultation happens before it"
				for _, v := range cs {
					if v.Seq > e.Seq {
						continue
					}
					if !succeeded(fa, v) {
						why = "it is reachable although the policy's answer was not a grant"
						continue
					}
					if m := c.consultMatches(o, fa, v); m != "" {
						why = m
						continue
					}
					good = true
				}
				c.must(good, "authorised-first", o.Name+" "+effectName(e), e.Pos, "%s in %s: %s", effectName(e), o.Name, why)
				if isRead(e) || isQueue(e) {
					ns, ok := nsContent(p, e.Snap[2])
					c.must(ok && eqv(fa, ns["account"], o.refField("Account", "Id")) && eqv(fa, ns["name"], o.refField("Name")),
						"same-object", o.Name+" "+effectName(e), e.Pos, "the namespace used by %s is not that of the request's account and name: %v", o.Name, ns)
				}
			}
			if p.End != "return" {
				continue
			}
			if refused {
				c.count("refusals")
				code, ok := statusCode(p.retErr())
				c.must(ok && code == 7, "refusal-denied", o.Name, p.Pos, "%s answers a policy refusal with %v instead of PermissionDenied", o.Name, p.retErr())
				c.must(eqv(f, p.Results[0], tNil), "refusal-no-response", o.Name, p.Pos, "%s returns a response although the policy refused", o.Name)
				c.must(effects == 0, "refusal-no-effect", o.Name, p.Pos, "%s reads or queues although the policy refused", o.Name)
			}
			if p.maySucceed() {
				c.count("successes")
				c.must(len(cs) > 0, "consulted", o.Name, p.Pos, "%s can succeed without consulting the policy", o.Name)
			}
		}
	}
	c.min("effects", 8)
	c.min("refusals", 8)
	c.min("successes", 8)
}

func checkC02(c *Check) {
	perms := map[string]int64{}
	for _, row := range permTable {
		for _, n := range row {
			if n != "" {
				if v, ok := c.pbConst("Permission", n); ok {
					perms[n] = v
				}
			}
		}
	}
	for i, n := range []string{"STRUCT_TYPE_LOG", "STRUCT_TYPE_MUTATION_LOG", "STRUCT_TYPE_TREEHEAD_LOG"} {
		if v, ok := c.pbConst("LogType", n); !ok || v != int64(i) {
			c.anchorFail("pb.LogType_" + n)
		}
	}
	for _, o := range c.serviceOps() {
		row, known := permTable[o.Name]
		if !known {
			c.fail("anchor", o.Name, o.Fn.Pos(), "operation %s has no published permission", o.Name)
			continue
		}
		nTypes := 3
		if o.IsMap {
			nTypes = 1
		}
		seen := map[int]bool{}
		for _, p := range o.e.paths {
			check := func(f *Facts, what string, seq int) {
				ep := p.Pos
				if seq >= 0 {
					ep = p.St.events[seq].Pos
				}
				lt := tZeroI
				if !o.IsMap {
					lt = o.refField("LogType")
				}
				// the log type must be one of the known ones
				sure := o.IsMap
				for k := 0; k < 3 && !sure; k++ {
					if mustBe(f, lt, int64(k)) {
						sure = true
					}
				}
				if !sure && eqv(f, lt, tZeroI) { // absent reference
					sure = true
				}
				if !sure {
					// bounded to the known range?
					sure = f.Implies(litLE(tZeroI, lt)) && f.Implies(litLE(lt, Int(2)))
				}
				c.must(sure, "known-log-type", o.Name+" "+what, ep, "%s of %s is reachable with a log type that is none of the known ones", what, o.Name)
				for k := 0; k < nTypes; k++ {
					if !o.IsMap && (!mayBe(f, lt, int64(k)) || k > 0 && eqv(f, lt, tZeroI)) {
						continue
					}
					cons := fmt.Sprintf("%s %s type %d", o.Name, what, k)
					if row[k] == "" {
						c.fail("refused-type", cons, ep, "%s of %s is reachable for log type %d, which must be refused", what, o.Name, k)
						continue
					}
					seen[k] = true
					good, got := false, "none"
					for _, v := range consults(p) {
						if seq >= 0 && v.Seq > seq || !succeeded(f, v) {
							continue
						}
						got = fmt.Sprint(v.Snap[5])
						if v.Snap[5].IsInt() && v.Snap[5].I == perms[row[k]] || mustBe(f, v.Snap[5], perms[row[k]]) {
							good = true
						}
					}
					c.must(good, "permission", cons, ep, "%s of %s for log type %d is guarded by permission %s, not by %s (%d)", what, o.Name, k, got, row[k], perms[row[k]])
				}
			}
			for _, e := range p.St.events {
				if isEffect(e) {
					c.count("effects")
					check(p.at(e), effectName(e), e.Seq)
				}
			}
			if p.End == "return" && p.maySucceed() {
				check(p.facts(), "success", -1)
			}
		}
		for k := 0; k < nTypes; k++ {
			if row[k] != "" {
				c.must(seen[k], "served", fmt.Sprintf("%s type %d", o.Name, k), o.Fn.Pos(), "%s never serves log type %d", o.Name, k)
			}
		}
	}
	c.min("effects", 8)
}
