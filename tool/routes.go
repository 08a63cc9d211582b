package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// route is one registration of the REST router.
type route struct {
	Pattern string
	Methods []string
	Fn      *ssa.Function
	Free    []*Term
	Args    []*Term // receiver of a bound method
	Ev      *Event
	P       *Path // of the function that registers it
	ex      *exploration
	e       *exploration
}

// routeMethods of the router start a new route.
var routeMethods = map[string]bool{"HandleFunc": true, "Handle": true, "Path": true, "Methods": true, "NewRoute": true, "Name": true}

// restRoutes reads the routes off the exploration of CreateRESTHandler: one list
// per partition.
func (c *Check) restRoutes() [][]*route {
	fn := c.fn("server/httprest", "CreateRESTHandler")
	if fn == nil {
		return nil
	}
	e := c.explore(fn)
	var out [][]*route
	for _, p := range e.paths {
		if p.End != "return" {
			continue
		}
		var rs []*route
		byRes := map[*Term]*route{}
		for _, ev := range p.St.events {
			if ev.Kind == ELoop {
				c.fail("anchor", "routes in a loop", ev.Pos, "the routes are registered in a loop the analysis cannot unroll")
			}
			if ev.Kind != ECall {
				continue
			}
			at, m, ok := strings.Cut(ev.Callee, "mux.Route")
			if !ok || at != "(*github.com/gorilla/" {
				continue
			}
			var r *route
			if m, ok = strings.CutPrefix(m, ")."); ok {
				if r = byRes[ev.Args[0]]; r == nil {
					continue
				}
			} else if m, ok = strings.CutPrefix(m, "r)."); ok {
				if !routeMethods[m] {
					if m != "ServeHTTP" && m != "Match" {
						c.fail("anchor", "router set up by "+m, ev.Pos, "the router is set up in a way the analysis does not follow: %s", ev.Callee)
					}
					continue
				}
				r = &route{Ev: ev, P: p, ex: e}
				rs = append(rs, r)
			} else {
				continue
			}
			for _, x := range ev.Res {
				byRes[x] = r
			}
			pattern := func(x *Term) {
				if x.Op != OStr {
					c.fail("anchor", "route pattern", ev.Pos, "a route pattern is not constant: %s", brief(x))
					return
				}
				r.Pattern = x.Aux
			}
			handler := func(h *Term) {
				for h.Op == OIface {
					h = h.Args[0]
				}
				r.Fn = h.Fn
				switch h.Op {
				case OClos:
					r.Free = h.Args
				case OBound:
					r.Args = h.Args
				}
				if r.Fn == nil {
					c.fail("anchor", "route handler "+r.Pattern, ev.Pos, "the handler of %s is not known", r.Pattern)
				}
			}
			switch m {
			case "HandleFunc", "Handle":
				pattern(ev.Args[1])
				handler(ev.Args[2])
			case "Path":
				pattern(ev.Args[1])
			case "HandlerFunc", "Handler":
				handler(ev.Args[1])
			case "Methods":
				if ms := ev.Snap[1]; ms.Op == OList {
					for _, m := range ms.Args {
						if m.Op != OStr {
							c.fail("anchor", "route method", ev.Pos, "a route's method is not constant: %s", brief(m))
						}
						r.Methods = append(r.Methods, strings.ToUpper(m.Aux))
					}
				} else {
					c.fail("anchor", "route methods", ev.Pos, "the methods of %s are not known: %s", r.Pattern, brief(ms))
				}
			case "Name", "NewRoute":
			default:
				c.fail("anchor", "route set up by "+m, ev.Pos, "the route %s is set up in a way the analysis does not follow: %s", r.Pattern, ev.Callee)
			}
		}
		for i := 0; i < len(rs); i++ {
			if rs[i].Fn == nil {
				rs = append(rs[:i], rs[i+1:]...)
				i--
			}
		}
		out = append(out, rs)
	}
	if len(out) == 0 {
		c.anchorFail("routes of CreateRESTHandler")
	}
	return out
}

// exploreFrom explores a closure created by a finished partition.
func (c *Check) exploreFrom(fn *ssa.Function, p *Path, args, free []*Term, conf func(*Explorer)) *exploration {
	ex := c.w.explorer()
	if conf != nil {
		conf(ex)
	}
	if args != nil {
		for _, q := range fn.Params[len(args):] {
			args = append(args, ParamSym(q))
		}
	}
	st := ex.Start(fn, args, free)
	st.heap = p.St.heap.clone()
	for _, l := range p.St.facts.lits {
		st.facts.add(l)
	}
	e := &exploration{ex: ex}
	e.paths = ex.Run(st)
	c.account(ex, len(e.paths))
	for _, u := range ex.Undec {
		c.fail("undecided", u, fn.Pos(), "the analysis of %s could not decide: %s", fn, u)
	}
	return e
}

func (c *Check) exploreRoute(r *route, conf func(*Explorer)) *exploration {
	if conf == nil && r.e != nil {
		return r.e
	}
	e := c.exploreFrom(r.Fn, r.P, r.Args, r.Free, conf)
	if conf == nil {
		r.e = e
	}
	return e
}
