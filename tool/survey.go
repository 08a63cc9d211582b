package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// survey prints how each function's partitions end.
func (w *World) survey(pkg string) {
	var ns []string
	for n, fn := range w.FuncOf {
		if fnPkg(fn) != nil && strings.HasSuffix(fnPkg(fn).Pkg.Path(), pkg) && len(fn.Blocks) > 0 {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		t := time.Now()
		ex := w.explorer()
		withOblig(ex)
		ps := ex.Explore(w.FuncOf[n])
		ends := map[string]int{}
		var msgs []string
		for _, p := range ps {
			ends[p.End]++
			for _, e := range p.St.events {
				if e.Kind == EOblig && !e.OK {
					msgs = append(msgs, fmt.Sprint("    ", e.Callee, " ", w.Prog.Fset.Position(instrPos(e.Instr)), " ", e.Val))
				}
			}
			if p.End == "panic" || p.End == "exit" {
				last := ""
				if k := len(p.St.events); k > 0 {
					e := p.St.events[k-1]
					last = fmt.Sprint(e.Kind, e.Callee, e.Loc, e.Args)
				}
				m := fmt.Sprint("    ", p.End, " ", w.Prog.Fset.Position(p.Pos), " ", p.Results, last)
				msgs = append(msgs, m)
			}
		}
		fmt.Println(strings.ReplaceAll(n, modPath+"/", "@"), ends, ex.Undec, time.Since(t).Round(time.Millisecond))
		for _, m := range ex.deadBlocks() {
			msgs = append(msgs, "    dead: "+m)
		}
		for _, m := range uniq(msgs) {
			fmt.Println(strings.ReplaceAll(m, modPath+"/", "@"))
		}
	}
}
