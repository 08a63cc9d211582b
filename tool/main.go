package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verifDir = "/verif"

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "repository")
	vd := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	dump := flag.Bool("dump", false, "print the partitions of the functions named")
	list := flag.Bool("list", false, "print the registered checks")
	heap := flag.Bool("heap", false, "print the initial heap")
	prof := flag.String("prof", "", "CPU profile")
	flag.Parse()
	verifDir = *vd
	if *list {
		m := map[string]string{}
		for id, d := range checkInfo {
			m[id] = d.technique
		}
		b, _ := json.MarshalIndent(m, "", " ")
		fmt.Println(string(b))
		return
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var w *World
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("loading panicked: %v\n%s", r, debug.Stack())
			}
		}()
		w, err = load(*repo, filepath.Join(verifDir, "stub/objecthash"), nil)
		if err == nil {
			w.evalInit()
		}
	}()
	if *dump {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if *heap {
			for k, v := range w.initHeap.m {
				fmt.Println(k, "=", v)
			}
		}
		for _, n := range flag.Args() {
			if strings.HasPrefix(n, "effects:") {
				dumpEffects(w, n[8:])
				continue
			}
			if strings.HasPrefix(n, "survey:") {
				w.survey(n[7:])
				continue
			}
			n = strings.ReplaceAll(n, "@", modPath+"/")
			fn := w.FuncOf[n]
			if fn == nil {
				fmt.Println("no", n)
				continue
			}
			t := time.Now()
			ex := w.explorer()
			if os.Getenv("J") != "" {
				fmt.Sscan(os.Getenv("J"), &ex.joinAbove)
			}
			if os.Getenv("GO") != "" {
				ex.goRun = true
			}
			if os.Getenv("TREE") != "" {
				ex.opaque = treeFunc
			}
			if os.Getenv("OA") != "" {
				opaqueApply(ex)
			}
			if v := os.Getenv("OPQ"); v != "" {
				ex.opaque = func(f *ssa.Function) bool {
					for _, x := range strings.Split(v, ",") {
						if f != fn && strings.Contains(f.String(), x) {
							return true
						}
					}
					return false
				}
			}
			ps := ex.Explore(fn)
			fmt.Println("==", n, len(ps), "paths", ex.steps, "steps", time.Since(t), "undec", ex.Undec)
			if os.Getenv("V") != "" {
				for i, p := range ps {
					dumpPath(w, i, p)
				}
			}
		}
		return
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checkInfo {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		t := time.Now()
		if r := runCheck(w, err, id, *tier); r != 0 {
			code = 1
		}
		if len(ids) > 1 {
			fmt.Println("   ", id, time.Since(t))
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func dumpPath(w *World, i int, p *Path) {
	short := func(s string) string { return strings.ReplaceAll(s, modPath+"/", "@") }
	fmt.Println(short(fmt.Sprintln("-- path", i, p.End, p.Results, w.Prog.Fset.Position(p.Pos))))
	dumpEvents(p, 0, p.St.events, "    ")
	fmt.Println("    facts", short(fmt.Sprint(p.St.facts.lits)))
}

func dumpEvents(p *Path, from int, evs []*Event, ind string) {
	short := func(s string) string { return strings.ReplaceAll(s, modPath+"/", "@") }
	for _, e := range evs[from:] {
		if e.Kind == EEnter || e.Kind == ELeave || e.Kind == EMapGet {
			continue
		}
		fmt.Println(ind + short(fmt.Sprint(e.Kind, " ", e.Callee, " ", e.Loc, " ", e.Snap, "->", e.Res, " ", e.Val)))
		if e.Kind == ELoop {
			for _, v := range e.Loop.Vars {
				fmt.Println(ind+"   var", v.Sym, "init", v.Init, "val", v.Val, "nexts", v.Nexts)
			}
			for _, v := range e.Loop.Stores {
				fmt.Println(ind+"   mem", v.Base, v.Content, v.Writes)
			}
			fmt.Println(ind+"   inv", e.Loop.Facts)
			if os.Getenv("ITERS") != "" {
				for k, it := range e.Loop.Iters {
					fmt.Println(ind+"   iter", k, it.End)
					n := 0
					for j, x := range it.St.events {
						if x.orig() == e.orig() {
							n = j + 1
						}
					}
					if n == 0 {
						for n < len(it.St.events) && n < len(p.St.events) && it.St.events[n].orig() == p.St.events[n].orig() {
							n++
						}
					}
					dumpEvents(it, n, it.St.events, ind+"        ")
					fmt.Println(ind+"      facts", short(fmt.Sprint(it.St.facts.lits)))
				}
			}
		}
	}
}
func dumpEffects(w *World, match string) {
	a := w.effects()
	for _, f := range w.Funcs {
		if strings.Contains(f.String(), match) {
			for _, e := range a.sum(f).sorted() {
				fmt.Println(f, e.src.Name(), e.deep, e.typ, "cell", e.cell, e.appends, w.Prog.Fset.Position(a.sum(f).writes[e]))
			}
			for q, m := range a.sum(f).stored {
				for k := range m {
					fmt.Println("   stored in", q.Name(), k.src.Name(), k.deep, k.typ)
				}
			}
		}
	}
}
