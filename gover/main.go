package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type UnitResult struct {
	Fn        string
	Prop      string
	Obls      []*Obligation
	Used      []string
	Inlined   []string
	Exts      []string
	Unsup     []string
	Backends  map[string]int
	LockEdges map[[2]string]string
	Returns   int
	Panics    int
	Paths     int
	Loops     int
	LoopInvs  int
	Millis    int64
	Vacuous   string
	Smt       int
	SmtMillis int64
}

func newUnit(P *Program, sp *Specs, prop string) *Unit {
	u := &Unit{P: P, sp: sp, prop: prop, c: NewCtx(),
		obls: map[string]*Obligation{}, unsup: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, backends: map[string]int{},
		havocBase: map[*Term]*havocInfo{}, guardOf: map[int]*guardRef{}, lockPtr: map[string]*Ptr{}, lockOwner: map[int]*Ptr{}, ghostEntry: map[*Term]*Term{}, cellTypes: map[string]types.Type{}, pureDone: map[string]bool{}, lockEdges: map[[2]string]string{}, lockPtrs: map[string]*Ptr{}, entryLocks: map[string]int{}}
	u.sv = NewSolver(u.c, z3bin(), "-in")
	return u
}

// verify one function against its contract for one property
func verifyUnit(P *Program, sp *Specs, con *Contract, prop string) (res *UnitResult) {
	res = &UnitResult{Fn: con.fn, Prop: prop}
	t0 := time.Now()
	fn := P.fns[con.fn]
	if fn == nil || len(fn.Blocks) == 0 {
		if con.optional {
			return res
		}
		res.Obls = []*Obligation{{Name: "exists", Fn: con.fn, Status: "failed", Detail: "the function under contract does not exist in the source"}}
		return res
	}
	if len(con.params) != len(fn.Params) && len(con.params) > 0 {
		res.Obls = []*Obligation{{Name: "signature", Fn: con.fn, Status: "failed", Detail: fmt.Sprintf("the function has %d parameters, the contract names %d", len(fn.Params), len(con.params))}}
		return res
	}
	u := newUnit(P, sp, prop)
	u.fn, u.con = fn, con
	u.deadline = t0.Add(time.Duration(unitBudget) * time.Second)
	if u.deadline.After(globalDeadline) {
		u.deadline = globalDeadline
	}
	defer u.sv.Close()
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(unsupported); ok {
				u.unsupportedObl("supported", x.msg)
			} else {
				b := make([]byte, 8192)
				n := runtime.Stack(b, false)
				u.unsupportedObl("supported", fmt.Sprintf("internal: %v\n%s", r, b[:n]))
			}
		}
		for _, n := range u.oblOrd {
			res.Obls = append(res.Obls, u.obls[n])
		}
		res.Used = keysOf(u.used)
		res.Inlined = keysOf(u.inlined)
		res.Exts = keysOf(u.c.extsUsed)
		res.Unsup = keysOf(u.unsup)
		res.Backends = u.backends
		res.LockEdges = u.lockEdges
		res.Loops, res.LoopInvs = u.loopsDone, u.loopInvs
		res.Millis = time.Since(t0).Milliseconds()
		res.Smt = u.sv.Queries
		res.SmtMillis = u.sv.Time.Milliseconds()
	}()
	c := u.c
	st := &State{heaps: map[string]*Term{}, locks: map[string]int{}, nonnil: map[int]bool{}}
	st.top = c.Const("top0", SInt)
	st.assume(c.Le(c.Int(0), st.top))
	u.nowPeriod = c.Const("now_period", SStr)
	u.entry = st
	var args []Val
	for i, p := range fn.Params {
		nm := p.Name()
		if nm == "" || nm == "_" {
			nm = fmt.Sprintf("arg%d", i)
		}
		v := c.Const("p."+nm, c.SortOf(p.Type()))
		u.deepFacts(st, v, p.Type())
		args = append(args, v)
	}
	u.rootArgs = args
	u.entry = st.clone()
	st = u.entry.clone()
	vars := con.bind(u, args)
	for _, cl := range con.of("requires", prop) {
		env := &SEnv{u: u, st: st, old: u.entry, vars: vars}
		st.assume(u.evalBool(env, cl.expr))
	}
	// entry state keeps what the preconditions established
	e := st.clone()
	for k, h := range u.entry.heaps {
		if _, ok := e.heaps[k]; !ok {
			e.heaps[k] = h
		}
	}
	u.entry = e
	st = e.clone()
	u.conc = sp.concurrent[prop]
	u.checkLocks = con.has("locks", prop)
	if u.sv.Check(st.pc, 4000, false) == "unsat" {
		res.Vacuous = "the precondition is contradictory"
		u.unsupportedObl("vacuity", res.Vacuous)
		return
	}
	for k, n := range st.locks {
		u.entryLocks[k] = n
	}
	outs := u.execFunc(fn, args, nil, st, 0)
	nopanic := con.noPanic(prop)
	if nopanic {
		u.oblige(st, "no-panic", c.True, "")
	}
	if u.checkLocks {
		u.oblige(st, "locks", c.True, "")
	}
	live := 0
	for _, o := range outs {
		res.Paths++
		switch o.kind {
		case KPanic:
			res.Panics++
			if nopanic {
				u.oblige(o.st, "no-panic", c.False, o.msg)
			}
			if u.checkLocks && con.has("onpanic", prop) {
				u.lockBalance(o.st, u.entryLocks, "a panic of "+con.fn)
			}
		case KExit:
			if con.has("noexit", prop) {
				u.oblige(o.st, "no-exit", c.False, o.msg)
			}
		case KReturn:
			res.Returns++
			if live < 3 && u.feasible(o.st, nil) {
				live++
			}
			v := map[string]SVal{}
			for k, x := range vars {
				v[k] = x
			}
			con.bindRes(v, fn.Signature, o.rets)
			for _, cl := range append(con.of("ensures", prop), con.of("shows", prop)...) {
				s := o.st.clone()
				env := &SEnv{u: u, st: s, old: u.entry, vars: v}
				g := u.evalBool(env, cl.expr)
				u.oblige(s, "ensures "+cl.name, g, cl.src)
			}
			u.checkFrame(o.st, vars)
			u.lockBalance(o.st, u.entryLocks, con.fn)
		}
	}
	if live == 0 && !con.noReturn {
		u.unsupportedObl("vacuity", "no execution of the function returns")
	}
	return
}

var unitBudget = 240
var globalDeadline = time.Now().Add(time.Hour)

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------- known findings ----------

type finding struct{ prop, key, text string }

func loadFindings(file string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []finding
	re := regexp.MustCompile("^finding: property=(\\S+) obligation=`([^`]*)` (.*)$")
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			r = append(r, finding{m[1], m[2], m[3]})
		}
	}
	return r
}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract files")
	only := flag.String("fn", "", "verify only this function")
	outDir := flag.String("evidence", "", "evidence directory")
	known := flag.String("known", "/verif/known_findings.txt", "known findings")
	tier := flag.String("tier", "quick", "tier")
	verbose := flag.Bool("v", false, "verbose")
	listOnly := flag.Bool("list", false, "list contracts")
	replay := flag.String("replay", "", "replay command run on undischarged obligations")
	flag.IntVar(&unitBudget, "budget", 240, "seconds per function")
	total := flag.Int("total", 560, "seconds for the whole run")
	flag.Parse()
	globalDeadline = time.Now().Add(time.Duration(*total) * time.Second)
	t0 := time.Now()
	P, err := LoadRepo(*repo)
	if err != nil {
		// the tree does not compile: nothing can be shown
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(2)
	}
	sp, err := LoadSpecs(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(2)
	}
	if *listOnly {
		for _, n := range sp.order {
			fmt.Println(n, P.fns[n] != nil)
		}
		return
	}
	var results []*UnitResult
	dropped := map[string]bool{}
	for round := 0; ; round++ {
		rs, n := runAll(P, sp, *prop, *only)
		if n == 0 {
			fmt.Fprintln(os.Stderr, "gover: no contract carries property", *prop)
			os.Exit(2)
		}
		results = rs
		// contracts of auxiliary functions are cut points of the proof, not
		// part of the property: one that does not hold is removed and its
		// function is verified inside its callers instead
		again := false
		if *only == "" && round < 4 {
			for _, r := range rs {
				con := sp.contracts[r.Fn]
				if con == nil || !con.has("aux", *prop) {
					continue
				}
				bad := false
				for _, o := range r.Obls {
					if o.Status != "discharged" {
						bad = true
					}
				}
				// a broken precondition of an auxiliary function is the
				// caller's obligation: drop that contract as well
				if bad {
					dropped[r.Fn] = true
					again = true
				}
			}
			for _, r := range rs {
				for _, o := range r.Obls {
					if o.Status == "discharged" || !strings.HasPrefix(o.Name, "call ") {
						continue
					}
					f := strings.TrimPrefix(o.Name, "call ")
					if i := strings.Index(f, " requires"); i > 0 {
						f = f[:i]
					}
					if con := sp.contracts[f]; con != nil && con.has("aux", *prop) {
						dropped[f] = true
						again = true
					}
				}
			}
		}
		if !again {
			break
		}
		sp = sp.without(dropped)
		if *verbose {
			fmt.Println("-- auxiliary contracts dropped:", keysOf(dropped))
		}
	}
	sort.Slice(results, func(i, j int) bool { return results[i].Fn < results[j].Fn })
	lockOrder(results)
	os.Exit(report(P, sp, results, *prop, *tier, *outDir, *known, *replay, *specs, *repo, time.Since(t0), *verbose))
}

func runAll(P *Program, sp *Specs, prop, only string) ([]*UnitResult, int) {
	var results []*UnitResult
	var mu sync.Mutex
	started := map[string]bool{}
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	var start func(name string)
	start = func(name string) {
		if started[name] {
			return
		}
		started[name] = true
		con := sp.contracts[name]
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			r := verifyUnit(P, sp, con, prop)
			<-sem
			mu.Lock()
			results = append(results, r)
			if only == "" {
				for _, n := range r.Used {
					start(n)
				}
			}
			mu.Unlock()
		}()
	}
	mu.Lock()
	n := 0
	for _, name := range sp.order {
		if only != "" && name != only {
			continue
		}
		if only != "" || sp.contracts[name].tagged(prop) {
			start(name)
			n++
		}
	}
	mu.Unlock()
	wg.Wait()
	return results, n
}

// without: the same contracts minus the dropped ones
func (sp *Specs) without(d map[string]bool) *Specs {
	n := *sp
	n.contracts = map[string]*Contract{}
	n.order = nil
	for _, k := range sp.order {
		if !d[k] {
			n.order = append(n.order, k)
			n.contracts[k] = sp.contracts[k]
		}
	}
	return &n
}

func report(P *Program, sp *Specs, results []*UnitResult, prop, tier, outDir, known, replay, specs, repo string, wall time.Duration, verbose bool) int {
	fs := loadFindings(known)
	total, ok := 0, 0
	var bad []*Obligation
	var knownHit []string
	exts := map[string]bool{}
	inl := map[string]bool{}
	notes := map[string]bool{}
	be := map[string]int{}
	var fns []string
	loops, invs, smt := 0, 0, 0
	var smtMs int64
	perFn := map[string]interface{}{}
	for _, r := range results {
		fns = append(fns, r.Fn)
		k := 0
		for _, o := range r.Obls {
			total++
			if o.Status == "discharged" {
				ok++
				k++
				continue
			}
			hit := false
			for _, f := range fs {
				if f.prop == prop && f.key == o.Fn+" :: "+o.Name {
					hit = true
					knownHit = append(knownHit, f.text)
				}
			}
			if !hit {
				bad = append(bad, o)
			}
		}
		for _, e := range r.Exts {
			exts[e] = true
		}
		for _, e := range r.Inlined {
			inl[e] = true
		}
		for _, e := range r.Unsup {
			notes[e] = true
		}
		for b, n := range r.Backends {
			be[b] += n
		}
		loops += r.Loops
		invs += r.LoopInvs
		smt += r.Smt
		smtMs += r.SmtMillis
		perFn[r.Fn] = map[string]interface{}{"obligations": len(r.Obls), "discharged": k, "paths": r.Paths, "returns": r.Returns, "loops": r.Loops, "loop_invariants_proved": r.LoopInvs, "ms": r.Millis}
		if verbose {
			fmt.Printf("== %s  paths=%d returns=%d panics=%d loops=%d invs=%d smt=%d %dms (smt %dms)\n", r.Fn, r.Paths, r.Returns, r.Panics, r.Loops, r.LoopInvs, r.Smt, r.Millis, r.SmtMillis)
			for _, o := range r.Obls {
				fmt.Printf("   %-11s %s (x%d, %s)\n", o.Status, o.Name, o.Count, o.Backend)
				if o.Status != "discharged" {
					fmt.Printf("        %s\n", o.Detail)
				}
			}
			for _, n := range r.Unsup {
				fmt.Println("   note:", n)
			}
		}
	}
	if len(smtErrors) > 0 {
		bad = append(bad, &Obligation{Name: "solver", Fn: "-", Status: "unsupported", Detail: "solver rejected input: " + smtErrors[0]})
		total++
	}
	sort.Strings(fns)
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	code := 0
	var viol []string
	if len(bad) > 0 {
		code = 1
		rp := ""
		if outDir != "" {
			os.MkdirAll(filepath.Join(outDir, "replay"), 0o755)
			rp = filepath.Join(outDir, "replay", prop+".txt")
		}
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d obligation(s) not discharged for the current source\n", prop, len(bad))
		for _, o := range bad {
			fmt.Fprintf(&b, "\nfunction:   %s\nobligation: %s\nstatus:     %s\ndetail:     %s\n", o.Fn, o.Name, o.Status, o.Detail)
			viol = append(viol, o.Fn+" :: "+o.Name)
			fmt.Printf("undischarged: %s :: %s [%s]\n", o.Fn, o.Name, o.Status)
		}
		suffix := " no-failing-input-found"
		if replay != "" {
			out, failed := runReplay(replay, prop)
			fmt.Fprintf(&b, "\n--- replay against the real code ---\n%s\n", out)
			if failed {
				suffix = ""
			}
		}
		if rp != "" {
			os.WriteFile(rp, []byte(b.String()), 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	}
	if outDir != "" {
		trusted := []string{}
		for e := range exts {
			trusted = append(trusted, e)
		}
		sort.Strings(trusted)
		ev := map[string]interface{}{
			"property": prop, "tier": tier, "seed": 1, "level": "proof", "wall_s": wall.Seconds(),
			"coverage": map[string]interface{}{
				"obligations": total, "discharged": ok,
				"checker_cmd":              "gover -prop " + prop + " (symbolic verification conditions from go/ssa of /repo, discharged by z3 and cvc5)",
				"trusted_base":             trusted,
				"functions_under_contract": fns, "functions_inlined": keysOf(inl), "per_function": perFn,
				"loops": loops, "loop_invariants_proved": invs, "backends": be, "smt_queries": smt, "smt_ms": smtMs,
				"known_findings": knownHit,
			},
			"assumptions": append([]string{
				"integers are mathematical (no overflow)",
				"strings are abstract values with concatenation, length and equality; cryptographic primitives, JSON and hex codecs are uninterpreted functions with the axioms in /verif/gover/ext.go",
				"external calls in trusted_base marked (generic) return arbitrary values and touch no memory of the program",
			}, keysOf(notes)...),
			"violations": len(viol), "violated": viol,
		}
		j, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(outDir, 0o755)
		os.WriteFile(filepath.Join(outDir, prop+".json"), j, 0o644)
	}
	if code == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d wall=%.1fs\n", prop, total, ok, len(fns), wall.Seconds())
	}
	return code
}
