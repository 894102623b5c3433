package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A property names the functions whose contracts state it. Its obligations are those of
// these functions and of every contract they rely on, directly or not.
type PropDef struct {
	Roots   []string `json:"roots"`
	Only    []string `json:"only"` // count only obligations with the property's tag
	Replay  []Replay `json:"replay"`
	Assume  []string `json:"assume"`
	Level   string   `json:"level"`
	Exclude []string `json:"exclude"` // untagged obligations of these units belong to other properties
}

type Replay struct {
	Pkg   string            `json:"pkg"`
	Files map[string]string `json:"files"` // path in the repository -> file in /verif/replay
	Run   string            `json:"run"`
	Race  bool              `json:"race"`
	Secs  int               `json:"secs"`
	Mod   bool              `json:"mod"`
}

type failure struct {
	Unit, Name, Kind, Pos, Detail string
}

var failedSoFar int64

const giveUpAfter = 6

func (w *World) closure(roots []string) []*UnitResult {
	done := map[string]*UnitResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	var add func(k string)
	add = func(k string) {
		for _, u := range w.unitsOf(k) {
			u := u
			mu.Lock()
			if _, ok := done[u]; ok {
				mu.Unlock()
				continue
			}
			done[u] = nil
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				var r *UnitResult
				if strings.HasPrefix(u, "lemma ") {
					r = w.verifyLemma(w.lemmas[u[6:]])
				} else {
					r = w.verify(u, 150*time.Second)
				}
				<-sem
				mu.Lock()
				done[u] = r
				mu.Unlock()
				for _, d := range r.Used {
					add(d)
				}
			}()
		}
	}
	for _, r := range roots {
		add(r)
	}
	wg.Wait()
	var rs []*UnitResult
	for _, k := range sortedKeys(done) {
		rs = append(rs, done[k])
	}
	return rs
}

// unitsOf: what has to be verified for a contract key or a pattern.
func (w *World) unitsOf(k string) []string {
	if strings.HasPrefix(k, "inline ") {
		return nil
	}
	if strings.HasPrefix(k, "lemma ") {
		if w.lemmas[k[6:]] != nil {
			return []string{k}
		}
		return nil
	}
	if strings.ContainsAny(k, "*?[") {
		var out []string
		for _, u := range w.units() {
			if ok, _ := path.Match(k, u); ok && !w.optional(u) {
				out = append(out, u)
			}
		}
		if k == "*" {
			for n := range w.lemmas {
				out = append(out, "lemma "+n)
			}
		}
		return out
	}
	c := w.contractFor(k)
	if c == nil || c.Trusted {
		return nil
	}
	if c.Iface {
		i := strings.LastIndex(c.Key, ".")
		var out []string
		for _, td := range w.specs.Types {
			if td.Iface != "" && td.Pkg+"."+td.Iface == c.Key[:i] {
				out = append(out, td.Pkg+"."+td.Name+c.Key[i:])
			}
		}
		return out
	}
	return []string{k}
}

// optional: a helper that is not there, or not with the shape its contract was written
// for, is read in place by its callers instead.
func (w *World) optional(u string) bool {
	c := w.contractFor(u)
	if c == nil {
		return true
	}
	if _, ok := c.Opts["api"]; ok {
		return false
	}
	return !w.fits(u)
}

// fits: the function is there with the parameters its contract names.
func (w *World) fits(key string) bool {
	c := w.contractFor(key)
	fn := w.fnByKey[key]
	return c != nil && fn != nil && len(fn.Params) == len(c.Params) && (len(c.Results) == 0 || len(c.Results) == fn.Signature.Results().Len())
}

// uncovered: the functions of the repository that touch state with a lock and that no unit has verified or read in place.
func (w *World) uncovered(rs []*UnitResult) []string {
	seen := map[string]bool{}
	for _, r := range rs {
		seen[r.Key] = true
		for _, u := range r.Used {
			seen[strings.TrimPrefix(u, "inline ")] = true
		}
	}
	var out []string
	for _, k := range sortedKeys(w.fnByKey) {
		fn := w.fnByKey[k]
		if fn.Synthetic != "" || fn.Blocks == nil || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoMod) || fn.TypeParams().Len() > 0 {
			continue
		}
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if !seen[fnKey(top)] && w.touchesGuarded(fn) {
			out = append(out, fnKey(top))
		}
	}
	return out
}

// verifyBare executes a function that has no contract; only the lock discipline is asked of it.
func (w *World) verifyBare(k string, limit time.Duration) *UnitResult {
	c := &Contract{Key: k, Name: k[strings.LastIndex(k[:strings.Index(k, ".")+1], ".")+1:], Pkg: k[:strings.Index(k, ".")], Opts: map[string]string{"allocs": "", "noframe": ""}}
	for i, p := range w.fnByKey[k].Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		c.Params = append(c.Params, Param{Name: n})
	}
	w.mu.Lock()
	w.merged[k] = c
	w.mu.Unlock()
	return w.verify(k, limit)
}

func (w *World) touchesGuarded(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var t types.Type
			var f int
			switch x := ins.(type) {
			case *ssa.FieldAddr:
				t, f = deref(x.X.Type()), x.Field
			case *ssa.Field:
				t, f = x.X.Type(), x.Field
			default:
				continue
			}
			td := w.declOf(t)
			if td == nil {
				continue
			}
			for _, g := range td.Guards {
				for _, gf := range g.Fields {
					if gf == fieldName(t, f) {
						return true
					}
				}
			}
		}
	}
	return false
}

func tagged(o *Obligation, p string) bool {
	for _, t := range o.Tags {
		if t == p {
			return true
		}
	}
	return false
}

type job struct {
	r *UnitResult
	o *Obligation
}

type decision struct {
	rs      []*UnitResult
	jobs    []job
	fails   []failure
	support int      // obligations of clauses of other properties
	broken  []string // the clauses of other properties that do not hold
}

// decide discharges the obligations of a property, and if they hold those of the clauses that they may rely on.
func (w *World) decide(prop string, pd PropDef, quick, full int) decision {
	var fails []failure
	for _, r := range pd.Roots {
		if len(w.unitsOf(r)) == 0 {
			fails = append(fails, failure{r, "root", "root", "", "no function under contract matches " + r})
		}
	}
	rs := w.closure(pd.Roots)
	tagOnly := len(pd.Only) > 0
	if prop == "C18" {
		// the lock discipline also holds in the functions nothing else depends on
		for _, k := range w.uncovered(rs) {
			rs = append(rs, w.verifyBare(k, 60*time.Second))
		}
	}
	excluded := func(u string) bool {
		for _, x := range pd.Exclude {
			if ok, _ := path.Match(x, u); ok {
				return true
			}
		}
		return false
	}
	counted := func(u string, o *Obligation) bool {
		if tagged(o, prop) {
			return true
		}
		if tagOnly || len(o.Tags) > 0 {
			return false
		}
		return !excluded(u)
	}
	var jobs, others []job
	for _, r := range rs {
		if r.Err != "" {
			fails = append(fails, failure{r.Key, "verification of " + r.Key, "engine", "", r.Err})
		}
		if r.Vacuous {
			fails = append(fails, failure{r.Key, "precondition of " + r.Key, "vacuous", "", "the precondition cannot be met"})
		}
		if r.Err == "" && r.Exits == 0 && !r.NoReturn {
			fails = append(fails, failure{r.Key, "exit of " + r.Key, "vacuous", "", "no path reaches the end"})
		}
		for _, o := range r.Obs {
			if counted(r.Key, o) {
				jobs = append(jobs, job{r, o})
			} else if o.Clause != "" && len(o.Tags) > 0 && !excluded(r.Key) {
				others = append(others, job{r, o})
			}
		}
	}
	w.dischargeAll(jobs, quick, full)
	d := decision{rs: rs, jobs: jobs}
	for _, j := range jobs {
		if j.o.Res != "proved" {
			fails = append(fails, failure{j.r.Key, j.r.Key + "/" + j.o.Name, j.o.Kind, j.o.Pos, j.o.Out})
		}
	}
	d.fails = fails
	if len(fails) > 0 {
		return d
	}
	// the clauses of other properties that the proofs may rely on
	w.dischargeAll(others, quick, full)
	d.support = len(others)
	lines := map[string]bool{}
	for _, j := range others {
		if j.o.Res != "proved" {
			lines[j.o.Clause] = true
		}
	}
	d.broken = sortedKeys(lines)
	return d
}

func (w *World) dischargeAll(jobs []job, quick, full int) {
	sem := make(chan bool, 16)
	var wg sync.WaitGroup
	for _, j := range jobs {
		if j.o.Res != "" {
			continue
		}
		j := j
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f := full
			if atomic.LoadInt64(&failedSoFar) >= giveUpAfter {
				f = 0
			}
			j.r.ex.discharge(j.o, quick, f)
			if j.o.Res != "proved" {
				atomic.AddInt64(&failedSoFar, 1)
			}
		}()
	}
	wg.Wait()
}

func (w *World) report(prop, verif, repo, tier string, seed int, quick, full int, verbose bool) int {
	t0 := time.Now()
	var props map[string]PropDef
	b, err := os.ReadFile(filepath.Join(verif, "contracts", "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &props)
	}
	if err != nil {
		fmt.Println("props.json:", err)
		return 2
	}
	pd, ok := props[prop]
	if !ok {
		fmt.Println("unknown property", prop)
		return 2
	}
	d := w.decide(prop, pd, quick, full)
	support, rounds := d.support, 0
	for len(d.fails) == 0 && len(d.broken) > 0 && rounds < 4 {
		// clauses of other properties do not hold: is this property proved without them?
		rounds++
		for _, l := range d.broken {
			dropped[l] = true
			fmt.Println("without the clause at", l)
		}
		w2, err := loadWorld(repo, filepath.Join(verif, "contracts"))
		if err != nil {
			fmt.Println("load:", err)
			return 2
		}
		w = w2
		atomic.StoreInt64(&failedSoFar, 0)
		d = w.decide(prop, pd, quick, full)
	}
	fails, rs, jobs := d.fails, d.rs, d.jobs
	var cross []string
	by := map[string]int{}
	perFn := map[string][2]int{}
	proved, solverTime := 0, 0.0
	kinds := map[string]int{}
	for _, j := range jobs {
		c := perFn[j.r.Key]
		c[0]++
		if j.o.Res == "proved" {
			proved++
			by[j.o.By]++
			c[1]++
		}
		kinds[j.o.Kind]++
		perFn[j.r.Key] = c
	}
	solverTime = float64(atomic.LoadInt64(&solverSec)) / 1e6
	var fns []string
	externs, trusted, assumes := map[string]bool{}, map[string]bool{}, map[string]bool{}
	inl := map[string]bool{}
	for _, r := range rs {
		fns = append(fns, fmt.Sprintf("%s: %d of %d", r.Key, perFn[r.Key][1], perFn[r.Key][0]))
		for _, e := range r.Externs {
			externs[e] = true
		}
		for _, u := range r.Used {
			if strings.HasPrefix(u, "inline ") {
				inl[u[7:]] = true
			} else if c := w.contractFor(u); c != nil && c.Trusted {
				trusted[u] = true
			}
		}
		if c := w.contractFor(r.Key); c != nil {
			for _, a := range c.Assumes {
				assumes[fmt.Sprintf("%s assumes, unchecked, clause %q at %s", r.Key, a.Name, a.Line)] = true
			}
			if _, ok := c.Opts["noframe"]; ok {
				assumes[r.Key+": its modifies clause is not checked (it has no verified caller)"] = true
			}
		}
	}
	var base []string
	base = append(base, "the verifier /verif/dv (its reading of Go SSA and its models of the standard library), Go's type checker and golang.org/x/tools/go/ssa", "z3 4.8.12, the newer z3, cvc5")
	for _, k := range sortedKeys(trusted) {
		base = append(base, "assumed contract: "+k)
	}
	for _, k := range sortedKeys(natUsed) {
		base = append(base, "built-in model: "+k)
	}
	for _, k := range sortedKeys(externs) {
		base = append(base, "external, result unknown, taken not to panic and to change only what its arguments point to: "+k)
	}
	as := append([]string(nil), pd.Assume...)
	as = append(as, sortedKeys(assumes)...)
	as = append(as, "slices, strings and maps have fewer than 2^40 elements", "memory and goroutine stacks do not run out", "functions terminate (partial correctness)")
	if len(inl) > 0 {
		as = append(as, "read in place, with their own obligations raised in the callers: "+strings.Join(sortedKeys(inl), ", "))
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": len(jobs), "discharged": proved,
			"checker_cmd":  fmt.Sprintf("/verif/check %s (dv -prop %s: z3-new, z3, cvc5; %d s, then %d s in parallel, per obligation)", prop, prop, quick, full),
			"trusted_base": base, "functions_under_contract": fns, "functions": len(rs), "discharged_by": by, "obligations_by_kind": kinds,
			"supporting_obligations_of_other_properties": support, "rounds_without_broken_clauses": rounds,
			"solver_seconds": solverTime, "solver_runs": atomic.LoadInt64(&solverRuns),
		},
		"assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": 0,
	}
	evFile := filepath.Join(verif, "evidence", prop+".json")
	save := func() {
		os.MkdirAll(filepath.Dir(evFile), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(evFile, b, 0644)
	}
	if verbose {
		for _, f := range fns {
			fmt.Println(" ", f)
		}
	}
	fmt.Printf("%s: %d functions, %d obligations, %d proved, %.0f s solver time, %.0f s\n", prop, len(rs), len(jobs), proved, solverTime, time.Since(t0).Seconds())
	if kb, err := os.ReadFile(filepath.Join(verif, "known_findings.txt")); err == nil {
		for _, l := range strings.Split(string(kb), "\n") {
			if strings.HasPrefix(l, "known: property="+prop+" ") {
				fmt.Println("KNOWN-FINDING: " + l[7:])
			}
		}
	}
	if len(fails) == 0 && tier != "thorough" {
		save()
		return 0
	}
	if len(fails) == 0 {
		// an independent, bounded test of the contracts and the models against the real code
		for _, rp := range pd.Replay {
			ok, text := runReplay(rp, verif, repo, prop, seed, tier)
			if ok {
				fails = append(fails, failure{rp.Pkg, rp.Pkg + "/" + rp.Run, "bounded test", "/" + strings.TrimPrefix(rp.Pkg, "./") + "/", "the real code contradicts the contracts (all obligations are proved)\n" + text})
				break
			}
			cross = append(cross, fmt.Sprintf("%s %s, %d s", rp.Pkg, rp.Run, rp.Secs))
		}
		ev["coverage"].(map[string]interface{})["bounded_tests_passed"] = cross
		ev["wall_s"] = time.Since(t0).Seconds()
	}
	if len(fails) == 0 {
		save()
		return 0
	}
	sort.SliceStable(fails, func(i, j int) bool { return fails[i].Kind < fails[j].Kind && fails[i].Kind == "engine" })
	ev["violations"] = len(fails)
	for _, f := range fails {
		fmt.Printf("failed obligation: %s [%s] at %s: %s\n", f.Name, f.Kind, f.Pos, f.Detail)
	}
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	file := filepath.Join(dir, prop+".txt")
	var out strings.Builder
	fmt.Fprintf(&out, "property %s: %d of %d obligations failed\n\n", prop, len(fails), len(jobs))
	for _, f := range fails {
		fmt.Fprintf(&out, "obligation %s\n  kind %s\n  at %s\n  verifier: %s\n", f.Name, f.Kind, f.Pos, f.Detail)
	}
	found := fails[0].Kind == "bounded test"
	// the packages of the failed obligations first
	sort.SliceStable(pd.Replay, func(i, j int) bool {
		return touches(fails, pd.Replay[i].Pkg) && !touches(fails, pd.Replay[j].Pkg)
	})
	for _, rp := range pd.Replay {
		if found {
			break
		}
		ok, text := runReplay(rp, verif, repo, prop, seed, tier)
		fmt.Fprintf(&out, "\n--- replay %s %s ---\n%s\n", rp.Pkg, rp.Run, text)
		if ok {
			found = true
		}
	}
	os.WriteFile(file, []byte(out.String()), 0644)
	ev["wall_s"] = time.Since(t0).Seconds()
	ev["coverage"].(map[string]interface{})["failed"] = len(fails)
	save()
	if found {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, file)
	}
	return 1
}

func touches(fails []failure, pkg string) bool {
	for _, f := range fails {
		if strings.Contains(f.Pos, strings.TrimPrefix(pkg, "./")+"/") {
			return true
		}
	}
	return false
}

// runReplay looks for a failing input of the real code. It is run only after an obligation failed.
func runReplay(rp Replay, verif, repo, prop string, seed int, tier string) (bool, string) {
	dir, err := os.MkdirTemp("", "replay-")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(dir)
	ov := map[string]map[string]string{"Replace": {}}
	for to, from := range rp.Files {
		ov["Replace"][filepath.Join(repo, to)] = filepath.Join(verif, "replay", from)
	}
	b, _ := json.Marshal(ov)
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, b, 0644)
	secs := rp.Secs
	if secs == 0 {
		secs = 60
	}
	args := []string{"test", "-overlay", of, "-vet=off", "-count=1", "-run", "^(" + rp.Run + ")$", fmt.Sprintf("-timeout=%ds", secs+120)}
	if rp.Race {
		args = append(args, "-race")
	}
	args = append(args, rp.Pkg)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+200)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "go", args...)
	c.Dir = repo
	c.Env = append(os.Environ(), "VERIF_PROP="+prop, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_SECS=%d", secs), "TMPDIR="+dir)
	outb, _ := c.CombinedOutput()
	text := string(outb)
	found := false
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "REPLAY-FAIL "); i >= 0 && strings.HasPrefix(strings.TrimSpace(l[i+12:]), prop) {
			found = true
		}
		if rp.Race && strings.Contains(l, "WARNING: DATA RACE") {
			found = true
		}
	}
	if prop == "C19" && (strings.Contains(text, "panic: ") && !strings.Contains(text, "panic: test timed out") || strings.Contains(text, "fatal error: concurrent map")) {
		found = true
	}
	if len(text) > 20000 {
		text = text[:10000] + "\n...\n" + text[len(text)-10000:]
	}
	return found, text
}
