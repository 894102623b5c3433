package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- axioms ----

type axiomSet struct {
	need []string // any of these functions present
	text []string
	uses []string // functions declared if the axioms are used
}

const SJ Sort = "J"
const SBuf Sort = "Buf"

var funSigs = map[string]string{
	"slen": "(Str) Int", "cat": "(Str Str) Str", "take": "(Str Int) Str", "drop": "(Str Int) Str",
	"prefix": "(Str Str) Bool", "be64": "(Int) Str", "unbe64": "(Str) Int", "itoa": "(Int) Str", "unitoa": "(Str) Int",
	"slt": "(Str Str) Bool", "mpint": "(Str Str) Int", "mpstr": "(Str Str) Str", "mpok": "(Str) Bool", "first": "(Str) Int",
}

const strAxioms = `
(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s EMPTY)) :pattern ((slen s)))))
(assert (forall ((a Str)(b Str)) (! (and (= (slen (cat a b)) (+ (slen a) (slen b))) (= (take (cat a b) (slen a)) a) (= (drop (cat a b) (slen a)) b) (=> (> (slen a) 0) (= (first (cat a b)) (first a)))) :pattern ((cat a b)))))
(assert (forall ((a Str)(b Str)(c Str)) (! (= (cat a (cat b c)) (cat (cat a b) c)) :pattern ((cat a (cat b c))))))
(assert (forall ((s Str)(n Int)) (! (=> (and (<= 0 n) (<= n (slen s))) (and (= (slen (take s n)) n) (= (cat (take s n) (drop s n)) s) (= (slen (drop s n)) (- (slen s) n)))) :pattern ((take s n)))))
(assert (forall ((s Str)(n Int)) (! (=> (= n (slen s)) (= (take s n) s)) :pattern ((take s n)))))
(assert (forall ((s Str)) (! (= (drop s 0) s) :pattern ((drop s 0)))))
(assert (forall ((s Str)) (! (and (= (cat s EMPTY) s) (= (cat EMPTY s) s)) :pattern ((cat s EMPTY)) :pattern ((cat EMPTY s)))))
(assert (forall ((s Str)(n Int)) (! (=> (and (<= 0 n) (<= n (slen s))) (and (= (slen (take s n)) n) (= (cat (take s n) (drop s n)) s) (= (slen (drop s n)) (- (slen s) n)))) :pattern ((drop s n)))))
(assert (forall ((s Str)(p Str)) (! (= (prefix s p) (and (<= (slen p) (slen s)) (= (take s (slen p)) p))) :pattern ((prefix s p)))))
(assert (forall ((a Str)(b Str)(p Str)) (! (=> (prefix a p) (prefix (cat a b) p)) :pattern ((prefix (cat a b) p)))))
(assert (forall ((x Int)) (! (and (= (slen (be64 x)) 8) (= (unbe64 (be64 x)) x)) :pattern ((be64 x)))))
(assert (forall ((s Str)) (! (=> (= (slen s) 8) (= (be64 (unbe64 s)) s)) :pattern ((unbe64 s)))))
(assert (forall ((s Str)(n Int)) (! (=> (= (slen (drop s n)) 8) (= (be64 (unbe64 (drop s n))) (drop s n))) :pattern ((drop s n)))))
(assert (forall ((x Int)) (! (= (unitoa (itoa x)) x) :pattern ((itoa x)))))
`
const sltAxioms = `
(assert (forall ((a Str)(b Str)) (! (not (and (slt a b) (slt b a))) :pattern ((slt a b)))))
(assert (forall ((a Str)(b Str)) (! (or (slt a b) (slt b a) (= a b)) :pattern ((slt a b)))))
(assert (forall ((a Str)(b Str)(c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))
(assert (forall ((p Str)(x Int)(y Int)) (! (=> (and (<= 0 x) (< x 18446744073709551616) (<= 0 y) (< y 18446744073709551616)) (= (slt (cat p (be64 x)) (cat p (be64 y))) (< x y))) :pattern ((slt (cat p (be64 x)) (cat p (be64 y)))))))
(assert (forall ((p Str)(a Str)(b Str)) (! (= (slt (cat p a) (cat p b)) (slt a b)) :pattern ((slt (cat p a) (cat p b))))))
(assert (forall ((p Str)(a Str)) (! (=> (> (slen a) 0) (slt p (cat p a))) :pattern ((slt p (cat p a))))))
(assert (forall ((p Str)(a Str)) (! (not (slt (cat p a) p)) :pattern ((slt (cat p a) p)))))
(assert (forall ((x Str)(p Str)) (! (=> (prefix x p) (not (slt x p))) :pattern ((prefix x p)))))
(assert (forall ((x Str)(k Str)(a Str)) (! (=> (and (= (slen x) (slen k)) (slt k x)) (not (slt x (cat k a)))) :pattern ((slt x (cat k a))))))
(assert (forall ((x Str)(c Str)(p Str)) (! (=> (and (prefix x p) (not (prefix c p)) (not (slt c p))) (slt x c)) :pattern ((prefix x p) (prefix c p)))))
`

var jAxioms = `
(assert (forall ((o J)(k Str)(v J)(k2 Str)) (! (= (jget (jset o k v) k2) (ite (= k k2) v (jget o k2))) :pattern ((jget (jset o k v) k2)))))
(assert (forall ((k Str)) (! (= (jget jempty k) jnull) :pattern ((jget jempty k)))))
(assert (forall ((s Str)) (! (= (unjstr (jstr s)) s) :pattern ((jstr s)))))
(assert (forall ((s Int)) (! (= (unjint (jint s)) s) :pattern ((jint s)))))
(assert (forall ((s Bool)) (! (= (unjbool (jbool s)) s) :pattern ((jbool s)))))
(assert (forall ((s J)) (! (and (= (jparse (jtext s)) s) (jvalid (jtext s))) :pattern ((jtext s)))))
(assert (forall ((k Str)) (! (= (jget jnull k) jnull) :pattern ((jget jnull k)))))
(assert (forall ((o J)(k Str)(v J)) (! (= (jkind (jset o k v)) 4) :pattern ((jset o k v)))))
(assert (forall ((s Str)) (! (= (jkind (jstr s)) 1) :pattern ((jstr s)))))
(assert (forall ((s Int)) (! (= (jkind (jint s)) 2) :pattern ((jint s)))))
(assert (forall ((s Bool)) (! (= (jkind (jbool s)) 3) :pattern ((jbool s)))))
(assert (and (= (jkind jnull) 0) (= (jkind jempty) 4)))
(assert (forall ((j J)) (! (and (<= 0 (jkind j)) (=> (= (jkind j) 0) (= j jnull))) :pattern ((jkind j)))))
`

// query text of: facts /\ not goal
func (ex *Exec) queryText(pc []*Term, goal *Term, timeoutMs int, logicOpts string) string {
	p := &printer{named: map[*Term]string{}}
	neg := Not(goal)
	roots := append(append([]*Term(nil), pc...), neg)
	sy := newSymtab()
	for _, r := range roots {
		sy.walk(r)
	}
	var b strings.Builder
	b.WriteString(logicOpts)
	b.WriteString("(declare-sort Str 0)(declare-sort Flt 0)(declare-sort J 0)(declare-sort Buf 0)\n")
	for _, c := range sortedKeys(sy.consts) {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", symName(c), sy.consts[c])
	}
	useStr, useSlt, useJ := false, false, false
	decl := map[string]bool{}
	for _, f := range sortedKeys(funSigs) {
		sg := funSigs[f]
		fmt.Fprintf(&b, "(declare-fun %s %s)\n", f, sg)
		decl[f] = true
	}
	jf := map[string]string{"jget": "(J Str) J", "jset": "(J Str J) J", "jstr": "(Str) J", "unjstr": "(J) Str", "jint": "(Int) J", "unjint": "(J) Int", "jbool": "(Bool) J", "unjbool": "(J) Bool", "jparse": "(Str) J", "jtext": "(J) Str", "jkind": "(J) Int", "jvalid": "(Str) Bool"}
	for _, f := range sortedKeys(jf) {
		sg := jf[f]
		fmt.Fprintf(&b, "(declare-fun %s %s)\n", f, sg)
		decl[f] = true
	}
	if _, ok := sy.consts["jempty"]; !ok {
		b.WriteString("(declare-const jempty J)\n")
	}
	if _, ok := sy.consts["jnull"]; !ok {
		b.WriteString("(declare-const jnull J)\n")
	}
	for _, f := range sortedKeys(sy.funs) {
		if _, ok := funSigs[f]; ok {
			useStr = true
			if f == "slt" {
				useSlt = true
			}
		}
		if _, ok := jf[f]; ok {
			useJ = true
		}
		if decl[f] {
			continue
		}
		if f == "ix" {
			b.WriteString("(declare-fun ix (Int Int) Int)\n(assert (forall ((o Int)(i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))\n")
			continue
		}
		sg := sy.funs[f]
		b.WriteString("(declare-fun " + symName(f) + " (")
		for _, s := range sg[:len(sg)-1] {
			b.WriteString(string(s) + " ")
		}
		b.WriteString(") " + string(sg[len(sg)-1]) + ")\n")
	}
	// body
	p.lits.name("")
	p.share(roots)
	var body strings.Builder
	for _, f := range pc {
		body.WriteString("(assert " + p.str(f) + ")\n")
	}
	body.WriteString("(assert " + p.str(neg) + ")\n")
	// literals
	if len(p.lits.l) > 1 || useJ {
		useStr = useStr || len(p.lits.l) > 1
	}
	for i := range p.lits.l {
		fmt.Fprintf(&b, "(declare-const lit%d Str)\n", i)
	}
	if len(p.lits.l) > 1 {
		b.WriteString("(assert (distinct")
		for i := range p.lits.l {
			fmt.Fprintf(&b, " lit%d", i)
		}
		b.WriteString("))\n")
	}
	for i, l := range p.lits.l {
		fmt.Fprintf(&b, "(assert (= (slen lit%d) %d))\n", i, len(l))
		if len(l) > 0 {
			fmt.Fprintf(&b, "(assert (= (first lit%d) %d))\n", i, l[0])
		}
	}
	if useStr {
		for i, l := range p.lits.l {
			for j, m := range p.lits.l {
				if i != j && len(m) > 0 && len(m) < len(l) && len(p.lits.l) < 24 {
					if strings.HasPrefix(l, m) {
						fmt.Fprintf(&b, "(assert (= (take lit%d %d) lit%d))\n", i, len(m), j)
					} else {
						fmt.Fprintf(&b, "(assert (not (= (take lit%d %d) lit%d)))\n", i, len(m), j)
					}
				}
				if useSlt && i != j {
					if l < m {
						fmt.Fprintf(&b, "(assert (slt lit%d lit%d))\n", i, j)
					}
				}
			}
		}
		b.WriteString(strings.ReplaceAll(strAxioms, "EMPTY", "lit0"))
	}
	if useSlt {
		b.WriteString(sltAxioms)
	}
	if useJ {
		b.WriteString(jAxioms)
	}
	b.WriteString(p.b.String())
	if sg, ok := sy.funs["usum"]; ok {
		ar := sg[0]
		fmt.Fprintf(&b, "(assert (forall ((a %s)(o Int)(n Int)) (! (=> (<= n 0) (= (usum a o n) 0)) :pattern ((usum a o n)))))\n", ar)
		fmt.Fprintf(&b, "(assert (forall ((a %s)(o Int)(n Int)(m Int)) (! (=> (and (<= 0 n) (= m (+ n 1))) (= (usum a o m) (mod (+ (usum a o n) (select a (+ o n))) 18446744073709551616))) :pattern ((usum a o n) (usum a o m)))))\n", ar)
	}
	// card axioms
	for _, f := range sortedKeys(sy.funs) {
		if strings.HasPrefix(f, "card$") {
			ks := strings.TrimPrefix(f, "card$")
			ar := "(Array " + ks + " Bool)"
			n := symName(f)
			fmt.Fprintf(&b, "(assert (forall ((d %s)) (! (>= (%s d) 0) :pattern ((%s d)))))\n", ar, n, n)
			fmt.Fprintf(&b, "(assert (forall ((d %s)(k %s)) (! (=> (select d k) (> (%s d) 0)) :pattern ((%s d) (select d k)))))\n", ar, ks, n, n)
			w := symName("cwit$" + ks)
			fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", w, ar, ks)
			fmt.Fprintf(&b, "(assert (forall ((d %s)) (! (=> (> (%s d) 0) (select d (%s d))) :pattern ((%s d)))))\n", ar, n, w, n)
			fmt.Fprintf(&b, "(assert (forall ((d %s)(k %s)) (! (= (%s (store d k true)) (+ (%s d) (ite (select d k) 0 1))) :pattern ((%s (store d k true))))))\n", ar, ks, n, n, n)
			fmt.Fprintf(&b, "(assert (forall ((d %s)(k %s)) (! (= (%s (store d k false)) (- (%s d) (ite (select d k) 1 0))) :pattern ((%s (store d k false))))))\n", ar, ks, n, n, n)
		}
		if strings.HasPrefix(f, "box$") {
			sg := sy.funs[f]
			for i := 0; i < len(sg)-1; i++ {
				u := fmt.Sprintf("unbox$%s.%d", f[4:], i)
				if _, ok := sy.funs[u]; !ok {
					fmt.Fprintf(&b, "(declare-fun %s (Int) %s)\n", symName(u), sg[i])
				}
				var vs, as string
				for j, s := range sg[:len(sg)-1] {
					vs += fmt.Sprintf("(x%d %s)", j, s)
					as += fmt.Sprintf(" x%d", j)
				}
				fmt.Fprintf(&b, "(assert (forall (%s) (! (= (%s (%s%s)) x%d) :pattern ((%s%s)))))\n", vs, symName(u), symName(f), as, i, symName(f), as)
			}
		}
	}
	// typing of base heap arrays: allocated objects hold allocated references and values of their type
	for _, c := range sortedKeys(sy.consts) {
		t := Const(c, sy.consts[c])
		if ax := ex.baseAxiom(t); ax != nil {
			q := &printer{named: p.named, lits: p.lits}
			sy2 := newSymtab()
			sy2.walk(ax)
			okd := true
			for n := range sy2.consts {
				if _, ok := sy.consts[n]; !ok {
					okd = false
				}
			}
			if okd {
				b.WriteString("(assert " + q.str(ax) + ")\n")
			}
		}
	}
	b.WriteString(body.String())
	b.WriteString("(check-sat)\n")
	return b.String()
}

const z3Opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.arith.solver 2)\n"

var (
	solverSec  int64 // microseconds of solver time
	solverRuns int64
)

type solverSpec struct {
	name string
	cmd  []string
	opts string
}

var solvers = []solverSpec{
	{"z3-new", []string{"z3-new"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"z3", []string{"z3"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n"},
	{"cvc5", []string{"cvc5", "--lang=smt2"}, "(set-logic ALL)\n"},
	{"z3-cs3", []string{"z3"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n(set-option :smt.case_split 3)\n"},
}

var scratchDir = filepath.Join(os.TempDir(), fmt.Sprintf("dv-%d", os.Getpid()))
var qn int64
var solverSem = make(chan bool, 8)

func runSolver(s solverSpec, text string, secs int, ctx context.Context) (string, string) {
	solverSem <- true
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown", "cancelled"
	}
	n := atomic.AddInt64(&qn, 1)
	f := filepath.Join(scratchDir, fmt.Sprintf("q%d.smt2", n))
	os.WriteFile(f, []byte(s.opts+text), 0644)
	if os.Getenv("DVKEEP") == "" {
		defer os.Remove(f)
	}
	args := append([]string(nil), s.cmd[1:]...)
	if s.name == "cvc5" {
		args = append(args, fmt.Sprintf("--tlimit=%d", secs*1000))
	} else {
		args = append(args, fmt.Sprintf("-T:%d", secs), "-memory:3000")
	}
	args = append(args, f)
	c, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	t := time.Now()
	out, _ := exec.CommandContext(c, s.cmd[0], args...).CombinedOutput()
	atomic.AddInt64(&solverSec, time.Since(t).Microseconds())
	atomic.AddInt64(&solverRuns, 1)
	o := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(o, "unsat"):
		return "unsat", o
	case strings.HasPrefix(o, "sat"):
		return "sat", o
	}
	if strings.Contains(o, "error") && os.Getenv("DVDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "solver error in %s: %s\n", f, o)
	}
	return "unknown", o
}

// an attempt: a solver and the facts it gets
type attempt struct {
	name  string
	s     solverSpec
	depth int // of the selection of facts, 0 for all
	tol   float64
}

var attempts = []attempt{
	{"z3-new", solvers[0], 0, 0}, {"near", solvers[0], 2, 1}, {"z3", solvers[1], 0, 0}, {"cvc5", solvers[2], 0, 0},
	{"z3-cs3", solvers[3], 0, 0},
}

// hints: which attempt to make first for an obligation; a wrong or missing hint only costs time
var hints = map[string]string{}

func (o *Obligation) key() string { return o.Fn + "|" + o.Kind + "|" + o.Name }

// discharge decides one obligation with the solver portfolio.
func (ex *Exec) discharge(o *Obligation, quick, full int) {
	t := time.Now()
	text := ex.queryText(o.PC, o.Goal, 0, "")
	run := func(a attempt, secs int, ctx context.Context) (string, string) {
		q := text
		if a.depth > 0 {
			pc := prune(o.PC, o.Goal, a.depth, a.tol)
			if len(pc) == len(o.PC) {
				return "unknown", "nothing left out"
			}
			q = ex.queryText(pc, o.Goal, 0, "")
		}
		r, out := runSolver(a.s, q, secs, ctx)
		if a.depth > 0 && r == "sat" {
			r = "unknown"
		}
		return r, out
	}
	fst := attempts[0]
	for _, a := range attempts {
		if a.name == hints[o.key()] {
			fst = a
		}
	}
	var outs []string
	st, out := run(fst, quick, context.Background())
	if st == "unsat" {
		o.Res, o.By, o.Cfg, o.Time = "proved", fst.s.name, fst.name, time.Since(t).Seconds()
		return
	}
	outs = append(outs, fst.name+": "+first(out))
	if full > 0 {
		type rs struct {
			a       attempt
			st, out string
		}
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan rs, len(attempts))
		var wg sync.WaitGroup
		for _, a := range attempts {
			if a.s.name == "z3-new" && st == "sat" {
				continue
			}
			if a.name == fst.name && full <= quick {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				r, out := run(a, full, ctx)
				ch <- rs{a, r, out}
			}()
		}
		go func() { wg.Wait(); close(ch) }()
		for r := range ch {
			if r.st == "unsat" && o.Res == "" {
				o.Res, o.By, o.Cfg = "proved", r.a.s.name, r.a.name
				cancel()
			}
			outs = append(outs, r.a.name+": "+first(r.out))
		}
		cancel()
	}
	o.Time = time.Since(t).Seconds()
	if o.Res == "" {
		o.Res = "failed"
		o.Out = strings.Join(outs, "; ")
	}
}

func loadHints(dir string) {
	b, err := os.ReadFile(filepath.Join(dir, "hints.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.IndexByte(l, ' '); i > 0 {
			hints[l[i+1:]] = l[:i]
		}
	}
}

func saveHints(dir string, rs []*UnitResult) {
	m := map[string]map[string]float64{}
	for k, v := range hints {
		m[k] = map[string]float64{v: 0.1}
	}
	for _, r := range rs {
		for _, o := range r.Obs {
			if o.Res == "proved" && o.Cfg != "" {
				delete(m, o.key())
			}
		}
	}
	for _, r := range rs {
		for _, o := range r.Obs {
			if o.Res == "proved" && o.Cfg != "" {
				if m[o.key()] == nil {
					m[o.key()] = map[string]float64{}
				}
				m[o.key()][o.Cfg] += 1
			}
		}
	}
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		best := ""
		for _, c := range sortedKeys(m[k]) {
			if best == "" || m[k][c] > m[k][best] || m[k][c] == m[k][best] && best == "z3-new" {
				best = c
			}
		}
		if best != "z3-new" {
			b.WriteString(best + " " + k + "\n")
		}
	}
	os.WriteFile(filepath.Join(dir, "hints.txt"), []byte(b.String()), 0644)
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// ---- feasibility of paths: an incremental solver over the ground facts ----

type Feas struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stack []*Term
	p     *printer
	sy    map[string]bool
	nlit  int
	cache map[string]bool
}

func newFeas() *Feas {
	f := &Feas{p: &printer{plain: true, named: map[*Term]string{}}, sy: map[string]bool{}}
	c := exec.Command("z3-new", "-in", "-memory:2000")
	f.in, _ = c.StdinPipe()
	o, _ := c.StdoutPipe()
	f.out = bufio.NewReader(o)
	c.Stderr = nil
	f.cmd = c
	if err := c.Start(); err != nil {
		f.cmd = nil
		return f
	}
	io.WriteString(f.in, "(set-option :global-declarations true)(set-option :timeout 250)\n(declare-sort Str 0)(declare-sort Flt 0)(declare-sort J 0)(declare-sort Buf 0)\n(declare-fun slen (Str) Int)\n")
	f.sy["slen"] = true
	return f
}

func (f *Feas) close() {
	if f.cmd != nil {
		f.in.Close()
		f.cmd.Process.Kill()
		f.cmd.Wait()
	}
}

func hasQuant(t *Term) bool { return t.quant() }

var qmemo sync.Map

func (t *Term) quant() bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := qmemo.Load(t); ok {
		return v.(bool)
	}
	r := false
	for _, a := range t.Args {
		if a.quant() {
			r = true
			break
		}
	}
	qmemo.Store(t, r)
	return r
}

func (f *Feas) declare(t *Term) {
	sy := newSymtab()
	sy.walk(t)
	var b strings.Builder
	for _, c := range sortedKeys(sy.consts) {
		if !f.sy["c:"+c] {
			f.sy["c:"+c] = true
			fmt.Fprintf(&b, "(declare-const %s %s)\n", symName(c), sy.consts[c])
		}
	}
	for _, fn := range sortedKeys(sy.funs) {
		if !f.sy[fn] {
			f.sy[fn] = true
			if fn == "ix" {
				b.WriteString("(define-fun ix ((o Int)(i Int)) Int (+ o i))\n")
				continue
			}
			sg := sy.funs[fn]
			b.WriteString("(declare-fun " + symName(fn) + " (")
			for _, s := range sg[:len(sg)-1] {
				b.WriteString(string(s) + " ")
			}
			b.WriteString(") " + string(sg[len(sg)-1]) + ")\n")
		}
	}
	io.WriteString(f.in, b.String())
}

func (f *Feas) text(t *Term) string {
	f.declare(t)
	f.p.b.Reset()
	f.p.share([]*Term{t})
	s := f.p.str(t)
	for f.nlit < len(f.p.lits.l) {
		l := f.p.lits.l[f.nlit]
		fmt.Fprintf(f.in, "(declare-const lit%d Str)\n(assert (= (slen lit%d) %d))\n", f.nlit, f.nlit, len(l))
		for i := 0; i < f.nlit; i++ {
			fmt.Fprintf(f.in, "(assert (not (= lit%d lit%d)))\n", i, f.nlit)
		}
		f.nlit++
	}
	d := f.p.b.String()
	f.p.b.Reset()
	return d + "(assert " + s + ")\n"
}

func (f *Feas) sync(pc []*Term) {
	var g []*Term
	for _, t := range pc {
		if !t.quant() {
			g = append(g, t)
		}
	}
	n := 0
	for n < len(g) && n < len(f.stack) && g[n] == f.stack[n] {
		n++
	}
	if d := len(f.stack) - n; d > 0 {
		fmt.Fprintf(f.in, "(pop %d)\n", d)
		f.stack = f.stack[:n]
	}
	for _, t := range g[n:] {
		// literal facts must be declared at the base level to survive, so they are re-asserted cheaply
		txt := f.text(t)
		io.WriteString(f.in, "(push 1)\n"+txt)
		f.stack = append(f.stack, t)
	}
}

func (f *Feas) ask() string {
	io.WriteString(f.in, "(check-sat)\n")
	for {
		l, err := f.out.ReadString('\n')
		if err != nil {
			return "unknown"
		}
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			dbg("feas: %s", l)
			continue
		}
	}
}

func (f *Feas) check(ex *Exec, st *State) bool {
	if f.cmd == nil {
		return true
	}
	f.sync(st.pc)
	t := time.Now()
	r := f.ask()
	atomic.AddInt64(&solverSec, time.Since(t).Microseconds())
	return r != "unsat"
}

func (f *Feas) proves(ex *Exec, st *State, goal *Term) bool {
	if goal == True {
		return true
	}
	if f.cmd == nil || goal.quant() {
		return false
	}
	f.sync(st.pc)
	txt := f.text(Not(goal))
	io.WriteString(f.in, "(push 1)\n"+txt)
	t := time.Now()
	r := f.ask()
	atomic.AddInt64(&solverSec, time.Since(t).Microseconds())
	io.WriteString(f.in, "(pop 1)\n")
	return r == "unsat"
}

// baseAxiom: typing of the values held by allocated objects in an unknown heap array.
func (ex *Exec) baseAxiom(t *Term) *Term {
	fr, ok := ex.baseFront[t]
	if !ok {
		return nil
	}
	ci := ex.classes[ex.baseKey[t]]
	if ci == nil {
		return nil
	}
	return typingAxiom(t, ci, fr)
}
