package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	con := flag.String("contracts", "/verif/contracts", "")
	only := flag.String("only", "", "units (substring, comma separated)")
	verbose := flag.Bool("v", false, "")
	quick := flag.Int("quick", 3, "")
	full := flag.Int("full", 40, "")
	prop := flag.String("prop", "", "report on a property")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int("seed", 1, "")
	flag.Parse()
	os.MkdirAll(scratchDir, 0755)
	defer os.RemoveAll(scratchDir)
	loadHints(*con)
	w, err := loadWorld(*repo, *con)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if *only == "layout" {
		if err := w.writeLayout(*con); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	if *only == "ssa" {
		for _, k := range flag.Args() {
			for n, f := range w.fnByKey {
				if strings.HasSuffix(n, k) {
					fmt.Println("== ", n)
					f.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	if *prop != "" {
		if *tier == "thorough" {
			*full = 90
		}
		rc := w.report(*prop, *verif, *repo, *tier, *seed, *quick, *full, *verbose)
		os.RemoveAll(scratchDir)
		os.Exit(rc)
	}
	rs := w.run(func(k string) bool {
		if *only == "" {
			return true
		}
		for _, o := range strings.Split(*only, ",") {
			if strings.Contains(k, o) {
				return true
			}
		}
		return false
	}, *quick, *full)
	if os.Getenv("DVHINTS") != "" {
		saveHints(*con, rs)
	}
	bad := 0
	for _, r := range rs {
		n, f := 0, 0
		for _, o := range r.Obs {
			n++
			if o.Res != "proved" {
				f++
			}
		}
		s := ""
		if r.Vacuous {
			s = " VACUOUS"
		}
		if r.Exits == 0 {
			s += " NOEXIT"
		}
		fmt.Printf("%-60s %4d obligations %3d failed %6.1fs exits %d%s %s\n", r.Key, n, f, r.Sec, r.Exits, s, r.Err)
		if r.Err != "" {
			bad++
		}
		if r.ex != nil {
			for _, l := range r.ex.uncoveredBlocks() {
				fmt.Println("    UNREACHED", l)
			}
		}
		for _, o := range r.Obs {
			if o.Res != "proved" {
				bad++
				fmt.Printf("    FAILED %s [%s] %v at %s: %s (%.1fs)\n", o.Name, o.Kind, o.Tags, o.Pos, o.Out, o.Time)
				if *verbose {
					fmt.Println("        goal:", o.Goal)
				}
				if d := os.Getenv("DVDUMP"); d != "" {
					os.WriteFile(fmt.Sprintf("%s/%s.smt2", d, strings.NewReplacer("/", "_", " ", "_").Replace(o.Fn+"-"+o.Name)), []byte(solvers[0].opts+r.ex.queryText(o.PC, o.Goal, 0, "")), 0644)
				}
			} else if *verbose {
				fmt.Printf("    ok %s [%s] %v at %s by %s %.1fs\n", o.Name, o.Kind, o.Tags, o.Pos, o.By, o.Time)
			}
		}
		if *verbose {
			fmt.Println("    used", r.Used, "externs", r.Externs, "opens", r.Opens)
		}
	}
	if bad > 0 {
		os.RemoveAll(scratchDir)
		os.Exit(1)
	}
}

// run verifies the chosen units in parallel and discharges their obligations.
func (w *World) run(sel func(string) bool, quick, full int) []*UnitResult {
	var keys []string
	for _, k := range w.units() {
		if sel(k) {
			keys = append(keys, k)
		}
	}
	for _, l := range w.specs.Lemmas {
		if sel("lemma " + l.Name) {
			keys = append(keys, "lemma "+l.Name)
		}
	}
	rs := make([]*UnitResult, len(keys))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, k := range keys {
		i, k := i, k
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			if strings.HasPrefix(k, "lemma ") {
				rs[i] = w.verifyLemma(w.lemmas[k[6:]])
			} else {
				rs[i] = w.verify(k, 120*time.Second)
			}
			<-sem
			var g sync.WaitGroup
			t := time.Now()
			dsem := make(chan bool, 8)
			seen := map[string]*Obligation{}
			for _, o := range rs[i].Obs {
				if o.Res != "" {
					continue
				}
				_ = seen
				o := o
				g.Add(1)
				dsem <- true
				go func() {
					defer g.Done()
					rs[i].ex.discharge(o, quick, full)
					<-dsem
				}()
			}
			g.Wait()
			rs[i].Sec += time.Since(t).Seconds()
		}()
	}
	wg.Wait()
	sort.Slice(rs, func(i, j int) bool { return rs[i].Key < rs[j].Key })
	return rs
}
