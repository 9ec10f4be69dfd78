package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		fs := flag.NewFlagSet("verify", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		specs := fs.String("contracts", "/verif/contracts", "")
		prop := fs.String("prop", "", "")
		roots := fs.String("roots", "", "comma separated")
		only := fs.String("func", "", "only functions containing this")
		all := fs.Bool("v", false, "list every obligation")
		nf := fs.Bool("nofallback", true, "")
		tier := fs.String("tier", "quick", "dev: one short round only")
		fs.Parse(os.Args[2:])
		noFallback = *nf
		t0 := time.Now()
		w, err := LoadWorld(*repo, *specs)
		die(err)
		w.Specs, err = ParseSpecs(*specs)
		die(err)
		w.loadLocals(*specs)
		rs := strings.Split(*roots, ",")
		if *roots == "" {
			cfg, err := loadProps(*specs)
			die(err)
			c, ok := cfg[*prop]
			if !ok {
				die(fmt.Errorf("unknown property %s", *prop))
			}
			rs = c.Roots
		}
		p := w.Prove(*prop, rs, *only, *tier, time.Now().Add(600*time.Second))
		for _, f := range p.Funcs {
			n := len(unproved(f.Obls))
			fmt.Printf("%-50s obligations %3d unproved %3d mode %d inlined %v %s\n", f.Key, len(f.Obls), n, f.Mode, f.Inlined, f.Note+f.Err)
		}
		for _, s := range p.Problems {
			fmt.Println("PROBLEM", s)
		}
		for _, s := range p.Vacuous {
			fmt.Println("VACUOUS", s)
		}
		for _, o := range p.Failed {
			fmt.Printf("FAILED %s  [%s] at %s  %s %s (%.1fs)\n", o.Name, o.Kind, o.Pos, o.Status, o.Detail, o.Seconds)
		}
		slow := 0.0
		for _, o := range append(append([]*Obl{}, p.Obls...), p.Covers...) {
			if *all {
				fmt.Printf("  %-7s %-14s %.2fs %s\n", o.Status, o.Backend, o.Seconds, o.Name)
			} else if o.Seconds > 1.5 && o.Status == "proved" && !o.Cover {
				fmt.Printf("  slow %.2fs %s %s\n", o.Seconds, o.Backend, o.Name)
			}
			slow += o.Seconds
			if o.Cover && o.Status == "proved" {
				fmt.Println("  unreachable:", o.Name)
			}
		}
		fmt.Printf("obligations %d, unproved %d, lemmas %d, axioms %d, trusted %v, solver %.1fs, wall %.1fs\n", len(p.Obls), len(p.Failed), len(p.Lemmas), len(p.Axioms), p.Trusted, slow, time.Since(t0).Seconds())
		if len(p.Failed)+len(p.Problems)+len(p.Vacuous) > 0 {
			os.Exit(1)
		}
	case "locals": // record the locals of the functions under contract
		w, err := LoadWorld(os.Args[2], os.Args[3])
		die(err)
		w.Specs, err = ParseSpecs(os.Args[3])
		die(err)
		die(w.writeLocals(os.Args[3]))
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(2)
	}
}
