package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type PropCfg struct {
	Roots       []string `json:"roots"`       // contracts this property consists of
	Harness     string   `json:"harness"`     // test function of the replay harness
	HarnessPkg  string   `json:"harness_pkg"` // directory below /repo
	Assumptions []string `json:"assumptions"`
	NoFallback  []string `json:"nofallback"` // functions whose loop invariants are not re-inferred
	Bounded     []string `json:"bounded"`    // parts decided by a bounded stand-in only
}

func loadProps(dir string) (map[string]*PropCfg, error) {
	b, err := os.ReadFile(filepath.Join(dir, "props.json"))
	if err != nil {
		return nil, err
	}
	m := map[string]*PropCfg{}
	return m, json.Unmarshal(b, &m)
}

type Finding struct {
	Property string          `json:"property"`
	What     string          `json:"what"`
	Key      string          `json:"key"` // identifies the failing input for known findings
	Input    json.RawMessage `json:"input,omitempty"`
	Expected string          `json:"expected,omitempty"`
	Got      string          `json:"got,omitempty"`
}

type HarnessOut struct {
	Ran         bool      `json:"-"`
	Err         string    `json:"-"`
	Evaluations int       `json:"evaluations"`
	Nontrivial  int       `json:"distinct_nontrivial"`
	Rule        string    `json:"rule"`
	Samples     []string  `json:"samples"`
	Findings    []Finding `json:"findings"`
	Seconds     float64   `json:"seconds"`
}

const verifDir = "/verif"

// baseDir is where the committed machinery lies (the parent of the binary's directory).
func baseDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return verifDir
}

func runHarness(repo string, prop string, cfg *PropCfg, tier string, seed int, hints []string, limit time.Duration) *HarnessOut {
	h := &HarnessOut{}
	if cfg.Harness == "" {
		return h
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		h.Err = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	src := filepath.Join(baseDir(), "harness")
	dir := filepath.Join(src, filepath.FromSlash(cfg.HarnessPkg))
	if cfg.HarnessPkg == "." {
		dir = filepath.Join(src, "root")
	}
	pkgDir := filepath.Join(repo, filepath.FromSlash(cfg.HarnessPkg))
	files, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	helper, err := os.ReadFile(filepath.Join(src, "helper.go.txt"))
	if err != nil {
		h.Err = err.Error()
		return h
	}
	overlay := map[string]string{}
	pkgs := map[string]bool{}
	re := regexp.MustCompile(`(?m)^package\s+(\w+)`)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			h.Err = err.Error()
			return h
		}
		if !bytes.Contains(b, []byte("func "+cfg.Harness+"(")) && !strings.HasPrefix(filepath.Base(f), "shared") {
			continue
		}
		overlay[filepath.Join(pkgDir, "zz_verif_"+filepath.Base(f))] = f
		pkgs[re.FindStringSubmatch(string(b))[1]] = true
	}
	for p := range pkgs {
		f := filepath.Join(tmp, "helper_"+p+".go")
		os.WriteFile(f, bytes.Replace(helper, []byte("package PKG"), []byte("package "+p), 1), 0644)
		overlay[filepath.Join(pkgDir, "zz_verif_helper_"+p+"_test.go")] = f
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ob, 0644)
	hf := filepath.Join(tmp, "hints")
	os.WriteFile(hf, []byte(strings.Join(hints, "\n")), 0644)
	out := filepath.Join(tmp, "out.json")
	scratch := filepath.Join(tmp, "scratch")
	os.Mkdir(scratch, 0755)
	ctx, cancel := context.WithTimeout(context.Background(), limit+120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", of, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", int(limit.Seconds())+60), "-run", "^"+cfg.Harness+"$", ".")
	cmd.Dir = pkgDir
	cmd.Env = append(goEnv(), "VERIF_HINTS="+hf, "VERIF_OUT="+out, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_PROP="+prop,
		"VERIF_LIMIT_MS="+strconv.Itoa(int(limit.Milliseconds())), "VERIF_SCRATCH="+scratch, "GOMEMLIMIT=8GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	t0 := time.Now()
	b, rerr := cmd.CombinedOutput()
	h.Seconds = time.Since(t0).Seconds()
	if ob, err := os.ReadFile(out); err == nil {
		if err := json.Unmarshal(ob, h); err == nil {
			h.Ran = true
		}
	}
	if rerr != nil && !h.Ran {
		s := string(b)
		// a crash or a hang of the code under test on a harness input is a finding; a build failure is not
		if cur, err := os.ReadFile(out + ".cur"); err == nil && len(cur) > 0 && !strings.Contains(s, "[build failed]") {
			h.Ran = true
			if len(s) > 3000 {
				s = s[:1500] + "\n...\n" + s[len(s)-1500:]
			}
			inp, _ := json.Marshal(string(cur))
			what := "the program crashed on this input"
			if strings.Contains(s, "test timed out") || ctx.Err() != nil {
				what = "no result within the time limit on this input"
			}
			h.Findings = append(h.Findings, Finding{Property: prop, What: what, Key: "crash", Input: inp, Got: s})
			return h
		}
		if len(s) > 2000 {
			s = s[:2000]
		}
		h.Err = s
	}
	return h
}

type known struct {
	prop, key, text string
	fixed           bool
}

func loadKnown() []known {
	var out []known
	f, err := os.Open(filepath.Join(baseDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		k := known{text: l}
		if strings.HasPrefix(l, "fixed:") {
			k.fixed = true
			l = strings.TrimSpace(l[6:])
		} else {
			l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		}
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "property=") && k.prop == "" {
				k.prop = w[9:]
			}
			if strings.HasPrefix(w, "key=") && k.key == "" {
				k.key = w[4:]
			}
		}
		out = append(out, k)
	}
	return out
}

func uniq(s []string) []string {
	sort.Strings(s)
	var o []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			o = append(o, x)
		}
	}
	return o
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	tierF := fs.String("tier", "", "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: gover check [-tier quick|thorough] PROPERTY")
		return 2
	}
	prop := fs.Arg(0)
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	contracts := filepath.Join(baseDir(), "contracts")
	cfgs, err := loadProps(contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		return 2
	}
	cfg := cfgs[prop]
	if cfg == nil {
		fmt.Fprintln(os.Stderr, "gover: unknown property", prop)
		return 2
	}
	w, err := LoadWorld(*repo, contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover: cannot load the source:", err)
		return 2
	}
	if w.Specs, err = ParseSpecs(contracts); err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		return 2
	}
	w.loadLocals(contracts)
	// the harness starts alongside the proof; it is repeated with a larger budget when the proof fails
	limit := 8 * time.Second
	solverLimit := 400 * time.Second
	if tier == "thorough" {
		limit, solverLimit = 120*time.Second, 480*time.Second
	}
	lits := w.LiteralHints()
	hch := make(chan *HarnessOut, 1)
	kn := loadKnown()
	listed := func(f Finding) *known {
		for i := range kn {
			if !kn[i].fixed && kn[i].prop == prop && kn[i].key != "" && kn[i].key == f.Key {
				return &kn[i]
			}
		}
		return nil
	}
	go func() {
		h := runHarness(*repo, prop, cfg, tier, seed, lits, limit)
		for _, f := range h.Findings {
			if listed(f) == nil {
				refuted.Store(true) // the violation is shown: the proof attempt may stop early
			}
		}
		hch <- h
	}()
	for _, f := range cfg.NoFallback {
		noFallbackFor[f] = true
	}
	p := &Proof{Prop: prop}
	if len(cfg.Roots) > 0 {
		p = w.Prove(prop, cfg.Roots, "", tier, t0.Add(solverLimit))
	}
	h := <-hch
	proofOK := len(p.Failed) == 0 && len(p.Problems) == 0 && len(p.Vacuous) == 0
	if !proofOK && len(h.Findings) == 0 && h.Err == "" && cfg.Harness != "" {
		hints := append([]string{}, lits...)
		n := 0
		for _, o := range p.Failed {
			if n++; n > 6 {
				break
			}
			hints = append(hints, w.modelHints(o)...)
		}
		h2 := runHarness(*repo, prop, cfg, "hunt", seed+1, uniq(hints), 60*time.Second)
		h2.Evaluations += h.Evaluations
		h2.Nontrivial += h.Nontrivial
		h2.Seconds += h.Seconds
		h = h2
	}

	// verdict
	var fresh []Finding
	reported := map[string]bool{}
	for _, f := range h.Findings {
		if k := listed(f); k != nil {
			if !reported[k.key] {
				reported[k.key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
			}
			continue
		}
		fresh = append(fresh, f)
	}
	violations := 0
	evDir := filepath.Join(baseDir(), "evidence")
	os.MkdirAll(evDir, 0755)
	replay := filepath.Join(evDir, "replay-"+prop+".json")
	os.Remove(replay)
	type fo struct {
		Obligation, Kind, At, Status, Detail string
	}
	var failed []fo
	for _, o := range p.Failed {
		failed = append(failed, fo{o.Name, o.Kind, o.Pos, o.Status, o.Detail})
	}
	if len(fresh) > 0 || !proofOK {
		violations = 1
		r := map[string]interface{}{"property": prop, "seed": seed, "tier": tier, "failed_obligations": failed, "not_generated": p.Problems, "vacuous": p.Vacuous,
			"failing_inputs": fresh, "harness": cfg.HarnessPkg + ":" + cfg.Harness, "harness_note": h.Err,
			"how": "cd /verif && VERIF_SEED=" + strconv.Itoa(seed) + " VERIF_TIER=" + tier + " ./check " + prop}
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(replay, b, 0644)
		for i, o := range p.Failed {
			if i < 8 {
				fmt.Printf("obligation not discharged: %s (%s)\n", o.Name, o.Pos)
			}
		}
		for i, s := range p.Problems {
			if i < 8 {
				fmt.Println("obligations not generated:", s)
			}
		}
		for _, s := range p.Vacuous {
			fmt.Println("contract is vacuous on this code:", s)
		}
		if len(fresh) > 0 {
			for i, f := range fresh {
				if i < 3 {
					in := string(f.Input)
					if len(in) > 600 {
						in = in[:600] + "..."
					}
					fmt.Printf("failing input: %s\n  input: %s\n  expected: %s\n  got: %s\n", f.What, in, clip(f.Expected), clip(f.Got))
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
	}
	writeEvidence(w, evDir, prop, tier, seed, cfg, p, h, violations, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	fmt.Printf("%s: %d obligations discharged over %d functions and %d lemmas; harness %d evaluations (%.1f s)\n", prop, len(p.Obls), len(p.Funcs), len(p.Lemmas), h.Evaluations, time.Since(t0).Seconds())
	if h.Err != "" {
		fmt.Println("note: the replay harness could not run:", clip(h.Err))
	}
	return 0
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func writeEvidence(w *World, dir, prop, tier string, seed int, cfg *PropCfg, p *Proof, h *HarnessOut, violations int, wall float64) {
	level := "proof"
	cov := map[string]interface{}{}
	backends := map[string]int{}
	sec := 0.0
	disch := 0
	for _, o := range p.Obls {
		if o.Status == "proved" {
			disch++
			backends[o.Backend]++
		}
		sec += o.Seconds
	}
	var fns []map[string]interface{}
	inl := map[string]bool{}
	for _, f := range p.Funcs {
		k := map[string]int{}
		ok := 0
		for _, o := range f.Obls {
			k[o.Kind]++
			if o.Status == "proved" {
				ok++
			}
		}
		m := map[string]interface{}{"function": f.Key, "obligations": len(f.Obls), "discharged": ok, "by_kind": k}
		if len(f.Inlined) > 0 {
			m["inlined"] = f.Inlined
			for _, x := range f.Inlined {
				inl[x] = true
			}
		}
		if f.Note != "" {
			m["note"] = f.Note
		}
		fns = append(fns, m)
	}
	reach, unreach := 0, []string{}
	for _, o := range p.Covers {
		if o.Status == "proved" {
			unreach = append(unreach, o.Name)
		} else {
			reach++
		}
	}
	if len(cfg.Roots) > 0 {
		cov["obligations"] = len(p.Obls)
		cov["discharged"] = disch
		cov["checker_cmd"] = "gover check " + prop + " (obligations generated from the working tree; z3 5.3, cvc5 1.1, z3 4.8)"
		cov["functions_under_contract"] = fns
		cov["inlined_functions"] = sortedKeys(inl)
		cov["lemmas_proved"] = p.Lemmas
		cov["by_backend"] = backends
		cov["solver_seconds"] = float64(int(sec*100)) / 100
		cov["vacuity"] = map[string]interface{}{"points_not_refutable": reach, "points_shown_unreachable": unreach}
		tb := []string{
			"gover: the verification-condition generator in /verif/gover (Go to passive-form logic, memory model, loop rule)",
			"go/parser and go/types (front end)", "SMT solvers z3 5.3 / cvc5 1.1 / z3 4.8",
		}
		for _, t := range p.Trusted {
			s := w.Specs.Funcs[t]
			tb = append(tb, "assumed contract of external function "+t+": "+s.Why)
		}
		for _, a := range p.Axioms {
			tb = append(tb, "assumed: "+a)
		}
		cov["trusted_base"] = tb
	} else {
		level = "exploration"
	}
	if h.Ran {
		cov["replay_harness"] = map[string]interface{}{"evaluations": h.Evaluations, "distinct_nontrivial": h.Nontrivial, "rule": h.Rule, "seconds": h.Seconds, "label": "bounded; not counted as proved"}
		cov["samples"] = h.Samples
		if level == "exploration" {
			cov["evaluations"] = h.Evaluations
			cov["distinct_nontrivial"] = h.Nontrivial
			cov["rule"] = h.Rule
		}
	} else if cfg.Harness != "" {
		cov["replay_harness"] = map[string]interface{}{"not_run": clip(h.Err)}
	}
	if len(cfg.Bounded) > 0 {
		cov["bounded_stand_ins"] = cfg.Bounded
	}
	as := append([]string{}, cfg.Assumptions...)
	if len(cfg.Roots) > 0 {
		as = append(as,
			"signed machine integers are mathematical integers with a proved no-overflow obligation at every operation; unsigned ones are exact modulo 2^w",
			"float64 arithmetic is uninterpreted except for the listed IEEE order, commutativity and conversion facts, so results are pinned to the operation structure, not to real numbers",
			"single-threaded execution; allocation succeeds; termination is not proved",
			"slices and pointers handed in by callers satisfy Go's own well-formedness (len <= cap, references allocated)")
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as, "wall_s": wall, "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0644)
}
