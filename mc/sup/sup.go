// Package sup supervises the worker processes of a check.
package sup

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/mc/h"
)

// Prop describes how a property is checked.
type Prop struct {
	ID   string
	Body func(c *h.Ctx)
	// Shards is the number of worker processes (0: number of CPUs).
	Shards int
	// Env is added to the environment of the workers.
	Env []string
	// Prepare may build another worker binary; it returns its path. If it
	// returns an error the check falls back to fb.
	Prepare func(dir, tier string) (bin string, note string)
	// QuickBudget and ThoroughBudget limit the exploration (seconds).
	QuickBudget, ThoroughBudget int
	// Technique and assumptions for the evidence.
	Rule        string
	Assumptions []string
	// AS limits the address space of the workers (bytes), 0: none.
	AS uint64
	// Stall is the number of seconds after which a silent worker counts as
	// hanging (0: 90).
	Stall int
}

type args struct {
	Prop, Tier         string
	Seed               int64
	Shard, NShards     int
	Dir, Out, Status   string
	Family             string
	Unit, Case         int64
	Budget             int
	AS                 uint64
	Verbose            bool
	Verif, Repo, Known string
}

// Worker is the entry point of a worker process.
func Worker(av []string, find func(string) func(*h.Ctx)) {
	var a args
	if err := json.Unmarshal([]byte(av[0]), &a); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if a.AS != 0 {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: a.AS, Max: a.AS})
	}
	if a.Known != "" {
		h.KnownFile = a.Known
	}
	c := &h.Ctx{Property: a.Prop, Tier: a.Tier, Seed: a.Seed, Shard: a.Shard, NShards: a.NShards, Dir: a.Dir, Verif: a.Verif, Repo: a.Repo,
		OnlyFamily: a.Family, OnlyUnit: a.Unit, OnlyCase: a.Case, Verbose: a.Verbose}
	if a.Budget > 0 {
		c.Deadline = time.Now().Add(time.Duration(a.Budget) * time.Second)
	}
	debug.SetPanicOnFault(true)
	c.Init(a.Status)
	if f := os.Getenv("MC_PROF"); f != "" && a.Shard == 0 {
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
			defer w.Close()
		}
	}
	c.Run(find(a.Prop))
	pprof.StopCPUProfile()
	b, _ := json.Marshal(&c.R)
	if a.Out != "" {
		if err := os.WriteFile(a.Out+".tmp", b, 0o644); err == nil {
			_ = os.Rename(a.Out+".tmp", a.Out)
		}
	}
	os.Exit(0)
}

type outcome struct {
	res    *h.Result
	crash  string // non-empty: the process died
	killed bool   // by SIGKILL (memory pressure)
	hang   bool
	status h.Status
}

func runWorker(bin string, p *Prop, a args) outcome {
	st := h.MapStatus(a.Status)
	*st = h.Status{Family: -1, Unit: -1, Case: -1}
	j, _ := json.Marshal(&a)
	cmd := exec.Command(bin, "worker", string(j))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	for _, e := range p.Env {
		cmd.Env = append(cmd.Env, strings.ReplaceAll(e, "{DIR}", a.Dir))
	}
	var errb tail
	cmd.Stderr = &errb
	if a.Verbose {
		cmd.Stdout = os.Stdout
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Dir = a.Dir
	_ = os.Remove(a.Out)
	if err := cmd.Start(); err != nil {
		return outcome{crash: "start: " + err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	stall := time.Duration(p.Stall) * time.Second
	if stall == 0 {
		stall = 90 * time.Second
	}
	last, lastChange := int64(-1), time.Now()
	hang := false
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-time.After(500 * time.Millisecond):
			b := atomic.LoadInt64(&st.Beat)
			if b != last {
				last, lastChange = b, time.Now()
			} else if time.Since(lastChange) > stall && !hang {
				hang = true
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // stray grandchildren
	o := outcome{status: *st, hang: hang}
	if b, e := os.ReadFile(a.Out); e == nil {
		r := new(h.Result)
		if json.Unmarshal(b, r) == nil && r.Done {
			o.res = r
			return o
		}
	}
	o.crash = fmt.Sprintf("worker died: %v\n%s", err, errb.String())
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && !hang {
			o.killed = true
		}
	}
	if hang {
		o.crash = fmt.Sprintf("no progress for %v\n%s", stall, errb.String())
	}
	return o
}

// tail keeps the beginning of a stream (where Go prints the reason).
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 6000 {
		n := len(p)
		if n > 6000 {
			n = 6000
		}
		t.b.Write(p[:n])
	}
	return len(p), nil
}

func (t *tail) String() string { return t.b.String() }

func repoDir() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

// Supervise runs a check and returns the exit status.
func Supervise(id, tier string, table map[string]*Prop) int {
	start := time.Now()
	p := table[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	verif := verifDir()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	dir, err := os.MkdirTemp(os.Getenv("MC_TMP"), "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	h.KnownFile = filepath.Join(verif, "known_findings.json")
	bin, _ := os.Executable()
	var prepNote string
	if p.Prepare != nil {
		b, note := p.Prepare(dir, tier)
		prepNote = note
		if b != "" {
			bin = b
		}
	}
	n := p.Shards
	if n == 0 {
		n = runtime.NumCPU()
		if n < 4 {
			n = 4
		}
	}
	par := runtime.NumCPU()
	budget := p.QuickBudget
	if budget == 0 {
		budget = 420
	}
	if tier == "thorough" {
		budget = p.ThoroughBudget
		if budget == 0 {
			budget = 7200
		}
	}
	if s, err := strconv.Atoi(os.Getenv("MC_BUDGET")); err == nil {
		budget = s
	}
	base := args{Prop: id, Tier: tier, Seed: seed, NShards: n, Dir: dir, Unit: -1, Case: -1, Budget: budget, AS: p.AS, Verif: verif, Repo: repoDir(), Known: h.KnownFile}
	outs := make([]outcome, n)
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			a := base
			a.Shard = i
			a.Out = filepath.Join(dir, fmt.Sprintf("out%d", i))
			a.Status = filepath.Join(dir, fmt.Sprintf("st%d", i))
			outs[i] = runWorker(bin, p, a)
		}(i)
	}
	wg.Wait()

	famNames := familyNames(p, base)
	total := h.Result{Outcomes: map[string]int64{}, PerFamily: map[string]int64{}}
	var viol []h.Violation
	notes := []string{}
	if prepNote != "" {
		notes = append(notes, prepNote)
	}
	crashConfirmed := false
	for i := range outs {
		o := outs[i]
		if o.crash != "" && crashConfirmed {
			// Confirming every one would take too long if all workers hang.
			total.Capped = true
			notes = append(notes, fmt.Sprintf("shard %d ended early as well, and was not run again: %.200s", i, o.crash))
		} else if o.crash != "" {
			// Confirm: the same case alone, then the whole unit, then the shard.
			fam := ""
			if int(o.status.Family) >= 0 && int(o.status.Family) < len(famNames) {
				fam = famNames[o.status.Family]
			}
			a := base
			a.Shard = i
			a.Out = filepath.Join(dir, fmt.Sprintf("rout%d", i))
			a.Status = filepath.Join(dir, fmt.Sprintf("rst%d", i))
			confirmed := 0
			tries := 0
			level := ""
			var last outcome
			for _, lv := range []string{"case", "unit", "shard"} {
				b := a
				if lv != "shard" {
					b.Family, b.Unit = fam, o.status.Unit
				}
				if lv == "case" {
					b.Case = o.status.Case
				}
				if fam == "" && lv != "shard" || lv == "case" && b.Case < 0 {
					continue
				}
				if lv == "shard" && fam != "" && tier != "thorough" && time.Since(start) > 480*time.Second {
					continue // no time for the whole shard
				}
				k := 5
				if lv == "shard" {
					k = 1
				}
				if o.hang {
					k = 1
				}
				for t := 0; t < k; t++ {
					tries++
					last = runWorker(bin, p, b)
					if last.crash != "" {
						confirmed++
						level = lv
					} else if last.res != nil && len(last.res.Violations) > 0 {
						viol = append(viol, last.res.Violations...)
						break
					}
				}
				if confirmed > 0 || len(viol) > 0 {
					break
				}
			}
			if confirmed > 0 {
				crashConfirmed = true
				v := h.Violation{Property: id, Family: fam, Unit: o.status.Unit, Case: o.status.Case, Crash: true, Detail: last.crash, NShards: n, Shard: i, Tier: tier,
					Rerun: fmt.Sprintf("the process died again in %d of %d re-runs (level %s)", confirmed, tries, level)}
				if level == "shard" && last.status != o.status {
					v.Detail += fmt.Sprintf("\n(first crash: at unit %d case %d: %s)", o.status.Unit, o.status.Case, o.crash)
				}
				viol = append(viol, v)
			} else if len(viol) == 0 {
				// not reproducible: do not alarm, but say so. A last attempt
				// gives the counts.
				total.Capped = true
				notes = append(notes, fmt.Sprintf("a worker died and the death did not reproduce in %d re-runs: %.300s", tries, o.crash))
				if last.res != nil {
					o.res = last.res
				}
			}
		}
		if o.res == nil {
			continue
		}
		r := o.res
		total.Units += r.Units
		total.Cases += r.Cases
		total.States += r.States
		total.Transitions += r.Transitions
		total.Traces += r.Traces
		for k, v := range r.Outcomes {
			total.Outcomes[k] += v
		}
		for k, v := range r.PerFamily {
			total.PerFamily[k] += v
		}
		total.Samples = append(total.Samples, r.Samples...)
		for _, s := range r.Notes {
			notes = append(notes, s)
		}
		total.Known = append(total.Known, r.Known...)
		total.Capped = total.Capped || r.Capped
		viol = append(viol, r.Violations...)
	}
	if len(total.Samples) > 40 {
		total.Samples = total.Samples[:40]
	}

	// Re-run the reported cases 5 times; keep the first few.
	sort.SliceStable(viol, func(i, j int) bool {
		if viol[i].Family != viol[j].Family {
			return false
		}
		if viol[i].Unit != viol[j].Unit {
			return viol[i].Unit < viol[j].Unit
		}
		return viol[i].Case < viol[j].Case
	})
	if len(viol) > 5 {
		viol = viol[:5]
	}
	for i := range viol {
		v := &viol[i]
		if v.Crash || v.Rerun != "" || i > 1 {
			continue
		}
		ok, tries := 0, 0
		level := "case"
		for _, lv := range []string{"case", "unit"} {
			level = lv
			for t := 0; t < 5; t++ {
				a := base
				a.Shard, a.NShards = v.Shard, v.NShards
				a.Family, a.Unit, a.Case = v.Family, v.Unit, v.Case
				if lv == "unit" {
					a.Case = -1
				}
				a.Out = filepath.Join(dir, "vout")
				a.Status = filepath.Join(dir, "vst")
				o := runWorker(bin, p, a)
				tries++
				if o.crash != "" || o.res != nil && len(o.res.Violations) > 0 {
					ok++
				}
			}
			if ok > 0 {
				break
			}
		}
		v.Rerun = fmt.Sprintf("violated again in %d of %d re-runs (level %s)", ok, tries, level)
	}

	code := 0
	if len(viol) > 0 {
		code = 1
		rd := filepath.Join(verif, "replay")
		_ = os.MkdirAll(rd, 0o755)
		for i := range viol {
			f := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", id, tier, i))
			b, _ := json.MarshalIndent(&viol[i], "", " ")
			_ = os.WriteFile(f, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
			fmt.Printf("  %s unit %d case %d: %s | %s\n  %s\n  %s\n", viol[i].Family, viol[i].Unit, viol[i].Case, first(viol[i].UnitDesc, 600), first(viol[i].CaseDesc, 600), first(viol[i].Detail, 1500), viol[i].Rerun)
		}
	}
	known := map[string]bool{}
	for _, k := range total.Known {
		known[k] = true
	}
	for _, f := range h.Findings() {
		if f.Property == id {
			s := "not observed in this run"
			if known[f.Key] {
				s = "observed again"
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s; %s]\n", id, f.What, f.Key, s)
		}
	}
	fams := map[string]int64{}
	for k, v := range total.PerFamily {
		fams[k] = v
	}
	if total.Samples == nil {
		total.Samples = []string{}
	}
	cov := map[string]interface{}{
		"states":                        total.States,
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"evaluations":                   total.Cases,
		"units":                         total.Units,
		"cases_per_family":              fams,
		"outcomes":                      total.Outcomes,
		"samples":                       total.Samples,
		"exhaustive":                    !total.Capped,
		"rule":                          p.Rule,
		"notes":                         dedupe(notes),
		"shards":                        n,
	}
	if total.Cases == total.Traces {
		delete(cov, "evaluations")
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s %s: units=%d cases=%d states=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs\n", id, tier, total.Units, total.Cases, total.States, total.Transitions, total.Traces, !total.Capped, len(viol), time.Since(start).Seconds())
	for _, s := range dedupe(notes) {
		fmt.Println("  note:", first(s, 400))
	}
	return code
}

func dedupe(s []string) []string {
	out := []string{}
	seen := map[string]bool{}
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// familyNames runs the body with a filter that matches nothing to learn the
// order of its families.
func familyNames(p *Prop, a args) []string {
	var names []string
	c := &h.Ctx{Property: p.ID, Tier: a.Tier, OnlyFamily: "\x00none", OnlyUnit: -1, OnlyCase: -1, Dir: a.Dir, Verif: a.Verif, Repo: a.Repo}
	c.OnFamily = func(s string) { names = append(names, s) }
	c.Init("")
	func() {
		defer func() { recover() }()
		p.Body(c)
	}()
	return names
}

// Replay runs the case of a violation file again.
func Replay(file string, table map[string]*Prop) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v h.Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := table[v.Property]
	if p == nil {
		return 2
	}
	dir, _ := os.MkdirTemp(os.Getenv("MC_TMP"), "mc-replay-")
	defer os.RemoveAll(dir)
	bin, _ := os.Executable()
	if p.Prepare != nil {
		if nb, _ := p.Prepare(dir, v.Tier); nb != "" {
			bin = nb
		}
	}
	verif := verifDir()
	a := args{Prop: v.Property, Tier: v.Tier, Shard: v.Shard, NShards: v.NShards, Dir: dir, Family: v.Family, Unit: v.Unit, Case: v.Case, Verbose: true,
		Out: filepath.Join(dir, "out"), Status: filepath.Join(dir, "st"), AS: p.AS, Verif: verif, Repo: repoDir(), Known: filepath.Join(verif, "known_findings.json")}
	for _, lv := range []int64{v.Case, -1} {
		a.Case = lv
		a.Verbose = lv >= 0
		o := runWorker(bin, p, a)
		switch {
		case o.crash != "":
			fmt.Println(strings.TrimSpace(o.crash))
			fmt.Println("REPRODUCED: the process died")
			return 1
		case o.res != nil && len(o.res.Violations) > 0:
			fmt.Println("REPRODUCED:", first(o.res.Violations[0].Detail, 3000))
			return 1
		}
	}
	fmt.Println("NOT REPRODUCED")
	return 0
}
