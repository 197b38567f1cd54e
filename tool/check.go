package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
)

// request to a worker: verify one function against its contract
type job struct {
	Fn      string   `json:"fn"`
	Want    string   `json:"want"`
	NoMod   []string `json:"nomod"`
	Limit   int      `json:"limit"`
	Timeout int      `json:"timeout"`
	Lemmas  []string `json:"lemmas,omitempty"` // prove the lemmas of these theories instead
}

func workerLoop() {
	sp := loadSpecs(filepath.Join(*verifDir, "contracts"))
	P, err := loadProgram(*repoDir)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var j job
		if json.Unmarshal(in.Bytes(), &j) != nil {
			continue
		}
		if err != nil {
			out.Encode(&Result{Fn: j.Fn, Aborted: "load: " + err.Error(), Obls: []*Obl{{Fn: j.Fn, Name: "the program loads", Detail: err.Error()}}})
			continue
		}
		if len(j.Lemmas) > 0 {
			out.Encode(proveLemmas(j.Lemmas, j.Timeout))
			continue
		}
		nm := map[string]bool{}
		for _, n := range j.NoMod {
			nm[n] = true
		}
		addAuto(P, sp)
		out.Encode(verifyFn(P, sp, j.Fn, j.Want, nm, time.Duration(j.Limit)*time.Second, j.Timeout))
	}
	z3.kill()
}

// the shortest list of theories some contract uses file f in
func smallest(sp *Specs, f string) (best string) {
	for _, n := range sortedKeys(sp.cons) {
		ts := sp.cons[n].Theories
		if inList(ts, f) && (best == "" || len(ts) < len(strings.Fields(best))) {
			best = strings.Join(ts, " ")
		}
	}
	return
}

// each group is a list of theory files, as some contract uses them together
func proveLemmas(groups []string, ms int) *Result {
	t0 := time.Now()
	res := &Result{Fn: "lemmas: " + strings.Join(groups, ", ")}
	q0, s0 := z3.n, z3.time
	done := map[string]bool{}
	var ls []*Lemma
	for _, g := range groups {
		ls = append(ls, loadTheory(filepath.Join(*verifDir, "contracts"), append([]string{"core"}, strings.Fields(g)...)).lemmas...)
	}
	for _, l := range ls {
		if done[l.name] {
			continue
		}
		done[l.name] = true
		ok, by := l.prove(ms)
		o := &Obl{Fn: res.Fn, Name: "lemma " + l.name, OK: ok, By: by}
		if !ok {
			o.Detail = by
		}
		res.Obls = append(res.Obls, o)
	}
	res.SolverMs, res.Queries = (z3.time - s0).Milliseconds(), z3.n-q0
	res.WallMs = time.Since(t0).Milliseconds()
	return res
}

// exported methods of the cache without a contract of their own still owe the lock discipline
func addAuto(P *Program, sp *Specs) {
	for _, n := range sortedKeys(P.funcs) {
		if !strings.HasPrefix(n, "cache.(*Cache).") || sp.cons[n] != nil || strings.Contains(n, "$") {
			continue
		}
		if !unicode.IsUpper(rune(strings.TrimPrefix(n, "cache.(*Cache).")[0])) {
			continue
		}
		f := P.funcs[n]
		ps := "c"
		for i := 1; i < len(f.Params); i++ {
			ps += fmt.Sprintf(" p%d", i)
		}
		rs := ""
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rs += fmt.Sprintf(" r%d", i)
		}
		for _, s := range parseSexps(fmt.Sprintf("(fun %q (%s) (%s) (use autofn))", n, ps, rs), "auto") {
			sp.top(s, "auto")
		}
	}
}

type pool struct {
	jobs    chan poolJob
	wg      sync.WaitGroup
	procs   sync.Map
	started time.Time
}
type poolJob struct {
	j    job
	done func(*Result)
}

func newPool(n int) *pool {
	p := &pool{jobs: make(chan poolJob, 1000)}
	for i := 0; i < n; i++ {
		p.wg.Add(1)
		go p.work()
	}
	return p
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startProc() (*proc, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.Command(self, "-repo", *repoDir, "-verif", *verifDir, "-c", *cDir, "worker")
	c.Stderr = nil
	w, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	return &proc{c, w, bufio.NewReaderSize(r, 1<<20)}, c.Start()
}

func (p *pool) work() {
	defer p.wg.Done()
	var pr *proc
	for pj := range p.jobs {
		if pr == nil {
			var err error
			if pr, err = startProc(); err != nil {
				pj.done(&Result{Fn: pj.j.Fn, Aborted: err.Error(), Obls: []*Obl{{Fn: pj.j.Fn, Name: "verifier runs", Detail: err.Error()}}})
				pr = nil
				continue
			}
		}
		b, _ := json.Marshal(pj.j)
		pr.in.Write(append(b, '\n'))
		type lr struct {
			line []byte
			err  error
		}
		ch := make(chan lr, 1)
		go func(r *bufio.Reader) {
			l, err := r.ReadBytes('\n')
			ch <- lr{l, err}
		}(pr.out)
		var r Result
		ok := false
		msg := "verifier stopped"
		select {
		case l := <-ch:
			ok = l.err == nil && json.Unmarshal(l.line, &r) == nil
		case <-time.After(time.Duration(pj.j.Limit*2+90) * time.Second):
			msg = "verifier ran out of time"
		}
		if !ok {
			pr.cmd.Process.Kill()
			pr.cmd.Wait()
			pr = nil
			r = Result{Fn: pj.j.Fn, Aborted: msg, Obls: []*Obl{{Fn: pj.j.Fn, Name: "within reach: " + msg, Detail: msg}}}
		}
		pj.done(&r)
	}
	if pr != nil {
		pr.in.Close()
		pr.cmd.Wait()
	}
}

func exportedName(n string) bool {
	i := strings.LastIndexAny(n, ".)")
	for i >= 0 && i+1 < len(n) && n[i+1] == '.' {
		i++
	}
	return i+1 < len(n) && unicode.IsUpper(rune(n[i+1]))
}

func (c *Contract) decides(p string) bool {
	if inList(c.Props, p) {
		return true
	}
	for _, l := range [][]Clause{c.Ensures, c.Steps, c.Musts, c.Requires} {
		for _, e := range l {
			if inList(e.Props, p) {
				return true
			}
		}
	}
	return false
}

// must be decided by a clause labelled with the property, a block's property list alone would repeat every function
func (c *Contract) labelled(p string) bool { return c.decides(p) }

type checkRun struct {
	mu      sync.Mutex
	results map[string]*Result
	nomod   map[string]bool
	pending sync.WaitGroup
	pool    *pool
	prop    string
	limit   int
	timeout int
}

func (c *checkRun) launch(names []string) {
	nm := sortedKeys(c.nomod)
	for _, n := range names {
		n := n
		c.pending.Add(1)
		lim, ms := c.limit, c.timeout
		var done func(r *Result)
		tries := 0
		done = func(r *Result) {
			tries++
			if !r.ok() && tries < 2 && strings.HasPrefix(r.Aborted, "function not found") == false {
				c.pool.jobs <- poolJob{job{Fn: n, Want: c.prop, NoMod: nm, Limit: lim * 2, Timeout: ms * 3}, done}
				return
			}
			c.mu.Lock()
			c.results[n] = r
			c.mu.Unlock()
			c.pending.Done()
		}
		c.pool.jobs <- poolJob{job{Fn: n, Want: c.prop, NoMod: nm, Limit: lim, Timeout: ms}, done}
	}
	c.pending.Wait()
}

func checkMain(prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	sp := loadSpecs(filepath.Join(*verifDir, "contracts"))
	P, err := loadProgram(*repoDir)
	replays := filepath.Join(*verifDir, "evidence", "replays")
	os.MkdirAll(replays, 0755)
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "violations": 0}
	finish := func(code int) int {
		ev["wall_s"] = float64(int(time.Since(t0).Seconds()*10)) / 10
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(*verifDir, "evidence", prop+".json"), append(b, '\n'), 0644)
		return code
	}
	c := &checkRun{results: map[string]*Result{}, nomod: map[string]bool{}, prop: prop, limit: 150, timeout: 4000}
	if tier == "thorough" {
		c.limit, c.timeout = 600, 20000
	}
	// the replay harness runs alongside: it searches for a concrete failing execution and checks the assumed contracts
	rep := startReplay(prop, tier, seed)
	var start, untranslated []string
	theories := map[string]bool{}
	if err == nil {
		addAuto(P, sp)
		for _, n := range sortedKeys(sp.cons) {
			con := sp.cons[n]
			if con.Iface || con.Trusted || !con.labelled(prop) || con.file == "auto" && prop != "C13" {
				continue
			}
			if P.funcs[n] == nil && con.IsC {
				untranslated = append(untranslated, n)
				continue
			}
			if P.funcs[n] == nil && (con.Modular || con.Optional) && !exportedName(n) {
				continue // a helper that no longer exists: what its callers use instead is inlined
			}
			start = append(start, n)
		}
		for _, n := range sortedKeys(sp.cons) {
			if con := sp.cons[n]; con.Modular && !con.IsC && !con.Trusted && !con.Iface && P.funcs[n] == nil {
				c.nomod[n] = true
			}
		}
	}
	workers := 8
	c.pool = newPool(workers)
	var lemmaRes *Result
	c.launch(start)
	for round := 0; round < 6; round++ {
		// helpers relied on
		need := map[string]bool{}
		for _, r := range c.results {
			for _, u := range r.Used {
				con := sp.con(u)
				if c.results[u] == nil && con != nil && !con.Trusted && !con.Iface && !(con.IsC && P.funcs[u] == nil) {
					need[u] = true
				}
			}
		}
		if len(need) > 0 {
			c.launch(sortedKeys(need))
			continue
		}
		// an internal helper that lost its contract is inlined into its callers instead
		bad := map[string]bool{}
		for n, r := range c.results {
			if con := sp.cons[n]; con != nil && con.Modular && !con.IsC && !exportedName(n) && !r.ok() && !c.nomod[n] {
				bad[n] = true
			}
		}
		if len(bad) == 0 {
			break
		}
		redo := map[string]bool{}
		for n, r := range c.results {
			for _, u := range r.Used {
				if bad[u] {
					redo[n] = true
				}
			}
		}
		for b := range bad {
			c.nomod[b] = true
		}
		if len(redo) > 0 {
			c.launch(sortedKeys(redo))
		}
	}
	dir := filepath.Join(*verifDir, "contracts")
	for n := range c.results {
		con := sp.con(n)
		if con == nil || len(con.Theories) == 0 {
			continue
		}
		theories[strings.Join(con.Theories, " ")] = true
		for f := range loadTheory(dir, append([]string{"core"}, con.Theories...)).from {
			theories[smallest(sp, f)] = true
		}
	}
	if len(theories) > 0 {
		c.pending.Add(1)
		c.pool.jobs <- poolJob{job{Fn: "lemmas", Lemmas: sortedKeys(theories), Timeout: 3 * c.timeout, Limit: c.limit}, func(r *Result) { lemmaRes = r; c.pending.Done() }}
		c.pending.Wait()
	}
	close(c.pool.jobs)
	c.pool.wg.Wait()
	extra := extraChecks(prop, tier)

	// a helper that failed matters only if a caller still relies on its contract
	relied := map[string]bool{}
	for n, r := range c.results {
		if !c.nomod[n] || exportedName(n) {
			for _, u := range r.Used {
				relied[u] = true
			}
		}
	}
	var failed []*Obl
	total, good := 0, 0
	backends := map[string]int{}
	var solverMs int64
	queries := 0
	trusted := map[string]bool{}
	var fns []map[string]interface{}
	var bounded []string
	var samples []string
	count := func(r *Result, ignore bool) {
		solverMs += r.SolverMs
		queries += r.Queries
		n, g := 0, 0
		for _, o := range r.Obls {
			if ignore && !o.OK {
				continue
			}
			n++
			if o.OK {
				g++
				by := o.By
				if by == "" {
					by = "simplifier"
				}
				backends[by]++
				if len(o.Props) > 0 && inList(o.Props, prop) && len(samples) < 12 {
					samples = append(samples, r.Fn+": "+o.Name)
				}
			} else {
				failed = append(failed, o)
			}
		}
		total += n
		good += g
		for _, l := range r.Lib {
			trusted[l] = true
		}
		for _, u := range r.Used {
			if con := sp.con(u); con != nil && con.Trusted {
				trusted["assumed contract: "+u] = true
			} else if con != nil {
				for _, cl := range con.Ensures {
					if cl.Taken {
						trusted["assumed clause of "+u+": "+cl.Name] = true
					}
				}
				if con.IsC && P.funcs[u] == nil {
					trusted["assumed contract of the C function "+u+" (C24 is about it)"] = true
				}
			}
		}
		m := map[string]interface{}{"function": r.Fn, "obligations": n, "discharged": g, "solver_ms": r.SolverMs, "wall_ms": r.WallMs}
		if len(r.Used) > 0 {
			m["by_contract"] = r.Used
		}
		if len(r.Inlined) > 0 {
			m["inlined"] = r.Inlined
		}
		if con := sp.con(r.Fn); con != nil && con.Bounded != "" || r.Bounded {
			m["bounded"] = true
			bounded = append(bounded, r.Fn)
		}
		fns = append(fns, m)
	}
	for _, n := range sortedKeys(c.results) {
		count(c.results[n], c.nomod[n] && !relied[n])
	}
	if lemmaRes != nil {
		count(lemmaRes, false)
	}
	for _, r := range extra {
		count(r, false)
		bounded = append(bounded, r.Fn)
	}
	if err != nil {
		failed = append(failed, &Obl{Fn: "program", Name: "the program loads", Detail: err.Error()})
	} else if total == 0 {
		failed = append(failed, &Obl{Fn: "program", Name: "there is something to prove"})
	}
	rr := rep.wait(len(failed) > 0)
	var bes []string
	for _, b := range sortedKeys(backends) {
		bes = append(bes, fmt.Sprintf("%s: %d", b, backends[b]))
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": good, "checker_cmd": "scripts/check.sh " + prop,
		"trusted_base": append(sortedKeys(trusted), baseTrust...),
		"functions":    fns, "backends": strings.Join(bes, ", "), "solver_s": float64(solverMs) / 1000, "solver_queries": queries, "samples": samples,
		"explanation": "obligations generated from the SSA form of the source in /repo and discharged function by function; z3 5.3.2, cvc5 1.1.2 as second prover; 'simplifier' are those the term rewriter decided",
	}
	if len(bounded) > 0 {
		cov["bounded_functions"] = bounded
		cov["bounded_note"] = "checked up to a stated bound, not counted as proved for all inputs"
	}
	if len(untranslated) > 0 {
		cov["not_translated"] = untranslated
	}
	if prop == "C24" {
		ev["level"] = "other"
		cov["explanation"] = "C24 has two halves. Proved for all inputs: the Go functions, and that the C functions, translated to Go by scripts/c2go.py on this run, stay within their buffers and report a length within them (not_translated lists those it could not take, which were then only executed). Not proved: that lzf_decompress undoes lzf_compress; this is assumed in their contracts and was checked by replay_cases executions of the real code, with lengths up to 70000 bytes, and by " + strconv.Itoa(rr.Native) + " executions of the C code under AddressSanitizer."
	}
	if rr.Cases > 0 {
		cov["replay_cases"] = rr.Cases
		cov["replay_note"] = "executions of the real code compared with the same specification, to validate the assumed contracts"
	}
	ev["coverage"] = cov
	ev["assumptions"] = append([]string{}, baseAssumptions...)
	if len(failed) == 0 && rr.Failure == "" {
		fmt.Printf("%s: %d of %d obligations discharged in %d functions, %d executions replayed, %.0f s\n", prop, good, total, len(fns), rr.Cases, time.Since(t0).Seconds())
		return finish(0)
	}
	ev["violations"] = max(1, len(failed))
	sort.SliceStable(failed, func(i, j int) bool { return len(failed[i].Props) > len(failed[j].Props) })
	path := filepath.Join(replays, prop+".txt")
	var b bytes.Buffer
	fmt.Fprintf(&b, "property %s\n", prop)
	if rr.Failure != "" {
		fmt.Fprintf(&b, "\nfailing execution of the real code (replay: scripts/replay.sh %s %d)\n%s\n", prop, seed, rr.Failure)
	} else {
		fmt.Fprintf(&b, "\nno failing execution found (%d tried)\n", rr.Cases)
	}
	if len(failed) > 0 {
		fmt.Fprintf(&b, "\nobligations not discharged:\n")
	}
	for i, o := range failed {
		fmt.Fprintf(&b, "\n%s: %s\n  at %s\n  verifier: %s\n  path: %s\n  candidate values: %s\n", o.Fn, o.Name, o.Pos, o.Detail, o.Path, strings.Join(o.Hints, " "))
		if i < 3 {
			fmt.Printf("not discharged: %s: %s %s (%s)\n", o.Fn, o.Name, o.Pos, clip(o.Detail, 120))
		}
	}
	os.WriteFile(path, b.Bytes(), 0644)
	tail := ""
	if rr.Failure == "" {
		tail = " no-failing-input-found"
	} else {
		fmt.Println("failing execution:", clip(strings.ReplaceAll(rr.Failure, "\n", " ; "), 300))
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, tail)
	return finish(1)
}

var baseTrust = []string{
	"the verifier itself (/verif/tool: symbolic execution of go/ssa, loop rule, term rewriter), golang.org/x/tools/go/ssa, the Go compiler",
	"z3 and cvc5",
	"axioms of /verif/contracts/core.smt2 (sequences, strings, finite-map cardinality, abstract float operations)",
}

var baseAssumptions = []string{
	"64-bit int; integer arithmetic is modelled with wraparound; strings, slices and maps are at most 2^47 elements long and no allocation fails",
	"goroutines interleave only at lock operations, channel operations and calls into modelled library code; data guarded by a lock is accessed under it (checked by C13)",
	"float64 operations are uninterpreted functions: the same operation on the same operands gives the same value",
	"no reflection, unsafe or linkname access to the package's unexported state from outside",
}

type replayResult struct {
	Cases   int    `json:"cases"`
	Failure string `json:"failure"`
	Note    string `json:"note"`
	Native  int    `json:"native"`
}

type replayProc struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	done chan error
	dir  string
}

// scripts/replay.sh builds and runs the harness for the property
func startReplay(prop, tier string, seed int) *replayProc {
	sc := filepath.Join(*verifDir, "scripts", "replay.sh")
	r := &replayProc{done: make(chan error, 1)}
	if _, err := os.Stat(sc); err != nil || os.Getenv("XV_NOREPLAY") != "" {
		r.done <- nil
		return r
	}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	r.cmd = exec.CommandContext(ctx, "bash", sc, prop, strconv.Itoa(seed), tier)
	r.cmd.Env = append(os.Environ(), "XV_REPO="+*repoDir)
	r.cmd.Stdout = &r.out
	r.cmd.WaitDelay = 5 * time.Second
	if err := r.cmd.Start(); err != nil {
		r.cmd = nil
		r.done <- err
		cancel()
		return r
	}
	go func() { r.done <- r.cmd.Wait(); cancel() }()
	return r
}

func (r *replayProc) wait(failed bool) replayResult {
	var res replayResult
	<-r.done
	for _, l := range strings.Split(r.out.String(), "\n") {
		if strings.HasPrefix(l, "{") {
			var x replayResult
			if json.Unmarshal([]byte(l), &x) == nil {
				res.Cases += x.Cases
				res.Native += x.Native
				if res.Failure == "" {
					res.Failure = x.Failure
				}
				res.Note = x.Note
			}
		}
	}
	return res
}

// deciders outside the Go verifier (C code)
func extraChecks(prop, tier string) []*Result {
	sc := filepath.Join(*verifDir, "scripts", "extra-"+prop+".sh")
	if _, err := os.Stat(sc); err != nil {
		return nil
	}
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", sc, tier)
	cmd.Env = append(os.Environ(), "XV_REPO="+*repoDir)
	cmd.WaitDelay = 5 * time.Second
	out, err := cmd.Output()
	var rs []*Result
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "{") {
			var r Result
			if json.Unmarshal([]byte(l), &r) == nil {
				rs = append(rs, &r)
			}
		}
	}
	if len(rs) == 0 {
		rs = append(rs, &Result{Fn: "extra-" + prop, Obls: []*Obl{{Fn: "extra-" + prop, Name: "the bounded check runs", Detail: fmt.Sprint(err)}}})
	}
	return rs
}
