// Command harness drives the property-based checks of /verif.
//
//	harness check  -prop V01 -tier quick -verif /verif
//	harness replay FILE
//	harness worker ... (internal)
//	harness list
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	_ "verif/harness/checks"
	"verif/harness/core"
)

const (
	shards       = 8
	exitHang     = 97
	exitMem      = 98
	exitHarness  = 2
	exitRace     = 66 // the race detector's, see runWorker
	caseCPU      = 25 * time.Second // CPU time of one case; ordinary cases take microseconds to milliseconds
	caseHeap     = 6 << 30
	maxStack     = 256 << 20
	workerWallMs = 1500 * 1000
)

type finding struct {
	Status   string          `json:"status"` // "known" or "fixed"
	Property string          `json:"property"`
	Sub      string          `json:"sub,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
	What     string          `json:"what"`
	Commit   string          `json:"commit,omitempty"`
}

type replayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
	Seed     int64           `json:"seed,omitempty"`
}

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fatal("usage: harness check|replay|worker|list")
	}
	cmd := os.Args[1]
	fs := flag.CommandLine
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	verif := fs.String("verif", "/verif", "verif directory")
	sub := fs.String("sub", "", "only this sub")
	n := fs.Int("n", 0, "number of cases (worker), or override per sub (check)")
	seed := fs.Uint64("wseed", 1, "rapid seed (worker)")
	out := fs.String("out", "", "output file (worker)")
	cur := fs.String("cur", "", "current case file (worker)")
	caseFile := fs.String("case", "", "run only this case (worker)")
	knownIn := fs.String("known", "", "known findings (worker)")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "list":
		for _, p := range core.Props() {
			for _, s := range core.Subs(p) {
				fmt.Println(p, s.Name, s.Quick, s.Thorough)
			}
		}
	case "worker":
		if b, err := os.ReadFile(*knownIn); err == nil {
			if err := json.Unmarshal(b, &core.Known); err != nil {
				fatal(err.Error())
			}
		}
		worker(*prop, *sub, *n, *seed, *out, *cur, *caseFile)
	case "check":
		os.Exit(check(*prop, *sub, *tier, *verif, *n))
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	default:
		fatal("unknown command " + cmd)
	}
}

func fatal(msg string) {
	fmt.Fprintln(os.Stderr, "harness:", msg)
	os.Exit(exitHarness)
}

// ---------------------------------------------------------------- worker

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func worker(prop, subName string, n int, seed uint64, out, cur, caseFile string) {
	debug.SetMaxStack(maxStack)
	// the code under test may print (funcs print(), debug loggers): keep our channel clean
	devnull, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = devnull
	s := core.Find(prop, subName)
	if s == nil {
		fatal("no such sub " + prop + "/" + subName)
	}
	var running atomic.Int64 // 0: no case is running, else index of the case
	var idx int64
	begin := func() { idx++; running.Store(idx) }
	end := func() { running.Store(0) }
	go func() {
		var last int64
		var since time.Duration
		for {
			time.Sleep(200 * time.Millisecond)
			i := running.Load()
			now := cpuTime()
			if i != last || i == 0 {
				last, since = i, now
				continue
			}
			if now-since > caseCPU {
				os.Exit(exitHang)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > caseHeap {
				os.Exit(exitMem)
			}
		}
	}()
	var st *core.Stats
	if caseFile != "" {
		raw, err := os.ReadFile(caseFile)
		if err != nil {
			fatal(err.Error())
		}
		begin()
		_, rerr := s.RunRaw(raw)
		end()
		st = &core.Stats{}
		if rerr != nil {
			if he, ok := rerr.(*core.HarnessError); ok {
				st.Harness = he.Msg
			} else {
				st.Failed = true
				st.FailCase = raw
				st.FailErr = rerr.Error()
			}
		}
	} else {
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "8s")
		f, err := os.Create(cur)
		if err != nil {
			fatal(err.Error())
		}
		st = s.RunShard(n, f, begin, end)
		f.Close()
	}
	b, err := json.Marshal(st)
	if err != nil {
		fatal(err.Error())
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fatal(err.Error())
	}
}

// ---------------------------------------------------------------- driver

// knownFile lists the confirmed known findings of a check run for its workers.
var knownFile string

type job struct {
	sub  *core.Sub
	n    int
	seed uint64
	file string // single case
}

type result struct {
	st   *core.Stats
	fail *replayFile
	err  string
}

func mix(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9E3779B97F4A7C15
	v ^= v >> 29
	if v == 0 {
		v = 1
	}
	return v
}

func runWorker(dir string, args []string) (st *core.Stats, code int, stderr string) {
	out := filepath.Join(dir, "out.json")
	os.Remove(out)
	args = append(args, "-out", out)
	c := exec.Command(os.Args[0], args...)
	var eb bytes.Buffer
	c.Stderr = &limited{b: &eb}
	c.Dir = dir
	c.Env = append(os.Environ(), "GOTRACEBACK=single", fmt.Sprintf("GORACE=halt_on_error=1 exitcode=%d", exitRace))
	for _, a := range args {
		if a == "-case" {
			c.Env = append(c.Env, "VERIF_SINGLE=1")
		}
	}
	err := c.Start()
	if err != nil {
		return nil, exitHarness, err.Error()
	}
	timer := time.AfterFunc(workerWallMs*time.Millisecond, func() { c.Process.Kill() })
	err = c.Wait()
	timer.Stop()
	code = c.ProcessState.ExitCode()
	if code == 0 {
		b, rerr := os.ReadFile(out)
		if rerr != nil {
			return nil, exitHarness, rerr.Error()
		}
		st = &core.Stats{}
		if jerr := json.Unmarshal(b, st); jerr != nil {
			return nil, exitHarness, jerr.Error()
		}
		return st, 0, eb.String()
	}
	return nil, code, eb.String()
}

type limited struct {
	b *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

// fatalReason classifies the death of a worker that is attributable to the code under test.
func fatalReason(sub *core.Sub, code int, stderr string) string {
	switch {
	case code == exitHang:
		if sub.Terminates {
			return fmt.Sprintf("does not terminate: one case used more than %v of CPU time", caseCPU)
		}
	case code == exitMem:
		if sub.Terminates {
			return fmt.Sprintf("does not terminate: one case holds more than %d bytes of heap", caseHeap)
		}
	case code == exitRace && strings.Contains(stderr, "DATA RACE") && strings.Contains(stderr, "github.com/katydid/katydid/"):
		return "data race\n" + head(stderr, 60)
	case code == 2 && strings.Contains(stderr, "goroutine stack exceeds"):
		return "fatal: stack overflow\n" + head(stderr, 12)
	case code == 2 && strings.Contains(stderr, "fatal error:") && !strings.Contains(stderr, "out of memory"):
		return "fatal runtime error\n" + head(stderr, 12)
	case code == 2 && strings.Contains(stderr, "panic:") && strings.Contains(stderr, "goroutine "):
		return "panic outside the calling goroutine\n" + head(stderr, 12)
	}
	return ""
}

func head(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func runJob(scratch string, id int, j job) result {
	dir := filepath.Join(scratch, fmt.Sprintf("w%d", id))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return result{err: err.Error()}
	}
	defer os.RemoveAll(dir)
	cur := filepath.Join(dir, "cur.json")
	args := []string{"worker", "-prop", j.sub.Prop, "-sub", j.sub.Name}
	if j.file != "" {
		args = append(args, "-case", j.file)
		cur = j.file
	} else {
		args = append(args, "-n", strconv.Itoa(j.n), "-wseed", strconv.FormatUint(j.seed, 10), "-cur", cur, "-known", knownFile)
	}
	st, code, stderr := runWorker(dir, args)
	// A case that takes too long or too much memory decides nothing where ending is not what is checked:
	// other cases take the place of this share of them.
	for again := 0; again < 2 && (code == exitHang || code == exitMem) && !j.sub.Terminates && j.file == ""; again++ {
		fmt.Printf("UNDECIDED: property=%s sub=%s a case took too long or too much memory: %s\n", j.sub.Prop, j.sub.Name, readCase(cur))
		j.seed = mix(strconv.FormatUint(j.seed, 10), strconv.Itoa(again))
		args = []string{"worker", "-prop", j.sub.Prop, "-sub", j.sub.Name, "-n", strconv.Itoa(j.n), "-wseed", strconv.FormatUint(j.seed, 10), "-cur", cur, "-known", knownFile}
		st, code, stderr = runWorker(dir, args)
	}
	if code != 0 {
		if code == -1 {
			return result{err: fmt.Sprintf("%s/%s: worker was killed (time or memory): inconclusive", j.sub.Prop, j.sub.Name)}
		}
		if fatalReason(j.sub, code, stderr) == "" {
			return result{err: fmt.Sprintf("%s/%s: worker exit %d: inconclusive\n%s\ncase: %s", j.sub.Prop, j.sub.Name, code, head(stderr, 30), readCase(cur))}
		}
		raw, err := os.ReadFile(cur)
		if err != nil || len(raw) == 0 {
			return result{err: "no current case after a crash: " + stderr}
		}
		// the single-case run must confirm it, in a process of its own
		single := filepath.Join(dir, "single.json")
		os.WriteFile(single, raw, 0o644)
		st2, code2, stderr2 := runWorker(dir, []string{"worker", "-prop", j.sub.Prop, "-sub", j.sub.Name, "-case", single})
		if code2 == 0 {
			if code == exitRace && !st2.Failed { // a report is proof; the schedule just did not repeat
				return result{fail: &replayFile{Property: j.sub.Prop, Sub: j.sub.Name, Case: raw, Error: fatalReason(j.sub, code, stderr)}}
			}
			if st2.Failed {
				return result{fail: &replayFile{Property: j.sub.Prop, Sub: j.sub.Name, Case: raw, Error: st2.FailErr}}
			}
			return result{err: fmt.Sprintf("%s/%s: worker exit %d was not reproduced by its last case: inconclusive\n%s", j.sub.Prop, j.sub.Name, code, head(stderr, 30))}
		}
		reason := fatalReason(j.sub, code2, stderr2)
		if reason == "" {
			return result{err: fmt.Sprintf("%s/%s: worker exit %d then %d: inconclusive", j.sub.Prop, j.sub.Name, code, code2)}
		}
		return result{fail: &replayFile{Property: j.sub.Prop, Sub: j.sub.Name, Case: raw, Error: reason}}
	}
	if st.Harness != "" {
		return result{err: fmt.Sprintf("%s/%s: %s", j.sub.Prop, j.sub.Name, st.Harness)}
	}
	r := result{st: st}
	if st.Failed {
		r.fail = &replayFile{Property: j.sub.Prop, Sub: j.sub.Name, Case: st.FailCase, Error: st.FailErr}
	}
	return r
}

func readCase(f string) string {
	b, _ := os.ReadFile(f)
	if len(b) > 2000 {
		b = b[:2000]
	}
	return string(b)
}

func runJobs(scratch string, jobs []job) []result {
	res := make([]result, len(jobs))
	var wg sync.WaitGroup
	ch := make(chan int)
	par := runtime.NumCPU()
	if par > shards {
		par = shards
	}
	if par < 2 {
		par = 2
	}
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				res[i] = runJob(scratch, i, jobs[i])
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return res
}

func loadFindings(verif string) []finding {
	var fs []finding
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &fs); err != nil {
		fatal("known_findings.json: " + err.Error())
	}
	return fs
}

func check(prop, only, tier, verif string, override int) int {
	start := time.Now()
	seedStr := os.Getenv("VERIF_SEED")
	seed, err := strconv.ParseInt(seedStr, 10, 64)
	if err != nil {
		seed = 1
	}
	subs := core.Subs(prop)
	if len(subs) == 0 {
		fmt.Fprintln(os.Stderr, "no checks for", prop)
		return exitHarness
	}
	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	defer os.RemoveAll(scratch)

	harnessErrs := []string{}
	fails := []*replayFile{}
	pinned := 0

	// known findings: pinned inputs of confirmed, unrepaired defects
	// (they are no failures in the search either, which goes on past them)
	known := map[string]bool{}
	knownFile = filepath.Join(scratch, "known.json")
	for i, f := range loadFindings(verif) {
		if f.Property != prop || f.Status != "known" {
			continue
		}
		s := core.Find(prop, f.Sub)
		if s == nil {
			harnessErrs = append(harnessErrs, "known finding names an unknown sub "+f.Sub)
			continue
		}
		file := filepath.Join(scratch, fmt.Sprintf("known%d.json", i))
		os.WriteFile(file, f.Case, 0o644)
		r := runJob(scratch, 100000+i, job{sub: s, file: file})
		if r.err != "" {
			harnessErrs = append(harnessErrs, r.err)
		} else if r.fail != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
			known[f.Sub+"\x00"+core.Canon(f.Case)] = true
		}
	}
	kb, _ := json.Marshal(known)
	if err := os.WriteFile(knownFile, kb, 0o644); err != nil {
		harnessErrs = append(harnessErrs, err.Error())
	}
	// regression corpus: committed cases (inputs of repaired defects and hard-to-reach shapes)
	var jobs []job
	names := []string{}
	for _, s := range subs {
		if only != "" && s.Name != only {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(verif, "corpus", prop, s.Name, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			jobs = append(jobs, job{sub: s, file: f})
			names = append(names, s.Name)
		}
	}
	pinned = len(jobs)
	for _, s := range subs {
		if only != "" && s.Name != only {
			continue
		}
		total := s.Quick
		if tier == "thorough" {
			total = s.Thorough
		}
		if override > 0 {
			total = override
		}
		per := (total + shards - 1) / shards
		for sh := 0; sh < shards; sh++ {
			jobs = append(jobs, job{sub: s, n: per, seed: mix(strconv.FormatInt(seed, 10), prop, s.Name, strconv.Itoa(sh))})
			names = append(names, s.Name)
		}
	}
	results := runJobs(scratch, jobs)

	type agg struct {
		eval, nt, distinct int
		labels             map[string]int
		samples            []string
		hashes             map[uint64]bool
	}
	aggs := map[string]*agg{}
	for i, r := range results {
		if r.err != "" {
			harnessErrs = append(harnessErrs, r.err)
			continue
		}
		if r.fail != nil {
			r.fail.Seed = seed
			if known[r.fail.Sub+"\x00"+core.Canon(r.fail.Case)] {
				continue
			}
			fails = append(fails, r.fail)
		}
		if r.st == nil || i < pinned {
			continue
		}
		a := aggs[names[i]]
		if a == nil {
			a = &agg{labels: map[string]int{}, hashes: map[uint64]bool{}}
			aggs[names[i]] = a
		}
		a.eval += r.st.Evaluations
		a.nt += r.st.NonTrivial
		for l, c := range r.st.Labels {
			a.labels[l] += c
		}
		for _, h := range r.st.Hashes {
			a.hashes[h] = true
		}
		if len(a.samples) < 3 {
			for _, s := range r.st.Samples {
				if len(a.samples) < 3 {
					a.samples = append(a.samples, clip(s, 1500))
				}
			}
		}
	}
	eval, nt, distinct := 0, 0, 0
	rules := []string{}
	samples := []any{}
	perSub := map[string]any{}
	for _, s := range subs {
		a := aggs[s.Name]
		if a == nil {
			continue
		}
		eval += a.eval
		nt += a.nt
		distinct += len(a.hashes)
		rules = append(rules, s.Name+": "+s.Rule)
		for _, x := range a.samples {
			samples = append(samples, map[string]string{"sub": s.Name, "case": x})
		}
		perSub[s.Name] = map[string]any{"evaluations": a.eval, "nontrivial": a.nt, "distinct_nontrivial": len(a.hashes), "labels": a.labels}
	}
	ev := map[string]any{
		"property": prop,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         eval,
			"distinct_nontrivial": distinct,
			"rule":                strings.Join(rules, " || "),
			"samples":             samples,
			"nontrivial":          nt,
			"pinned_cases":        pinned,
			"shards_per_sub":      shards,
			"subs":                perSub,
		},
		"assumptions": []string{
			"the reference models in /verif/harness/model and the independent decoders (Go standard library, gogo/protobuf) are correct",
			"cases are drawn by pgregory.net/rapid from VERIF_SEED; absence of a violation is evidence for the explored cases only",
		},
		"wall_s":     float64(time.Since(start).Milliseconds()) / 1000,
		"violations": len(fails),
	}
	if only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			harnessErrs = append(harnessErrs, err.Error())
		}
	} else {
		b, _ := json.MarshalIndent(perSub, "", " ")
		fmt.Println(string(b))
	}
	if len(fails) > 0 {
		// one report per sub: the smallest failing case
		sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
		done := map[string]bool{}
		for _, f := range fails {
			if done[f.Sub] {
				continue
			}
			done[f.Sub] = true
			dir := filepath.Join(verif, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", f.Property, f.Sub))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("%s/%s: %s\ncase: %s\n", f.Property, f.Sub, clip(f.Error, 4000), clip(string(f.Case), 4000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		}
		return 1
	}
	if len(harnessErrs) > 0 {
		for _, e := range harnessErrs {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		return exitHarness
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d pinned=%d wall=%.1fs\n", prop, tier, seed, eval, distinct, pinned, time.Since(start).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err.Error())
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err.Error())
	}
	s := core.Find(r.Property, r.Sub)
	if s == nil {
		fatal("no such sub")
	}
	scratch, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fatal(err.Error())
	}
	defer os.RemoveAll(scratch)
	f := filepath.Join(scratch, "case.json")
	os.WriteFile(f, r.Case, 0o644)
	res := runJob(scratch, 0, job{sub: s, file: f})
	if res.err != "" {
		fmt.Fprintln(os.Stderr, res.err)
		return exitHarness
	}
	if res.fail != nil {
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", res.fail.Error, r.Property, path)
		return 1
	}
	fmt.Println("the case passes")
	return 0
}
