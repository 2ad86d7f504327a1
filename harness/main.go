// Supervisor and child: the parent re-executes itself, so that a crash, a fatal
// runtime error, a race report or a lost wake-up of the code under test becomes a verdict.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	flProp  = flag.String("prop", "", "property id")
	flTier  = flag.String("tier", "quick", "quick or thorough")
	flSeed  = flag.Int64("seed", 1, "seed")
	flCase  = flag.Int("case", -1, "run only this case")
	flCases = flag.Int("cases", 0, "number of cases, 0 for the registered one")
	flChild = flag.String("child", "", "work directory of the child")
	flVerif = flag.String("verif", "/verif", "framework directory")
	flBins  = flag.String("bins", "", "directory with the built commands of the repository")
	flRace  = flag.Bool("race", false, "this is a race detector build")
	flOut   = flag.String("evidence", "", "evidence file")
	flWork  = flag.Int("workers", 0, "worker goroutines, 0 for the registered number")
)

// stall limit: a case takes milliseconds, so a silence of this length is a deadlock or an endless loop.
const stallSec = 150

type violRec struct {
	Case  int      `json:"case"`
	Msg   string   `json:"msg"`
	Sig   string   `json:"sig,omitempty"`
	Trace []string `json:"trace,omitempty"`
}

type result struct {
	Evaluations int              `json:"evaluations"`
	Distinct    int              `json:"distinct"`
	Skipped     int              `json:"skipped"`
	SkipWhy     []string         `json:"skipwhy"`
	Events      map[string]int64 `json:"events"`
	Samples     []string         `json:"samples"`
	Violations  []violRec        `json:"violations"`
	FinalMsg    string           `json:"final"`
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "-resident" {
		residentMain(os.Args[2:])
	}
	flag.Parse()
	log.SetOutput(io.Discard)
	var p, ok = props[*flProp]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *flProp)
		os.Exit(2)
	}
	if *flChild != "" {
		childMain(p)
		return
	}
	os.Exit(parentMain(p))
}

// ---------------------------------------------------------------- child

func runCase(p *Prop, n int, seed int64, tier string) (c *C, v *violation, skip string) {
	c = newC(p.ID, n, seed, tier)
	defer c.cleanup()
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case *violation:
				v = e
			case skipcase:
				skip = e.why
			default:
				v = &violation{msg: fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))}
			}
		}
	}()
	p.Run(c)
	return
}

func trimStack(b []byte) string {
	if len(b) > 6000 {
		b = b[:6000]
	}
	return string(b)
}

func childMain(p *Prop) {
	if !*flRace {
		// a runaway allocation must end in an error of this process, not in the kernel ending it
		var lim = syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetTraceback("all")
	var progress, err = os.OpenFile(filepath.Join(*flChild, "progress"), os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	var ncases = p.Quick
	if *flTier == "thorough" {
		ncases = p.Thorough
	}
	if *flCases > 0 {
		ncases = *flCases
	}
	if p.Setup != nil {
		if err := p.Setup(*flSeed, *flTier); err != nil {
			fmt.Fprintln(os.Stderr, "harness: setup:", err)
			os.Exit(3)
		}
	}
	var workers = p.Workers
	if workers == 0 {
		workers = runtime.GOMAXPROCS(0)
	}
	if *flWork > 0 {
		workers = *flWork
	}
	var first = 0
	if *flCase >= 0 {
		first, ncases, workers = *flCase, *flCase+1, 1
	}
	var next atomic.Int64
	next.Store(int64(first))
	var res = result{Events: map[string]int64{}}
	var seen = map[uint64]bool{}
	var mux sync.Mutex
	var wg sync.WaitGroup
	var stop atomic.Bool
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			var slot [16]byte
			var cnt uint64
			for !stop.Load() {
				var n = int(next.Add(1) - 1)
				if n >= ncases {
					break
				}
				cnt++
				binary.LittleEndian.PutUint64(slot[:8], uint64(n)+1)
				binary.LittleEndian.PutUint64(slot[8:], cnt)
				progress.WriteAt(slot[:], int64(w*16))
				var c, v, skip = runCase(p, n, *flSeed, *flTier)
				mux.Lock()
				if skip != "" {
					res.Skipped++
					if len(res.SkipWhy) < 5 {
						res.SkipWhy = append(res.SkipWhy, skip)
					}
				} else {
					res.Evaluations++
				}
				for k, x := range c.ev {
					res.Events[k] += x
				}
				if c.nontriv && skip == "" && !seen[c.hash] {
					seen[c.hash] = true
					res.Distinct++
					if len(res.Samples) < 6 {
						var s = c.sample
						if s == "" {
							s = strings.Join(c.trace, "; ")
						}
						if len(s) > 1500 {
							s = s[:1500] + "..."
						}
						res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", n, s))
					}
				}
				if v != nil {
					res.Violations = append(res.Violations, violRec{n, v.msg, v.sig, c.trace})
					if len(res.Violations) >= 12 || v.stop {
						stop.Store(true)
					}
				}
				mux.Unlock()
			}
			binary.LittleEndian.PutUint64(slot[:8], 0)
			binary.LittleEndian.PutUint64(slot[8:], cnt+1)
			progress.WriteAt(slot[:], int64(w*16))
		}(w)
	}
	wg.Wait()
	if p.Final != nil && *flCase < 0 && *flCases == 0 && len(res.Violations) == 0 {
		res.FinalMsg = p.Final()
	}
	var b, _ = json.Marshal(&res)
	if err := os.WriteFile(filepath.Join(*flChild, "result.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- parent

type childEnd struct {
	res     *result
	stalled bool
	exit    error
	stderr  string
	races   []string
	slots   []int // cases which were running
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runChild(p *Prop, onecase int, stall time.Duration) (e childEnd) {
	var work, err = os.MkdirTemp("", "run-")
	if err != nil {
		e.exit = err
		return
	}
	defer os.RemoveAll(work)
	var scratch = filepath.Join(work, "scratch")
	os.Mkdir(scratch, 0755)
	os.Chmod(work, 0711) // some cases run commands as another user
	var args = []string{"-prop", p.ID, "-tier", *flTier, "-seed", fmt.Sprint(*flSeed), "-case", fmt.Sprint(onecase),
		"-cases", fmt.Sprint(*flCases), "-child", work, "-bins", *flBins, "-verif", *flVerif, "-workers", fmt.Sprint(*flWork)}
	if *flRace {
		args = append(args, "-race")
	}
	var self, _ = os.Executable()
	var cmd = exec.Command(self, args...)
	var stderr, _ = os.Create(filepath.Join(work, "stderr"))
	cmd.Stderr = stderr
	cmd.Stdout = stderr
	cmd.Env = append(os.Environ(), "TMPDIR="+scratch,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(work, "race"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err = cmd.Start(); err != nil {
		e.exit = err
		return
	}
	var done = make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var last []byte
	var changed = time.Now()
	var tick = time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case e.exit = <-done:
			break wait
		case <-tick.C:
			var b, _ = os.ReadFile(filepath.Join(work, "progress"))
			if !bytes.Equal(b, last) {
				last, changed = b, time.Now()
			}
			if time.Since(changed) > stall {
				e.stalled = true
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case e.exit = <-done:
				case <-time.After(20 * time.Second):
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					e.exit = <-done
				}
				break wait
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // leftovers of the group
	stderr.Close()
	var b, _ = os.ReadFile(filepath.Join(work, "stderr"))
	e.stderr = string(b)
	b, _ = os.ReadFile(filepath.Join(work, "progress"))
	for i := 0; i+16 <= len(b); i += 16 {
		if n := binary.LittleEndian.Uint64(b[i:]); n > 0 {
			e.slots = append(e.slots, int(n)-1)
		}
	}
	if b, err = os.ReadFile(filepath.Join(work, "result.json")); err == nil {
		var r result
		if json.Unmarshal(b, &r) == nil {
			e.res = &r
		}
	}
	var logs, _ = filepath.Glob(filepath.Join(work, "race*"))
	for _, l := range logs {
		var b, _ = os.ReadFile(l)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "DATA RACE") && strings.Contains(blk, "/repo/") {
				e.races = append(e.races, blk)
			}
		}
	}
	return
}

var reLine = regexp.MustCompile(`(?m)^\s+/.*$|0x[0-9a-f]+|goroutine \d+|\+0x.*`)

func dedupRaces(l []string) (res []string) {
	var seen = map[string]bool{}
	for _, s := range l {
		var k = reLine.ReplaceAllString(s, "")
		if !seen[k] {
			seen[k] = true
			res = append(res, s)
		}
	}
	return
}

type finding struct {
	prop, sig, what string
}

func loadKnown(fpath string) (l []finding) {
	var b, err = os.ReadFile(fpath)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		var s, ok = strings.CutPrefix(line, "known: property=")
		if !ok {
			continue
		}
		var f = strings.SplitN(s, " ", 3)
		if len(f) == 3 {
			l = append(l, finding{f[0], strings.TrimPrefix(f[1], "sig="), f[2]})
		}
	}
	return
}

func parentMain(p *Prop) int {
	var start = time.Now()
	var known = loadKnown(filepath.Join(*flVerif, "known_findings.txt"))
	var e = runChild(p, *flCase, stallSec*time.Second)
	var viols []violRec
	var extra []string
	var inconclusive []string

	if e.res != nil {
		viols = append(viols, e.res.Violations...)
		if e.res.FinalMsg != "" {
			viols = append(viols, violRec{-1, e.res.FinalMsg, "", nil})
		}
		if len(e.res.Violations) == 0 && *flCase < 0 && *flCases == 0 {
			if e.res.Skipped*10 > e.res.Evaluations {
				inconclusive = append(inconclusive, fmt.Sprintf("%d of %d cases could not be set up: %v", e.res.Skipped, e.res.Skipped+e.res.Evaluations, e.res.SkipWhy))
			}
			if e.res.Distinct == 0 {
				inconclusive = append(inconclusive, "nothing was observed")
			}
			for _, k := range sortedKeys(p.MinEv) {
				if e.res.Events[k] < p.MinEv[k] {
					inconclusive = append(inconclusive, fmt.Sprintf("only %d events %q", e.res.Events[k], k))
				}
			}
		}
	} else {
		// crash or stall: find the case
		var what = "crash of the process"
		if e.stalled {
			what = fmt.Sprintf("no progress for %d s (deadlock or endless loop)", stallSec)
		}
		var harnessErr = strings.HasPrefix(e.stderr, "harness:") || strings.Contains(e.stderr, "\nharness:")
		var wpkframe = strings.Contains(e.stderr, "/repo/")
		if harnessErr || !wpkframe {
			inconclusive = append(inconclusive, fmt.Sprintf("child ended without result: %v", e.exit))
			extra = append(extra, tail(e.stderr, 4000))
		} else {
			var found = false
			for _, n := range e.slots {
				if *flCase >= 0 {
					break
				}
				var e1 = runChild(p, n, 60*time.Second)
				if e1.res == nil && strings.Contains(e1.stderr, "/repo/") {
					viols = append(viols, violRec{Case: n, Msg: what + ", reproduced by this case alone:\n" + head(e1.stderr, 8000)})
					found = true
					break
				}
				if e1.res != nil && len(e1.res.Violations) > 0 {
					viols = append(viols, e1.res.Violations...)
					found = true
					break
				}
			}
			if !found {
				if *flCase >= 0 {
					viols = append(viols, violRec{Case: *flCase, Msg: what + ":\n" + head(e.stderr, 8000)})
				} else {
					viols = append(viols, violRec{Case: -1, Msg: fmt.Sprintf("%s, running cases were %v:\n%s", what, e.slots, head(e.stderr, 12000))})
				}
			}
		}
		e.res = &result{Events: map[string]int64{}}
	}
	for _, r := range dedupRaces(e.races) {
		viols = append(viols, violRec{Case: -1, Msg: "data race:\n" + r})
	}

	// known findings
	var open []violRec
	var hits = map[int]bool{}
	for _, v := range viols {
		var hit = false
		for i, k := range known {
			if k.prop == p.ID && v.Sig != "" && k.sig == v.Sig {
				hits[i], hit = true, true
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	for i := range known {
		if hits[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[i].what)
		}
	}

	// evidence
	var cov = map[string]any{
		"evaluations":         e.res.Evaluations,
		"distinct_nontrivial": e.res.Distinct,
		"rule":                p.Rule,
		"samples":             e.res.Samples,
		"events":              e.res.Events,
	}
	if e.res.Samples == nil {
		cov["samples"] = []string{}
	}
	if *flRace {
		cov["race_reports"] = len(e.races)
	}
	if len(inconclusive) > 0 {
		cov["inconclusive"] = inconclusive
	}
	var ev = map[string]any{
		"property": p.ID, "tier": *flTier, "seed": *flSeed, "level": p.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(open),
		"assumptions": p.Assume,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if *flOut != "" {
		var b, _ = json.MarshalIndent(ev, "", "  ")
		os.MkdirAll(filepath.Dir(*flOut), 0755)
		if err := os.WriteFile(*flOut, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			return 2
		}
	}
	if len(open) > 0 {
		sort.SliceStable(open, func(i, j int) bool { return len(open[i].Trace) < len(open[j].Trace) })
		var rdir = filepath.Join(filepath.Dir(*flOut), "replay")
		os.MkdirAll(rdir, 0755)
		for i, v := range open {
			if i >= 5 {
				fmt.Printf("... and %d more\n", len(open)-i)
				break
			}
			var fpath = filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, i))
			var b, _ = json.MarshalIndent(map[string]any{
				"property": p.ID, "tier": *flTier, "seed": *flSeed, "case": v.Case, "signature": v.Sig, "what": v.Msg, "trace": v.Trace,
				"rerun": fmt.Sprintf("VERIF_SEED=%d ./check.sh %s %s %d", *flSeed, p.ID, *flTier, v.Case),
			}, "", "  ")
			os.WriteFile(fpath, b, 0644)
			fmt.Printf("case %d: %s\n", v.Case, head(v.Msg, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, fpath)
		}
		return 1
	}
	if len(inconclusive) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", p.ID, strings.Join(inconclusive, "; "))
		for _, s := range extra {
			fmt.Println(s)
		}
		return 2
	}
	fmt.Printf("OK property=%s cases=%d distinct=%d wall=%.1fs events=%v\n", p.ID, e.res.Evaluations, e.res.Distinct, time.Since(start).Seconds(), e.res.Events)
	return 0
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
