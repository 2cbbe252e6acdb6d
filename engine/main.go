package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verifDir = "/verif"

func main() {
	if d := os.Getenv("VV_VERIF"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VV_REPO"); d != "" {
		repoDir = d
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	debugEngine = os.Getenv("VV_DEBUG") == "2"
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

type paramFlag map[string]int

func (p paramFlag) String() string { return "" }
func (p paramFlag) Set(s string) error {
	i := strings.IndexByte(s, '=')
	n, err := strconv.Atoi(s[i+1:])
	if err != nil {
		return err
	}
	p[s[:i]] = n
	return nil
}

// baseOverlay collects the harness files, without those in drop.
func baseOverlay(drop map[string]bool) map[string][]byte {
	ov := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "zz_verif_*.go"))
	for _, f := range fs {
		if drop[filepath.Base(f)] {
			continue
		}
		data, err := os.ReadFile(f)
		if err == nil {
			ov[filepath.Join(repoDir, filepath.Base(f))] = data
		}
	}
	return ov
}

// Build is one variant (tags, instrumentation) of the current tree.
type Build struct {
	key      string
	loaded   *Loaded
	overlay  map[string][]byte
	tags     string
	inst     bool
	drop     map[string]bool
	dropped  []string
	native   *nativeBin
	nativeCh chan *nativeBin
	err      error
}

func (b *Build) nativeBin() *nativeBin {
	if b.native == nil {
		b.native = <-b.nativeCh
	}
	return b.native
}

func prepare(tags string, inst bool) *Build {
	b := &Build{key: tags, tags: tags, inst: inst, drop: map[string]bool{}}
	// bsN: the current source with the block size scaled to 1<<N bytes;
	// pfN: with batches of N items in iterators
	scaled := map[string][]byte{}
	if strings.HasPrefix(tags, "bs") || strings.HasPrefix(tags, "pf") {
		list := strings.Split(tags, ",")
		b.tags, tags = "", ""
		fs, _ := filepath.Glob(filepath.Join(repoDir, "*.go"))
		for _, x := range list {
			re, what := regexp.MustCompile(`(blockSizeShift\s*(?:uint64|uint|int)?\s*=\s*)21\b`), "the block size"
			if x[:2] == "pf" {
				re, what = regexp.MustCompile(`(defaultPrefetchLength\s*(?:int)?\s*=\s*)256\b`), "the batch size of iterators"
			}
			n := 0
			for _, f := range fs {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				data, ok := scaled[f]
				if !ok {
					var err error
					if data, err = os.ReadFile(f); err != nil {
						continue
					}
				}
				if k := len(re.FindAllIndex(data, -1)); k > 0 {
					n += k
					scaled[f] = re.ReplaceAll(data, []byte("${1}"+x[2:]))
				}
			}
			if n != 1 {
				b.err = fmt.Errorf("cannot scale %s", what)
				return b
			}
		}
	}
	for try := 0; try < 12; try++ {
		b.overlay = baseOverlay(b.drop)
		for k, v := range scaled {
			b.overlay[k] = v
		}
		if inst {
			ins, err := instrumentRepo(b.overlay, tags)
			if err != nil {
				b.err = err
				if te, ok := err.(*typeErr); ok && b.dropFrom(te) {
					continue
				}
				return b
			}
			for k, v := range ins {
				b.overlay[k] = v
			}
		}
		l, err := loadProgram(b.overlay, tags)
		if err == nil {
			b.loaded = l
			b.err = nil
			return b
		}
		b.err = err
		te, ok := err.(*typeErr)
		if !ok || !b.dropFrom(te) {
			return b
		}
	}
	return b
}

// dropFrom removes the harness files that do not compile against the current
// source (they use internals that changed).
func (b *Build) dropFrom(te *typeErr) bool {
	hit := false
	for _, m := range te.msgs {
		f := m
		if i := strings.IndexByte(m, ':'); i >= 0 {
			f = filepath.Base(m[:i])
		}
		if strings.HasPrefix(f, "zz_verif_") && f != "zz_verif_api.go" && !b.drop[f] {
			b.drop[f] = true
			b.dropped = append(b.dropped, f+": "+m)
			hit = true
		}
	}
	return hit
}

func (b *Build) harness(name string) *ssa.Function { return b.loaded.pkg.Func(name) }

var processStart = time.Now()

func newSolvers(n int, xcheck bool) []*Solver {
	var r []*Solver
	for i := 0; i < n; i++ {
		s := newSolver(strings.Fields(solverCmd)...)
		if xcheck {
			s.xcheck = newSolver("cvc5", "--incremental", "--lang=smt2")
		}
		r = append(r, s)
	}
	return r
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if s := os.Getenv("VV_WORKERS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	return n
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	h := fs.String("h", "", "harness")
	inst := fs.Bool("inst", false, "instrumented")
	preempt := fs.Int("preempt", 0, "")
	sched := fs.Int("sched", 0, "")
	cpu := fs.Int("cpu", 2, "")
	tags := fs.String("tags", "", "")
	secs := fs.Int("time", 60, "")
	samples := fs.Int("samples", 10, "")
	w := fs.Int("w", workers(), "")
	maxPaths := fs.Int64("paths", 0, "")
	steps := fs.Int64("steps", 3e6, "")
	replay := fs.Bool("replay", true, "")
	prof := fs.String("prof", "", "")
	xc := fs.Bool("xcheck", false, "")
	ps := paramFlag{}
	fs.Var(ps, "p", "name=value")
	fs.Parse(args)
	t0 := time.Now()
	b := prepare(*tags, *inst)
	for _, d := range b.dropped {
		fmt.Println("dropped", d)
	}
	if b.err != nil {
		fmt.Println("load:", b.err)
		os.Exit(2)
	}
	fn := b.harness(*h)
	if fn == nil {
		fmt.Println("no harness", *h)
		os.Exit(2)
	}
	fmt.Println("loaded in", time.Since(t0))
	cfg := &RunCfg{MaxSteps: *steps, SchedChoice: *sched, Preempt: *preempt, NumCPU: *cpu, Params: ps, MaxPaths: *maxPaths,
		Deadline: time.Now().Add(time.Duration(*secs) * time.Second), Samples: *samples, Seed: 1, Inst: *inst}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	sol := newSolvers(*w, *xc)
	res := b.loaded.sh.explore(fn, cfg, sol)
	for _, s := range sol {
		s.close()
	}
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	fmt.Printf("paths %d done %d merged %d killed %d viol %d complete %v rounds %d conflicts %d wall %v\n", res.Paths, res.Done, res.Merged, res.Killed, res.ViolCount, res.Complete, res.Rounds, res.Conflicts, res.Wall.Round(time.Millisecond))
	fmt.Printf("instrs %d forks %d decisions %d asserts %d maxforks %d; queries %d (sat %d unsat %d unk %d cachehits %d err %d x %d/%d) solver %v\n", res.Stats.instrs, res.Stats.forks, res.Stats.decisions, res.Asserts, res.MaxForks,
		SS.Queries, SS.Sat, SS.Unsat, SS.Unknown, SS.CacheHits, SS.Errors, SS.XDisagree, SS.XChecked, time.Duration(SS.Nanos).Round(time.Millisecond))
	fmt.Printf("certified paths %d claims %d skipped %d bad %d %v; ", certPaths, certClaims, certSkipped, certBad, time.Duration(certNanos))
	fmt.Printf("simplified %d domain decisions %d, model hits %d\n", simplified, domainDecided, SS.ModelHits)
	pm := func(n string, m map[string]int) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %s %d: %s\n", n, m[k], k)
		}
	}
	pm("unsupported", res.Unsup)
	pm("limit", res.Limits)
	pm("cover", res.Covers)
	pm("note", cfg.notes)
	if !*replay {
		for _, v := range res.Violations {
			js, _ := json.Marshal(v)
			fmt.Println("VIOL", string(js))
		}
		return
	}
	scratch, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(scratch)
	nb := buildNative(scratch, "n", b.overlay, b.tags)
	if nb.err != nil {
		fmt.Println("native:", nb.err)
		return
	}
	for _, v := range res.Violations {
		js, _ := json.Marshal(v)
		fmt.Println("VIOL", string(js))
		fmt.Println("  native:", nb.replay(v))
	}
	ok, bad := nb.validate(res.Samples)
	fmt.Println("validated", ok, "of", len(res.Samples))
	for _, b := range bad {
		fmt.Println("  MISMATCH", b)
	}
	if len(res.Samples) > 0 {
		js, _ := json.Marshal(res.Samples[0])
		fmt.Println("sample", string(js))
	}
}

var solverCmd = func() string {
	if s := os.Getenv("VV_SOLVER"); s != "" {
		return s
	}
	return "z3-new -in"
}()
