package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Prop is one property's workload and metadata.
type Prop struct {
	F     func(r *Run)
	Race  bool   // also run under the race detector
	Reps  int    // race repetitions (default 2)
	Rule  string // evidence: how cases are made and what is non-trivial
	Level string // default exploration
	Env   []string
	Assum []string
}

// Main is the entry point of every area binary.
func Main(props map[string]Prop) {
	if os.Getenv("MON_WORKER") != "" {
		worker(props)
		return
	}
	supervise(props)
}

func envSeed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func worker(props map[string]Prop) {
	id := os.Getenv("MON_ID")
	p, ok := props[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(3)
	}
	seed := envSeed() + 1000003*func() uint64 { v, _ := strconv.ParseUint(os.Getenv("MON_REP"), 10, 64); return v }()
	r := newRun(id, os.Getenv("VERIF_TIER") == "thorough", os.Getenv("MON_RACE") != "", seed, os.Getenv("MON_ONLY"), os.Getenv("MON_OUT"))
	r.Asan = os.Getenv("MON_ASAN") != ""
	go r.watchdog()
	p.F(r)
	r.write(true)
	os.Exit(0)
}

// evid is where evidence goes; runs against scratch trees keep theirs apart.
func evid() string {
	if d := os.Getenv("MON_EVID"); d != "" {
		return d
	}
	return "/verif/evidence"
}

type finding struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile("/verif/known_findings.json")
	if err != nil {
		return m
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		return m
	}
	for _, x := range f.Findings {
		if x.Property == id && x.Sig != "" {
			m[x.Sig] = x.What
		}
	}
	return m
}

var lineNo = regexp.MustCompile(`:\d+( \+0x[0-9a-f]+)?`)

// raceBlocks turns race detector output into signatures (function pairs without lines).
func raceBlocks(s string) map[string]string {
	out := map[string]string{}
	for _, blk := range strings.Split(s, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var fns []string
		secs := strings.Split(blk, "\n\n")
		for i, sec := range secs {
			if i > 1 {
				break
			}
			for _, l := range strings.Split(sec, "\n") {
				t := strings.TrimSpace(l)
				if strings.HasPrefix(t, "github.com/justyntemme/vst3go/") {
					t = strings.TrimPrefix(t, "github.com/justyntemme/vst3go/")
					if k := strings.LastIndexByte(t, '('); k > 0 {
						t = t[:k]
					}
					fns = append(fns, t)
					break
				}
			}
		}
		sort.Strings(fns)
		if len(fns) == 0 {
			fns = []string{"outside-repo"}
		}
		out["race/"+strings.Join(fns, "+")] = blk
	}
	return out
}

func supervise(props map[string]Prop) {
	id := os.Args[1]
	p, ok := props[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envSeed()
	tmp := os.Getenv("MON_TMP")
	self, _ := os.Executable()
	raceBin := os.Getenv("MON_RACEBIN")
	type job struct {
		bin  string
		race bool
		rep  int
		asan bool
	}
	jobs := []job{{self, false, 0, false}}
	if b := os.Getenv("MON_ASANBIN"); b != "" {
		jobs = append(jobs, job{b, false, 0, true})
	}
	if p.Race {
		reps := p.Reps
		if reps == 0 {
			reps = 2
		}
		if tier == "thorough" {
			reps *= 4
		}
		for i := 0; i < reps; i++ {
			jobs = append(jobs, job{raceBin, true, i, false})
		}
	}
	if tier == "thorough" && !p.Race {
		jobs = append(jobs, job{self, false, 1, false}, job{self, false, 2, false})
	}
	if os.Getenv("MON_ONLY") != "" {
		jobs = jobs[:1]
	}
	tot := &Result{Property: id, Counters: map[string]int64{}, Violations: map[string]*Violation{}}
	distinct := map[uint64]bool{}
	add := func(v *Violation) {
		if o := tot.Violations[v.Sig]; o != nil {
			o.Count += v.Count
			return
		}
		tot.Violations[v.Sig] = v
	}
	for ji, j := range jobs {
		out := filepath.Join(tmp, fmt.Sprintf("out%d.json", ji))
		rlog := filepath.Join(tmp, fmt.Sprintf("race%d", ji))
		cmd := exec.Command(j.bin)
		cmd.Env = append(os.Environ(), "MON_WORKER=1", "MON_ID="+id, "MON_OUT="+out, fmt.Sprintf("MON_REP=%d", j.rep), "GOTRACEBACK=all",
			"VERIF_TIER="+tier)
		cmd.Env = append(cmd.Env, p.Env...)
		if j.race {
			cmd.Env = append(cmd.Env, "MON_RACE=1", "GORACE=halt_on_error=0 exitcode=0 history_size=5 log_path="+rlog)
		}
		if j.asan {
			cmd.Env = append(cmd.Env, "MON_ASAN=1", "ASAN_OPTIONS=halt_on_error=1:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0", "UBSAN_OPTIONS=halt_on_error=1:print_stacktrace=1")
		}
		var stderr, stdout bytes.Buffer
		cmd.Stderr = &limited{b: &stderr}
		cmd.Stdout = &limited{b: &stdout}
		err := cmd.Run()
		res := &Result{}
		b, rerr := os.ReadFile(out)
		if rerr == nil {
			rerr = json.Unmarshal(b, res)
		}
		if rerr != nil || !res.Done {
			txt := stderr.String()
			if len(txt) > 6000 {
				txt = txt[:6000]
			}
			add(&Violation{Sig: "crash@" + crashSite(txt), Case: "worker process", Detail: fmt.Sprintf("worker died: %v\n%s", err, txt), Count: 1})
		}
		tot.Evals += res.Evals
		for k, v := range res.Counters {
			tot.Counters[k] += v
		}
		for _, d := range res.Distinct {
			distinct[d] = true
		}
		if len(tot.Samples) < 12 {
			for _, s := range res.Samples {
				if len(tot.Samples) < 12 {
					tot.Samples = append(tot.Samples, s)
				}
			}
		}
		for _, v := range res.Violations {
			if j.race {
				v.Case += " [race build rep " + strconv.Itoa(j.rep) + "]"
			}
			add(v)
		}
		if j.asan {
			tot.Counters["address_sanitizer_runs"]++
			tot.Counters["address_sanitizer_evaluations"] += res.Evals
		}
		if j.race {
			logs, _ := filepath.Glob(rlog + ".*")
			n := 0
			for _, l := range logs {
				rb, _ := os.ReadFile(l)
				for sig, blk := range raceBlocks(string(rb)) {
					add(&Violation{Sig: sig, Case: "race detector", Detail: blk, Count: 1})
					n++
				}
			}
			tot.Counters["race_detector_runs"]++
			tot.Counters["race_reports"] += int64(n)
		}
	}
	known := loadFindings(id)
	var sigs, fresh []string
	for s := range tot.Violations {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		if w, ok := known[s]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, w, s)
		} else {
			fresh = append(fresh, s)
		}
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]any{
		"evaluations":         tot.Evals,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             tot.Samples,
		"observed":            tot.Counters,
		"worker_runs":         len(jobs),
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh)}
	if len(p.Assum) > 0 {
		ev["assumptions"] = p.Assum
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if os.Getenv("MON_ONLY") == "" {
		_ = os.MkdirAll(evid(), 0o755)
		_ = os.WriteFile(evid()+"/"+id+".json", eb, 0o644)
	}
	if len(fresh) == 0 && (tot.Evals == 0 || len(distinct) == 0) && os.Getenv("MON_ONLY") == "" {
		fmt.Printf("%s: workload observed nothing (evals=%d distinct=%d): inconclusive\n", id, tot.Evals, len(distinct))
		os.Exit(2)
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %d known, %d new violation kinds, %.1fs\n", id, tot.Evals, len(distinct), len(sigs)-len(fresh), len(fresh), time.Since(start).Seconds())
	if len(fresh) == 0 {
		os.Exit(0)
	}
	rp := evid() + "/replay-" + id + ".json"
	type rec struct {
		Violation
		Replay string `json:"replay_cmd"`
	}
	var recs []rec
	for _, s := range fresh {
		v := tot.Violations[s]
		recs = append(recs, rec{*v, fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s MON_ONLY=%q /verif/run.sh %s", seed, tier, v.Case, id)})
		d := v.Detail
		if len(d) > 1500 {
			d = strings.ToValidUTF8(d[:1500], "") + "..."
		}
		fmt.Printf("--- %s [%s] x%d\n%s\n", s, v.Case, v.Count, d)
	}
	rb, _ := json.MarshalIndent(recs, "", " ")
	_ = os.WriteFile(rp, rb, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	os.Exit(1)
}

func crashSite(s string) string {
	if i := strings.Index(s, "AddressSanitizer:"); i >= 0 {
		l := s[i:]
		if k := strings.IndexByte(l, ' '); k > 0 {
			rest := l[k+1:]
			if m := strings.IndexAny(rest, " \n"); m > 0 {
				return "asan-" + rest[:m] + "@" + cSite(s)
			}
		}
	}
	if strings.Contains(s, "runtime error:") {
		return "ubsan@" + cSite(s)
	}
	return panicSite(s)
}

var cframe = regexp.MustCompile(`#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*(bridge|component)\.c`)

func cSite(s string) string {
	if m := cframe.FindStringSubmatch(s); m != nil {
		return m[1]
	}
	return panicSite(s)
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}
