// Package pbt is a small property-based testing engine in the style of
// Hypothesis/rapid: every random choice of a case is drawn through T and
// recorded as a sequence of integers, so any case can be replayed and shrunk
// by editing that sequence. It has no dependency outside the standard library
// because the cached rapid release does not build with the Go 1.18 toolchain
// that storetheindex is pinned to.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- choices

type source struct {
	replay  []uint64 // choices to replay (shrinking/replay mode)
	strict  bool     // replay mode: return 0 after the recorded choices
	pos     int
	state   uint64 // splitmix64 state
	choices []uint64
}

func (s *source) rnd() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// draw returns a value in [0, n). n==0 means the full 64-bit range.
func (s *source) draw(n uint64) uint64 {
	var v uint64
	if s.strict {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
		}
		s.pos++
		if n != 0 && v >= n {
			v = v % n
		}
	} else {
		v = s.rnd()
		if n != 0 {
			hi, _ := bits.Mul64(v, n)
			v = hi
		}
	}
	s.choices = append(s.choices, v)
	return v
}

// T is one generated case.
type T struct {
	src     *source
	mu      sync.Mutex
	notes   []string
	labels  []string
	nontriv bool
	key     string
	cleanup []func()
	Tier    string
	Dir     string // scratch directory of this case (created lazily)
	Replay  bool
}

type failure struct {
	class string
	msg   string
}

type discard struct{}

// Intn draws an int in [0,n).
func (t *T) Intn(n int) int {
	if n <= 1 {
		if n < 1 {
			panic("pbt: Intn with n<1")
		}
	}
	return int(t.src.draw(uint64(n)))
}

// Range draws an int in [lo,hi]; shrinks towards lo.
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Uint64 draws any uint64.
func (t *T) Uint64() uint64 { return t.src.draw(0) }

// Bool draws a bool; shrinks towards false.
func (t *T) Bool() bool { return t.src.draw(2) == 1 }

// Pct is true with the given percentage; shrinks towards false.
func (t *T) Pct(p int) bool { return t.src.draw(100) >= uint64(100-p) }

// Bytes draws a byte slice with length in [lo,hi].
func (t *T) Bytes(lo, hi int) []byte {
	n := t.Range(lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(t.src.draw(256))
	}
	return b
}

// ExpandedBytes draws one 64-bit choice and expands it to n bytes; cheap way
// to get unique looking data.
func (t *T) ExpandedBytes(n int) []byte { return Expand(t.Uint64(), n) }

// Expand deterministically expands seed into n bytes.
func Expand(seed uint64, n int) []byte {
	s := source{state: seed}
	b := make([]byte, 0, n+8)
	for len(b) < n {
		v := s.rnd()
		for i := 0; i < 8; i++ {
			b = append(b, byte(v>>(8*uint(i))))
		}
	}
	return b[:n]
}

// PickInt draws one of vs.
func (t *T) PickInt(vs ...int) int { return vs[t.Intn(len(vs))] }

// PickStr draws one of vs.
func (t *T) PickStr(vs ...string) string { return vs[t.Intn(len(vs))] }

// Weighted draws an index with the given weights; index 0 is the simplest.
func (t *T) Weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	v := t.Intn(sum)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Perm draws a permutation of [0,n); shrinks to identity.
func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.Intn(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Note records a line describing the case.
func (t *T) Note(format string, args ...interface{}) {
	t.mu.Lock()
	if len(t.notes) < 400 {
		t.notes = append(t.notes, fmt.Sprintf(format, args...))
	}
	t.mu.Unlock()
}

// Label classifies the case.
func (t *T) Label(l string) {
	t.mu.Lock()
	t.labels = append(t.labels, l)
	t.mu.Unlock()
}

// LabelIf classifies the case when cond holds.
func (t *T) LabelIf(cond bool, l string) {
	if cond {
		t.Label(l)
	}
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (t *T) NonTrivial() {
	t.mu.Lock()
	t.nontriv = true
	t.mu.Unlock()
}

// Fail reports a violation. class names the kind of violation (stable across
// shrinking).
func (t *T) Fail(class, format string, args ...interface{}) {
	panic(failure{class, fmt.Sprintf(format, args...)})
}

// Discard drops the case.
func (t *T) Discard() { panic(discard{}) }

// Cleanup registers f to run when the case ends (LIFO).
func (t *T) Cleanup(f func()) { t.cleanup = append(t.cleanup, f) }

// TempDir makes a scratch directory which is removed when the case ends.
func (t *T) TempDir() string {
	d, err := os.MkdirTemp(scratchDir, "case")
	if err != nil {
		panic(InfraError{err})
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// InfraError is an error of the harness or sandbox, not a violation.
type InfraError struct{ Err error }

func (e InfraError) Error() string { return "infrastructure error: " + e.Err.Error() }

// Must aborts the run as inconclusive if err is set: for harness steps that
// do not depend on the code under test.
func Must(err error) {
	if err != nil {
		panic(InfraError{err})
	}
}

var scratchDir string

// ScratchDir returns the process's scratch directory.
func ScratchDir() string { return scratchDir }

// ---------------------------------------------------------------- running

// Property is an executable check.
type Property struct {
	ID string
	// Sub names one of several sub-checks of the property.
	Sub string
	// Rule describes the generator and what makes a case non-trivial.
	Rule string
	// Quick/Thorough are total case counts over all shards.
	Quick, Thorough int
	// Flaky is set for schedule-dependent cases: shrinking retries each
	// candidate several times.
	Retries int
	// Known returns a description when a failure is a listed known finding.
	Run func(t *T)
}

type outcome struct {
	failed  bool
	discard bool
	infra   string
	class   string
	msg     string
	stack   string
	t       *T
}

func runCase(p *Property, src *source, tier string, replay bool) (o outcome) {
	t := &T{src: src, Tier: tier, Replay: replay}
	o.t = t
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch v := r.(type) {
				case failure:
					o.failed, o.class, o.msg = true, v.class, v.msg
				case discard:
					o.discard = true
				case InfraError:
					o.infra = v.Error() + "\n" + trimStack(string(debug.Stack()))
				default:
					st := string(debug.Stack())
					o.stack = st
					if panicInRepo(st) {
						o.failed, o.class = true, "panic"
						o.msg = fmt.Sprintf("panic in code under test: %v\n%s", r, trimStack(st))
					} else {
						o.infra = fmt.Sprintf("harness panic: %v\n%s", r, st)
					}
				}
			}
		}()
		p.Run(t)
	}()
	// Cleanups are guarded: a panic in one is attributed the same way.
	for i := len(t.cleanup) - 1; i >= 0; i-- {
		func(f func()) {
			defer func() {
				if r := recover(); r != nil {
					if fl, ok := r.(failure); ok {
						if !o.failed {
							o.failed, o.class, o.msg = true, fl.class, fl.msg
						}
						return
					}
					st := string(debug.Stack())
					if panicInRepo(st) && !o.failed {
						o.failed, o.class = true, "panic"
						o.msg = fmt.Sprintf("panic in code under test: %v\n%s", r, trimStack(st))
					} else if o.infra == "" && !o.failed {
						o.infra = fmt.Sprintf("harness panic in cleanup: %v\n%s", r, st)
					}
				}
			}()
			f()
		}(t.cleanup[i])
	}
	return o
}

// panicInRepo reports whether the frames between the panic and the harness
// contain a function of the module under test.
func panicInRepo(stack string) bool {
	lines := strings.Split(stack, "\n")
	// Find the last "panic(" line: frames after it are the panicking frames.
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i
			break
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "storetheindex/zz_verif/") {
			return false
		}
		if strings.Contains(l, "filecoin-project/storetheindex/") {
			return true
		}
	}
	return false
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

type replayFile struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub,omitempty"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Case     int      `json:"case"`
	Shrunk   bool     `json:"shrunk"`
	Choices  []uint64 `json:"choices"`
	Notes    []string `json:"case_description"`
	HowTo    string   `json:"how_to_replay,omitempty"`
}

type result struct {
	Property    string              `json:"property"`
	Evaluations int                 `json:"evaluations"`
	Discarded   int                 `json:"discarded"`
	Nontrivial  []string            `json:"nontrivial_keys"`
	Labels      map[string]int      `json:"labels"`
	Samples     [][]string          `json:"samples"`
	Rules       map[string]string   `json:"rules"`
	PerSub      map[string]int      `json:"per_sub"`
	Known       map[string]int      `json:"known"`
	KnownSample map[string][]string `json:"known_sample"`
	Violations  []string            `json:"violations"` // replay paths
	Messages    []string            `json:"messages"`
	Infra       []string            `json:"infra"`
	TimedOut    bool                `json:"stopped_by_time"`
	WallS       float64             `json:"wall_s"`
}

// KnownFinding is one entry of known_findings.json for this property.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Match    string `json:"match"` // failure class listed as known
	Text     string `json:"text"`
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func caseState(seed int64, p *Property, ci int) uint64 {
	return uint64(seed)*0x9e3779b97f4a7c15 ^ hashStr(p.ID+"/"+p.Sub) ^ uint64(ci)*0xd1342543de82ef95
}

// Main runs the registered properties according to the command line.
func Main(props ...*Property) {
	var (
		id      = flag.String("prop", "", "property id")
		sub     = flag.String("sub", "", "only this sub-check")
		seed    = flag.Int64("seed", 1, "seed")
		tier    = flag.String("tier", "quick", "quick or thorough")
		shard   = flag.Int("shard", 0, "shard index")
		shards  = flag.Int("shards", 1, "number of shards")
		out     = flag.String("out", "", "result file")
		work    = flag.String("work", "", "work directory (scratch, journal, replays)")
		maxSecs = flag.Int("maxsecs", 300, "stop generating after this many seconds")
		rep     = flag.String("replay", "", "replay file")
		knownF  = flag.String("known", "", "known findings file")
		only    = flag.Int("case", -1, "only this case index")
		scale   = flag.Float64("scale", 1, "multiply case counts")
		verbose = flag.Bool("v", false, "print cases")
	)
	flag.Parse()
	start := time.Now()
	if *work == "" {
		d, err := os.MkdirTemp("", "pbtwork")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		*work = d
		defer os.RemoveAll(d)
	}
	scratchDir = filepath.Join(*work, fmt.Sprintf("scratch.%d", *shard))
	os.MkdirAll(scratchDir, 0o755)
	os.Setenv("TMPDIR", scratchDir)

	var sel []*Property
	for _, p := range props {
		if *id != "" && p.ID != *id {
			continue
		}
		if *sub != "" && p.Sub != *sub {
			continue
		}
		sel = append(sel, p)
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(3)
	}

	var known []KnownFinding
	if *knownF != "" {
		b, err := os.ReadFile(*knownF)
		if err == nil {
			var all struct {
				Findings []KnownFinding `json:"findings"`
			}
			if err = json.Unmarshal(b, &all); err != nil {
				fmt.Fprintln(os.Stderr, "bad known findings file:", err)
				os.Exit(3)
			}
			for _, k := range all.Findings {
				if k.Status == "known" && (k.Property == *id || *id == "") {
					known = append(known, k)
				}
			}
		}
	}
	isKnown := func(class string) *KnownFinding {
		for i := range known {
			if known[i].Match == class {
				return &known[i]
			}
		}
		return nil
	}

	if *rep != "" {
		b, err := os.ReadFile(*rep)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var rf replayFile
		if err = json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, p := range sel {
			if p.ID == rf.Property && p.Sub == rf.Sub {
				n := 1
				if p.Retries > 0 {
					n = p.Retries
				}
				for i := 0; i < n; i++ {
					src := &source{replay: rf.Choices, strict: true}
					if rf.Choices == nil {
						src = &source{state: caseState(rf.Seed, p, rf.Case)}
					}
					o := runCase(p, src, rf.Tier, true)
					if o.infra != "" {
						fmt.Println("INFRA", o.infra)
						os.Exit(3)
					}
					if o.failed {
						for _, l := range o.t.notes {
							fmt.Println("  ", l)
						}
						fmt.Printf("REPRODUCED class=%s: %s\n", o.class, o.msg)
						os.Exit(1)
					}
				}
				fmt.Println("NOT REPRODUCED")
				os.Exit(0)
			}
		}
		fmt.Fprintln(os.Stderr, "replay file is for", rf.Property, rf.Sub)
		os.Exit(3)
	}

	res := &result{Property: *id, Labels: map[string]int{}, Rules: map[string]string{}, PerSub: map[string]int{},
		Known: map[string]int{}, KnownSample: map[string][]string{}}
	keys := map[string]struct{}{}
	deadline := start.Add(time.Duration(*maxSecs) * time.Second)

	writeOut := func() {
		res.Nontrivial = res.Nontrivial[:0]
		for k := range keys {
			res.Nontrivial = append(res.Nontrivial, k)
		}
		sort.Strings(res.Nontrivial)
		res.WallS = time.Since(start).Seconds()
		if *out != "" {
			b, _ := json.Marshal(res)
			os.WriteFile(*out+".tmp", b, 0o644)
			os.Rename(*out+".tmp", *out)
		}
	}

	// Interleave sub-checks so that a time limit cuts all of them evenly.
	type job struct {
		p     *Property
		total int
		next  int
	}
	var jobs []*job
	for _, p := range sel {
		n := p.Quick
		if *tier == "thorough" {
			n = p.Thorough
		}
		n = int(float64(n) * *scale)
		if n < 1 {
			n = 1
		}
		res.Rules[p.Sub] = p.Rule
		jobs = append(jobs, &job{p: p, total: n, next: *shard})
	}
	journal := filepath.Join(*work, fmt.Sprintf("journal.%d.json", *shard))
	done := false
	maxViol := 1
	nInfra := 0
	for !done {
		done = true
		for _, j := range jobs {
			if j.next >= j.total {
				continue
			}
			done = false
			ci := j.next
			j.next += *shards
			if *only >= 0 && ci != *only {
				continue
			}
			if time.Now().After(deadline) {
				res.TimedOut = true
				done = true
				break
			}
			p := j.p
			cs := caseState(*seed, p, ci)
			// journal, so that a crash of the process can be attributed
			jb, _ := json.Marshal(map[string]interface{}{"property": p.ID, "sub": p.Sub, "case": ci, "seed": *seed, "tier": *tier})
			os.WriteFile(journal, jb, 0o644)

			src := &source{state: cs}
			o := runCase(p, src, *tier, false)
			if o.infra != "" {
				nInfra++
				res.Infra = append(res.Infra, fmt.Sprintf("case %s/%d: %s", p.Sub, ci, o.infra))
				if nInfra > 5 {
					writeOut()
					fmt.Fprintln(os.Stderr, o.infra)
					os.Exit(3)
				}
				continue
			}
			res.Evaluations++
			res.PerSub[p.Sub]++
			if *verbose {
				fmt.Printf("--- %s/%s case %d choices=%d failed=%v %s\n", p.ID, p.Sub, ci, len(src.choices), o.failed, o.msg)
				for _, l := range o.t.notes {
					fmt.Println("  ", l)
				}
			}
			if o.discard {
				res.Discarded++
				continue
			}
			seen := map[string]bool{}
			for _, l := range o.t.labels {
				if !seen[l] {
					seen[l] = true
					res.Labels[l]++
				}
			}
			if o.t.nontriv {
				h := fnv.New64a()
				for _, c := range src.choices {
					fmt.Fprintf(h, "%d,", c)
				}
				k := fmt.Sprintf("%s:%016x", p.Sub, h.Sum64())
				if _, dup := keys[k]; !dup {
					keys[k] = struct{}{}
					if len(res.Samples) < 2 || (len(res.Samples) < 4 && ci%7 == 3) {
						n := o.t.notes
						if len(n) > 60 {
							n = n[:60]
						}
						res.Samples = append(res.Samples, append([]string{fmt.Sprintf("%s/%s seed=%d case=%d", p.ID, p.Sub, *seed, ci)}, n...))
					}
				}
			}
			if o.failed {
				if k := isKnown(o.class); k != nil {
					res.Known[o.class]++
					if _, ok := res.KnownSample[o.class]; !ok {
						res.KnownSample[o.class] = append([]string{o.msg}, o.t.notes...)
					}
					continue
				}
				rf := replayFile{Property: p.ID, Sub: p.Sub, Class: o.class, Message: o.msg, Tier: *tier, Seed: *seed, Case: ci,
					Choices: src.choices, Notes: o.t.notes}
				if !(*only >= 0) || true {
					shrunkCh, so, n := shrink(p, src.choices, o.class, *tier, shrinkBudget(*tier), isKnown)
					if so != nil {
						rf.Choices, rf.Notes, rf.Message, rf.Shrunk = shrunkCh, so.t.notes, so.msg, true
					}
					_ = n
				}
				rp := filepath.Join(*work, fmt.Sprintf("replay.%s.%d.%d.json", p.ID, *shard, len(res.Violations)))
				b, _ := json.MarshalIndent(rf, "", " ")
				os.WriteFile(rp, b, 0o644)
				res.Violations = append(res.Violations, rp)
				res.Messages = append(res.Messages, fmt.Sprintf("%s/%s class=%s case=%d: %s", p.ID, p.Sub, o.class, ci, rf.Message))
				if len(res.Violations) >= maxViol {
					writeOut()
					os.RemoveAll(scratchDir)
					os.Exit(1)
				}
			}
		}
	}
	os.Remove(journal)
	writeOut()
	os.RemoveAll(scratchDir)
	if len(res.Infra) > 0 && res.Evaluations == 0 {
		os.Exit(3)
	}
	os.Exit(0)
}

func shrinkBudget(tier string) time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VERIF_SHRINK")); err == nil {
		return d
	}
	if tier == "thorough" {
		return 120 * time.Second
	}
	return 40 * time.Second
}

// shrink minimises the choice sequence while the failure class stays.
func shrink(p *Property, choices []uint64, class, tier string, budget time.Duration, known func(string) *KnownFinding) ([]uint64, *outcome, int) {
	deadline := time.Now().Add(budget)
	best := append([]uint64(nil), choices...)
	var bestO *outcome
	tries := 0
	try := func(c []uint64) bool {
		n := 1
		if p.Retries > 1 {
			n = p.Retries
		}
		for i := 0; i < n; i++ {
			if time.Now().After(deadline) {
				return false
			}
			tries++
			src := &source{replay: c, strict: true}
			o := runCase(p, src, tier, true)
			if o.failed && o.class == class {
				used := src.choices
				if len(used) < len(c) || len(c) > len(used) {
					c = c[:min(len(used), len(c))]
				}
				best = append([]uint64(nil), c...)
				bestO = &o
				return true
			}
		}
		return false
	}
	// Confirm reproducibility first (this also normalises).
	if !try(best) {
		return choices, nil, tries
	}
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		// delete blocks
		for size := 64; size >= 1; size /= 2 {
			for i := len(best) - size; i >= 0 && time.Now().Before(deadline); i -= max(1, size/2) {
				if i+size > len(best) {
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
				}
			}
		}
		// minimise values
		for i := 0; i < len(best) && time.Now().Before(deadline); i++ {
			if best[i] == 0 {
				continue
			}
			orig := best[i]
			c := append([]uint64(nil), best...)
			c[i] = 0
			if try(c) {
				improved = true
				continue
			}
			if orig > 1 {
				lo, hi := uint64(0), orig // lo fails to reproduce, hi reproduces
				for hi-lo > 1 && time.Now().Before(deadline) && i < len(best) {
					mid := lo + (hi-lo)/2
					c := append([]uint64(nil), best...)
					c[i] = mid
					if try(c) {
						hi = mid
						improved = true
					} else {
						lo = mid
					}
				}
			}
		}
	}
	return best, bestO, tries
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// ---------------------------------------------------------------- waiting

// Fair waits until cond is true. It gives up only after limit of "fair" time:
// time is counted in ticks this process was actually scheduled for, so a
// stalled machine does not turn into a report.
func Fair(limit time.Duration, cond func() bool) bool {
	const tick = 5 * time.Millisecond
	n := int(limit / tick)
	for i := 0; i < n; i++ {
		if cond() {
			return true
		}
		if i < 10 {
			time.Sleep(time.Millisecond / 2)
		} else {
			time.Sleep(tick)
		}
	}
	runtime.Gosched()
	return cond()
}

// FairDone waits for ch to be closed or receive, using Fair.
func FairDone(limit time.Duration, ch <-chan struct{}) bool {
	const tick = 5 * time.Millisecond
	n := int(limit / tick)
	for i := 0; i < n; i++ {
		select {
		case <-ch:
			return true
		case <-time.After(tick):
		}
	}
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// Stacks returns all goroutine stacks.
func Stacks() string {
	buf := make([]byte, 4<<20)
	n := runtime.Stack(buf, true)
	return string(buf[:n])
}
