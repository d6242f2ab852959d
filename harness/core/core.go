// Package core runs exhaustive enumerations of cases on all cores, isolates
// crashes and hangs, and writes evidence.
package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/ref"
)

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Run         func(r *Run)
	// Workers limits the number of workers; 0 means one for each core.
	Workers int
}

// CaseID identifies a case: an evaluation is a function of it alone.
type CaseID struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Aux      string `json:"aux,omitempty"`
	Src      []byte `json:"src,omitempty"`
	Text     string `json:"text,omitempty"` // Src, for people
	What     string `json:"what,omitempty"`
}

// Key is the identity of the case in the file of known findings.
func (c CaseID) Key() string { return fmt.Sprintf("%s|%s|%q", c.Family, c.Aux, c.Src) }

// Family counts what was covered of one family.
type Family struct {
	Name       string `json:"name"`
	Cases      int64  `json:"cases"`
	Exhaustive bool   `json:"exhaustive"`
	Note       string `json:"note,omitempty"`
	WallMs     int64  `json:"wall_ms"`
}

// Run is one run of a check.
type Run struct {
	Check    *Check
	Tier     string
	Seed     int64
	Start    time.Time
	Deadline time.Time
	Dir      string // /verif
	Scratch  string
	Replay   *CaseID // evaluate only this case
	Known    map[string]string
	slots    []byte

	mu       sync.Mutex
	Families []Family
	States   map[uint32]struct{}
	Outcomes map[uint64]struct{}
	Trans    int64
	Traces   int64
	Counts   map[string]int64
	samples  []string
	viols    []CaseID
	known    map[string]bool
	stop     int32
	workers  []*W
	out      *os.File
	NotExh   bool
}

// Thorough reports whether this is the thorough tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// W is the view of one worker.
type W struct {
	R     *Run
	ID    int
	St    *ref.Stats
	Out   map[uint64]struct{} // hashes of outcomes
	Trace int64               // traces of the model replayed on the implementation
	Trans int64
	N     map[string]int64
	Cases int64

	cur   atomic.Int64 // start of the current case, 0 if none
	slot  []byte
	idx   int64
	chunk int64
	n     int
	fam   string
	eval  func(w *W, aux string, src []byte) string
	hdr   []byte
}

// Outcome notes an observed outcome.
func (w *W) Outcome(b []byte) {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	if len(w.Out) < 1<<18 {
		w.Out[h] = struct{}{}
	}
}

// Count adds to a named counter.
func (w *W) Count(name string, n int64) { w.N[name] += n }

const slotSize = 1 << 19

func (w *W) note(aux string, src []byte) {
	s := w.slot
	b := s[4:4]
	b = append(b, w.fam...)
	b = append(b, 0)
	if len(b)+len(aux)+len(src)+8 > slotSize {
		b = append(b, "too long"...)
	} else {
		b = append(b, aux...)
		b = append(b, 0)
		b = append(b, src...)
	}
	binary.LittleEndian.PutUint32(s, uint32(len(b)))
}

// Emit evaluates a case if it belongs to this worker. It returns false if the
// enumeration has to stop.
func (w *W) Emit(aux string, src []byte) bool {
	i := w.idx
	w.idx++
	if int((i/w.chunk)%int64(w.n)) != w.ID {
		return true
	}
	r := w.R
	if i%w.chunk == 0 || w.chunk == 1 {
		if atomic.LoadInt32(&r.stop) != 0 {
			return false
		}
		if time.Now().After(r.Deadline) {
			atomic.StoreInt32(&r.stop, 2)
			return false
		}
	}
	w.Cases++
	if w.ID == 0 && (w.Cases == 1 || w.Cases == 100 || w.Cases == 10000) {
		r.sample(w.fam, aux, src)
	}
	w.note(aux, src)
	w.cur.Store(time.Now().UnixNano())
	what := w.call(aux, src)
	w.cur.Store(0)
	if what != "" {
		r.violation(w, aux, src, what)
		if atomic.LoadInt32(&r.stop) != 0 {
			return false
		}
	}
	return true
}

// Tick tells the watchdog that the current case makes progress: for cases that
// consist of many executions.
func (w *W) Tick() { w.cur.Store(time.Now().UnixNano()) }

// Stopped reports whether a long evaluation should end early.
func (w *W) Stopped() bool {
	return atomic.LoadInt32(&w.R.stop) != 0 || time.Now().After(w.R.Deadline)
}

func (w *W) call(aux string, src []byte) (what string) {
	defer func() {
		if e := recover(); e != nil {
			what = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	return w.eval(w, aux, src)
}

func trimStack(b []byte) string {
	s := strings.Split(string(b), "\n")
	var o []string
	for _, l := range s {
		if strings.Contains(l, "bibtex") || strings.Contains(l, "verif/") {
			o = append(o, l)
		}
	}
	if len(o) > 24 {
		o = o[:24]
	}
	return strings.Join(o, "\n")
}

func (r *Run) sample(fam, aux string, src []byte) {
	if len(src) > 200 {
		src = append(append([]byte{}, src[:200]...), "..."...)
	}
	s := fam
	if aux != "" {
		s += " " + aux
	}
	if src != nil {
		s += fmt.Sprintf(" %q", src)
	}
	if len(s) > 500 {
		s = s[:500]
	}
	r.mu.Lock()
	if len(r.samples) < 60 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func (r *Run) violation(w *W, aux string, src []byte, what string) {
	c := CaseID{Property: r.Check.ID, Family: w.fam, Aux: aux, Src: append([]byte{}, src...), Text: string(src), What: what}
	if text, ok := r.Known[c.Key()]; ok {
		r.mu.Lock()
		r.known[text] = true
		r.mu.Unlock()
		return
	}
	// Once more: a violation has to be reproducible.
	again := 0
	for i := 0; i < 5; i++ {
		w.cur.Store(time.Now().UnixNano())
		if w.call(aux, src) != "" {
			again++
		}
	}
	w.cur.Store(0)
	c.What = fmt.Sprintf("%s\n(reproduced %d of 5 times)", what, again)
	r.mu.Lock()
	r.viols = append(r.viols, c)
	n := len(r.viols)
	r.mu.Unlock()
	if n >= 3 {
		atomic.StoreInt32(&r.stop, 1)
	}
}

// Violated reports whether a violation was found.
func (r *Run) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viols) > 0
}

// Par enumerates a family on all workers: gen must emit the same cases in the
// same order every time it runs.
func (r *Run) Par(fam string, gen func(w *W), eval func(w *W, aux string, src []byte) string) {
	r.ParChunk(fam, 64, gen, eval)
}

// ParChunk is Par with a given number of consecutive cases for each worker.
func (r *Run) ParChunk(fam string, chunk int, gen func(w *W), eval func(w *W, aux string, src []byte) string) {
	if r.Replay != nil {
		if r.Replay.Family != fam {
			return
		}
		w := r.worker(0, 1)
		w.fam, w.eval = fam, eval
		w.note(r.Replay.Aux, r.Replay.Src)
		w.cur.Store(time.Now().UnixNano())
		if what := w.call(r.Replay.Aux, r.Replay.Src); what != "" {
			r.violation(w, r.Replay.Aux, r.Replay.Src, what)
		}
		w.cur.Store(0)
		r.merge(w)
		return
	}
	if atomic.LoadInt32(&r.stop) == 1 {
		return
	}
	atomic.StoreInt32(&r.stop, 0)
	t0 := time.Now()
	n := runtime.GOMAXPROCS(0)
	if r.Check.Workers > 0 && r.Check.Workers < n {
		n = r.Check.Workers
	}
	var wg sync.WaitGroup
	ws := make([]*W, n)
	r.mu.Lock()
	for i := range ws {
		ws[i] = r.workerLocked(i, n)
		ws[i].fam, ws[i].eval, ws[i].chunk = fam, eval, int64(chunk)
	}
	r.mu.Unlock()
	var total int64
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			gen(w)
		}(w)
	}
	wg.Wait()
	for _, w := range ws {
		total += w.Cases
		r.merge(w)
	}
	f := Family{Name: fam, Cases: total, Exhaustive: atomic.LoadInt32(&r.stop) == 0, WallMs: time.Since(t0).Milliseconds()}
	if !f.Exhaustive {
		f.Note = "stopped by the deadline or a violation"
		r.NotExh = true
	}
	if total == 0 && f.Exhaustive {
		fmt.Fprintf(os.Stderr, "warning: family %s is empty\n", fam)
	}
	r.mu.Lock()
	r.Families = append(r.Families, f)
	r.mu.Unlock()
	fmt.Fprintf(os.Stderr, "%s %-28s cases=%d exhaustive=%v %dms\n", r.Check.ID, fam, total, f.Exhaustive, f.WallMs)
}

func (r *Run) worker(i, n int) *W {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.workerLocked(i, n)
}

func (r *Run) workerLocked(i, n int) *W {
	for len(r.workers) <= i {
		k := len(r.workers)
		w := &W{R: r, ID: k, slot: r.slots[k*slotSize : (k+1)*slotSize : (k+1)*slotSize],
			St: &ref.Stats{States: map[uint32]struct{}{}}, Out: map[uint64]struct{}{}}
		r.workers = append(r.workers, w)
	}
	w := r.workers[i]
	w.N = map[string]int64{}
	w.idx, w.n, w.Cases, w.Trace, w.Trans, w.chunk = 0, n, 0, 0, 0, 64
	w.St.Trans = 0
	return w
}

func (r *Run) merge(w *W) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range w.St.States {
		r.States[k] = struct{}{}
	}
	for k := range w.Out {
		r.Outcomes[k] = struct{}{}
	}
	r.Trans += w.St.Trans + w.Trans
	r.Traces += w.Trace
	for k, v := range w.N {
		r.Counts[k] += v
	}
}

// Note adds a counter to the evidence.
func (r *Run) Note(name string, n int64) {
	r.mu.Lock()
	r.Counts[name] += n
	r.mu.Unlock()
}

// Report records a violation found outside of a family's enumeration.
func (r *Run) Report(c CaseID) {
	c.Property = r.Check.ID
	r.mu.Lock()
	defer r.mu.Unlock()
	if text, ok := r.Known[c.Key()]; ok {
		r.known[text] = true
		return
	}
	r.viols = append(r.viols, c)
}

func (r *Run) watchdog() {
	limit := 25 * time.Second
	if os.Getenv("VERIF_HANG_S") != "" {
		var n int
		fmt.Sscan(os.Getenv("VERIF_HANG_S"), &n)
		limit = time.Duration(n) * time.Second
	}
	for {
		time.Sleep(200 * time.Millisecond)
		r.mu.Lock()
		ws := append([]*W{}, r.workers...)
		r.mu.Unlock()
		now := time.Now().UnixNano()
		for _, w := range ws {
			if t := w.cur.Load(); t != 0 && now-t > int64(limit) {
				fmt.Fprintf(os.Stderr, "watchdog: worker %d runs the same case for %v\n", w.ID, time.Duration(now-t))
				os.Exit(4)
			}
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 8<<30 {
			fmt.Fprintf(os.Stderr, "watchdog: heap of %d MB\n", m.HeapAlloc>>20)
			os.Exit(4)
		}
	}
}

// Out is the real standard output; os.Stdout is discarded because the parser
// can print traces.
func (r *Run) Out() *os.File { return r.out }

func mmapSlots(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	size := slotSize * 64
	if err := f.Truncate(int64(size)); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return b
}

func readSlots(path, id string) []CaseID {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var cs []CaseID
	for i := 0; (i+1)*slotSize <= len(b); i++ {
		s := b[i*slotSize : (i+1)*slotSize]
		n := int(binary.LittleEndian.Uint32(s))
		if n == 0 || n > slotSize-4 {
			continue
		}
		p := strings.SplitN(string(s[4:4+n]), "\x00", 3)
		if len(p) < 3 {
			continue
		}
		cs = append(cs, CaseID{Property: id, Family: p[0], Aux: p[1], Src: []byte(p[2]), Text: p[2]})
	}
	return cs
}

func loadKnown(dir, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k struct{ Property, Case, What, Status string }
		if strings.TrimSpace(l) == "" || json.Unmarshal([]byte(l), &k) != nil {
			continue
		}
		if k.Property == id && k.Status == "known" {
			m[k.Case] = k.What
		}
	}
	return m
}

// Child runs the check in this process and returns the exit code.
func Child(c *Check, dir, scratch, tier string, seed int64, replay *CaseID, budget time.Duration) int {
	debug.SetGCPercent(400)
	r := &Run{Check: c, Tier: tier, Seed: seed, Start: time.Now(), Dir: dir, Scratch: scratch, Replay: replay,
		Known: loadKnown(dir, c.ID), known: map[string]bool{}, States: map[uint32]struct{}{}, Outcomes: map[uint64]struct{}{}, Counts: map[string]int64{}}
	r.Deadline = r.Start.Add(budget)
	r.slots = mmapSlots(filepath.Join(scratch, "slots"))
	r.out = os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		null.Close() // writes fail at once, which is cheaper
		os.Stdout = null
	}
	go r.watchdog()
	c.Run(r)
	for _, w := range r.workers {
		binary.LittleEndian.PutUint32(w.slot, 0)
	}
	r.evidence()
	var ks []string
	for k := range r.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(r.out, "KNOWN-FINDING: property=%s %s\n", c.ID, k)
	}
	if len(r.viols) > 0 {
		for i, v := range r.viols {
			if i == 3 {
				break
			}
			WriteViolation(r.out, dir, v, i)
		}
		return 1
	}
	fmt.Fprintf(r.out, "OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs\n",
		c.ID, tier, len(r.States)+len(r.Outcomes), r.Trans, r.Traces, time.Since(r.Start).Seconds())
	return 0
}

// WriteViolation stores a replayable case and prints the violation.
func WriteViolation(out *os.File, dir string, v CaseID, i int) {
	d := filepath.Join(dir, "out")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, fmt.Sprintf("%s-%d.json", v.Property, i))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	src := v.Text
	if len(src) > 300 {
		src = src[:300] + "..."
	}
	what := v.What
	if len(what) > 3000 {
		what = what[:3000] + "..."
	}
	fmt.Fprintf(out, "family=%s aux=%s src=%q\n%s\n", v.Family, v.Aux, src, what)
	fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", v.Property, p)
}

func (r *Run) evidence() {
	if r.Replay != nil {
		return
	}
	cov := map[string]interface{}{
		"samples":    r.samples,
		"families":   r.Families,
		"exhaustive": !r.NotExh,
		"rule":       r.Check.Rule,
		"seconds":    time.Since(r.Start).Seconds(),
	}
	total := int64(0)
	for _, f := range r.Families {
		total += f.Cases
	}
	switch r.Check.Level {
	case "model_checking":
		cov["states"] = len(r.States) + len(r.Outcomes)
		cov["transitions"] = r.Trans
		cov["traces_validated_against_impl"] = r.Traces
		cov["cases"] = total
		if len(r.States) > 0 {
			cov["model_states"] = len(r.States)
		}
		if len(r.Outcomes) > 0 {
			cov["distinct_outcomes"] = len(r.Outcomes)
		}
	default:
		cov["evaluations"] = total
		cov["distinct_nontrivial"] = len(r.Outcomes)
	}
	for k, v := range r.Counts {
		cov[k] = v
	}
	if r.Check.Assumptions == nil {
		r.Check.Assumptions = []string{}
	}
	e := map[string]interface{}{
		"property": r.Check.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Check.Level,
		"coverage": cov, "assumptions": r.Check.Assumptions, "wall_s": time.Since(r.Start).Seconds(), "violations": len(r.viols),
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		panic(err)
	}
	d := filepath.Join(r.Dir, "evidence")
	os.MkdirAll(d, 0o755)
	if err := os.WriteFile(filepath.Join(d, r.Check.ID+".json"), append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}
