// Package core is the small property-based-testing runtime the checks share:
// a registry of subs (generator + oracle), plain-data cases, observation of
// what was generated, and the execution of one case with panic capture.
package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Str is a byte string that survives JSON unchanged whatever bytes it holds.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(s))
	return json.Marshal(q[1 : len(q)-1])
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + q + `"`)
	if err != nil {
		return err
	}
	*s = Str(u)
	return nil
}

// F64 is a float64 that survives JSON exactly, including NaN and infinities.
type F64 float64

func (f F64) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64))
}

func (f *F64) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return err
	}
	*f = F64(v)
	return nil
}

// Obs collects what one case was.
type Obs struct {
	nontrivial bool
	labels     []string
	sample     string
	discard    bool
}

func (o *Obs) NonTrivial()         { o.nontrivial = true }
func (o *Obs) NonTrivialIf(b bool) { o.nontrivial = o.nontrivial || b }
func (o *Obs) Label(l string)      { o.labels = append(o.labels, l) }
func (o *Obs) LabelIf(b bool, l string) {
	if b {
		o.Label(l)
	}
}
func (o *Obs) Sample(format string, a ...any) {
	if o.sample == "" {
		o.sample = fmt.Sprintf(format, a...)
		if len(o.sample) > 4000 {
			o.sample = o.sample[:4000] + "..."
		}
	}
}

// Spec describes one sub-check of a property.
type Spec struct {
	Prop     string
	Name     string
	Quick    int    // cases in the quick tier
	Thorough int    // cases in the thorough tier
	Rule     string // how cases are made and what makes one non-trivial
	// Terminates: not terminating (or exhausting memory) on a case is a violation of this property.
	Terminates bool
}

type Sub struct {
	Spec
	genCase func(*rapid.T) any
	runCase func(raw []byte, o *Obs) error
}

var registry []*Sub

// Register adds a sub-check. C must survive a JSON round trip.
func Register[C any](s Spec, gen func(*rapid.T) C, run func(C, *Obs) error) {
	for _, x := range registry {
		if x.Prop == s.Prop && x.Name == s.Name {
			panic("duplicate sub " + s.Prop + "/" + s.Name)
		}
	}
	registry = append(registry, &Sub{
		Spec:    s,
		genCase: func(t *rapid.T) any { return gen(t) },
		runCase: func(raw []byte, o *Obs) error {
			var c C
			d := json.NewDecoder(bytes.NewReader(raw))
			d.DisallowUnknownFields()
			if err := d.Decode(&c); err != nil {
				return &HarnessError{fmt.Sprintf("cannot decode case: %v", err)}
			}
			return run(c, o)
		},
	})
}

// HarnessError marks a failure of the harness itself (never a verdict).
type HarnessError struct{ Msg string }

func (e *HarnessError) Error() string { return "harness: " + e.Msg }

func Subs(prop string) []*Sub {
	var res []*Sub
	for _, s := range registry {
		if s.Prop == prop {
			res = append(res, s)
		}
	}
	return res
}

func Props() []string {
	m := map[string]bool{}
	for _, s := range registry {
		m[s.Prop] = true
	}
	var res []string
	for p := range m {
		res = append(res, p)
	}
	sort.Strings(res)
	return res
}

func Find(prop, name string) *Sub {
	for _, s := range registry {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// Draw generates one case of this sub-check, encoded.
func (s *Sub) Draw(t *rapid.T) json.RawMessage {
	raw, err := json.Marshal(s.genCase(t))
	if err != nil {
		panic(&HarnessError{err.Error()})
	}
	return raw
}

// RunRaw runs one case with panic capture.
func (s *Sub) RunRaw(raw []byte) (o *Obs, err error) {
	o = &Obs{}
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(*HarnessError); ok {
				err = he
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	err = s.runCase(raw, o)
	return o, err
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t/") && strings.Contains(l, "/src/runtime/") {
			continue
		}
		if strings.Contains(l, "harness/core.") {
			break
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Stats is what one shard (or the whole run, merged) observed.
type Stats struct {
	Evaluations int
	NonTrivial  int
	Hashes      []uint64 // of the non-trivial cases
	Labels      map[string]int
	Samples     []string
	Failed      bool
	FailCase    json.RawMessage
	FailErr     string
	Flaky       bool
	Harness     string // non-empty: the harness itself failed
}

// Known are the confirmed known findings (sub, a zero byte, the case in canonical form).
var Known map[string]bool

// Canon is a canonical form of JSON.
func Canon(raw []byte) string {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return string(raw)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return string(raw)
	}
	return string(b)
}

func HashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// RunShard generates and runs n cases with the rapid seed that the caller has set.
// cur, if not nil, receives every case before it runs, so that a fatal crash can be replayed.
func (s *Sub) RunShard(n int, cur *os.File, begin func(), end func()) *Stats {
	st := &Stats{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	tb := &tb{name: s.Prop + "_" + s.Name}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			c := s.genCase(t)
			raw, err := json.Marshal(c)
			if err != nil {
				st.Harness = "cannot encode case: " + err.Error()
				t.Fatal("harness")
			}
			if cur != nil {
				writeCur(cur, raw)
			}
			begin()
			o, err := s.RunRaw(raw)
			end()
			if err != nil {
				if he, ok := err.(*HarnessError); ok {
					st.Harness = he.Msg + "\ncase: " + string(raw)
					t.Fatal("harness")
				}
				if !Known[s.Name+"\x00"+Canon(raw)] {
					st.Failed = true
					st.FailCase = raw
					st.FailErr = err.Error()
					t.Fatal("violation")
				}
				o = &Obs{}
				o.Label("known finding")
			}
			if st.Failed { // shrinking: do not count
				return
			}
			st.Evaluations++
			for _, l := range o.labels {
				st.Labels[l]++
			}
			if o.nontrivial {
				st.NonTrivial++
				h := HashBytes(raw)
				if !seen[h] {
					seen[h] = true
					st.Hashes = append(st.Hashes, h)
					if o.sample != "" && (len(st.Samples) < 2) && st.NonTrivial%7 == 3 {
						st.Samples = append(st.Samples, o.sample)
					}
				}
			}
		})
	}()
	<-done
	if !st.Failed && st.Harness == "" && tb.failed {
		st.Harness = "rapid: " + strings.Join(tb.logs, "\n")
	}
	return st
}

func writeCur(f *os.File, raw []byte) {
	f.Truncate(0)
	f.WriteAt(raw, 0)
}

// tb is the minimal testing object rapid needs outside of go test.
type tb struct {
	name   string
	failed bool
	logs   []string
}

func (t *tb) log(s string) {
	if len(t.logs) < 50 {
		t.logs = append(t.logs, s)
	}
}
func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(f string, a ...any)   { t.log(fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log(fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); t.SkipNow() }
func (t *tb) Skip(a ...any)             { t.Log(a...); t.SkipNow() }
func (t *tb) SkipNow()                  { goexit() }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
