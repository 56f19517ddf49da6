package vh

// Shared driver plumbing: reads the cases TLC generated, reports disagreements with the specification.

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"reflect"
	"strconv"
	"sync"
	"testing"
	"time"
)

type vhReporter struct {
	mu       sync.Mutex
	f        *os.File
	cases    int
	steps    int
	samples  []any
	counters map[string]int
	t        *testing.T
	mism     map[string]int
	first    time.Time // the first mismatch
}

func vhOpen(t *testing.T, in any) *vhReporter {
	t.Helper()
	if os.Getenv("VERIF_OUT") == "" {
		t.Skip("not running under the verification machinery")
	}
	dat, err := os.ReadFile(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	if in != nil {
		err = json.Unmarshal(dat, in)
		if err != nil {
			t.Fatal(err)
		}
	}
	f, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0600)
	if err != nil {
		t.Fatal(err)
	}
	return &vhReporter{f: f, counters: map[string]int{}, t: t}
}

func (r *vhReporter) emit(v map[string]any) {
	j, err := json.Marshal(v)
	if err != nil {
		j, _ = json.Marshal(map[string]any{"t": v["t"], "case": v["case"], "key": v["key"], "got": fmt.Sprintf("%v", v["got"]), "expected": fmt.Sprintf("%v", v["expected"])})
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.f.Write(append(j, '\n'))
}

// Case announces the case about to run so that a crash can be attributed
func (r *vhReporter) Case(id string) {
	r.mu.Lock()
	r.cases++
	first := r.first
	r.mu.Unlock()
	if s, _ := strconv.Atoi(os.Getenv("VERIF_STOP")); s > 0 && !first.IsZero() && time.Since(first) > time.Duration(s)*time.Second {
		r.Count("stopped early")
		r.Done()
		os.Exit(0)
	}
	r.emit(map[string]any{"t": "case", "case": id})
}

func (r *vhReporter) Step() {
	r.mu.Lock()
	r.steps++
	r.mu.Unlock()
}

func (r *vhReporter) Count(k string) {
	r.mu.Lock()
	r.counters[k]++
	r.mu.Unlock()
}

func (r *vhReporter) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 4 {
		r.samples = append(r.samples, v)
	}
}

func (r *vhReporter) Mismatch(id string, step int, key string, expected any, got any, detail ...any) {
	r.mu.Lock()
	if r.mism == nil {
		r.mism = map[string]int{}
	}
	r.mism[key]++ // no key may hide another
	if r.first.IsZero() {
		r.first = time.Now()
	}
	m := r.mism[key]
	r.mu.Unlock()
	if m > 200 {
		return
	}
	v := map[string]any{"t": "mismatch", "case": id, "step": step, "key": key, "expected": expected, "got": got}
	if len(detail) > 0 {
		v["detail"] = detail
	}
	r.emit(v)
}

// Error is an error of the machinery, not of the code under test
func (r *vhReporter) Error(format string, a ...any) {
	r.emit(map[string]any{"t": "error", "msg": fmt.Sprintf(format, a...)})
	r.t.Fatalf(format, a...)
}

func (r *vhReporter) Done() {
	r.emit(map[string]any{"t": "done", "cases": r.cases, "steps": r.steps, "samples": r.samples, "counters": r.counters})
	r.f.Close()
}

// vhSame compares through JSON so that a spec value and a Go value can be compared
func vhSame(a any, b any) bool {
	return reflect.DeepEqual(vhNorm(a), vhNorm(b))
}

func vhNorm(a any) any {
	j, err := json.Marshal(a)
	if err != nil {
		return fmt.Sprintf("%v", a)
	}
	var v any
	json.Unmarshal(j, &v)
	return v
}

// vhGuard runs f with a deadline and converts a panic into an error string
func vhGuard(d time.Duration, f func()) (res string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprintf("panic: %v", p)
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case r := <-done:
		return r
	case <-time.After(d):
		return "hang"
	}
}

func vhEventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return f()
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func vhPort() int {
	// free port from the kernel
	return vhFreePort()
}

func vhFreePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}
