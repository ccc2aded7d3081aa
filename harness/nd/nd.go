// Package nd is the interface between harnesses and the engine. The symbolic engine intercepts
// every function of this package; the bodies below are used when a harness is replayed natively
// with concrete values (go test -overlay).
package nd

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Case is one concrete input vector.
type Case struct {
	Inputs []struct {
		Name string `json:"name"`
		Kind string `json:"kind"`
		Val  uint64 `json:"val"`
	} `json:"inputs"`
	Params map[string]int64 `json:"params"`
}

// Result of a native run.
type Result struct {
	Status  string   `json:"status"` // ok, assume, fail, panic, timeout
	Msgs    []string `json:"msgs"`
	Observe []string `json:"observe"`
	Covers  []string `json:"covers"`
	Missing int      `json:"missing"`
}

type assumeStop struct{}

var (
	mu      sync.Mutex
	vals    map[string]uint64
	names   map[string]int
	params  map[string]int64
	res     *Result
	nowNS   int64
	nowSet  bool
)

// RunFile runs harness once per case of the file named by ND_REPLAY and writes the results to ND_OUT.
func RunFile(harness func()) {
	b, err := os.ReadFile(os.Getenv("ND_REPLAY"))
	if err != nil {
		panic(err)
	}
	var cs []Case
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	var rs []*Result
	flush := func() {
		o, _ := json.Marshal(rs)
		os.WriteFile(os.Getenv("ND_OUT"), o, 0o644)
	}
	for _, c := range cs {
		r := &Result{Status: "crash"}
		rs = append(rs, r)
		flush()
		mu.Lock()
		vals, names, params, res = map[string]uint64{}, map[string]int{}, c.Params, r
		for _, in := range c.Inputs {
			vals[in.Name] = in.Val
		}
		nowSet = false
		mu.Unlock()
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				e := recover()
				mu.Lock()
				defer mu.Unlock()
				switch e := e.(type) {
				case nil:
				case assumeStop:
					if r.Status == "" {
						r.Status = "assume"
					}
				default:
					r.Status = "panic"
					r.Msgs = append(r.Msgs, fmt.Sprintf("panic: %v\n%s", e, debug.Stack()))
				}
			}()
			r.Status = ""
			harness()
		}()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			mu.Lock()
			r.Status = "timeout"
			r.Msgs = append(r.Msgs, "native run did not finish within 30s\n"+string(buf[:n]))
			mu.Unlock()
			flush()
			return
		}
		if r.Status == "" {
			r.Status = "ok"
		}
		flush()
	}
}

func key(name string) string {
	k := names[name]
	names[name] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := key(name)
	v, ok := vals[k]
	if !ok && res != nil {
		res.Missing++
	}
	return v
}

// Symbolic reports whether the harness runs in the symbolic engine.
func Symbolic() bool { return false }

func Bool(name string) bool       { return get(name) != 0 }
func Byte(name string) byte       { return byte(get(name)) }
func Int(name string) int         { return int(get(name)) }
func Int64(name string) int64     { return int64(get(name)) }
func Uint64(name string) uint64   { return get(name) }
func Int32(name string) int32     { return int32(get(name)) }
func Uint32(name string) uint32   { return uint32(get(name)) }
func Uint16(name string) uint16   { return uint16(get(name)) }
func Float64(name string) float64 { return math.Float64frombits(get(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(get(name))) }

// String is any string of at most max bytes.
func String(name string, max int) string { return StringN(name, Choose(name+".len", max+1)) }

// StringN is any string of exactly n bytes.
func StringN(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(fmt.Sprintf("%s[%d]", name, i))
	}
	return string(b)
}

// Choose is any number in [0,n).
func Choose(name string, n int) int { return int(get(name)) }

func Assume(c bool) {
	if !c {
		panic(assumeStop{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		res.Status = "fail"
		res.Msgs = append(res.Msgs, "assert: "+msg)
		mu.Unlock()
	}
}
func Fail(msg string)          { Assert(false, msg) }
func Cover(l string)           { CoverIf(true, l) }
func CoverIf(c bool, l string) {
	if c {
		mu.Lock()
		res.Covers = append(res.Covers, l)
		mu.Unlock()
	}
}

// Observe records values that the engine and the native run must agree on.
func Observe(label string, vs ...any) {
	var sb strings.Builder
	sb.WriteString(label)
	for _, v := range vs {
		sb.WriteByte(' ')
		sb.WriteString(render(v))
	}
	mu.Lock()
	res.Observe = append(res.Observe, sb.String())
	mu.Unlock()
}

func render(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(v)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, time.Duration:
		return fmt.Sprintf("%d", v)
	case float64:
		return fmt.Sprintf("f%016x", math.Float64bits(v))
	case float32:
		return fmt.Sprintf("f%08x", math.Float32bits(v))
	case string:
		return fmt.Sprintf("%q", v)
	case []string:
		var r []string
		for _, x := range v {
			r = append(r, render(x))
		}
		return "[" + strings.Join(r, " ") + "]"
	case []any:
		var r []string
		for _, x := range v {
			r = append(r, render(x))
		}
		return "[" + strings.Join(r, " ") + "]"
	case []int:
		var r []string
		for _, x := range v {
			r = append(r, render(x))
		}
		return "[" + strings.Join(r, " ") + "]"
	case []byte:
		var r []string
		for _, x := range v {
			r = append(r, render(x))
		}
		return "[" + strings.Join(r, " ") + "]"
	case []int64:
		var r []string
		for _, x := range v {
			r = append(r, render(x))
		}
		return "[" + strings.Join(r, " ") + "]"
	}
	return fmt.Sprintf("?%T", v)
}

// Param is a bound set by the harness directive.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return int(v)
	}
	return def
}

// IsConst reports whether the engine knows b without the solver.
func IsConst(b bool) bool             { return true }
func Truth(b bool) bool               { return b }
func Concrete(v int) int              { return v }
func ConcreteString(s string) string  { return s }
func And(a, b bool) bool              { return a && b }
func Or(a, b bool) bool               { return a || b }
func Implies(a, b bool) bool          { return !a || b }
func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// Explore switches schedule exploration on or off.
func Explore(bool)             {}
func AsyncTimers(n int)        {}
func Opt(name string, v int)   {}
// Quiesce waits until every other goroutine is blocked.
func Quiesce()                 { time.Sleep(60 * time.Millisecond) }
func Yield()                   { runtime.Gosched() }
func Advance(d time.Duration)  { time.Sleep(d) }
func Now() int64               { return time.Now().UnixNano() }
func SetNow(ns int64)          { nowNS, nowSet = ns, true }
// NativeNow is the time set by SetNow in a native run.
func NativeNow() (int64, bool) { return nowNS, nowSet }
func Blocked() int             { return 0 }
func Trace(s string)           {}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool, msg string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(assumeStop); ok {
				panic(e)
			}
			p, msg = true, fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	f()
	return false, ""
}

// Atomic runs f without scheduling points.
func Atomic(f func()) { f() }

// Calls is the number of calls of the named function since the first Calls for it (engine only).
func Calls(name string) int { return 0 }
