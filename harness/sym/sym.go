// Package sym is the vocabulary of the harnesses.  Under the symbolic
// executor every function here except Catch and Par is an intrinsic; the
// bodies below are the native meaning, used to replay a counterexample or a
// sampled path against the compiled code.
package sym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"syscall"
)

// In is one input of a recorded execution.
type In struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

var (
	mu       sync.Mutex
	inputs   = map[string][]string{}
	count    = map[string]int{}
	Failures []string
	Tier     = "quick"
)

// AssumeFailed is the panic value of a failed assumption.
type AssumeFailed struct{}

// Load reads recorded inputs.
func Load(raw []byte) error {
	var v struct {
		Inputs []In   `json:"inputs"`
		Tier   string `json:"tier"`
	}
	if err := json.Unmarshal(raw, &v); err != nil {
		return err
	}
	for _, in := range v.Inputs {
		inputs[in.Name] = append(inputs[in.Name], in.Val)
	}
	if v.Tier != "" {
		Tier = v.Tier
	}
	return nil
}

func get(n string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	count[n]++
	if k := count[n]; k > 1 {
		n = fmt.Sprintf("%s~%d", n, k)
	}
	l := inputs[n]
	if len(l) == 0 {
		return "", false
	}
	inputs[n] = l[1:]
	return l[0], true
}

func num(n string) uint64 {
	s, ok := get(n)
	if !ok {
		return 0
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		i, _ := strconv.ParseInt(s, 10, 64)
		return uint64(i)
	}
	return v
}

func Int(n string) int         { return int(num(n)) }
func Int64(n string) int64     { return int64(num(n)) }
func Int32(n string) int32     { return int32(num(n)) }
func Int16(n string) int16     { return int16(num(n)) }
func Int8(n string) int8       { return int8(num(n)) }
func Uint(n string) uint       { return uint(num(n)) }
func Uint8(n string) uint8     { return uint8(num(n)) }
func Uint16(n string) uint16   { return uint16(num(n)) }
func Uint32(n string) uint32   { return uint32(num(n)) }
func Uint64(n string) uint64   { return num(n) }
func Float64(n string) float64 { return math.Float64frombits(num(n)) }
func Float32(n string) float32 { return math.Float32frombits(uint32(num(n))) }
func Bool(n string) bool       { return num(n) == 1 }

// Choose forks over 0..n-1.
func Choose(name string, n int) int { return int(num(name)) }

// Concretize forks over the feasible values of i.
func Concretize(i int) int { return i }

func raw(n string) []byte {
	s, _ := get(n)
	b, _ := hex.DecodeString(s)
	return b
}

// String is an arbitrary string of exactly n bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Bytes is an arbitrary slice of exactly n bytes.
func Bytes(name string, n int) []byte {
	b := raw(name)
	for len(b) < n {
		b = append(b, 0)
	}
	return b[:n:n]
}

// Buf is an arbitrary slice of at most max bytes.
//
// Natively its end is the end of a page that is followed by one that cannot be
// accessed, so that reading beyond it is noticed.
func Buf(name string, max int) []byte {
	b := raw(name)
	p := os.Getpagesize()
	size := (len(b)/p + 1) * p
	m, err := syscall.Mmap(-1, 0, size+p, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil || syscall.Mprotect(m[size:], syscall.PROT_NONE) != nil {
		return b[:len(b):len(b)]
	}
	g := m[size-len(b) : size : size]
	copy(g, b)
	return g
}

func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		mu.Lock()
		Failures = append(Failures, msg)
		mu.Unlock()
		fmt.Printf("SYM-VIOLATION assert|%s\n", msg)
	}
}

func Reach(label string) {}

func Observe(label string, vals ...any) {
	s := "SYM-OBS " + label + "="
	for i, v := range vals {
		if i > 0 {
			s += ","
		}
		s += obsVal(v)
	}
	fmt.Println(s)
}

func obsVal(v any) string {
	if v == nil {
		return "nil"
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		return fmt.Sprint(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(r.Uint())
	case reflect.Float64:
		return fmt.Sprintf("%x", math.Float64bits(r.Float()))
	case reflect.Float32:
		return fmt.Sprintf("%x", math.Float32bits(float32(r.Float())))
	case reflect.String:
		return fmt.Sprintf("%q", r.String())
	case reflect.Slice:
		if r.Type().Elem().Kind() == reflect.Uint8 {
			return "x" + hex.EncodeToString(r.Bytes())
		}
	}
	return "?"
}

// Bound gives the bound of the running tier.
func Bound(quick, thorough int) int {
	if Tier == "thorough" {
		return thorough
	}
	return quick
}

func Thorough() bool { return Tier == "thorough" }

// Schedule turns on exploration of all schedules (preemption bound, -1: none).
func Schedule(bound int) {}

// Sequential ends the exploration of schedules when the calling goroutine is
// the only one left.
func Sequential() {}

// SetClock makes the monotonic clock show ns until it is set again.  The wall
// clock remains arbitrary.
func SetClock(ns int64) {}

// Known tells whether b is decided without the solver.
func Known(b bool) bool { return true }

// MapOrder selects the iteration orders of maps that are explored.
func MapOrder(mode int) {}

func RaceCheck(on bool) {}
func NoNative()         {}
func AllocLimit(n int)  {}
func MaxSteps(n int)    {}

// Faults allows n injected failures of modelled system calls.
func Faults(n int)    {}
func NFaults() int    { return 0 }
func Native() bool    { return true }
func LogStores(bool)  {}
func Reinit(p string) {}
func Leaked() int     { return 0 }

// Allocated is the number of bytes allocated so far (0 under the executor,
// which checks every allocation itself).
func Allocated() int {
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return int(s.TotalAlloc)
}

func CrashImage() ([]byte, bool) { panic("CrashImage is not available natively") }

func SameBits64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// Ite, And, Or and Implies build terms without forking the path.
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func Implies(a, b bool) bool   { return !a || b }
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Catch runs f and reports the panic it ends in.
func Catch(f func()) (panicked bool, val any) {
	defer func() {
		if panicked {
			val = recover()
			if _, ok := val.(AssumeFailed); ok {
				panic(val)
			}
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}

// Par runs the functions concurrently and waits for them.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for _, f := range fs {
		f := f
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

// Scratch prepares the environment of a native replay.
func Scratch() string { return os.TempDir() }
