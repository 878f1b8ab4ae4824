// Package sym is the interface between the harnesses and the symbolic executor.  The bodies below are the
// native ones, used when a solver model is replayed against the real code; the executor intercepts the calls.
package sym

import (
	"bytes"
	"crypto/md5"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type input struct {
	Inputs map[string]uint64 `json:"inputs"`
	Params map[string]int    `json:"params"`
	Events []string          `json:"events"`
}

var (
	mu     sync.Mutex
	in     input
	loaded bool
	counts = map[string]int{}
	out    bytes.Buffer
	ended  bool
	stdout = os.Stdout
	outPos int64
)

// Capture starts recording what fmt.Print, Printf and Println write.
func Capture() {
	if stdout != os.Stdout {
		return
	}
	f, err := os.CreateTemp("", "verif-out")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	os.Stdout = f
}

// Output gives what was written since the last call.
func Output() string {
	if stdout == os.Stdout {
		return ""
	}
	var b bytes.Buffer
	buf := make([]byte, 4096)
	for {
		n, err := os.Stdout.ReadAt(buf, outPos)
		b.Write(buf[:n])
		outPos += int64(n)
		if err != nil {
			break
		}
	}
	return b.String()
}

func load() {
	if loaded {
		return
	}
	loaded = true
	b, err := os.ReadFile(os.Getenv("VERIF_INPUT"))
	if err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(9)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(9)
	}
}

// raw is the solver's value of the variable.
func raw(name string, def uint64) uint64 {
	mu.Lock()
	defer mu.Unlock()
	load()
	n := counts[name]
	counts[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	if v, ok := in.Inputs[name]; ok {
		return v
	}
	return def
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(raw(name, 0)) + lo }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return raw(name, 0) != 0 }

// Byte is an arbitrary byte out of the alphabet.
func Byte(name string, alphabet string) byte {
	min := alphabet[0]
	for i := range alphabet {
		if alphabet[i] < min {
			min = alphabet[i]
		}
	}
	return byte(raw(name, uint64(min)))
}

// Choice is an arbitrary element of [0,n), explored value by value.
func Choice(name string, n int) int { return int(raw(name, 0)) }

// Pick is one of the options, explored option by option.
func Pick(name string, opts ...string) string { return opts[Choice(name, len(opts))] }

// Str is an arbitrary string over the alphabet with a length in [min,max].
func Str(name string, min, max int, alphabet string) string {
	n := min
	if max > min {
		n = min + Choice(name+".len", max-min+1)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(fmt.Sprintf("%s.%d", name, i), alphabet)
	}
	return string(b)
}

// Param is a bound of the harness (differs between the quick and the thorough run).
func Param(name string, def int) int {
	mu.Lock()
	defer mu.Unlock()
	load()
	if v, ok := in.Params[name]; ok {
		return v
	}
	return def
}

func flush(line string) {
	mu.Lock()
	if !ended {
		ended = true
		fmt.Fprint(stdout, "\n"+out.String())
		fmt.Fprintln(stdout, line)
		stdout.Sync()
	}
	mu.Unlock()
	os.Exit(0)
}

// Assume restricts the explored inputs.
func Assume(b bool) {
	if !b {
		flush("ASSUME-FAIL")
	}
}

// Assert is the property: it must hold on every path for every value.
func Assert(b bool, label string) {
	if !b {
		flush("ASSERT-FAIL " + label)
	}
}

// Observe records a value for the comparison of the encoding with the native run.
func Observe(label string, v any) {
	mu.Lock()
	defer mu.Unlock()
	fmt.Fprintf(&out, "OBS %s=%s\n", label, show(reflect.ValueOf(v)))
}

func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	case reflect.Slice, reflect.Array:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, show(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, show(k)+":"+show(v.MapIndex(k)))
		}
		sort.Strings(s)
		return "map[" + strings.Join(s, " ") + "]"
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return show(v.Elem())
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, show(v.Field(i)))
		}
		return "{" + strings.Join(s, " ") + "}"
	}
	return "?" + v.Kind().String()
}

// Reach marks a place that some path must reach (guards against vacuous passes).
func Reach(label string) {}

// Not, And, Or, Implies and IteInt combine conditions without splitting paths.
func Not(a bool) bool { return !a }
func And(xs ...bool) bool {
	for _, x := range xs {
		if !x {
			return false
		}
	}
	return true
}
func Or(xs ...bool) bool {
	for _, x := range xs {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Eq compares two strings without splitting paths.
func Eq(a, b string) bool { return a == b }

// MapOrders sets how many iteration orders of maps are explored (1 to 6).
func MapOrders(n int) {}

// Delays bounds how many times the scheduler deviates from round-robin (-1: no bound).
func Delays(n int) {}

// Symbolic reports whether the caller runs in the symbolic executor.
func Symbolic() bool { return false }

// Outcome says how a simulated process ended.
type Outcome struct {
	Kind string // done, exited, crashed, hung, panicked
	Code int
	Msg  string
}

type process struct {
	done chan Outcome
	once sync.Once
	dead bool
}

var cur *process

func (p *process) end(o Outcome) {
	p.once.Do(func() {
		mu.Lock()
		p.dead = true
		mu.Unlock()
		p.done <- o
	})
}

// Run runs f as a process of its own: Exit, Crash, a panic or a hang end it.
func Run(f func()) Outcome {
	p := &process{done: make(chan Outcome, 1)}
	mu.Lock()
	cur = p
	mu.Unlock()
	go func() {
		normal := false
		defer func() {
			if normal {
				p.end(Outcome{Kind: "done"})
				return
			}
			if r := recover(); r != nil {
				p.end(Outcome{Kind: "panicked", Msg: fmt.Sprint(r)})
			}
		}()
		f()
		normal = true
	}()
	select {
	case o := <-p.done:
		return o
	case <-time.After(4 * time.Second):
		mu.Lock()
		p.dead = true
		mu.Unlock()
		return Outcome{Kind: "hung"}
	}
}

var tags = map[string]int{}

// me gives the running goroutine and the one that started it.
func me() (string, string) {
	b := make([]byte, 1<<16)
	s := string(b[:runtime.Stack(b, false)])
	id := strings.Fields(s)[1]
	parent := ""
	if i := strings.LastIndex(s, " in goroutine "); i >= 0 {
		parent = strings.Fields(s[i+len(" in goroutine "):])[0]
	}
	return id, parent
}

// SetTag marks the goroutine, and those it starts, as belonging to the n-th of several processes.
func SetTag(n int) {
	id, _ := me()
	mu.Lock()
	tags[id] = n
	mu.Unlock()
}

// Tag is the mark of the goroutine.
func Tag() int {
	mu.Lock()
	none := len(tags) == 0
	mu.Unlock()
	if none {
		return 0
	}
	id, parent := me()
	mu.Lock()
	defer mu.Unlock()
	n, ok := tags[id]
	if !ok {
		n = tags[parent]
		tags[id] = n
	}
	return n
}

func stopHere() {
	select {}
}

// Gate blocks for ever when the running process has ended; every shim operation passes through it.
func Gate() {
	mu.Lock()
	d := cur != nil && cur.dead
	mu.Unlock()
	if d {
		stopHere()
	}
}

// Exit ends the running process.
func Exit(code int) {
	if cur == nil {
		flush(fmt.Sprintf("EXIT-OUTSIDE-RUN %d", code))
	}
	Gate()
	cur.end(Outcome{Kind: "exited", Code: code})
	stopHere()
}

// Crash ends the running process as a power cut would.
func Crash() {
	if cur == nil {
		flush("CRASH-OUTSIDE-RUN")
	}
	Gate()
	cur.end(Outcome{Kind: "crashed"})
	stopHere()
}

// Resume lets the harness itself use the simulated environment again after Run.
func Resume() {
	mu.Lock()
	cur = nil
	mu.Unlock()
}

var big sync.Mutex

// Lock and Unlock guard the environment model against real concurrency; goroutines of the executor never
// switch inside it.
func Lock()   { big.Lock() }
func Unlock() { big.Unlock() }

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Sleep lets all other goroutines run first.
func Sleep() { time.Sleep(time.Millisecond) }

var nextEvent int

// Event is a scheduling point with a name; a replay makes the events happen in the order of the counterexample.
func Event(label string) {
	Gate()
	mu.Lock()
	load()
	if nextEvent >= len(in.Events) {
		mu.Unlock()
		return
	}
	end := time.Now().Add(150 * time.Millisecond)
	for nextEvent < len(in.Events) && in.Events[nextEvent] != label && time.Now().Before(end) {
		mu.Unlock()
		time.Sleep(time.Millisecond)
		mu.Lock()
	}
	if nextEvent < len(in.Events) && in.Events[nextEvent] == label {
		nextEvent++
	} else {
		nextEvent = len(in.Events) // lost: run free
	}
	mu.Unlock()
	Gate()
}

// Digest is the hash function: a collision-free one in the executor.
func Digest(b []byte) [16]byte { return md5.Sum(b) }

// Serialize and Deserialize stand for gob encoding.
func Serialize(v any) ([]byte, error) {
	var b bytes.Buffer
	err := gob.NewEncoder(&b).Encode(v)
	return b.Bytes(), err
}
func Deserialize(b []byte, v any) error { return gob.NewDecoder(bytes.NewReader(b)).Decode(v) }

// Main runs a harness natively.
func Main(f func()) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4000)
			buf = buf[:runtime.Stack(buf, false)]
			flush(fmt.Sprintf("PANIC %v\n%s", r, buf))
		}
	}()
	f()
	flush("END")
}
