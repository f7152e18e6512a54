// Package zverif is the harness interface. The symbolic engine intercepts every function of this
// package; the bodies below are used when a counterexample (or a witness) is replayed natively.
package zverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

const (
	ExitAssert = 10
	ExitAssume = 11
	ExitHang   = 12
	ExitNoRun  = 13
)

var (
	mu     sync.Mutex
	model  map[string]string
	counts = map[string]int{}
	nowSet bool
	now0   int64
	nowAt  time.Time
)

func load() {
	if model != nil {
		return
	}
	model = map[string]string{}
	if f := os.Getenv("ZVERIF_MODEL"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &model); err != nil {
			panic(err)
		}
	}
}

func input(name string) *big.Int {
	mu.Lock()
	defer mu.Unlock()
	load()
	k := counts[name]
	counts[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	if s, ok := model[name]; ok {
		b, ok := new(big.Int).SetString(s, 10)
		if !ok {
			panic("bad model value " + s)
		}
		return b
	}
	return new(big.Int)
}

// Reset restarts the input sequence (native repetition of a run).
func Reset() {
	mu.Lock()
	counts = map[string]int{}
	nowSet = false
	http.DefaultServeMux = http.NewServeMux()
	mu.Unlock()
}

// Symbolic: true under the engine, false natively.
func Symbolic() bool { return false }

// Thorough: the thorough tier's larger bounds are wanted.
func Thorough() bool { return os.Getenv("ZVERIF_TIER") == "thorough" }

// Tier returns q or t by tier.
func Tier(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

func U64(name string) uint64 { return input(name).Uint64() }
func U32(name string) uint32 { return uint32(input(name).Uint64()) }
func U16(name string) uint16 { return uint16(input(name).Uint64()) }
func U8(name string) uint8   { return uint8(input(name).Uint64()) }
func Bool(name string) bool  { return input(name).Sign() != 0 }

// Int: every value in lo..hi, one path each.
func Int(name string, lo, hi int) int { return lo + Choice(name, hi-lo+1) }

// Choice: every value in 0..n-1, one path each.
func Choice(name string, n int) int {
	return int(input(name).Int64())
}

func Bytes(name string, n int) []byte {
	if n == 0 {
		return nil
	}
	return input(name).FillBytes(make([]byte, n))
}

func Hash32(name string) (h [32]byte) {
	copy(h[:], Bytes(name, 32))
	return
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

func Assume(b bool) {
	if !b {
		fmt.Println("ZVERIF assume failed")
		os.Exit(ExitAssume)
	}
}

func Assert(b bool, msg string) {
	if !b {
		fmt.Println("ZVERIF assert failed: " + msg)
		os.Exit(ExitAssert)
	}
}

// Reach marks a point that the harness must be able to reach (vacuity guard).
func Reach(label string) {}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// SumCmp compares the true (unbounded) sums of xs and ys: -1, 0 or 1.
func SumCmp(xs, ys []uint64) int {
	s := func(v []uint64) *big.Int {
		r := new(big.Int)
		for _, x := range v {
			r.Add(r, new(big.Int).SetUint64(x))
		}
		return r
	}
	return s(xs).Cmp(s(ys))
}

// HashLess compares two hashes as big-endian numbers.
func HashLess(a, b [32]byte) bool { return string(a[:]) < string(b[:]) }

// HashEq compares without branching.
func HashEq(a, b [32]byte) bool { return a == b }

// SetNow fixes the wall clock that the code under test reads.
func SetNow(unix uint64) {
	mu.Lock()
	nowSet, now0, nowAt = true, int64(unix), time.Now()
	mu.Unlock()
}

// TimeNow replaces time.Now in natively replayed repository code.
func TimeNow() time.Time {
	mu.Lock()
	defer mu.Unlock()
	if !nowSet {
		return time.Now()
	}
	return time.Unix(now0, 0).Add(time.Since(nowAt))
}

// Deadline replaces a connection's deadline setters in natively replayed repository code, whose clock is TimeNow.
type Deadline struct {
	C interface {
		SetDeadline(time.Time) error
		SetReadDeadline(time.Time) error
		SetWriteDeadline(time.Time) error
	}
}

func (d Deadline) at(t time.Time) time.Time {
	if t.IsZero() {
		return t
	}
	return time.Now().Add(t.Sub(TimeNow()))
}

func (d Deadline) SetDeadline(t time.Time) error      { return d.C.SetDeadline(d.at(t)) }
func (d Deadline) SetReadDeadline(t time.Time) error  { return d.C.SetReadDeadline(d.at(t)) }
func (d Deadline) SetWriteDeadline(t time.Time) error { return d.C.SetWriteDeadline(d.at(t)) }

func Log(msg string) { fmt.Println("ZVERIF log: " + msg) }

// Explore switches scheduler exploration on or off.
func Explore(on bool) {}

// MineNonce finds a nonce for which ok holds.
func MineNonce(name string, ok func(uint64) bool) uint64 {
	n := U64(name)
	for i := 0; i < 20_000_000; i++ {
		if ok(n) {
			return n
		}
		n++
	}
	fmt.Println("ZVERIF no nonce found")
	os.Exit(ExitNoRun)
	return 0
}

var (
	pmu   sync.Mutex
	pends = map[net.Conn]*pender{}
)

type pender struct{}

// TCPPair returns the two ends of a loopback TCP connection.
func TCPPair() (*net.TCPConn, *net.TCPConn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	ch := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			panic(err)
		}
		ch <- c
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		panic(err)
	}
	s := <-ch
	return s.(*net.TCPConn), c.(*net.TCPConn)
}

// FreeAddr: a loopback address that nobody listens on.
func FreeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

// NetPending: number of bytes that wait to be read at this end (consumes them natively).
func NetPending(c *net.TCPConn) int {
	time.Sleep(50 * time.Millisecond)
	c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
	n, _ := io.Copy(io.Discard, c)
	return int(n)
}

// Settle lets every other goroutine act until the system is idle.
func Settle() { time.Sleep(time.Duration(Scale) * 250 * time.Millisecond) }

// Scale stretches native waiting times.
var Scale = func() int {
	if os.Getenv("ZVERIF_SLOW") != "" {
		return 4
	}
	return 1
}()

// Quiesce lets the other goroutines run until they block; no virtual time passes.
func Quiesce() {
	for i := 0; i < 100; i++ {
		runtime.Gosched()
	}
	time.Sleep(2 * time.Millisecond)
}

// Frozen is the number of goroutines that used up the calls the harness grants them (see freeze in the harness' configuration).
func Frozen() int { return 0 }

// HTTP calls the handler registered for the path; false if there is none.
func HTTP(path string, w http.ResponseWriter, r *http.Request) bool {
	h, p := http.DefaultServeMux.Handler(r)
	if p == "" {
		return false
	}
	h.ServeHTTP(w, r)
	return true
}

// Served: somebody listens for HTTP at this host and port (engine only).
func Served(host string) bool { return false }

// Body is a request or response body.
type Body struct {
	B    []byte
	Done bool
}

func (b *Body) Read(p []byte) (int, error) {
	n := copy(p, b.B)
	b.B = b.B[n:]
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (b *Body) Close() error { return nil }

// Answer collects a response.
type Answer struct {
	Code    int
	Text    string
	Headers http.Header
}

func (w *Answer) Header() http.Header {
	if w.Headers == nil {
		w.Headers = http.Header{}
	}
	return w.Headers
}

func (w *Answer) WriteHeader(code int) {
	if w.Code == 0 {
		w.Code = code
	}
}

func (w *Answer) Write(b []byte) (int, error) { return w.WriteString(string(b)) }

func (w *Answer) WriteString(s string) (int, error) {
	w.WriteHeader(200)
	w.Text += s
	return 0, nil
}

// What an unread reader holds (engine only).
func ReaderBytes(r *bytes.Reader) []byte    { return nil }
func BufferBytes(r *bytes.Buffer) []byte    { return nil }
func ReaderString(r *strings.Reader) string { return "" }

// DecoderReader and EncoderWriter: the stream of a JSON codec (engine only).
func DecoderReader(d *json.Decoder) io.Reader { return nil }
func EncoderWriter(d *json.Encoder) io.Writer { return nil }

// CrashDuring runs f as a process that may be killed at any file-system operation; true if it was killed.
func CrashDuring(f func()) bool { return crashDuring(f, false) }

// CrashAlone: the same, other goroutines being other processes.
func CrashAlone(f func()) bool { return crashDuring(f, true) }

func crashDuring(f func(), alone bool) bool {
	done := make(chan bool, 1)
	ch := make(chan struct{})
	crashMu.Lock()
	crashCh, crashAlone, crashMain = ch, alone, goid()
	crashMu.Unlock()
	go func() { f(); done <- true }()
	select {
	case <-done:
		crashMu.Lock()
		crashCh = nil
		crashMu.Unlock()
		return false
	case <-ch:
		return true
	}
}

var (
	crashMu    sync.Mutex
	crashCh    chan struct{} // while a crash may happen
	crashAlone bool
	crashMain  string
	dead       = map[string]bool{} // goroutines of killed processes
)

func goids(all bool) []string {
	buf := make([]byte, 1<<22)
	var ids []string
	for _, l := range strings.Split(string(buf[:runtime.Stack(buf, all)]), "\n") {
		if r, ok := strings.CutPrefix(l, "goroutine "); ok {
			ids = append(ids, strings.Fields(r)[0])
		}
	}
	return ids
}

func goid() string {
	buf := make([]byte, 64)
	return strings.Fields(string(buf[:runtime.Stack(buf, false)]))[1]
}

// CrashPoint is called by the file-system shim: the number of the partial-effect variant, or -1.
func CrashPoint(n int) int {
	crashMu.Lock()
	ch := crashCh
	d := len(dead) > 0 && dead[goid()]
	crashMu.Unlock()
	if d {
		select {}
	}
	if ch == nil {
		return -1
	}
	return Choice("crash", n+1) - 1
}

// Die stops the crashed process (its goroutines hang for ever at their next file operation).
func Die() {
	crashMu.Lock()
	if crashCh != nil {
		if !crashAlone {
			for _, id := range goids(true) {
				if id != crashMain {
					dead[id] = true
				}
			}
		}
		close(crashCh)
		crashCh = nil
	}
	crashMu.Unlock()
	select {}
}

// Run executes one harness natively with the model given in the environment.
func Run(f func()) {
	limit := 60 * time.Second
	if s := os.Getenv("ZVERIF_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	go func() {
		time.Sleep(limit)
		fmt.Println("ZVERIF hang")
		os.Exit(ExitHang)
	}()
	n := 1
	if s, err := strconv.Atoi(os.Getenv("ZVERIF_STRESS")); err == nil && s > 1 {
		n = s
	}
	t0 := time.Now()
	for i := 0; i < n && time.Since(t0) < limit*2/3; i++ {
		Reset()
		f()
	}
	fmt.Println("ZVERIF ok")
	os.Exit(0)
}
