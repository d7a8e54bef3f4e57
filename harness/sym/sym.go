// Package sym is the interface between harnesses and the symbolic executor.
// The executor intercepts every function below; compiled natively, the same
// functions read a recorded input file, so that a counterexample can be
// replayed against the real build.
package sym

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
)

var (
	inputs []string
	pos    int
	tier   int
)

// Load reads a replay file (native only).
func Load(file string, t int) error {
	f, err := os.Open(file)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	inputs, pos, tier = nil, 0, t
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || l[0] == '#' {
			continue
		}
		inputs = append(inputs, l)
	}
	return sc.Err()
}

// Enum, when set, makes every choice natively (debugging only): choices follow
// EnumPrefix, then take 0; other inputs take fixed small values.
var Enum bool
var EnumPrefix []int
var EnumTaken [][2]int // choice, number of alternatives

func next(kind string) uint64 {
	if Enum {
		pos++
		switch kind {
		case "bool":
			return 1
		case "u8":
			return uint64('a' + pos%3)
		}
		return 5
	}
	if pos >= len(inputs) {
		fmt.Println("REPLAY-DIVERGED: inputs exhausted at", kind)
		os.Exit(5)
	}
	f := strings.Fields(inputs[pos])
	if f[0] != kind {
		fmt.Printf("REPLAY-DIVERGED: input %d is %s, asked for %s\n", pos, f[0], kind)
		os.Exit(5)
	}
	pos++
	n, err := strconv.ParseUint(f[1], 10, 64)
	if err != nil {
		fmt.Println("REPLAY-DIVERGED:", err)
		os.Exit(5)
	}
	return n
}

func Bool() bool     { return next("bool") != 0 }
func Byte() byte     { return byte(next("u8")) }
func Int8() int8     { return int8(next("u8")) }
func Int16() int16   { return int16(next("u16")) }
func Uint16() uint16 { return uint16(next("u16")) }
func Int32() int32   { return int32(next("u32")) }
func Uint32() uint32 { return uint32(next("u32")) }
func Int64() int64   { return int64(next("u64")) }
func Uint64() uint64 { return next("u64") }
func Int() int       { return int(next("u64")) }

// IntIn is an arbitrary int in [lo, hi].
func IntIn(lo, hi int) int { return int(next("u64")) }

// Choose is one of 0..n-1, explored as separate paths.
func Choose(n int) int {
	if Enum {
		k := 0
		if len(EnumTaken) < len(EnumPrefix) {
			k = EnumPrefix[len(EnumTaken)]
		}
		EnumTaken = append(EnumTaken, [2]int{k, n})
		return k
	}
	return int(next("choose"))
}

func fail(label string, code int) {
	if Enum {
		panic("ENUM " + label)
	}
	os.Exit(code)
}

// String is an arbitrary string of exactly n bytes.
func String(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}

// StringIn is an arbitrary string of exactly n bytes, each taken from set.
// In set, "a-z" style ranges are not expanded.
func StringIn(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}

// Bytes is an arbitrary byte slice of exactly n bytes.
func Bytes(n int) []byte { return []byte(String(n)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		if !Enum {
			fmt.Println("REPLAY-DIVERGED: assumption violated")
		}
		fail("assume", 5)
	}
}

// Assert is the property.
func Assert(c bool, label string) {
	if !c {
		if !Enum {
			fmt.Println("ASSERT-FAILED", label)
		}
		fail("assert "+label, 3)
	}
}

// Reach marks a program point that some execution must reach.
func Reach(label string) {
	if !Enum {
		fmt.Println("REACH", label)
	}
}

// Bound is q in the quick tier and t in the thorough tier.
func Bound(q, t int) int {
	if tier == 0 {
		return q
	}
	return t
}

// Concrete reports whether values are concrete (native replay).
func Concrete() bool { return true }

// Note prints a diagnostic in native replay.
func Note(a ...any) { fmt.Println(append([]any{"NOTE"}, a...)...) }

// NoMerge turns branch merging off (only a search strategy).
func NoMerge() {}

// MapReverse makes the executor range over maps in reverse insertion order;
// natively the order is random anyway.
func MapReverse(on bool) {}

// Parallel runs f concurrently in several goroutines; i numbers them. The
// executor runs it for two threads and watches the memory they share. No
// inputs may be taken in f.
func Parallel(f func(i int)) {
	if Enum {
		f(0)
		f(1)
		return
	}
	for r := 0; r < 20; r++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				f(i)
			}(i)
		}
		close(start)
		wg.Wait()
	}
}
