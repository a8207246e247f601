package main

// A stateless explicit-choice explorer. A harness body is a function of the
// answers to x.Choose / x.Dev; the explorer runs the body once for every
// sequence of answers within the bounds, each time on fresh objects and against
// the real library code. Choose is always enumerated completely; Dev has the
// default answer 0, every other answer costs one deviation, and an execution
// has at most x.maxDev deviations.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var thorough bool

// X is one execution of a harness body.
type X struct {
	pre     []int // answers to replay
	ch, ar  []int // answers given and arities seen so far
	dev     int
	maxDev  int
	verbose bool
	desc    []string
	ops     int64
	sh      *shard
	slot    []byte
	out     uint64 // hash of everything observed
	iters   int
}

type skip struct{}

type violation struct {
	Key string // stable identity of the failing case, for known findings
	Msg string
}

func (x *X) choose(n int) int {
	if n <= 0 {
		panic(skip{})
	}
	i := len(x.ch)
	c := 0
	if i < len(x.pre) {
		c = x.pre[i]
		if c >= n {
			panic(fmt.Sprintf("ENGINE replay divergence at choice %d: answer %d of %d", i, c, n))
		}
	}
	x.ch = append(x.ch, c)
	x.ar = append(x.ar, n)
	if x.slot != nil && i < maxSlotChoices {
		binary.LittleEndian.PutUint32(x.slot[24+4*i:], uint32(c))
		binary.LittleEndian.PutUint32(x.slot[16:], uint32(i+1))
	}
	return c
}

// chooseSoft is like Choose for choices that come up inside of the library, where
// what is repeated may differ, as when the library orders by address (a known
// finding) or remembers something from an earlier execution: a repeated answer that
// is no answer this time stands for the last one.
func (x *X) chooseSoft(n int) int {
	if i := len(x.ch); i < len(x.pre) && x.pre[i] >= n {
		x.choose(x.pre[i] + 1) // so that the sequences still increase
		return n - 1
	}
	return x.choose(n)
}

// Choose returns each of 0..n-1, in different executions.
func (x *X) Choose(n int) int {
	return x.choose(n)
}

// Dev returns 0, or as a deviation each of 1..n-1.
func (x *X) Dev(n int) int {
	if x.dev >= x.maxDev {
		x.choose(1)
		return 0
	}
	c := x.choose(n)
	if c != 0 {
		x.dev++
	}
	return c
}

// Pick returns each of the given values, in different executions.
func Pick[T any](x *X, vs []T) T { return vs[x.Choose(len(vs))] }

// PickDev returns the first value, or as a deviation each of the others.
func PickDev[T any](x *X, vs []T) T { return vs[x.Dev(len(vs))] }

func (x *X) Bool() bool    { return x.Choose(2) == 1 }
func (x *X) DevBool() bool { return x.Dev(2) == 1 }

// Skip abandons an execution whose choices make no sense together.
func (x *X) Skip() { panic(skip{}) }

// Op counts operations on the real code.
func (x *X) Op() { x.ops++ }

// Say describes this execution; evaluated only for samples and violations.
func (x *X) Say(format string, args ...interface{}) {
	if x.verbose {
		x.desc = append(x.desc, fmt.Sprintf(format, args...))
	}
}

// Saw records something observed from the code under test.
func (x *X) Saw(s string) {
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x.out)
	h.Write(b[:])
	h.Write([]byte(s))
	x.out = h.Sum64()
}

// Fail reports that the property does not hold in this execution.
func (x *X) Fail(format string, args ...interface{}) {
	panic(&violation{Msg: fmt.Sprintf(format, args...)})
}

// FailKey is Fail with an identity for the known-findings file.
func (x *X) FailKey(key, format string, args ...interface{}) {
	panic(&violation{Key: key, Msg: fmt.Sprintf(format, args...)})
}

// Harness is one closed driver together with its oracle.
type Harness struct {
	Name     string
	Body     func(x *X)
	DevQ     int    // deviation bound, quick
	DevT     int    // deviation bound, thorough
	Single   bool   // needs a process per worker (process-global hook)
	Only     string // build variant it is for
	Thorough bool   // not part of the quick check
	Expect   string // when non-empty: the fatal failure of this harness is the known finding with this key
}

func (h *Harness) maxDev() int {
	if thorough {
		return h.DevT
	}
	return h.DevQ
}

const (
	slotSize       = 4096
	maxSlotChoices = (slotSize - 24) / 4
	nSlots         = 64
)

type found struct {
	Choices []int
	Dev     int
	MaxDev  int
	Key     string
	Msg     string
	Desc    []string
	Flaky   bool
}

type hresult struct {
	Harness    string
	Runs       int64
	Skipped    int64
	Ops        int64
	Distinct   int
	DevBound   int
	Exhaustive bool
	Violations []found
	Known      []found
	Flaky      int
	Unstable   []found // failed, but not again when repeated in the same process
	Samples    []string
	Hashes     []uint64 `json:"-"`
	MaxChoices int
}

type shard struct {
	runs, skipped, ops int64
	maxChoices         int
	hashes             map[uint64]struct{}
}

// runCase runs the body once. A violation is returned, nil otherwise.
func runCase(h *Harness, pre []int, maxDev int, verbose bool, slot []byte) (x *X, v *violation, skipped bool) {
	x = &X{pre: pre, maxDev: maxDev, verbose: verbose, slot: slot}
	if slot != nil {
		binary.LittleEndian.PutUint64(slot[0:], binary.LittleEndian.Uint64(slot[0:])+1)
		binary.LittleEndian.PutUint32(slot[8:], 1)
		binary.LittleEndian.PutUint32(slot[12:], uint32(maxDev))
		binary.LittleEndian.PutUint32(slot[16:], 0)
	}
	defer func() {
		if slot != nil {
			binary.LittleEndian.PutUint32(slot[8:], 0)
		}
		if r := recover(); r != nil {
			switch r := r.(type) {
			case skip:
				skipped = true
			case *violation:
				v = r
			default:
				msg := fmt.Sprint(r)
				if strings.HasPrefix(msg, "ENGINE") {
					panic(r)
				}
				v = &violation{Msg: "unexpected panic: " + msg + "\n" + trimStack(string(debug.Stack()))}
			}
		}
	}()
	h.Body(x)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for i, l := range lines {
		if strings.Contains(l, "gopoet") && !strings.HasPrefix(l, "\t") && i+1 < len(lines) {
			keep = append(keep, l+" "+strings.TrimSpace(lines[i+1]))
		}
		if len(keep) > 8 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// next returns the lexicographically next sequence of answers after x, keeping
// the first fixed answers; nil when there is none.
func next(x *X, fixed int) []int {
	for i := len(x.ch) - 1; i >= fixed; i-- {
		if x.ch[i]+1 < x.ar[i] {
			n := append([]int(nil), x.ch[:i+1]...)
			n[i]++
			return n
		}
	}
	return nil
}

var deadline time.Time

func explore(h *Harness, workers, shardIdx, shardN int, progress []byte, known map[string]bool) *hresult {
	res := &hresult{Harness: h.Name, Exhaustive: true, DevBound: -1}
	all := map[uint64]struct{}{}
	var mu sync.Mutex
	var stop int32
	for bound := 0; bound <= h.maxDev() && atomic.LoadInt32(&stop) == 0; bound++ {
		if bound > 0 && h.maxDev() > 1 && bound < h.maxDev()-1 {
			// keep iterating cheap: 0, max-1, max
			continue
		}
		// split into prefixes
		var prefixes [][]int
		queue := [][]int{{}}
		want := 64 * workers
		if shardN > 1 {
			want = 64 * shardN
		}
		for len(queue) > 0 && len(queue)+len(prefixes) < want {
			p := queue[0]
			queue = queue[1:]
			x, v, _ := runCase(h, p, bound, false, progress[:slotSize])
			if v != nil || len(x.ar) <= len(p) {
				prefixes = append(prefixes, p)
				continue
			}
			for c := 0; c < x.ar[len(p)]; c++ {
				queue = append(queue, append(append([]int(nil), p...), c))
			}
		}
		prefixes = append(prefixes, queue...)
		sort.Slice(prefixes, func(i, j int) bool { return lessInts(prefixes[i], prefixes[j]) })
		var idx int64 = -1
		var wg sync.WaitGroup
		var runs, skipped, ops int64
		finished := true
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				slot := progress[w*slotSize : (w+1)*slotSize]
				sh := &shard{hashes: map[uint64]struct{}{}}
				defer func() {
					mu.Lock()
					defer mu.Unlock()
					runs += sh.runs
					skipped += sh.skipped
					ops += sh.ops
					for k := range sh.hashes {
						all[k] = struct{}{}
					}
					if sh.maxChoices > res.MaxChoices {
						res.MaxChoices = sh.maxChoices
					}
				}()
				for {
					i := int(atomic.AddInt64(&idx, 1))
					if i >= len(prefixes) {
						return
					}
					if shardN > 1 && i%shardN != shardIdx {
						continue
					}
					p := prefixes[i]
					fixed := len(p)
					for pre := p; pre != nil; {
						if atomic.LoadInt32(&stop) != 0 {
							return
						}
						if sh.runs&15 == 0 && time.Now().After(deadline) {
							mu.Lock()
							finished = false
							mu.Unlock()
							return
						}
						x, v, sk := runCase(h, pre, bound, false, slot)
						sh.runs++
						sh.ops += x.ops
						if sk {
							sh.skipped++
						}
						if len(x.ch) > sh.maxChoices {
							sh.maxChoices = len(x.ch)
						}
						if len(sh.hashes) < 3000000 && !sk {
							sh.hashes[x.out] = struct{}{}
						}
						if v != nil {
							f := found{Choices: append([]int(nil), x.ch...), Dev: x.dev, MaxDev: bound, Key: v.Key, Msg: v.Msg}
							if v.Key != "" && known[v.Key] {
								mu.Lock()
								dup := false
								for _, k := range res.Known {
									dup = dup || k.Key == f.Key
								}
								if !dup {
									res.Known = append(res.Known, f)
								}
								mu.Unlock()
							} else {
								same := 0
								for r := 0; r < 5; r++ {
									x2, v2, _ := runCase(h, f.Choices, bound, true, slot)
									f.Desc = x2.desc
									if v2 != nil {
										same++
									}
								}
								mu.Lock()
								if same == 5 {
									res.Violations = append(res.Violations, f)
									atomic.StoreInt32(&stop, 1)
								} else {
									res.Flaky++
									f.Flaky = true
									if len(res.Unstable) < 20 {
										res.Unstable = append(res.Unstable, f)
									} else {
										atomic.StoreInt32(&stop, 1)
									}
								}
								mu.Unlock()
							}
						}
						pre = next(x, fixed)
					}
				}
			}(w)
		}
		wg.Wait()
		// cases of a smaller bound are all repeated in a larger one, so only
		// the last bound's counts are reported
		res.Runs, res.Skipped, res.Ops = runs, skipped, ops
		if !finished {
			res.Exhaustive = false
			break
		}
		if atomic.LoadInt32(&stop) == 0 {
			res.DevBound = bound
		}
	}
	if len(res.Violations) > 0 {
		res.Exhaustive = false
		sort.Slice(res.Violations, func(i, j int) bool {
			a, b := res.Violations[i], res.Violations[j]
			if a.Dev != b.Dev {
				return a.Dev < b.Dev
			}
			return lessInts(a.Choices, b.Choices)
		})
	}
	// samples: re-run a few cases verbosely, twice, and require the same
	// observations both times
	if len(res.Violations) == 0 {
		bound := h.maxDev()
		for _, pick := range []int{0, 1, 2} {
			x := sampleCase(h, bound, pick)
			if x == nil {
				continue
			}
			x1, _, _ := runCase(h, x.ch, bound, true, nil)
			x2, _, _ := runCase(h, x.ch, bound, true, nil)
			if x1.out != x2.out {
				res.Flaky++
			}
			res.Samples = append(res.Samples, fmt.Sprintf("%s %v: %s", h.Name, x.ch, strings.Join(x1.desc, "; ")))
		}
	}
	res.Distinct = len(all)
	for k := range all {
		res.Hashes = append(res.Hashes, k)
	}
	return res
}

// sampleCase finds a case by always taking the first, the last or the middle
// answer.
func sampleCase(h *Harness, bound, how int) *X {
	var pre []int
	for tries := 0; tries < 400; tries++ {
		x, _, sk := runCase(h, pre, bound, false, nil)
		if len(x.ch) <= len(pre) || how == 0 {
			if sk {
				return nil
			}
			return x
		}
		i := len(pre)
		c := x.ar[i] - 1
		if how == 2 {
			c = x.ar[i] / 2
		}
		pre = append(append([]int(nil), x.ch[:i]...), c)
	}
	return nil
}

func lessInts(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func mmapFile(path string, create bool) []byte {
	flags := os.O_RDWR
	if create {
		flags |= os.O_CREATE
	}
	f, err := os.OpenFile(path, flags, 0600)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if create {
		if err := f.Truncate(nSlots * slotSize); err != nil {
			panic(err)
		}
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, nSlots*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return b
}

func slotCase(slot []byte) (active bool, count uint64, maxDev int, choices []int) {
	count = binary.LittleEndian.Uint64(slot[0:])
	active = binary.LittleEndian.Uint32(slot[8:]) != 0
	maxDev = int(binary.LittleEndian.Uint32(slot[12:]))
	n := int(binary.LittleEndian.Uint32(slot[16:]))
	if n > maxSlotChoices {
		n = maxSlotChoices
	}
	for i := 0; i < n; i++ {
		choices = append(choices, int(binary.LittleEndian.Uint32(slot[24+4*i:])))
	}
	return
}

func numWorkers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		panic(err)
	}
}
