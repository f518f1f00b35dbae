// Driver of goroutine local storage (C07).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"strconv"
	"sync"

	"github.com/v2pro/plz/gls"
	"verif/harness/h"
)

type op struct {
	Op    string `json:"op"`
	G     int    `json:"g"`
	W     int    `json:"w"`
	K     int    `json:"k"`
	N     int    `json:"n"`
	Kind  string `json:"kind"`
	How   string `json:"how"`
	Empty bool   `json:"empty"`
	Ops   []op   `json:"ops"` // call: what the function does
}
type kase struct {
	Id    string `json:"id"`
	Mode  string `json:"mode"`
	Ops   []op   `json:"ops"`
	Progs [][]op `json:"progs"` // conc: program of goroutine i+1
	Roots []int  `json:"roots"`
	Keys  int    `json:"keys"` // which real keys stand for 1..5
}

// a value with a Copy method
type box struct{ n int }

func (b *box) Copy() interface{} { return &box{b.n} }

type skey struct{ a, b int }

var keySets = [][]interface{}{
	{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"},
	{1, int64(1), int32(1), "1", uint8(1), 2, int64(2), int32(2), "2", uint8(2)},
	{skey{1, 2}, skey{2, 1}, [2]int{1, 2}, true, nil, false, [2]int{2, 1}, skey{}, [1]int{1}, [0]int{}},
	{&[]int{1}[0], &[]int{1}[0], 1.5, "", 'x', float32(1.5), 0.0, 'y', complex(1, 2), struct{}{}},
}

type ptr struct{ n int }

var ptrs [64]*ptr

func init() {
	for i := range ptrs {
		ptrs[i] = &ptr{i}
	}
}

// value encodes <<kind, n>>
func mk(kind string, n int) (interface{}, []int) {
	switch kind {
	case "box":
		return &box{n}, []int{2, n}
	case "ptr":
		return ptrs[n%64], []int{1, 1000 + n%64}
	case "str":
		return strconv.Itoa(n), []int{1, 2000 + n}
	default:
		return n, []int{1, n}
	}
}
func enc(v interface{}) []int {
	switch x := v.(type) {
	case nil:
		return []int{0, 0}
	case *box:
		return []int{2, x.n}
	case *ptr:
		return []int{1, 1000 + x.n}
	case string:
		n, _ := strconv.Atoi(x)
		return []int{1, 2000 + n}
	case int:
		return []int{1, x}
	}
	return []int{9, 9}
}

func runtimeID() int {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	f := bytes.Fields(buf)
	n, err := strconv.Atoi(string(f[1]))
	if err != nil {
		h.Fail("%v", err)
	}
	return n
}

// one goroutine: executes operations in itself
type gor struct {
	g    int
	k    *kase
	keys []interface{}
	rec  *h.Rec
	fns  *sync.Map // wrapped functions: w -> func(), made by the wrapping goroutine, run by the starting one
	body *sync.Map // w -> chan of what the started goroutine has to do
	goid int64
	// the very box last seen under a key since the storage began
	seen map[int]*box
}

func (x *gor) begin(w int) {
	x.goid = gls.GoID()
	x.seen = nil
	x.rec.Log("Begin", "g", x.g, "w", w, "id", int(x.goid), "rid", runtimeID())
}
func (x *gor) key(k int) interface{} {
	if k == 0 {
		k = 1
	}
	return x.keys[k-1]
}
func kn(k int) int {
	if k == 0 {
		return 1
	}
	return k
}
func (x *gor) saw(k int, v interface{}) {
	if x.seen == nil {
		x.seen = map[int]*box{}
	}
	b, _ := v.(*box)
	x.seen[kn(k)] = b
}
func (x *gor) get(k int) {
	v := gls.Get(x.key(k))
	before, known := x.seen[kn(k)]
	b, _ := v.(*box)
	x.rec.Log("Get", "g", x.g, "k", kn(k), "v", enc(v), "other", known && before != b)
	x.saw(k, v)
}
func (x *gor) set(k int, kind string, n int) {
	v, e := mk(kind, n)
	panicked := false
	func() {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		gls.Set(x.key(k), v)
	}()
	x.rec.Log("Set", "g", x.g, "k", kn(k), "v", e, "p", panicked)
	if !panicked {
		x.saw(k, v)
	}
}
func (x *gor) do(o op) {
	switch o.Op {
	case "set":
		x.set(o.K, o.Kind, o.N)
	case "get":
		x.get(o.K)
	case "mutate":
		b, ok := gls.Get(x.key(o.K)).(*box)
		if ok {
			b.n = o.N
		}
		x.rec.Log("Mutate", "g", x.g, "k", kn(o.K), "n", o.N, "done", ok)
	case "enabled":
		x.rec.Log("Enabled", "g", x.g, "r", gls.IsGlsEnabled(gls.GoID()))
	case "reset":
		v, e := mk(o.Kind, o.N)
		gls.ResetGls(gls.GoID(), map[interface{}]interface{}{x.key(o.K): v})
		x.seen = nil
		x.rec.Log("Reset", "g", x.g, "k", kn(o.K), "v", e)
	case "delete":
		gls.DeleteGls(gls.GoID())
		x.seen = nil
		x.rec.Log("Delete", "g", x.g)
	case "wrap":
		ch := make(chan func(), 64) // what a goroutine started with it runs
		f := func() { (<-ch)() }
		var w func()
		if o.Empty {
			w = gls.WithEmptyGls(f)
		} else {
			w = gls.WithGls(f)
		}
		x.fns.Store(o.W, w)
		x.body.Store(o.W, ch)
		x.rec.Log("Wrap", "g", x.g, "w", o.W, "empty", o.Empty)
	case "call": // a wrapped function called in this goroutine
		wf, ok := x.fns.Load(o.W)
		if !ok {
			h.Fail("no function %d", o.W)
		}
		ch, _ := x.body.Load(o.W)
		how := "goexit"
		ch.(chan func()) <- func() {
			x.seen = nil
			x.rec.Log("Call", "g", x.g, "w", o.W)
			x.get(1)
			x.do(op{Op: "enabled"})
			for _, i := range o.Ops {
				x.do(i)
			}
			if o.How == "panic" {
				panic(endPanic{})
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(endPanic); !ok {
						panic(r)
					}
					how = "panic"
				}
			}()
			wf.(func())()
			how = "return"
		}()
		x.seen = nil
		x.rec.Log("Return", "g", x.g, "how", how, "want", o.How)
	case "yield":
		runtime.Gosched()
	default:
		h.Fail("op %s", o.Op)
	}
}

type endPanic struct{}

// start runs child as goroutine of the wrapped function w (0: plain); main is its program, and after it ended, after.
func start(child *gor, fns, body *sync.Map, w int, main func() string, done func()) {
	f := func() { main() }
	want := "return"
	var run func()
	if w == 0 {
		run = func() { child.begin(0); f() }
	} else {
		wf, ok := fns.Load(w)
		if !ok {
			h.Fail("no function %d", w)
		}
		ch, _ := body.Load(w)
		run = func() {
			ch.(chan func()) <- func() {
				child.begin(w)
				want = main()
				switch want {
				case "panic":
					panic(endPanic{})
				case "goexit":
					runtime.Goexit()
				}
			}
			wf.(func())()
		}
	}
	go func() {
		defer done()
		how := "goexit"
		defer func() {
			if how == "goexit" && w != 0 {
				child.rec.Log("End", "g", child.g, "how", how, "want", want)
			}
		}()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(endPanic); !ok {
						panic(r)
					}
					how = "panic"
				}
			}()
			run()
			how = "return"
		}()
		if w != 0 {
			child.rec.Log("End", "g", child.g, "how", how, "want", want)
			child.seen = nil
			// behind the wrapped function there is no storage any more
			child.get(1)
			child.set(2, "plain", 5)
			child.get(2)
		}
	}()
}

// the bodies of one wrapped function started several times are interchangeable only if each start takes its own body:
// the channel is buffered and the body is put in by the goroutine that then takes it - another goroutine started
// with the same function may take it instead, so starts of one function in conc mode are serialized by this lock.
type cmd struct {
	f    func()
	done chan struct{}
}

func runScript(k *kase) ([]h.Ev, bool) {
	rec := &h.Rec{}
	fns, body := &sync.Map{}, &sync.Map{}
	gs := map[int]*gor{}
	chans := map[int]chan cmd{}
	ends := map[int]chan string{}
	over := map[int]chan struct{}{}
	var wg sync.WaitGroup
	mkg := func(g int) *gor {
		return &gor{g: g, k: k, keys: keySets[k.Keys%len(keySets)], rec: rec, fns: fns, body: body}
	}
	spawn := func(g, w int) {
		x := mkg(g)
		gs[g] = x
		chans[g] = make(chan cmd)
		end := make(chan string, 1)
		ends[g] = end
		over[g] = make(chan struct{})
		began := make(chan struct{})
		wg.Add(1)
		start(x, fns, body, w, func() string {
			close(began)
			for {
				select {
				case c := <-chans[g]:
					c.f()
					close(c.done)
				case how := <-end:
					return how
				}
			}
		}, func() { close(over[g]); wg.Done() })
		<-began
	}
	on := func(g int, f func()) {
		c := cmd{f, make(chan struct{})}
		chans[g] <- c
		<-c.done
	}
	spawn(1, 0)
	live := map[int]bool{1: true}
	n := 10
	for _, o := range k.Ops {
		o := o
		n++
		if o.N == 0 {
			o.N = n
		}
		switch o.Op {
		case "start":
			spawn(o.G, o.W)
			live[o.G] = true
		case "end":
			live[o.G] = false
			ends[o.G] <- o.How
			<-over[o.G]
		default:
			x := gs[o.G]
			on(o.G, func() { x.do(o) })
		}
		for g := 1; g <= len(gs); g++ {
			if live[g] {
				x := gs[g]
				on(g, func() {
					x.get(1)
					x.get(2)
					x.do(op{Op: "enabled"})
				})
			}
		}
	}
	// the first goroutine's storage is its own business
	on(1, func() { gls.DeleteGls(gls.GoID()) })
	for g := range gs {
		if live[g] {
			ends[g] <- "return"
		}
	}
	wg.Wait()
	for g := 2; g <= len(gs); g++ {
		rec.Log("Gone", "g", g, "r", gls.IsGlsEnabled(gs[g].goid) || gls.GetGls(gs[g].goid) != nil)
	}
	return rec.Events(), true
}

func runConc(k *kase) ([]h.Ev, bool) {
	n := len(k.Progs)
	gs := make([]*gor, n+1)
	started := make([]bool, n+1)
	var wg sync.WaitGroup
	for g := 1; g <= n; g++ {
		gs[g] = &gor{g: g, k: k, keys: keySets[k.Keys%len(keySets)], rec: &h.Rec{}, fns: &sync.Map{}, body: &sync.Map{}}
	}
	children := make([][]int, n+1)
	var prog func(g int) func() string
	prog = func(g int) func() string {
		return func() string {
			x := gs[g]
			how := "return"
			for _, o := range k.Progs[g-1] {
				switch o.Op {
				case "spawn": // goroutine o.G with function o.W, wrapped by this goroutine
					wg.Add(1)
					children[g] = append(children[g], o.G)
					c := gs[o.G]
					// every start needs a function of its own here: bodies must not be swapped
					start(c, x.fns, x.body, o.W, prog(o.G), wg.Done)
				case "end":
					how = o.How
				default:
					x.do(o)
				}
			}
			return how
		}
	}
	go1 := make(chan struct{})
	for _, r := range k.Roots {
		wg.Add(1)
		r := r
		x := gs[r]
		go func() {
			defer wg.Done()
			<-go1
			x.begin(0)
			prog(r)()
			gls.DeleteGls(gls.GoID())
		}()
	}
	close(go1)
	wg.Wait()
	var evs []h.Ev
	ids := map[int64]bool{}
	var walk func(g int)
	cnt := 0
	walk = func(g int) {
		started[g] = true
		cnt++
		ids[gs[g].goid] = true
		evs = append(evs, gs[g].rec.Events()...)
		for _, c := range children[g] {
			walk(c)
		}
	}
	for _, r := range k.Roots {
		walk(r)
	}
	for g := 1; g <= n; g++ {
		if started[g] && !isRoot(k, g) {
			evs = append(evs, h.Ev{"e": "Gone", "g": g, "r": gls.IsGlsEnabled(gs[g].goid)})
		}
	}
	evs = append(evs, h.Ev{"e": "Unique", "n": cnt, "distinct": len(ids)})
	return evs, true
}
func isRoot(k *kase, g int) bool {
	for _, r := range k.Roots {
		if r == g {
			return true
		}
	}
	return false
}

func main() {
	h.Main(func(raw []byte) ([]h.Ev, bool) {
		var k kase
		if err := json.Unmarshal(raw, &k); err != nil {
			h.Fail("%v", err)
		}
		_ = fmt.Sprint
		if k.Mode == "conc" {
			return runConc(&k)
		}
		return runScript(&k)
	})
}
