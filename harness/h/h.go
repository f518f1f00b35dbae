// Package h: what every driver shares - reading cases, recording traces.
package h

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

type Ev map[string]interface{}

// Rec is an append-only, totally ordered event log. An event is recorded under one mutex, at the call
// site named by the event (before the call for *Call events, after it for *Ret events), so if one
// operation really finished before another started, their events are in that order.
type Rec struct {
	mu  sync.Mutex
	evs []Ev
}

func (r *Rec) Log(name string, kv ...interface{}) {
	ev := Ev{"e": name}
	for i := 0; i+1 < len(kv); i += 2 {
		ev[kv[i].(string)] = kv[i+1]
	}
	r.mu.Lock()
	r.evs = append(r.evs, ev)
	r.mu.Unlock()
}

func (r *Rec) Events() []Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := make([]Ev, len(r.evs))
	copy(out, r.evs)
	return out
}

func (r *Rec) Len() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.evs)
}

// Fail ends the driver with "internal error": never a verdict.
func Fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver error: "+format+"\n", a...)
	os.Exit(4)
}

type result struct {
	Id  interface{} `json:"id"`
	Par interface{} `json:"par,omitempty"`
	Ev  []Ev        `json:"ev"`
}

// Main reads cases from argv[1], runs them one by one, and writes one trace per case to argv[2].
// run returns the events and whether the process is still usable (false: stuck goroutines were left behind).
func Main(run func(raw []byte) ([]Ev, bool)) {
	MainPar(func(raw []byte) ([]Ev, interface{}, bool) {
		ev, ok := run(raw)
		return ev, nil, ok
	})
}

func MainPar(run func(raw []byte) ([]Ev, interface{}, bool)) {
	in, err := os.Open(os.Args[1])
	if err != nil {
		Fail("%v", err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		Fail("%v", err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		raw := append([]byte(nil), sc.Bytes()...)
		var head struct {
			Id interface{} `json:"id"`
		}
		if err := json.Unmarshal(raw, &head); err != nil {
			Fail("bad case: %v", err)
		}
		b, _ := json.Marshal(Ev{"start": head.Id})
		out.Write(append(b, '\n'))
		ev, par, ok := run(raw)
		if ev == nil {
			ev = []Ev{}
		}
		b, err := json.Marshal(result{head.Id, par, ev})
		if err != nil {
			Fail("marshal: %v", err)
		}
		out.Write(append(b, '\n'))
		if !ok {
			os.Exit(3)
		}
	}
	if err := sc.Err(); err != nil {
		Fail("%v", err)
	}
	out.Close()
	os.Exit(0)
}

// Until polls cond for at most d. It is only used to wait for things that must happen, with a generous d.
func Until(d time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(d)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(200 * time.Microsecond)
		}
	}
}

// Guard runs f in its own goroutine and reports how it ended: "ok", "panic" or "hang".
func Guard(d time.Duration, f func()) (string, string) {
	type end struct{ how, msg string }
	ch := make(chan end, 1)
	go func() {
		done := false
		defer func() {
			if r := recover(); r != nil {
				ch <- end{"panic", fmt.Sprint(r)}
			} else if !done {
				ch <- end{"goexit", ""}
			}
		}()
		f()
		done = true
		ch <- end{"ok", ""}
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case e := <-ch:
		return e.how, e.msg
	case <-t.C:
		return "hang", ""
	}
}

// Bytes renders a byte string as a JSON array of numbers (TLC has no bytes).
func Bytes(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func Str(s string) []int { return Bytes([]byte(s)) }

func FromInts(a []int) []byte {
	out := make([]byte, len(a))
	for i, x := range a {
		out[i] = byte(x)
	}
	return out
}
