// Driver of the message formatter: histories of calls.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/v2pro/plz/msgfmt"
	"verif/harness/h"
	"verif/harness/val"
)

type call struct {
	Api    string    `json:"api"`
	Tpl    []int     `json:"tpl"`
	Args   []val.Arg `json:"args"`
	Sample []val.Arg `json:"sample"`
	Odd    bool      `json:"odd"`
	Pre    []int     `json:"pre"`
	Fail   bool      `json:"fail"`
}

type kase struct {
	Par   int    `json:"par"`
	Calls []call `json:"calls"`
}

type sink struct {
	b    bytes.Buffer
	fail bool
}

var errSink = errors.New("sink")

func (s *sink) Write(p []byte) (int, error) {
	if s.fail {
		return 0, errSink
	}
	// slowly, so that others get to use whatever the library thinks it can use again
	n, _ := s.b.Write(p[:len(p)/2])
	runtime.Gosched()
	m, _ := s.b.Write(p[len(p)/2:])
	return n + m, nil
}

// the key is built on the stack of the caller, where the next caller's key is going to be
//
//go:noinline
func onStack(tpl string, a, b string, v string) string {
	k := a + b
	return msgfmt.Sprintf(tpl, k, v)
}

// Printf and Println look up os.Stdout when called
func fromStdout(f func() (int, error)) (int, error, []byte) {
	done := make(chan []byte, 1)
	r, w, err := os.Pipe()
	val.Must(err)
	os.Stdout = w
	go func() {
		b, _ := io.ReadAll(r)
		done <- b
	}()
	n, err := func() (int, error) {
		defer w.Close()
		return f()
	}()
	b := <-done
	r.Close()
	return n, err, b
}

func one(rec *h.Rec, c *call) bool {
	kv, evs := val.Args(c.Args, c.Odd)
	tpl := string(h.FromInts(c.Tpl))
	pre := h.FromInts(c.Pre)
	ev := []interface{}{"api", c.Api, "tpl", h.Str(tpl), "args", evs, "pre", h.Bytes(pre)}
	var out []byte
	n, good := -1, true
	how, msg := h.Guard(30*time.Second, func() {
		switch c.Api {
		case "Sprintf":
			out = []byte(msgfmt.Sprintf(tpl, kv...))
		case "Fprintf", "Fprintln":
			s := &sink{fail: c.Fail}
			var err error
			if c.Api == "Fprintf" {
				n, err = msgfmt.Fprintf(s, tpl, kv...)
			} else {
				vs := []interface{}{}
				for i := 1; i < len(kv); i += 2 {
					vs = append(vs, kv[i])
				}
				n, err = msgfmt.Fprintln(s, vs...)
			}
			out = s.b.Bytes()
			if c.Fail {
				good = err == errSink && n == 0
			} else {
				good = err == nil
			}
		case "Stack":
			v, _ := kv[1].(string)
			k, k2 := kv[0].(string), string(h.FromInts(c.Sample[0].Key))
			v2 := "before"
			onStack(tpl, k2[:1], k2[1:], v2)
			out = []byte(onStack(tpl, k[:1], k[1:], v))
		case "Printf":
			var err error
			n, err, out = fromStdout(func() (int, error) { return msgfmt.Printf(tpl, kv...) })
			good = err == nil
		case "Println":
			vs := []interface{}{}
			for i := 1; i < len(kv); i += 2 {
				vs = append(vs, kv[i])
			}
			var err error
			n, err, out = fromStdout(func() (int, error) { return msgfmt.Println(vs...) })
			good = err == nil
		case "Formatter":
			sample := kv
			if c.Sample != nil {
				sample, _ = val.Args(c.Sample, c.Odd)
			}
			f := msgfmt.FormatterOf(tpl, sample)
			out = f.Format(append(make([]byte, 0, len(pre)+len(pre)%5), pre...), kv)
		default:
			h.Fail("api %s", c.Api)
		}
		out = append([]byte{}, out...)
	})
	if how != "ok" {
		rec.Log("Ended", append(ev, "how", how, "msg", msg)...)
		return how != "hang"
	}
	if c.Fail {
		rec.Log("Refused", append(ev, "good", good, "out", h.Bytes(out))...)
		return true
	}
	rec.Log("Format", append(ev, "good", good, "n", n, "out", h.Bytes(out))...)
	return true
}

func run(raw []byte) ([]h.Ev, bool) {
	var k kase
	val.Must(json.Unmarshal(raw, &k))
	rec := &h.Rec{}
	if k.Par == 0 {
		for i := range k.Calls {
			if !one(rec, &k.Calls[i]) {
				return rec.Events(), false
			}
		}
		return rec.Events(), true
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	ok := make([]bool, k.Par)
	for g := 0; g < k.Par; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for i := range k.Calls {
				if !one(rec, &k.Calls[(i+g)%len(k.Calls)]) {
					return
				}
			}
			ok[g] = true
		}()
	}
	close(gate)
	wg.Wait()
	for _, o := range ok {
		if !o {
			return rec.Events(), false
		}
	}
	return rec.Events(), true
}

func main() { h.Main(run) }
