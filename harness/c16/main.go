// Driver of plz.Close, plz.CloseAll and plz.MergeErrors.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/v2pro/plz"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
	"verif/harness/h"
)

type op struct {
	Fn    string   `json:"fn"`
	Q     []string `json:"q"`   // outcomes
	Ids   []int    `json:"ids"` // which resource it is; the same one may be there again
	Props string   `json:"props"`
	Wrap  bool     `json:"wrap"`
}

type kase struct {
	Min int    `json:"min"`
	Gs  [][]op `json:"gs"`
}

type ptrErr struct{ s string }

func (e *ptrErr) Error() string {
	if e == nil {
		return "typed nil"
	}
	return e.s
}

// errors that others give a meaning to
var known = []error{io.EOF, os.ErrClosed, io.ErrClosedPipe, context.Canceled, context.DeadlineExceeded, net.ErrClosed, syscall.EPIPE, io.ErrUnexpectedEOF,
	&os.PathError{Op: "close", Path: "x", Err: os.ErrClosed}, os.ErrInvalid, errors.New(""), plz.MultiError(nil), plz.MultiError{}, plz.MultiError{io.EOF}}

type structErr struct{ N int }

func (e structErr) Error() string { return fmt.Sprint("struct ", e.N) }

type closer struct{ f func() error }

func (c closer) Close() error { return c.f() }

// errs numbers the errors of a case, by identity
type errs struct {
	mu  sync.Mutex
	all []error
}

func (x *errs) num(err error) int {
	if err == nil {
		return 0
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for i, e := range x.all {
		if same(e, err) {
			return i + 1
		}
	}
	x.all = append(x.all, err)
	return len(x.all)
}

func same(a, b error) (eq bool) {
	ma, ok1 := a.(plz.MultiError)
	mb, ok2 := b.(plz.MultiError)
	if ok1 || ok2 {
		return ok1 && ok2 && len(ma) == len(mb) && (ma == nil) == (mb == nil) && (len(ma) == 0 || &ma[0] == &mb[0])
	}
	return a == b
}

func text(v interface{}) string {
	if e, ok := v.(error); ok {
		return fmt.Sprintf("%T %s", v, e.Error())
	}
	return fmt.Sprintf("%T %v", v, v)
}

func texts(kv []interface{}) []string {
	out := []string{}
	for _, v := range kv {
		out = append(out, text(v))
	}
	return out
}

func list(x *errs, es []error) []int {
	out := []int{}
	for _, e := range es {
		out = append(out, x.num(e))
	}
	return out
}

// handlers are kept by the library for good, cases come and go
var handle atomic.Value

func run(raw []byte) ([]h.Ev, interface{}, bool) {
	var k kase
	if err := json.Unmarshal(raw, &k); err != nil {
		h.Fail("%v", err)
	}
	rec := &h.Rec{}
	x := &errs{}
	owner := map[int]int{} // the goroutine an error belongs to
	var omu sync.Mutex
	where := make([]string, len(k.Gs)+1)
	spi.MinLevel = k.Min
	sink := func(site *spi.LogSite) spi.EventHandler {
		name := site.Event
		return spi.FuncEventHandler(func(ev *spi.Event) { handle.Load().(func(string, *spi.Event))(name, ev) })
	}
	handle.Store(func(name string, ev *spi.Event) {
		n, txt, g := 0, "", 0
		for i := 0; i+1 < len(ev.Properties); i += 2 {
			if key, _ := ev.Properties[i].(string); key == "err" { // the last one is the error of the resource
				if e, ok := ev.Properties[i+1].(error); ok {
					n, txt = x.num(e), text(e)
				}
			}
			if key, _ := ev.Properties[i].(string); key == "gid" {
				g, _ = ev.Properties[i+1].(int)
			}
		}
		omu.Lock()
		if g == 0 {
			g = owner[n]
		}
		if g == 0 {
			g = 1
		}
		at := strings.Contains(name, where[g])
		omu.Unlock()
		rec.Log("Logged", "g", g, "lv", ev.Level, "err", n, "text", txt, "at", at, "props", texts(ev.Properties))
	})
	countlog.EventWriter = spi.FuncEventSink(sink)
	multi := plz.MultiError{errors.New("a"), errors.New("b")}
	shared := append(make([]interface{}, 0, 8), "k1", 1, "k2", "two") // the same one for all, with room for more
	sentinel := fmt.Sprint(shared[:8])
	exec := func(g int, o op) {
		sameErr := errors.New(fmt.Sprint("same ", g))
		fail := func(i int) error {
			switch o.Q[i] {
			case "ok":
				return nil
			case "err":
				return errors.New(fmt.Sprint("failed ", g, " ", i))
			case "same":
				return sameErr
			case "typednil":
				var e *ptrErr
				return e
			case "multi":
				return multi
			case "known":
				return known[(g+i)%len(known)]
			case "struct":
				return structErr{g*100 + i%2}
			}
			h.Fail("outcome %s", o.Q[i])
			return nil
		}
		if o.Fn == "Merge" {
			in := make([]error, len(o.Q), len(o.Q)+2)
			for i := range o.Q {
				in[i] = fail(i)
			}
			before := list(x, in)
			err := plz.MergeErrors(in...)
			out := []error{}
			m, ok := err.(plz.MultiError)
			if ok {
				out = append(out, m...)
			}
			rec.Log("Merged", "in", before, "out", list(x, out), "nil", err == nil, "kept", fmt.Sprint(before) == fmt.Sprint(list(x, in)))
			return
		}
		var props []interface{}
		switch o.Props {
		case "none":
		case "two":
			props = []interface{}{"gid", g, "é", 2.5}
		case "full":
			props = append(make([]interface{}, 0, 2), "gid", g)
		case "room":
			props = shared
		case "room1", "room2", "room3", "room4":
			props = append(make([]interface{}, 0, 2+int(o.Props[4]-'0')), "gid", g)
		case "err":
			props = append(make([]interface{}, 0, 10), "err", errors.New("mine"), "gid", g)
		case "odd":
			props = append(make([]interface{}, 0, 10), "gid", g, "alone")
		}
		given := texts(props)
		wide := fmt.Sprint(props[:cap(props)])
		var rs []io.Closer
		again := map[int]io.Closer{} // the same resource at several places of the list
		for i := range o.Q {
			i := i
			err := fail(i)
			n := x.num(err)
			omu.Lock()
			if n != 0 && owner[n] == 0 {
				owner[n] = g
			}
			omu.Unlock()
			f := func() error {
				rec.Log("Closed", "g", g, "r", o.Ids[i], "err", n)
				return err
			}
			if again[o.Ids[i]] != nil {
				rs = append(rs, again[o.Ids[i]])
				continue
			}
			if o.Wrap {
				rs = append(rs, plz.WrapCloser(f))
			} else {
				rs = append(rs, closer{f})
			}
			again[o.Ids[i]] = rs[i]
		}
		ids := o.Ids
		if ids == nil {
			ids = []int{}
		}
		orig := append([]io.Closer(nil), rs...)
		rec.Log("Begin", "g", g, "list", ids, "props", given)
		var err error
		var got []error
		if o.Fn == "Close" {
			err = place(&omu, where, g, func() error { return plz.Close(rs[0], props...) })
			if err != nil {
				got = []error{err}
			}
		} else {
			err = place(&omu, where, g, func() error { return plz.CloseAll(rs, props...) })
			if m, ok := err.(plz.MultiError); ok {
				got = append(got, m...)
			}
		}
		kept := fmt.Sprint(texts(props)) == fmt.Sprint(given) && fmt.Sprint(props[:cap(props)]) == wide && len(rs) == len(orig)
		for i := range orig {
			kept = kept && fmt.Sprintf("%p", rs[i]) == fmt.Sprintf("%p", orig[i])
		}
		rec.Log("Ret", "g", g, "errs", list(x, got), "nil", err == nil, "kept", kept)
	}
	var wg sync.WaitGroup
	stuck := false
	one := func(g int) {
		for _, o := range k.Gs[g-1] {
			o := o
			if how, msg := h.Guard(20*time.Second, func() { exec(g, o) }); how != "ok" {
				rec.Log("Failed", "g", g, "how", how, "msg", msg)
				stuck = stuck || how == "hang"
				return
			}
		}
	}
	if len(k.Gs) == 1 {
		one(1)
	} else {
		for g := 1; g <= len(k.Gs); g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				one(g)
			}()
		}
		wg.Wait()
	}
	if fmt.Sprint(shared[:8]) != sentinel {
		rec.Log("Failed", "how", "properties of the callers changed", "msg", fmt.Sprint(shared[:8]))
	}
	return rec.Events(), map[string]interface{}{"gs": len(k.Gs)}, !stuck
}

// place records where f is written: f is one line, the one of the call of place
func place(mu *sync.Mutex, where []string, g int, f func() error) error {
	_, file, line, _ := runtime.Caller(1)
	mu.Lock()
	where[g] = fmt.Sprintf("%s:%d", file, line)
	mu.Unlock()
	return f()
}

func main() { h.MainPar(run) }
