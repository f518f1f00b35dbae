// Driver for the asynchronous writers.
package main

import (
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output/async"
	"verif/harness/h"
)

type op struct {
	Op   string `json:"op"`
	W    int    `json:"w"`
	Ws   []int  `json:"ws"`
	Ret  bool   `json:"ret"`
	Fail bool   `json:"fail"`
	Pan  bool   `json:"pan"`
	Ms   int    `json:"ms"`
}

type kase struct {
	Mode     string           `json:"mode"`
	Cap      int              `json:"cap"`
	Closable bool             `json:"closable"`
	Cerr     string           `json:"cerr"`
	Free     bool             `json:"free"`
	Shared   bool             `json:"shared"` // sequential writes reuse one buffer
	Short    bool             `json:"short"`  // the sink reports short writes
	Msg      map[string][]int `json:"msg"`
	Ops      []op             `json:"ops"`
	Rounds   int              `json:"rounds"` // > 0: stampedes
	Writers  int              `json:"writers"`
	NoCb     bool             `json:"nocb"`    // no callback for the dropped
	Pace     int              `json:"pace"`    // each sink write takes so many ms
	Default  bool             `json:"default"` // the length of the queue is left to the writer
}

type sink struct {
	rec    *h.Rec
	token  chan string
	free   chan struct{}
	isFree int32
	begun  int32
	ended  int32
	short  bool
	pace   time.Duration
}

func (s *sink) Write(buf []byte) (int, error) {
	s.rec.Log("SinkB", "m", h.Bytes(buf))
	atomic.AddInt32(&s.begun, 1)
	fail := ""
	select {
	case fail = <-s.token:
	case <-s.free:
	}
	time.Sleep(s.pace)
	s.rec.Log("SinkE", "m", h.Bytes(buf))
	n := len(buf)
	atomic.AddInt32(&s.ended, 1)
	if fail == "panic" {
		panic("sink panicked")
	}
	if fail == "fail" {
		return 0, errors.New("sink failed")
	}
	if s.short && n > 0 {
		return n - 1, nil
	}
	return n, nil
}

type closableSink struct {
	*sink
	cerr error
}

func (s *closableSink) Close() error {
	s.rec.Log("SinkClose")
	return s.cerr
}

type gated struct {
	gate chan struct{}
	mu   sync.Mutex
	got  map[string]int
}

func (s *gated) Write(buf []byte) (int, error) {
	<-s.gate
	s.mu.Lock()
	s.got[string(buf)]++
	s.mu.Unlock()
	return len(buf), nil
}

// stampede: all writers call Write at the same moment, as nearly as it can be had, with the sink stalled.  Only the numbers are recorded.
func stampede(k kase, rec *h.Rec) bool {
	for r := 0; r < k.Rounds; r++ {
		s := &gated{gate: make(chan struct{}), got: map[string]int{}}
		var mu sync.Mutex
		dropped := map[string]int{}
		length := k.Cap
		if k.Default {
			length = 0
		}
		cfg := async.AsyncWriterConfig{QueueLength: length, Writer: s, IsQueueBlocking: k.Mode == "block", OnMessageDropped: func(msg []byte) {
			mu.Lock()
			dropped[string(msg)]++
			mu.Unlock()
		}}
		var logs int32
		loglog.Error = func(err error) { atomic.AddInt32(&logs, 1) }
		if k.NoCb {
			cfg.OnMessageDropped = nil
		}
		wr := async.NewAsyncWriter(cfg)
		var ready, ended, bad int32
		for i := 0; i < k.Writers; i++ {
			msg := []byte{byte(i), byte(i >> 8)}
			go func() {
				atomic.AddInt32(&ready, 1)
				for n := 0; atomic.LoadInt32(&ready) < int32(k.Writers); n++ {
					if n > 2000 {
						runtime.Gosched()
					}
				}
				n, err := wr.Write(msg)
				if n != 2 || err != nil {
					atomic.AddInt32(&bad, 1)
				}
				msg[0] = 0xee
				atomic.AddInt32(&ended, 1)
			}()
		}
		// with the sink stalled
		want := int32(k.Writers)
		if k.Mode == "block" && k.Writers > k.Cap {
			want = int32(k.Cap)
		}
		h.Until(10*time.Second, func() bool { return atomic.LoadInt32(&ended) >= want })
		mu.Lock()
		stalled, drops := atomic.LoadInt32(&ended), len(dropped)
		mu.Unlock()
		close(s.gate)
		if k.NoCb {
			// what was dropped is known only once nothing more arrives
			last, same := -1, 0
			h.Until(10*time.Second, func() bool {
				time.Sleep(5 * time.Millisecond)
				s.mu.Lock()
				defer s.mu.Unlock()
				if len(s.got) == last && atomic.LoadInt32(&ended) == int32(k.Writers) {
					same++
				} else {
					last, same = len(s.got), 0
				}
				return same >= 20
			})
			mu.Lock()
			s.mu.Lock()
			for i := 0; i < k.Writers; i++ {
				m := string([]byte{byte(i), byte(i >> 8)})
				if s.got[m] == 0 {
					dropped[m]++
				}
			}
			drops = len(dropped)
			s.mu.Unlock()
			mu.Unlock()
		}
		all := h.Until(10*time.Second, func() bool {
			s.mu.Lock()
			defer s.mu.Unlock()
			mu.Lock()
			defer mu.Unlock()
			return atomic.LoadInt32(&ended) == int32(k.Writers) && len(s.got)+len(dropped) >= k.Writers
		})
		s.mu.Lock()
		mu.Lock()
		once := len(s.got)+len(dropped) == k.Writers
		for i := 0; i < k.Writers; i++ {
			m := string([]byte{byte(i), byte(i >> 8)})
			once = once && s.got[m]+dropped[m] == 1
		}
		sent := len(s.got)
		mu.Unlock()
		s.mu.Unlock()
		if r == k.Rounds-1 || !all || !once || stalled < want || bad > 0 || drops > 0 && sent < k.Cap {
			rec.Log("Stampede", "n", k.Writers, "stalled", stalled, "drops", drops, "sent", sent, "once", once, "bad", bad,
				"logs", atomic.LoadInt32(&logs), "nocb", k.NoCb)
			return all
		}
	}
	return true
}

func run(raw []byte) ([]h.Ev, interface{}, bool) {
	var k kase
	if err := json.Unmarshal(raw, &k); err != nil {
		h.Fail("%v", err)
	}
	if k.Rounds > 0 {
		rec := &h.Rec{}
		ok := stampede(k, rec)
		return rec.Events(), map[string]interface{}{"mode": k.Mode, "cap": k.Cap, "closable": false, "cerr": "", "slow": false}, ok
	}
	rec := &h.Rec{}
	s := &sink{rec: rec, token: make(chan string), free: make(chan struct{}), short: k.Short, pace: time.Duration(k.Pace) * time.Millisecond}
	setFree := func() {
		if atomic.CompareAndSwapInt32(&s.isFree, 0, 1) {
			close(s.free)
		}
	}
	if k.Free {
		setFree()
	}
	var w io.Writer = s
	if k.Closable {
		cs := &closableSink{sink: s}
		if k.Cerr != "" {
			cs.cerr = errors.New(k.Cerr)
		}
		w = cs
	}
	var drops int32
	cfg := async.AsyncWriterConfig{QueueLength: k.Cap, Writer: w, IsQueueBlocking: k.Mode == "block"}
	if k.Mode == "drop" {
		cfg.OnMessageDropped = func(msg []byte) {
			rec.Log("Drop", "m", h.Bytes(msg))
			atomic.AddInt32(&drops, 1)
		}
	}
	wr := async.NewAsyncWriter(cfg)
	// another writer, used in between: neither is to notice the other
	osink := &gated{gate: make(chan struct{}), got: map[string]int{}}
	close(osink.gate)
	other := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: 64, Writer: osink, IsQueueBlocking: k.Mode == "block"})
	osent := map[string]int{}
	done := map[int]*int32{}
	shared := make([]byte, 64)
	start := func(id int, gate chan struct{}) {
		content := []byte{byte(id)}
		if m, ok := k.Msg[itoa(id)]; ok {
			content = h.FromInts(m)
		}
		fl := new(int32)
		done[id] = fl
		buf := append([]byte(nil), content...)
		if k.Shared {
			buf = shared[:len(content)]
		}
		go func() {
			if gate != nil {
				<-gate
			}
			copy(buf, content)
			rec.Log("WCall", "w", id, "m", h.Bytes(buf))
			n, err := wr.Write(buf)
			e := ""
			if err != nil {
				e = "err " + err.Error()
			}
			rec.Log("WRet", "w", id, "n", n, "err", e)
			for i := range buf {
				buf[i] = 0xee
			}
			atomic.StoreInt32(fl, 1)
		}()
	}
	returned := func(id int) bool { return atomic.LoadInt32(done[id]) == 1 }
	var closed int32
	var closing bool
	var elapsed time.Duration
	blocked, usable := false, true
	for _, o := range k.Ops {
		switch o.Op {
		case "write":
			start(o.W, nil)
			om := append(make([]byte, o.W*3), byte(o.W))
			osent[string(om)]++
			other.Write(om)
			if o.Ret || k.Shared {
				if !h.Until(10*time.Second, func() bool { return returned(o.W) }) && !closing {
					rec.Log("Blocked", "w", o.W)
					blocked = true
					goto end
				}
			} else {
				h.Until(time.Millisecond, func() bool { return returned(o.W) })
			}
		case "writeall":
			g := make(chan struct{})
			for _, id := range o.Ws {
				start(id, g)
			}
			close(g)
			h.Until(2*time.Millisecond, func() bool {
				for _, id := range o.Ws {
					if !returned(id) {
						return false
					}
				}
				return true
			})
		case "sink":
			if atomic.LoadInt32(&s.isFree) == 1 {
				break
			}
			h.Until(300*time.Millisecond, func() bool { return atomic.LoadInt32(&s.begun) > atomic.LoadInt32(&s.ended) })
			if atomic.LoadInt32(&s.begun) > atomic.LoadInt32(&s.ended) {
				e := atomic.LoadInt32(&s.ended)
				how := ""
				if o.Pan {
					how = "panic"
				} else if o.Fail {
					how = "fail"
				}
				s.token <- how
				h.Until(10*time.Second, func() bool { return atomic.LoadInt32(&s.ended) > e })
				h.Until(300*time.Microsecond, func() bool { return atomic.LoadInt32(&s.begun) > atomic.LoadInt32(&s.ended) })
			}
		case "free":
			setFree()
		case "pause":
			time.Sleep(time.Duration(o.Ms) * time.Millisecond)
		case "close":
			if closing {
				break
			}
			closing = true
			began := make(chan struct{})
			go func() {
				t0 := time.Now()
				rec.Log("CCall")
				close(began)
				err := wr.Close()
				e := ""
				if err != nil {
					e = err.Error()
				}
				rec.Log("CRet", "err", e)
				elapsed = time.Since(t0)
				atomic.StoreInt32(&closed, 1)
			}()
			<-began
			time.Sleep(200 * time.Microsecond)
		}
	}
end:
	setFree()
	allReturned := func() bool {
		for _, fl := range done {
			if atomic.LoadInt32(fl) == 0 {
				return false
			}
		}
		return true
	}
	if closing {
		usable = h.Until(30*time.Second, func() bool { return atomic.LoadInt32(&closed) == 1 })
		if k.Mode == "drop" {
			usable = h.Until(10*time.Second, allReturned) && usable
		}
	} else {
		usable = h.Until(15*time.Second, func() bool {
			return allReturned() && int(atomic.LoadInt32(&s.ended))+int(atomic.LoadInt32(&drops)) >= len(done)
		})
	}
	time.Sleep(2 * time.Millisecond)
	rec.Log("Quiesced")
	n := 0
	for _, x := range osent {
		n += x
	}
	all := h.Until(10*time.Second, func() bool {
		osink.mu.Lock()
		defer osink.mu.Unlock()
		m := 0
		for _, x := range osink.got {
			m += x
		}
		return m >= n
	})
	osink.mu.Lock()
	all = all && reflect.DeepEqual(osink.got, osent)
	osink.mu.Unlock()
	rec.Log("Other", "all", all)
	how, _ := h.Guard(10*time.Second, func() { other.Close() })
	usable = usable && how == "ok"
	evs := rec.Events()
	slow := atomic.LoadInt32(&closed) == 1 && elapsed > 900*time.Millisecond
	return evs, map[string]interface{}{"mode": k.Mode, "cap": k.Cap, "closable": k.Closable, "cerr": k.Cerr, "slow": slow}, usable && !blocked
}

func itoa(i int) string {
	b, _ := json.Marshal(i)
	return string(b)
}

func main() {
	loglog.Error = func(err error) {}
	h.MainPar(run)
}
