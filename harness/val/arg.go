package val

import (
	"encoding/json"
	"errors"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verif/harness/h"
)

// Arg describes a key and its value, as given to the formatters and the logger.
type Arg struct {
	Key    []int           `json:"key"`
	NK     bool            `json:"nk"`     // the key is not a string
	NilKey bool            `json:"nilkey"` // but nil
	Kind   string          `json:"kind"`
	S      []int           `json:"s"`
	I      string          `json:"i"`
	T      *Typ            `json:"t"`
	Val    *Val            `json:"val"`
	V      json.RawMessage `json:"v"` // the tree of a json value
	Lay    [][]int         `json:"lay"`
}

type selfV struct{ s string }

func (x selfV) String() string { return x.s }

type selfP struct{ s string }

func (x *selfP) String() string { return x.s }

type selfS string

func (x selfS) String() string { return "<" + string(x) + ">" }

type selfI int

func (x selfI) String() string { return strings.Repeat("i", int(x)) }

type selfE struct{ s string } // prints itself, and is an error: the former wins

func (x selfE) String() string { return x.s }
func (x selfE) Error() string  { return "error of " + x.s }

// values that make trouble

type boomS struct{ s string }

func (x boomS) String() string { panic("String of " + x.s) }

type boomE struct{ s string }

func (x boomE) Error() string { panic("Error of " + x.s) }

type boomJ struct{ s string }

func (x boomJ) MarshalJSON() ([]byte, error) { panic("MarshalJSON of " + x.s) }

type errJ struct{ s string }

func (x errJ) MarshalJSON() ([]byte, error) { return nil, errors.New("MarshalJSON of " + x.s) }

type cyclic struct{ Next *cyclic }

// OnString is called when a value of kind "logs" prints itself.
var OnString func(s string)

type logsS struct{ s string }

func (x logsS) String() string {
	if OnString != nil {
		OnString(x.s)
	}
	return x.s
}

// Bad tells whether the argument makes trouble.
func (a *Arg) Bad() bool {
	switch a.Kind {
	case "boomS", "boomE", "boomJ", "errJ", "nilself", "chan", "func", "cyclic":
		return true
	}
	return a.NK
}

// Make gives the key, the value, and what the specification is told about them.
func (a *Arg) Make() (interface{}, interface{}, h.Ev) {
	var key interface{} = string(h.FromInts(a.Key))
	ev := h.Ev{"str": true, "key": a.Key}
	if a.NK {
		key = 42
		if a.NilKey {
			key = nil
		}
		ev["str"] = false
	}
	if a.Key == nil {
		ev["key"] = []int{}
	}
	s := string(h.FromInts(a.S))
	num, _ := strconv.ParseInt(a.I, 10, 64)
	var v interface{}
	// a value that prints itself; j: what it is
	self := func(x interface{ String() string }, j h.Ev) {
		v = x
		ev["v"] = h.Ev{"w": "self", "s": h.Str(x.String()), "j": j}
	}
	empty := h.Ev{"k": "struct", "f": []int{}}
	trouble := func(x interface{}) {
		v = x
		ev["v"] = h.Ev{"w": "odd", "j": empty}
	}
	integer := func(i int64) h.Ev { return h.Ev{"k": "int", "t": h.Str(strconv.FormatInt(i, 10))} }
	switch a.Kind {
	case "str":
		v = s
		ev["v"] = h.Ev{"w": "text", "s": h.Str(s), "j": h.Ev{"k": "str", "s": h.Str(s)}}
	case "bytes":
		v = []byte(s)
		ev["v"] = h.Ev{"w": "bytes", "s": h.Str(s), "j": h.Ev{"k": "bytes", "s": h.Str(s)}}
	case "selfv":
		self(selfV{s}, empty)
	case "selfp":
		self(&selfP{s}, empty)
	case "selfs":
		self(selfS(s), h.Ev{"k": "str", "s": h.Str(s)})
	case "selfi":
		self(selfI(num%20), integer(num%20))
	case "selfe":
		self(selfE{s}, h.Ev{"k": "str", "s": h.Str("error of " + s)})
	case "dur":
		self(time.Duration(num), integer(num))
	case "time":
		t := time.Unix(num/1000, num%1000*1000000).In(Zone(num))
		v = t
		j, _ := t.MarshalJSON()
		lay := []h.Ev{}
		for _, l := range a.Lay {
			lay = append(lay, h.Ev{"l": l, "s": h.Str(t.Format(string(h.FromInts(l))))})
		}
		ev["v"] = h.Ev{"w": "time", "s": h.Str(t.String()), "lay": lay, "j": h.Ev{"k": "raw", "t": h.Bytes(j)}}
	case "nil":
		ev["v"] = h.Ev{"w": "json", "v": h.Ev{"k": "nil"}, "j": h.Ev{"k": "nil"}}
	case "json":
		x := reflect.New(TypeOf(a.T)).Elem()
		Set(x, a.Val)
		v = x.Interface()
		ev["v"] = h.Ev{"w": "json", "v": a.V, "j": a.V}
	case "timer":
		v = num
		ev["v"] = h.Ev{"w": "timer", "v": integer(num), "j": integer(num), "dur": []int{}}
	case "logs":
		v = logsS{s}
		ev["v"] = h.Ev{"w": "self", "s": h.Str(s), "j": empty}
	case "boomS":
		trouble(boomS{s})
	case "boomE":
		trouble(boomE{s})
	case "boomJ":
		trouble(boomJ{s})
	case "errJ":
		trouble(errJ{s})
	case "nilself":
		trouble((*selfP)(nil))
	case "cyclic":
		n := &cyclic{}
		n.Next = n
		trouble(n)
	case "chan":
		trouble(make(chan int))
	case "func":
		trouble(func() {})
	default:
		h.Fail("arg kind %q", a.Kind)
	}
	return key, v, ev
}

var zones = []*time.Location{time.UTC, time.UTC, time.FixedZone("CET", 3600), time.FixedZone("", 5*3600+1800), time.FixedZone("far", -9*3600-1800)}

// Zone is one of the zones that times are in
func Zone(n int64) *time.Location {
	if n < 0 {
		n = 0
	}
	return zones[n%int64(len(zones))]
}

// the zone of the process is none of them
func init() {
	time.Local = time.FixedZone("here", -3*3600)
}

// Args is a list of them, odd: the last one has no value
func Args(as []Arg, odd bool) ([]interface{}, []h.Ev) {
	kv, evs := []interface{}{}, []h.Ev{}
	for i := range as {
		k, v, ev := as[i].Make()
		if odd && i == len(as)-1 {
			kv = append(kv, k)
			continue
		}
		kv = append(kv, k, v)
		evs = append(evs, ev)
	}
	return kv, evs
}
