package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/v2pro/plz/reflect2"
	"verif/harness/h"
)

// keys numbered from 1
func keyFor(name string, n int) reflect.Value {
	var v interface{}
	switch name {
	case "int":
		v = n - 1
	case "int8":
		v = int8(n - 1)
	case "uint16":
		v = uint16(n * 255)
	case "uint32":
		v = uint32(n * 1000003)
	case "uint64":
		v = uint64(n) << 50
	case "string":
		v = fmt.Sprint("k", n-1)
		if n == 1 {
			v = ""
		}
	case "str":
		v = str(fmt.Sprint("k", n-1))
	case "float64":
		v = float64(n-1) / 4
	case "bool":
		v = n%2 == 0
	case "small":
		v = small{int8(n), fmt.Sprint(n), int64(-n)}
	case "odd3":
		v = odd3{byte(n), byte(n >> 1), 7}
	case "arr2str":
		v = [2]string{fmt.Sprint(n), "x"}
	case "big":
		b := big{}
		b.X[39] = int64(n)
		v = b
	case "ptr", "onePtr", "uptr", "arrPtr", "chan":
		v = ptrKeys(name, n)
	case "any":
		switch n % 4 {
		case 0:
			v = n
		case 1:
			v = fmt.Sprint(n)
		case 2:
			v = small{C: int64(n)}
		case 3:
			v = &ptrKeyArr[n]
		}
		if n == 2 {
			return reflect.Zero(reflect.TypeOf((*interface{})(nil)).Elem())
		}
	case "iface":
		v = str(fmt.Sprint(n))
		if n%3 == 0 {
			v = &ptrStrs[n]
		}
		if n == 2 {
			return reflect.Zero(reflect.TypeOf((*fmt.Stringer)(nil)).Elem())
		}
	case "empty":
		v = struct{}{}
	default:
		h.Fail("key %q", name)
	}
	return reflect.ValueOf(v)
}

var ptrKeyArr [1 << 12]int
var ptrStrs [1 << 12]ptrStr
var chans [1 << 12]chan int

func ptrKeys(name string, n int) interface{} {
	p := &ptrKeyArr[n-1]
	switch name {
	case "ptr":
		return p
	case "onePtr":
		return onePtr{p}
	case "arrPtr":
		return [1]*int{p}
	case "chan":
		if chans[n] == nil {
			chans[n] = make(chan int)
		}
		return chans[n]
	}
	return reflect.ValueOf(p).UnsafePointer()
}

type mapRun struct {
	k    kase
	key  *typ
	e    *typ
	mt   reflect.Type
	vars []*holder
	ids  []uintptr
	keep []reflect.Value
	keys []reflect.Value // addressable
	num  map[interface{}]int
}

func (x *mapRun) keyOf(n int) reflect.Value {
	for len(x.keys) < n {
		p := reflect.New(x.key.t).Elem()
		p.Set(keyFor(x.k.Key, len(x.keys)+1))
		x.keys = append(x.keys, p)
		x.num[p.Interface()] = len(x.keys)
	}
	return x.keys[n-1]
}

func (x *mapRun) which(v reflect.Value) int {
	if v.Type() != x.key.t {
		return -2
	}
	return x.num[v.Interface()]
}

func (x *mapRun) ents(m reflect.Value) [][2]int {
	out := [][2]int{}
	it := m.MapRange()
	for it.Next() {
		out = append(out, [2]int{x.which(it.Key()), x.e.which(it.Value())})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

func (x *mapRun) id(m reflect.Value) int {
	if m.IsNil() {
		return 0
	}
	for i, p := range x.ids {
		if p == m.Pointer() {
			return i + 1
		}
	}
	x.ids = append(x.ids, m.Pointer())
	x.keep = append(x.keep, m)
	return len(x.ids)
}

func (x *mapRun) mem() h.Ev {
	vars := []int{}
	intact := true
	for _, v := range x.vars {
		m := reflect.New(x.mt).Elem() // maps are kept, not variables
		m.Set(v.v.Elem())
		vars = append(vars, x.id(m))
		intact = intact && v.intact()
	}
	maps := [][][2]int{}
	for _, m := range x.keep {
		maps = append(maps, x.ents(m))
	}
	return h.Ev{"vars": vars, "maps": maps, "intact": intact}
}

func runMap(k kase, r *h.Rec) interface{} {
	x := &mapRun{k: k, key: typeNamed(k.Key), e: typeNamed(k.Typ), num: map[interface{}]int{}}
	x.mt = reflect.MapOf(x.key.t, x.e.t)
	x.vars = []*holder{hold(x.mt), hold(x.mt)}
	nt := len(x.e.vals)
	nk := 1 << 10
	switch k.Key {
	case "bool":
		nk = 2
	case "empty":
		nk = 1
	case "int8", "odd3":
		nk = 120
	}
	mt := api(k).Type2(x.mt).(reflect2.MapType)
	r.Log("Init", "mem", x.mem())
	wrong := wrongArg()
	spoilt := reflect.MakeMap(x.mt)
	spoilt.SetMapIndex(x.keyOf(1), x.e.tok(1))
	raw := k.How == "raw"
	set := func(v *holder, kn int, t int) {
		key := reflect.New(x.key.t)
		key.Elem().Set(x.keyOf(kn))
		e, spoil := temp(x.e, t)
		if raw {
			mt.UnsafeSetIndex(ptr(v.v), ptr(key), ptr(e))
		} else {
			mt.SetIndex(v.v.Interface(), key.Interface(), e.Interface())
		}
		spoil()
		key.Elem().Set(reflect.Zero(x.key.t))
	}
	for n, o := range k.Ops {
		v, w := x.vars[o.V], x.vars[o.W]
		obj, other := v.v.Interface(), w.v.Interface()
		p, q := ptr(v.v), ptr(w.v)
		kn := (o.I-1)%nk + 1
		if o.N > nk {
			o.N = nk
		}
		ev := []interface{}{"v", o.V + 1, "w", o.W + 1, "k", kn, "n", o.N, "c", o.C, "t", o.T % nt}
		name := o.Op
		var res interface{} = 0
		var pairs = [][2]int{}
		how := ends(func() {
			switch o.Op {
			case "New":
				var s reflect.Value
				if raw {
					s = reflect.NewAt(x.mt, mt.UnsafeNew())
				} else {
					s = reflect.ValueOf(mt.New())
				}
				if s.Type() != reflect.PtrTo(x.mt) {
					how0(&res)
					return
				}
				v.v.Elem().Set(s.Elem())
				s.Elem().Set(spoilt) // it is ours alone
			case "Make":
				var s reflect.Value
				if raw {
					s = reflect.NewAt(x.mt, mt.UnsafeMakeMap(o.C))
				} else {
					s = reflect.ValueOf(mt.MakeMap(o.C))
				}
				if s.Type() != reflect.PtrTo(x.mt) {
					how0(&res)
					return
				}
				v.v.Elem().Set(s.Elem())
				s.Elem().Set(spoilt) // it is ours alone
			case "SetIndex":
				set(v, kn, o.T)
			case "Fill":
				for i := 1; i <= o.N; i++ {
					set(v, i, i)
				}
			case "Delete": // by plain Go
				v.v.Elem().SetMapIndex(x.keyOf(kn), reflect.Value{})
			case "GetIndex", "TryGetIndex":
				key := x.keyOf(kn).Addr()
				var e reflect.Value
				found := true
				if raw {
					e = reflect.NewAt(x.e.t, mt.UnsafeGetIndex(p, ptr(key)))
				} else if o.Op == "GetIndex" {
					e = reflect.ValueOf(mt.GetIndex(obj, key.Interface()))
				} else {
					var i interface{}
					i, found = mt.TryGetIndex(obj, key.Interface())
					if found {
						e = reflect.ValueOf(i)
					} else if i != nil {
						how0(&res)
					}
				}
				if !found {
					res = -1
				} else if e.Type() != reflect.PtrTo(x.e.t) {
					how0(&res)
				} else if e.IsNil() {
					res = -1
				} else {
					res = x.e.which(e.Elem())
					if res == -1 {
						res = -3
					}
				}
				name = "GetIndex"
			case "Iterate":
				var it reflect2.MapIterator
				if raw {
					it = mt.UnsafeIterate(p)
				} else {
					it = mt.Iterate(obj)
				}
				for it.HasNext() && it.HasNext() {
					var a, b reflect.Value
					if raw {
						k1, e1 := it.UnsafeNext()
						a, b = reflect.NewAt(x.key.t, k1), reflect.NewAt(x.e.t, e1)
					} else {
						k1, e1 := it.Next()
						a, b = reflect.ValueOf(k1), reflect.ValueOf(e1)
					}
					if a.Type() != reflect.PtrTo(x.key.t) || b.Type() != reflect.PtrTo(x.e.t) {
						how0(&res)
						return
					}
					pairs = append(pairs, [2]int{x.which(a.Elem()), x.e.which(b.Elem())})
					if len(pairs) > 3000 {
						break
					}
				}
			case "Set":
				if raw {
					mt.UnsafeSet(p, q)
				} else {
					mt.Set(obj, other)
				}
			case "IsNil":
				if raw {
					res = mt.UnsafeIsNil(p)
				} else {
					res = mt.IsNil(obj)
				}
			case "Indirect":
				var i interface{}
				if raw {
					i = mt.UnsafeIndirect(p)
				} else {
					i = mt.Indirect(obj)
				}
				s := reflect.ValueOf(i)
				if s.Type() != x.mt {
					how0(&res)
					return
				}
				res = x.id(s)
			case "Bad":
				key, e := x.keyOf(1).Addr(), x.e.vals[0].Addr()
				switch o.X {
				case "SetIndex1":
					mt.SetIndex(wrong, key.Interface(), e.Interface())
				case "SetIndex2":
					mt.SetIndex(obj, wrong, e.Interface())
				case "SetIndex3":
					mt.SetIndex(obj, key.Interface(), wrong)
				case "GetIndex1":
					mt.GetIndex(wrong, key.Interface())
				case "GetIndex2":
					mt.GetIndex(obj, wrong)
				case "TryGetIndex1":
					mt.TryGetIndex(wrong, key.Interface())
				case "TryGetIndex2":
					mt.TryGetIndex(obj, wrong)
				case "Iterate":
					mt.Iterate(wrong)
				case "Set1":
					mt.Set(wrong, obj)
				case "Set2":
					mt.Set(obj, wrong)
				case "IsNil":
					mt.IsNil(wrong)
				default:
					h.Fail("bad %q", o.X)
				}
			default:
				h.Fail("op %q", o.Op)
			}
		})
		churn(n)
		if w, isWeird := wrong.(*weird); !isWeird || w.x != 9 {
			how = "wrote to the wrong one"
		}
		r.Log(name, append(ev, "how", how, "r", res, "pairs", pairs, "mem", x.mem())...)
	}
	return h.Ev{"nt": nt}
}
