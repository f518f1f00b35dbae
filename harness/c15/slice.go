package main

import (
	"reflect"

	"github.com/v2pro/plz/reflect2"
	"verif/harness/h"
)

const arr1Len = 12

type sliceRun struct {
	k    kase
	e    *typ
	st   reflect.Type
	vars []*holder
	arrs []reflect.Value // [n]E, addressable, as slices over their full length
	zs   bool
}

// where the array of a slice is: which array, at which offset
func (x *sliceRun) where(s reflect.Value) (int, int) {
	if s.Cap() == 0 || x.zs {
		return 0, 0
	}
	sz := x.e.t.Size()
	p := s.Pointer()
	for i, a := range x.arrs {
		base := a.Pointer()
		if p >= base && p < base+uintptr(a.Len())*sz {
			if (p-base)%sz != 0 {
				return -1, 0
			}
			return i + 1, int((p - base) / sz)
		}
	}
	x.arrs = append(x.arrs, s.Slice3(0, s.Cap(), s.Cap()))
	return len(x.arrs), 0
}

func (x *sliceRun) header(s reflect.Value) h.Ev {
	if s.Len() < 0 || s.Len() > s.Cap() || s.Cap() > 1<<20 {
		return h.Ev{"nil": false, "arr": -9, "off": 0, "len": 0, "cap": 0}
	}
	a, off := x.where(s)
	return h.Ev{"nil": s.IsNil(), "arr": a, "off": off, "len": s.Len(), "cap": s.Cap()}
}

func (x *sliceRun) mem() h.Ev {
	sl := []h.Ev{}
	intact := true
	for _, v := range x.vars {
		sl = append(sl, x.header(v.v.Elem()))
		intact = intact && v.intact()
	}
	arrs := [][]int{}
	for _, a := range x.arrs {
		toks := []int{}
		for i := 0; i < a.Len(); i++ {
			toks = append(toks, x.e.which(a.Index(i)))
		}
		arrs = append(arrs, toks)
	}
	return h.Ev{"sl": sl, "arrs": arrs, "intact": intact}
}

func runSlice(k kase, r *h.Rec) interface{} {
	x := &sliceRun{k: k, e: typeNamed(k.Typ)}
	x.st = reflect.SliceOf(x.e.t)
	x.zs = x.e.t.Size() == 0
	nt := len(x.e.vals)
	x.vars = []*holder{hold(x.st), hold(x.st)}
	a1 := reflect.MakeSlice(x.st, arr1Len, arr1Len)
	for i := 0; i < arr1Len; i++ {
		a1.Index(i).Set(x.e.tok(i))
	}
	x.arrs = []reflect.Value{a1}
	st := api(k).Type2(x.st).(reflect2.SliceType)
	r.Log("Init", "mem", x.mem())
	wrong := wrongArg()
	for n, o := range k.Ops {
		v, w := x.vars[o.V], x.vars[o.W]
		obj, other := v.v.Interface(), w.v.Interface()
		p, q := ptr(v.v), ptr(w.v)
		raw := k.How == "raw"
		ev := []interface{}{"v", o.V + 1, "w", o.W + 1, "i", o.I, "j", o.J, "n", o.N, "c", o.C, "t", o.T % nt}
		name := o.Op
		var res interface{} = 0
		how := ends(func() {
			switch o.Op {
			case "Window": // by plain Go
				v.v.Elem().Set(a1.Slice3(o.I, o.I+o.N, o.I+o.N+o.C))
			case "Sub": // by plain Go
				s := w.v.Elem()
				v.v.Elem().Set(s.Slice(o.I, o.J))
			case "New":
				var s reflect.Value
				if raw {
					s = reflect.NewAt(x.st, st.UnsafeNew())
				} else {
					s = reflect.ValueOf(st.New())
				}
				if s.Type() != reflect.PtrTo(x.st) {
					how0(&res)
					return
				}
				v.v.Elem().Set(s.Elem())
				s.Elem().Set(a1) // it is ours alone
			case "Make":
				var s reflect.Value
				if raw {
					s = reflect.NewAt(x.st, st.UnsafeMakeSlice(o.N, o.C))
				} else {
					s = reflect.ValueOf(st.MakeSlice(o.N, o.C))
				}
				if s.Type() != reflect.PtrTo(x.st) {
					how0(&res)
					return
				}
				v.v.Elem().Set(s.Elem())
				s.Elem().Set(a1) // it is ours alone
			case "SetIndex":
				e, spoil := temp(x.e, o.T)
				if raw {
					st.UnsafeSetIndex(p, o.I, ptr(e))
				} else {
					st.SetIndex(obj, o.I, e.Interface())
				}
				spoil()
			case "SetFrom":
				e := w.v.Elem().Index(o.J).Addr()
				if raw {
					st.UnsafeSetIndex(p, o.I, ptr(e))
				} else {
					st.SetIndex(obj, o.I, e.Interface())
				}
			case "Append":
				e, spoil := temp(x.e, o.T)
				if raw {
					st.UnsafeAppend(p, ptr(e))
				} else {
					st.Append(obj, e.Interface())
				}
				spoil()
			case "AppendFrom":
				e := w.v.Elem().Index(o.J).Addr()
				if raw {
					st.UnsafeAppend(p, ptr(e))
				} else {
					st.Append(obj, e.Interface())
				}
			case "AppendMany":
				for i := 0; i < o.N; i++ {
					e, spoil := temp(x.e, i)
					if raw {
						st.UnsafeAppend(p, ptr(e))
					} else {
						st.Append(obj, e.Interface())
					}
					spoil()
				}
			case "GetIndex":
				var e reflect.Value
				if raw {
					e = reflect.NewAt(x.e.t, st.UnsafeGetIndex(p, o.I))
				} else {
					e = reflect.ValueOf(st.GetIndex(obj, o.I))
				}
				if e.Type() != reflect.PtrTo(x.e.t) {
					how0(&res)
					return
				}
				res = x.e.which(e.Elem())
			case "Grow":
				if raw {
					st.UnsafeGrow(p, o.N)
				} else {
					st.Grow(obj, o.N)
				}
			case "Set":
				if raw {
					st.UnsafeSet(p, q)
				} else {
					st.Set(obj, other)
				}
			case "SetNil":
				if raw {
					st.UnsafeSetNil(p)
				} else {
					st.SetNil(obj)
				}
			case "IsNil":
				if raw {
					res = st.UnsafeIsNil(p)
				} else {
					res = st.IsNil(obj)
				}
			case "Len":
				if raw {
					res = st.UnsafeLengthOf(p)
				} else {
					res = st.LengthOf(obj)
				}
			case "Cap":
				if raw {
					res = st.UnsafeCap(p)
				} else {
					res = st.Cap(obj)
				}
			case "Indirect":
				var i interface{}
				if raw {
					i = st.UnsafeIndirect(p)
				} else {
					i = st.Indirect(obj)
				}
				s := reflect.ValueOf(i)
				if s.Type() != x.st {
					how0(&res)
					return
				}
				res = x.header(s)
			case "Bad": // an argument of another type
				name = "Bad"
				e, _ := temp(x.e, 0)
				switch o.X {
				case "SetIndex1":
					st.SetIndex(wrong, 0, e.Interface())
				case "SetIndex3":
					st.SetIndex(obj, 0, wrong)
				case "GetIndex":
					st.GetIndex(wrong, 0)
				case "Append1":
					st.Append(wrong, e.Interface())
				case "Append2":
					st.Append(obj, wrong)
				case "Set1":
					st.Set(wrong, obj)
				case "Set2":
					st.Set(obj, wrong)
				case "Grow":
					st.Grow(wrong, 3)
				case "SetNil": // nor does it mind here
					if k.How == "safe" {
						panic("left out")
					}
					st.SetNil(wrong)
				case "Len":
					st.LengthOf(wrong)
				case "Cap":
					st.Cap(wrong)
				case "IsNil":
					st.IsNil(wrong)
				case "Indirect": // the safe one takes any pointer
					if k.How == "safe" {
						panic("left out")
					}
					st.Indirect(wrong)
				default:
					h.Fail("bad %q", o.X)
				}
			default:
				h.Fail("op %q", o.Op)
			}
		})
		churn(n)
		if w, isWeird := wrong.(*weird); !isWeird || w.x != 9 {
			how = "wrote to the wrong one"
		}
		r.Log(name, append(ev, "how", how, "r", res, "mem", x.mem())...)
	}
	return h.Ev{"zs": x.zs, "nt": nt}
}

func how0(res *interface{}) { *res = -7; panic("wrong type of result") }
