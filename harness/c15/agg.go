package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/v2pro/plz/reflect2"
	"verif/harness/h"
)

type Inner struct {
	P int16
	Q string
	R interface{}
}
type PtrInner struct {
	U int
	V string
}
type Mid struct {
	Y byte
	Inner
	W float64
}
type Mid2 struct {
	K int16
	*PtrInner
	L int
}
type s1 struct {
	A int8
	B string
	C int64
}
type s2 struct {
	X *int
	Inner
	Y2 bool
}
type s3 struct {
	Pre int8
	*PtrInner
	Post string
}
type s4 struct {
	Z byte
	Mid
	E []int
}
type s5 struct{ P *int }
type in5 struct{ P *int }
type s6 struct{ In in5 }
type s7 struct {
	A int32
	Z struct{}
}
type s8 struct {
	F  func()
	M  map[string]int
	S  []int
	E  interface{}
	I  fmt.Stringer
	Ar [2]int8
	C  complex128
}
type s9 struct {
	a int8
	b string
	C int64
	d *int
}
type s10 struct {
	Z byte
	Mid2
	N int8
}
type s11 struct{}
type s12 struct {
	_ int8
	A int64
	_ [3]byte
	B int8
}
type s13 struct{ *PtrInner }
type s14 struct {
	A [3]small
	B [2][2]int16
	C big
}
type s15 struct{ s5 }
type s16 struct {
	H *PtrInner // not embedded: its fields are not promoted
	Mid
	Q string // hides the promoted one
}

var shapes = map[string]reflect.Type{}
var ptrInnerT = reflect.TypeOf((*PtrInner)(nil))
var byType = map[reflect.Type]*typ{}

func initShapes() {
	for i, v := range []interface{}{s1{}, s2{}, s3{}, s4{}, s5{}, s6{}, s7{}, s8{}, s9{}, s10{}, s11{}, s12{}, s13{}, s14{}, s15{}, s16{}} {
		shapes["s"+strconv.Itoa(i+1)] = reflect.TypeOf(v)
	}
	for _, n := range names {
		if byType[types[n].t] == nil {
			byType[types[n].t] = types[n]
		}
	}
}

// "s4", "int", "3*int", "2*2*int"
func shape(name string) (t reflect.Type, whole bool) {
	if i := strings.Index(name, "*"); i > 0 {
		n, _ := strconv.Atoi(name[:i])
		e, _ := shape(name[i+1:])
		return reflect.ArrayOf(n, e), false
	}
	if t := shapes[name]; t != nil {
		return t, false
	}
	return typeNamed(name).t, true
}

type acc struct {
	names []string // ways to get at it
	path  []int
	name  string
	via   int // 0, or the number of the leaf with the pointer
	lo    int
	hi    int
	t     reflect.Type
	hid   bool // not exported
}

type aggRun struct {
	k     kase
	t     reflect.Type
	elem  reflect.Type // of an array
	whole bool
	vars  []*holder
	pts   []*holder
	accs  []acc
}

// the values of the leaves of a value
func (x *aggRun) leaves(v reflect.Value, top bool, f func(v reflect.Value, name string)) {
	t := v.Type()
	if t == ptrInnerT {
		f(v, "")
		return
	}
	if l := byType[t]; l != nil && (!top || x.whole) {
		f(v, "")
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Name != "_" {
				x.leaves(v.Field(i), false, f)
			}
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			x.leaves(v.Index(i), false, f)
		}
	default:
		h.Fail("leaf %v", t)
	}
}

func (x *aggRun) ptID(v reflect.Value) int {
	if v.IsNil() {
		return 0
	}
	for i, p := range x.pts {
		if p.v.Pointer() == v.Pointer() {
			return i + 1
		}
	}
	return -1
}

func (x *aggRun) toks(v reflect.Value, top bool) []int {
	out := []int{}
	x.leaves(v, top, func(l reflect.Value, _ string) {
		if l.Type() == ptrInnerT {
			out = append(out, x.ptID(l))
		} else {
			out = append(out, byType[l.Type()].which(l))
		}
	})
	return out
}

// writes tokens by plain Go; returns those it wrote
func (x *aggRun) put(v reflect.Value, top bool, ts []int) []int {
	out := []int{}
	i := 0
	x.leaves(v, top, func(l reflect.Value, _ string) {
		t := 0
		if len(ts) > 0 {
			t = ts[i%len(ts)]
		}
		i++
		dst := reflect.NewAt(l.Type(), unsafe.Pointer(l.UnsafeAddr())).Elem()
		if l.Type() == ptrInnerT {
			t %= 3
			if t == 0 {
				dst.Set(reflect.Zero(ptrInnerT))
			} else {
				dst.Set(x.pts[t-1].v)
			}
		} else {
			e := byType[l.Type()]
			t %= len(e.vals)
			dst.Set(e.tok(t))
		}
		out = append(out, t)
	})
	return out
}

func (x *aggRun) count(t reflect.Type) int {
	n := 0
	x.leaves(reflect.New(t).Elem(), false, func(reflect.Value, string) { n++ })
	return n
}

func (x *aggRun) collect(t reflect.Type, path []int, via int, at int, hid bool) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Name == "_" {
			continue
		}
		p := append(append([]int(nil), path...), i)
		n := x.count(f.Type)
		a := acc{path: p, name: f.Name, via: via, lo: at, hi: at + n - 1, t: f.Type, hid: hid || f.PkgPath != ""}
		if len(p) == 1 {
			a.names = append(a.names, "Field")
		}
		a.names = append(a.names, "FieldByIndex")
		if g, ok := x.t.FieldByName(f.Name); ok && fmt.Sprint(g.Index) == fmt.Sprint(p) {
			a.names = append(a.names, "FieldByName")
		}
		if g, ok := x.t.FieldByNameFunc(func(s string) bool { return s == f.Name }); ok && fmt.Sprint(g.Index) == fmt.Sprint(p) {
			a.names = append(a.names, "FieldByNameFunc")
		}
		if n > 0 {
			x.accs = append(x.accs, a)
		}
		if f.Type == ptrInnerT {
			if f.Anonymous && via == 0 {
				x.collect(ptrInnerT.Elem(), p, at, 1, a.hid)
			}
		} else if f.Type.Kind() == reflect.Struct && byType[f.Type] == nil {
			x.collect(f.Type, p, via, at, a.hid)
		}
		at += n
	}
}

func (x *aggRun) mem() h.Ev {
	vals := [][]int{}
	intact := true
	for _, v := range x.vars {
		vals = append(vals, x.toks(v.v.Elem(), true))
		intact = intact && v.intact()
	}
	pts := [][]int{}
	for _, v := range x.pts {
		pts = append(pts, x.toks(v.v.Elem(), true))
		intact = intact && v.intact()
	}
	return h.Ev{"vals": vals, "pts": pts, "intact": intact}
}

// the field by plain Go
func (x *aggRun) field(v reflect.Value, a acc) reflect.Value {
	f := v.Elem().FieldByIndex(a.path)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr()))
}

func nullable(k reflect.Kind) bool {
	switch k {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface, reflect.UnsafePointer:
		return true
	}
	return false
}

func runAgg(k kase, r *h.Rec) interface{} {
	x := &aggRun{k: k}
	x.t, x.whole = shape(k.Typ)
	x.vars = []*holder{hold(x.t), hold(x.t)}
	x.pts = []*holder{hold(ptrInnerT.Elem()), hold(ptrInnerT.Elem())}
	x.put(x.pts[0].v.Elem(), true, []int{1, 2})
	x.put(x.pts[1].v.Elem(), true, []int{2, 0})
	if !x.whole {
		if x.t.Kind() == reflect.Struct {
			x.collect(x.t, nil, 0, 1, false)
		} else {
			x.elem = x.t.Elem()
		}
	}
	if k.How == "safe" { // plain reflection does not reach them either
		var in []acc
		for _, a := range x.accs {
			if !a.hid {
				in = append(in, a)
			}
		}
		x.accs = in
	}
	at := api(k).Type2(x.t)
	raw := k.How == "raw"
	r.Log("Init", "mem", x.mem())
	wrong := wrongArg()
	pt := reflect.PtrTo(x.t)
	for n, o := range k.Ops {
		v, w := x.vars[o.V], x.vars[o.W]
		obj, other := v.v.Interface(), w.v.Interface()
		p, q := ptr(v.v), ptr(w.v)
		name := o.Op
		if x.elem != nil && (name == "FSet" || name == "FGet" || name == "FSetFrom") {
			if x.t.Len() == 0 {
				continue
			}
		} else if (name == "FSet" || name == "FGet" || name == "FSetFrom") && len(x.accs) == 0 {
			continue
		}
		var res interface{} = 0
		ts := []int{}
		a := acc{}
		per := 0
		if x.elem != nil && x.t.Len() > 0 {
			per = x.count(x.elem)
			i := o.A % x.t.Len()
			a = acc{path: []int{i}, lo: i*per + 1, hi: i*per + per, t: x.elem}
		} else if len(x.accs) > 0 {
			a = x.accs[o.A%len(x.accs)]
		}
		way := ""
		if len(a.names) > 0 {
			way = a.names[o.I%len(a.names)]
		}
		fld := func() reflect2.StructField {
			st := at.(reflect2.StructType)
			switch way {
			case "Field":
				return st.Field(a.path[0])
			case "FieldByIndex":
				return st.FieldByIndex(a.path)
			case "FieldByName":
				return st.FieldByName(a.name)
			}
			return st.FieldByNameFunc(func(s string) bool { return s == a.name })
		}
		set := func(e reflect.Value) {
			if x.elem != nil {
				arr := at.(reflect2.ArrayType)
				if raw {
					arr.UnsafeSetIndex(p, a.path[0], ptr(e))
				} else {
					arr.SetIndex(obj, a.path[0], e.Interface())
				}
			} else if raw {
				fld().UnsafeSet(p, ptr(e))
			} else {
				fld().Set(obj, e.Interface())
			}
		}
		how := ends(func() {
			switch o.Op {
			case "Put": // by plain Go
				ts = x.put(v.v.Elem(), true, o.Ts)
			case "New":
				var s reflect.Value
				if raw {
					s = reflect.NewAt(x.t, at.UnsafeNew())
				} else {
					s = reflect.ValueOf(at.New())
				}
				if s.Type() != pt {
					how0(&res)
				}
				v.v.Elem().Set(s.Elem())
				x.put(s.Elem(), true, []int{1}) // it is ours alone
			case "Set":
				if raw {
					at.UnsafeSet(p, q)
				} else {
					at.Set(obj, other)
				}
			case "FSet":
				e := reflect.New(a.t)
				ts = x.put(e.Elem(), false, o.Ts)
				set(e)
				x.put(e.Elem(), false, []int{1, 0})
			case "FSetFrom": // from the same field of the other
				var e reflect.Value
				if x.elem != nil {
					e = w.v.Elem().Index(a.path[0]).Addr()
				} else if !reachable(w.v.Elem(), a.path) {
					panic("nil pointer") // Go itself
				} else {
					e = x.field(w.v, a)
				}
				ts = x.toks(e.Elem(), false)
				set(e)
			case "FGet":
				var e reflect.Value
				if x.elem != nil {
					arr := at.(reflect2.ArrayType)
					if raw {
						e = reflect.NewAt(x.elem, arr.UnsafeGetIndex(p, a.path[0]))
					} else {
						e = reflect.ValueOf(arr.GetIndex(obj, a.path[0]))
					}
				} else if raw {
					e = reflect.NewAt(a.t, fld().UnsafeGet(p))
				} else {
					e = reflect.ValueOf(fld().Get(obj))
				}
				if e.Type() != reflect.PtrTo(a.t) {
					how0(&res)
				}
				ts = x.toks(e.Elem(), false)
			case "Indirect":
				var i interface{}
				if raw {
					i = at.UnsafeIndirect(p)
				} else {
					i = at.Indirect(obj)
				}
				e := reflect.New(x.t) // assigned as Go would: to itself, or as an interface
				if i != nil {
					if x.t.Kind() == reflect.Interface {
						e.Elem().Set(reflect.ValueOf(i))
					} else {
						if reflect.TypeOf(i) != x.t {
							how0(&res)
						}
						e.Elem().Set(reflect.ValueOf(i))
					}
				} else if x.t.Kind() != reflect.Interface {
					how0(&res)
				}
				ts = x.toks(e.Elem(), true)
			case "PackEFace":
				s := reflect.ValueOf(at.PackEFace(p))
				if s.Type() != pt || s.Pointer() != v.v.Pointer() {
					how0(&res)
				}
			case "IsNil":
				if raw {
					res = at.UnsafeIsNil(p)
				} else {
					res = at.IsNil(obj)
				}
			case "IsNilNil":
				switch {
				case raw:
					res = at.UnsafeIsNil(nil)
				case o.I%2 == 0:
					res = at.IsNil(nil)
				default:
					res = at.IsNil(reflect.Zero(pt).Interface())
				}
			case "Bad":
				switch o.X {
				case "Set1":
					at.Set(wrong, obj)
				case "Set2":
					at.Set(obj, wrong)
				case "Indirect":
					if k.How == "safe" {
						panic("left out")
					}
					at.Indirect(wrong)
				case "IsNil":
					if k.How == "safe" {
						panic("left out")
					}
					at.IsNil(wrong)
				case "Field":
					if x.elem != nil {
						at.(reflect2.ArrayType).SetIndex(obj, 0, wrong)
						panic("unreached")
					} else if len(x.accs) == 0 {
						panic("left out")
					}
					if a.t.Kind() == reflect.Interface {
						panic("left out")
					}
					fld().Set(obj, wrong)
				case "FieldOf":
					if x.elem != nil {
						at.(reflect2.ArrayType).GetIndex(wrong, 0)
						panic("unreached")
					} else if len(x.accs) == 0 {
						panic("left out")
					}
					fld().Set(wrong, obj)
				default:
					h.Fail("bad %q", o.X)
				}
			default:
				h.Fail("op %q", o.Op)
			}
		})
		churn(n)
		if w, isWeird := wrong.(*weird); !isWeird || w.x != 9 {
			how = "wrote to the wrong one"
		}
		r.Log(name, "v", o.V+1, "w", o.W+1, "acc", h.Ev{"via": a.via, "lo": a.lo, "hi": a.hi, "way": way, "path": fmt.Sprint(a.path)},
			"ts", ts, "how", how, "r", res, "mem", x.mem())
	}
	return h.Ev{"nullable": nullable(x.t.Kind()), "leaves": x.countTop()}
}

func reachable(v reflect.Value, path []int) bool {
	for i, f := range path {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return false
			}
			v = v.Elem()
		}
		_ = i
		v = v.Field(f)
	}
	return true
}

func (x *aggRun) countTop() int {
	n := 0
	x.leaves(x.vars[0].v.Elem(), true, func(reflect.Value, string) { n++ })
	return n
}

// What is said about a type, next to what Go says.
func runTypes(k kase, r *h.Rec) {
	t, _ := shape(k.Typ)
	switch k.Key {
	case "ptr":
		t = reflect.PtrTo(t)
	case "slice":
		t = reflect.SliceOf(t)
	case "map":
		t = reflect.MapOf(reflect.TypeOf(""), t)
	case "arr1":
		t = reflect.ArrayOf(1, t)
	case "chan":
		t = reflect.ChanOf(reflect.BothDir, t)
	case "func":
		t = reflect.FuncOf([]reflect.Type{t}, nil, false)
	}
	cfg := api(k)
	at := cfg.Type2(t)
	zero := reflect.New(t).Elem()
	say := func(what string, got func() interface{}, want interface{}) {
		var g interface{}
		how := ends(func() { g = got() })
		if how != "ok" {
			g = how
		}
		r.Log("Say", "what", what, "got", fmt.Sprint(g), "want", fmt.Sprint(want))
	}
	say("Type1", func() interface{} { return at.Type1() == t }, true)
	say("String", func() interface{} { return at.String() }, t.String())
	say("Kind", func() interface{} { return at.Kind() }, t.Kind())
	say("IsNullable", func() interface{} { return at.IsNullable() }, nullable(t.Kind()))
	say("kind nullable", func() interface{} { return reflect2.IsNullable(t.Kind()) }, nullable(t.Kind()))
	say("again", func() interface{} { return cfg.Type2(t) == at }, true)
	if t.Kind() != reflect.Interface {
		say("TypeOf", func() interface{} { return cfg.TypeOf(zero.Interface()) == at }, true)
		if k.How != "safe" {
			data := (*[2]unsafe.Pointer)(unsafe.Pointer(func() *interface{} { i := zero.Interface(); return &i }()))[1]
			say("LikePtr", func() interface{} { return at.LikePtr() }, data == nil)
			say("PtrOf", func() interface{} { return reflect2.PtrOf(zero.Interface()) == nil }, data == nil)
			say("IsNil", func() interface{} { return reflect2.IsNil(zero.Interface()) }, data == nil)
			say("RType", func() interface{} { return at.RType() == reflect2.RTypeOf(zero.Interface()) }, true)
		}
	} else if k.How != "safe" {
		say("LikePtr", func() interface{} { return at.LikePtr() }, false)
	}
	if k.How != "safe" {
		say("PtrTo", func() interface{} { return reflect2.PtrTo(at).Type1() == reflect.PtrTo(t) }, true)
	}
	stringer := cfg.Type2(reflect.TypeOf((*fmt.Stringer)(nil)).Elem())
	anyT := cfg.Type2(reflect.TypeOf((*interface{})(nil)).Elem())
	say("Implements", func() interface{} { return at.Implements(stringer) }, t.Implements(stringer.Type1()))
	say("Implements any", func() interface{} { return at.Implements(anyT) }, true)
	say("AssignableTo", func() interface{} { return at.AssignableTo(at) }, true)
	say("AssignableTo any", func() interface{} { return at.AssignableTo(anyT) }, true)
	say("AssignableTo string", func() interface{} { return at.AssignableTo(cfg.Type2(reflect.TypeOf(""))) }, t.Kind() == reflect.String && t.Name() == "string")
	elemOf := func() interface{} { return at.(interface{ Elem() reflect2.Type }).Elem().Type1() == t.Elem() }
	switch t.Kind() {
	case reflect.Ptr:
		say("Elem", func() interface{} { return at.(reflect2.PtrType).Elem() == cfg.Type2(t.Elem()) }, true)
	case reflect.Slice:
		say("Elem", func() interface{} { return at.(reflect2.SliceType).Elem() == cfg.Type2(t.Elem()) }, true)
	case reflect.Array:
		say("Elem", func() interface{} { return at.(reflect2.ArrayType).Elem() == cfg.Type2(t.Elem()) }, true)
		say("Len", func() interface{} { return at.(reflect2.ArrayType).Len() }, t.Len())
	case reflect.Map:
		say("Elem", func() interface{} { return at.(reflect2.MapType).Elem() == cfg.Type2(t.Elem()) }, true)
		say("Key", func() interface{} { return at.(reflect2.MapType).Key() == cfg.Type2(t.Key()) }, true)
	case reflect.Chan:
		say("Elem", elemOf, true)
	case reflect.Interface:
		say("NumMethod", func() interface{} { return at.(reflect2.InterfaceType).NumMethod() }, t.NumMethod())
	case reflect.Struct:
		say("NumField", func() interface{} { return at.(reflect2.StructType).NumField() }, t.NumField())
		for i := 0; i < t.NumField(); i++ {
			i := i
			f := t.Field(i)
			desc := func(g reflect2.StructField) interface{} {
				return fmt.Sprint(g.Name(), g.Offset(), g.PkgPath(), g.Tag(), g.Index(), g.Anonymous(), g.Type() == cfg.Type2(f.Type))
			}
			want := fmt.Sprint(f.Name, f.Offset, f.PkgPath, f.Tag, f.Index, f.Anonymous, true)
			say("Field", func() interface{} { return desc(at.(reflect2.StructType).Field(i)) }, want)
			if f.Name != "_" {
				say("FieldByName", func() interface{} { return desc(at.(reflect2.StructType).FieldByName(f.Name)) }, want)
			}
		}
	}
	if k.Key == "" && t.Kind() == reflect.Struct && t.Name() != "" && k.How != "safe" && shapes[k.Typ] != nil {
		say("TypeByName", func() interface{} {
			f := reflect2.TypeByName(t.String())
			if f == nil {
				return "absent" // only types the program has pointers to are there
			}
			return f.Type1() == t
		}, true)
	}
}

// pointers to the types that TypeByName is asked for
var _ = []interface{}{&s1{}, &s2{}, &s3{}, &s4{}, &s5{}, &s6{}, &s7{}, &s8{}, &s9{}, &s10{}, &s11{}, &s12{}, &s13{}, &s14{}, &s15{}, &s16{}}
