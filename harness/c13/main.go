// Driver of parse.Source and of the readers on top of it: one source, a sequence of operations.
package main

import (
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"time"
	"unicode"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"
	"verif/harness/h"
)

type op struct {
	O     string `json:"o"`
	Kind  string `json:"kind"`
	N     int    `json:"n"`
	B     int    `json:"b"`
	Stop  []int  `json:"stop"`
	Inc   []int  `json:"inc"`
	Exc   []int  `json:"exc"`
	Space []int  `json:"space"`
	Size  int    `json:"size"`
}

type kase struct {
	Inp  []int  `json:"inp"`
	Src  string `json:"src"`
	Cuts []int  `json:"cuts"`
	With bool   `json:"with"` // the last chunk comes together with the end
	End  string `json:"end"`
	Buf  int    `json:"buf"`
	Ops  []op   `json:"ops"`
}

var boom, user = errors.New("boom"), errors.New("user")

// script delivers data in the given chunks; a chunk the buffer is too small for comes in parts.
type script struct {
	data []byte
	cuts []int
	with bool
	end  error
}

func (s *script) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0xEE // a reader may use all of it
	}
	if len(s.data) == 0 {
		return 0, s.end
	}
	n := len(s.data)
	if len(s.cuts) > 0 {
		n = s.cuts[0]
		s.cuts = s.cuts[1:]
	}
	if n > len(s.data) {
		n = len(s.data)
	}
	if n > len(p) {
		s.cuts = append([]int{n - len(p)}, s.cuts...)
		n = len(p)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 && s.with {
		return n, s.end
	}
	return n, nil
}

func name(err error) string {
	switch err {
	case nil:
		return ""
	case io.EOF:
		return "EOF"
	case boom:
		return "boom"
	case user:
		return "user"
	case io.ErrUnexpectedEOF:
		return "short"
	}
	return "expect"
}

func table(a []int) *unicode.RangeTable {
	t := &unicode.RangeTable{}
	for _, r := range a { // sorted
		if r < 1<<16 {
			t.R16 = append(t.R16, unicode.Range16{Lo: uint16(r), Hi: uint16(r), Stride: 1})
			if r <= unicode.MaxLatin1 {
				t.LatinOffset++
			}
		} else {
			t.R32 = append(t.R32, unicode.Range32{Lo: uint32(r), Hi: uint32(r), Stride: 1})
		}
	}
	return t
}

// tables splits the characters over some tables
func tables(a []int) []*unicode.RangeTable {
	if len(a) == 0 {
		return nil
	}
	if len(a) == 1 {
		return []*unicode.RangeTable{table(a)}
	}
	return []*unicode.RangeTable{table(a[:len(a)/2]), table(a[len(a)/2:])}
}

func runes(a []int) []rune {
	var out []rune
	for _, x := range a {
		out = append(out, rune(x))
	}
	return out
}

func ints(a []rune) []int {
	out := make([]int, len(a))
	for i, x := range a {
		out[i] = int(x)
	}
	return out
}

func run(raw []byte) ([]h.Ev, interface{}, bool) {
	var k kase
	if err := json.Unmarshal(raw, &k); err != nil {
		h.Fail("%v", err)
	}
	if k.Cuts == nil {
		k.Cuts = []int{}
	}
	rec := &h.Rec{}
	par := map[string]interface{}{"inp": k.Inp, "end": k.End}
	how, msg := h.Guard(20*time.Second, func() { history(rec, &k) })
	if how != "ok" {
		rec.Log("Failed", "how", how, "msg", msg)
	}
	return rec.Events(), par, how != "hang"
}

func history(rec *h.Rec, k *kase) {
	var src *parse.Source
	var err error
	if k.Src == "string" {
		src = parse.NewSourceString(string(h.FromInts(k.Inp)))
	} else {
		end := io.EOF
		if k.End == "boom" {
			end = boom
		}
		src, err = parse.NewSource(&script{h.FromInts(k.Inp), k.Cuts, k.With, end}, make([]byte, k.Buf))
	}
	if src == nil {
		rec.Log("New", "kind", k.Src, "src", false, "err", name(err))
		return
	}
	rec.Log("New", "kind", k.Src, "src", true, "err", name(src.Error()))
	var kept [][]byte // what was read stays what it is whatever happens to the source
	var copies []string
	defer func() {
		for i := range kept {
			if string(kept[i]) != copies[i] {
				rec.Log("Kept", "was", h.Str(copies[i]), "is", h.Bytes(kept[i]))
			}
		}
	}()
	for _, o := range k.Ops {
		switch o.O {
		case "Peek":
			rec.Log("Peek", "out", h.Bytes(src.Peek()), "err", name(src.Error()))
		case "Peek1":
			if len(src.Peek()) > 0 {
				rec.Log("Peek1", "b", int(src.Peek1()), "err", name(src.Error()))
			}
		case "PeekN":
			out, err := src.PeekN(o.N)
			rec.Log("PeekN", "n", o.N, "out", h.Bytes(out), "perr", name(err), "err", name(src.Error()))
		case "PeekRune":
			r, n := src.PeekRune()
			rec.Log("PeekRune", "r", int(r), "n", n, "err", name(src.Error()))
		case "ConsumeN":
			src.ConsumeN(o.N)
			rec.Log("ConsumeN", "n", o.N, "err", name(src.Error()))
		case "Consume":
			gone := h.Bytes(src.Peek())
			src.Consume()
			rec.Log("Consume", "gone", gone, "err", name(src.Error()))
		case "Consume1":
			src.Consume1(byte(o.B))
			rec.Log("Consume1", "b", o.B, "err", name(src.Error()))
		case "ReportError":
			src.ReportError(map[bool]error{true: io.EOF, false: user}[o.Kind == "EOF"])
			rec.Log("ReportError", "new", map[bool]string{true: "EOF", false: "user"}[o.Kind == "EOF"], "err", name(src.Error()))
		case "SetBuffer":
			src.SetBuffer(make([]byte, o.Size))
			rec.Log("SetBuffer", "err", name(src.Error()))
		case "AnyExcept":
			var space []byte
			if len(o.Space)+o.Size > 0 {
				space = append(make([]byte, 0, len(o.Space)+o.Size), h.FromInts(o.Space)...)
			}
			var out []byte
			if len(o.Stop) == 1 {
				out = read.AnyExcept1(src, space, byte(o.Stop[0]))
			} else {
				out = read.AnyExcept2(src, space, byte(o.Stop[0]), byte(o.Stop[1]))
			}
			kept, copies = append(kept, out), append(copies, string(out))
			rec.Log("AnyExcept", "kind", "read", "stop", o.Stop, "space", nn(o.Space), "out", h.Bytes(out), "err", name(src.Error()))
		case "Space":
			n := skip.Space(src)
			rec.Log("Space", "kind", "skip", "n", n, "err", name(src.Error()))
		case "UnicodeSpace":
			n := skip.UnicodeSpace(src)
			rec.Log("UnicodeSpace", "kind", "skip", "n", n, "err", name(src.Error()))
		case "UnicodeRange":
			if o.Kind == "read" {
				out := read.UnicodeRange(src, runes(o.Space), table(o.Inc))
				rec.Log("UnicodeRange", "kind", "read", "inc", o.Inc, "space", nn(o.Space), "out", ints(out), "err", name(src.Error()))
			} else {
				n := skip.UnicodeRange(src, table(o.Inc))
				rec.Log("UnicodeRange", "kind", "skip", "inc", o.Inc, "n", n, "err", name(src.Error()))
			}
		case "UnicodeRanges":
			if o.Kind == "read" {
				out := read.UnicodeRanges(src, runes(o.Space), tables(o.Inc), tables(o.Exc))
				rec.Log("UnicodeRanges", "kind", "read", "inc", nn(o.Inc), "exc", nn(o.Exc), "space", nn(o.Space), "out", ints(out), "err", name(src.Error()))
			} else {
				n := skip.UnicodeRanges(src, tables(o.Inc), tables(o.Exc))
				rec.Log("UnicodeRanges", "kind", "skip", "inc", nn(o.Inc), "exc", nn(o.Exc), "n", n, "err", name(src.Error()))
			}
		case "Number":
			before := src.Error()
			var out string
			kind := o.Kind
			switch o.Kind {
			case "uint64":
				out = strconv.FormatUint(read.Uint64(src), 10)
			case "int64":
				out = strconv.FormatInt(read.Int64(src), 10)
			case "int32":
				out = strconv.FormatInt(int64(read.Int32(src)), 10)
			case "int":
				out = strconv.Itoa(read.Int(src))
				kind = "int" + strconv.Itoa(strconv.IntSize)
			}
			after := name(src.Error())
			over := src.Error() != before && after != "" && after != "EOF" && after != "boom" || after == "boom" && before == nil && out == "0"
			rec.Log("Number", "kind", kind, "out", h.Str(out), "err", after, "last", over)
			if over { // how much of an overflowing number was consumed is left open
				return
			}
		default:
			h.Fail("op %s", o.O)
		}
	}
}

func nn(a []int) []int {
	if a == nil {
		return []int{}
	}
	return a
}

func main() { h.MainPar(run) }
