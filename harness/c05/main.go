// Driver of the rolling log file: C05 (operation scripts) and C06 (directories handed to the mill).
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"io"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/v2pro/plz/countlog/output/lumberjack"
	"verif/harness/h"
)

type op struct {
	Op  string  `json:"op"`
	N   int     `json:"n"`
	How string  `json:"how"`
	Sec float64 `json:"sec"`
}
type backup struct {
	Id   int    `json:"id"`
	T    int    `json:"t"`
	I    int    `json:"i"`
	Form string `json:"form"`
	M    []int  `json:"m"`
}
type plan struct {
	Backups    []backup `json:"backups"`
	MaxBackups int      `json:"maxBackups"`
	MaxAge     int      `json:"maxAge"`
	Compress   bool     `json:"compress"`
	Now        int      `json:"now"`
	Fault      bool     `json:"fault"`
	Cur        []int    `json:"cur"`
	Foreign    []string `json:"foreign"`
}
type kase struct {
	Id      string   `json:"id"`
	Kind    string   `json:"kind"`
	Name    string   `json:"name"`
	Fmt     string   `json:"fmt"`
	Local   bool     `json:"local"`
	MaxSize int      `json:"maxsize"`
	Mb      int      `json:"mb"`
	Init    []int    `json:"init"` // null: no file
	HasInit bool     `json:"hasinit"`
	Other   []string `json:"other"`
	Ops     []op     `json:"ops"`
	Msgs    [][]int  `json:"msgs"`
	Grp     []int    `json:"grp"`
	// C06
	P       plan            `json:"p"`
	Expect  [][]interface{} `json:"expect"`
	Trigger []op            `json:"trigger"` // write (opens) / rotate; each rotation's backup is in P.Backups with form "new"
}

var (
	clockMu sync.Mutex
	clock   time.Time
	auto    time.Duration
)

func now() time.Time {
	clockMu.Lock()
	defer clockMu.Unlock()
	if auto > 0 {
		clock = clock.Add(auto)
	}
	return clock.In(time.Local) // as time.Now does
}
func setClock(t time.Time, a time.Duration) {
	clockMu.Lock()
	clock, auto = t, a
	clockMu.Unlock()
}

var base = time.Date(2019, 3, 5, 7, 9, 11, 42*1e6, time.UTC)

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}
func toBytes(m []int) []byte {
	b := make([]byte, len(m))
	for i := range m {
		b[i] = byte(m[i])
	}
	return b
}
func must(err error) {
	if err != nil {
		h.Fail("%v", err)
	}
}

type namer struct{ dir, file, prefix, ext string }

func newNamer(dir, name string) namer {
	full := filepath.Join(dir, name)
	file := filepath.Base(full)
	ext := filepath.Ext(file)
	return namer{filepath.Dir(full), file, strings.TrimSuffix(file, ext) + "-", ext}
}

func format(k *kase) string {
	if k.Fmt == "" {
		return "2006-01-02T15-04-05.000"
	}
	return k.Fmt
}
func stamp(k *kase, t time.Time) string {
	if k.Local {
		t = t.In(time.Local)
	} else {
		t = t.UTC()
	}
	return t.Format(format(k))
}

// read all of a directory: the current file, the backups, and anything else
func listing(n namer, others map[string]bool) h.Ev {
	cur := []int{-1}
	baks := []interface{}{}
	other := []string{}
	fs, err := os.ReadDir(n.dir)
	if err != nil && !os.IsNotExist(err) {
		h.Fail("%v", err)
	}
	for _, f := range fs {
		name := f.Name()
		if others[name] {
			other = append(other, name)
			continue
		}
		if name == n.file {
			b, err := os.ReadFile(filepath.Join(n.dir, name))
			must(err)
			cur = ints(b)
			continue
		}
		if strings.HasPrefix(name, n.prefix) && strings.HasSuffix(name, n.ext) && len(name) > len(n.prefix)+len(n.ext) {
			b, err := os.ReadFile(filepath.Join(n.dir, name))
			must(err)
			baks = append(baks, h.Ev{"ts": ints([]byte(name[len(n.prefix) : len(name)-len(n.ext)])), "m": ints(b)})
			continue
		}
		other = append(other, "?"+name)
	}
	return h.Ev{"cur": cur, "baks": baks, "other": other}
}

func logger(k *kase, n namer) *lumberjack.Logger {
	return &lumberjack.Logger{Filename: filepath.Join(n.dir, n.file), MaxSize: k.MaxSize, LocalTime: k.Local, BackupTimeFormat: k.Fmt}
}

func run05(k *kase, dir string) ([]h.Ev, interface{}, bool) {
	n := newNamer(dir, k.Name)
	others := map[string]bool{}
	init := []int{-1}
	if k.HasInit || len(k.Other) > 0 {
		must(os.MkdirAll(n.dir, 0755))
	}
	if k.HasInit {
		must(os.WriteFile(filepath.Join(n.dir, n.file), toBytes(k.Init), 0644))
		init = k.Init
		if init == nil {
			init = []int{}
		}
	}
	other := []string{}
	for _, o := range k.Other {
		must(os.WriteFile(filepath.Join(n.dir, o), []byte("x"), 0644))
		others[o] = true
		other = append(other, o)
	}
	sort.Strings(other)
	t := base
	setClock(t, 0)
	max := k.MaxSize
	if max == 0 {
		max = 100
	}
	max *= k.Mb
	par := h.Ev{"max": max, "tslen": len(stamp(k, t)), "init": init, "other": other}
	l := logger(k, n)
	lumberjack.VerifSet(k.Mb, now)
	rec := &h.Rec{}
	seq := 0
	all := []*lumberjack.Logger{l}
	defer func() {
		for _, x := range all {
			x.Close()
		}
	}()
	for _, o := range k.Ops {
		switch o.Op {
		case "tick":
			t = t.Add(time.Duration(o.Sec * float64(time.Second)))
			setClock(t, 0)
		case "write":
			m := make([]byte, o.N)
			for i := range m {
				seq++
				m[i] = byte(1 + seq%251)
			}
			keep := append([]byte(nil), m...)
			c, err := l.Write(m)
			if !bytes.Equal(m, keep) {
				h.Fail("the buffer was changed")
			}
			rec.Log("Write", "m", ints(m), "n", c, "err", err != nil, "ts", ints([]byte(stamp(k, t))), "dir", listing(n, others))
		case "rotate":
			err := l.Rotate()
			rec.Log("Rotate", "err", err != nil, "ts", ints([]byte(stamp(k, t))), "dir", listing(n, others))
		case "close":
			err := l.Close()
			rec.Log("Close", "err", err != nil, "dir", listing(n, others))
		case "restart":
			l = logger(k, n)
			all = append(all, l)
			rec.Log("Restart", "dir", listing(n, others))
		case "died":
			if _, err := os.Stat(filepath.Join(n.dir, n.file)); err != nil {
				break
			}
			if err := l.Rotate(); err != nil {
				rec.Log("Rotate", "err", true, "ts", ints([]byte(stamp(k, t))), "dir", listing(n, others))
				break
			}
			if o.How == "renamed" {
				must(os.Remove(filepath.Join(n.dir, n.file)))
			}
			l = logger(k, n)
			all = append(all, l)
			rec.Log("Died", "how", o.How, "ts", ints([]byte(stamp(k, t))), "dir", listing(n, others))
		default:
			h.Fail("op %s", o.Op)
		}
	}
	if len(k.Msgs) > 0 {
		setClock(t, time.Millisecond)
		var wg sync.WaitGroup
		var mu sync.Mutex
		failed := false
		groups := map[int][]int{}
		for i := range k.Msgs {
			groups[k.Grp[i]] = append(groups[k.Grp[i]], i)
		}
		start := make(chan struct{})
		for _, g := range groups {
			wg.Add(1)
			go func(g []int) {
				defer wg.Done()
				<-start
				for _, i := range g {
					b := toBytes(k.Msgs[i])
					c, err := l.Write(b)
					if err != nil || c != len(b) {
						mu.Lock()
						failed = true
						mu.Unlock()
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		rec.Log("Conc", "msgs", k.Msgs, "grp", k.Grp, "err", failed, "dir", listing(n, others))
	}
	return rec.Events(), par, true
}

// ------------------------------------------------------------------------- C06
func content(b backup) []byte {
	if b.Form != "big" && b.Form != "fifo" {
		return toBytes(b.M)
	}
	size := []int{12 << 10, 40 << 10, 150 << 10}[b.Id%3] // the first is held back by the compressor until its Close
	r := rand.New(rand.NewSource(int64(b.Id)))
	out := make([]byte, size)
	r.Read(out)
	return out
}
func zipped(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}
func unzip(b []byte) ([]byte, bool) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	out, err := io.ReadAll(r)
	return out, err == nil
}

type fifo struct {
	path, plain string
	f           int
	m           []int
	got         []byte
	missingAt   int // bytes read when the plain file was first seen missing, -1
	size        int
}

func (x *fifo) step() bool { // reads at most one pipe's worth; returns whether anything came
	if x.missingAt < 0 {
		if _, err := os.Lstat(x.plain); err != nil {
			x.missingAt = len(x.got)
		}
	}
	buf := make([]byte, x.size)
	n, err := syscall.Read(x.f, buf)
	if n > 0 && err == nil {
		x.got = append(x.got, buf[:n]...)
		return true
	}
	return false
}

func run06(k *kase, dir string) ([]h.Ev, interface{}, bool) {
	n := newNamer(dir, k.Name)
	must(os.MkdirAll(n.dir, 0755))
	p := k.P
	at := func(min int) time.Time { return time.Date(2019, 3, 5, 7, 9, 0, 0, time.UTC).Add(time.Duration(min) * time.Minute) }
	known := map[string][]int{}
	lumberjack.VerifSet(1<<20, now)
	full := func(b backup) string { return filepath.Join(n.dir, n.prefix+stamp(k, at(b.T))+n.ext) }
	// the backups, oldest first
	order := append([]backup(nil), p.Backups...)
	sort.SliceStable(order, func(i, j int) bool {
		if order[i].T != order[j].T {
			return order[i].T < order[j].T
		}
		return order[i].I < order[j].I
	})
	names := map[int]string{}
	unlimited := &lumberjack.Logger{Filename: filepath.Join(n.dir, n.file), LocalTime: k.Local, BackupTimeFormat: k.Fmt}
	// makes a backup the way the logger does: "" if it replaced another one
	made := func(b backup, i int) string {
		if i == 0 {
			must(os.WriteFile(full(b), content(b), 0644))
			return full(b)
		}
		before := map[string]bool{}
		fs, _ := os.ReadDir(n.dir)
		for _, f := range fs {
			before[f.Name()] = true
		}
		setClock(at(b.T), 0)
		if _, err := unlimited.Write(content(b)); err != nil {
			h.Fail("%v", err)
		}
		if err := unlimited.Rotate(); err != nil {
			h.Fail("%v", err)
		}
		must(unlimited.Close())
		must(os.Remove(filepath.Join(n.dir, n.file)))
		fs, _ = os.ReadDir(n.dir)
		for _, f := range fs {
			if !before[f.Name()] {
				return filepath.Join(n.dir, f.Name())
			}
		}
		return ""
	}
	next := map[int]int{}
	fillers := []string{} // those that were removed before
	for _, b := range order {
		known[string(content(b))] = b.M
		if b.Form == "new" {
			continue
		}
		for ; next[b.T] <= b.I; next[b.T]++ {
			name := made(b, next[b.T])
			if name == "" { // C05's business, here the directory is not the planned one
				return []h.Ev{{"e": "Setup"}}, nil, true
			}
			if next[b.T] < b.I {
				fillers = append(fillers, name)
			} else {
				names[b.Id] = name
			}
		}
	}
	for _, name := range fillers {
		must(os.Remove(name))
	}
	bad := map[string][]int{}
	fifos := []*fifo{}
	gzPlain := map[string]string{} // gz path -> plain path that was there at the start
	for _, b := range order {
		if b.Form == "new" {
			continue
		}
		plain := names[b.Id]
		gz := plain + ".gz"
		c := content(b)
		switch b.Form {
		case "plain", "big":
			gzPlain[gz] = plain
		case "gz":
			must(os.WriteFile(gz, zipped(c), 0644))
			must(os.Remove(plain))
		case "both":
			must(os.WriteFile(gz, zipped(c), 0644))
		case "bothpart":
			z := zipped(c)
			cut := []int{0, 5, len(z) - 9, len(z) - 1, len(z) / 2}[b.Id%5]
			must(os.WriteFile(gz, z[:cut], 0644))
			bad[gz] = b.M
		case "badgz":
			z := zipped(c)
			must(os.WriteFile(gz, z[:len(z)-3], 0644))
			must(os.Remove(plain))
			bad[gz] = b.M
		case "gzdir":
			must(os.Mkdir(gz, 0755))
			must(os.WriteFile(filepath.Join(gz, "keep"), []byte("k"), 0644))
		case "fifo":
			must(syscall.Mkfifo(gz, 0644))
			fd, err := syscall.Open(gz, syscall.O_RDONLY|syscall.O_NONBLOCK, 0)
			must(err)
			sz, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), 1031, 4096)
			if e != 0 {
				sz = 65536
			}
			fifos = append(fifos, &fifo{path: gz, plain: plain, f: fd, m: b.M, missingAt: -1, size: int(sz)})
			defer syscall.Close(fd)
		default:
			h.Fail("form %s", b.Form)
		}
	}
	foreign := []string{}
	for _, f := range p.Foreign {
		full := filepath.Join(n.dir, f)
		if strings.HasSuffix(f, "/.") {
			must(os.Mkdir(strings.TrimSuffix(filepath.Join(n.dir, f), "/."), 0755))
		} else if strings.HasSuffix(f, "/") {
			must(os.Mkdir(full, 0755))
			must(os.WriteFile(filepath.Join(full, "in"), []byte(f), 0644))
		} else {
			must(os.WriteFile(full, []byte(f), 0644))
		}
	}
	// go
	l := &lumberjack.Logger{Filename: filepath.Join(n.dir, n.file), MaxBackups: p.MaxBackups, MaxAge: p.MaxAge, Compress: p.Compress,
		LocalTime: k.Local, BackupTimeFormat: k.Fmt}
	if k.HasInit {
		must(os.WriteFile(filepath.Join(n.dir, n.file), toBytes(k.Init), 0644))
	}
	if p.Fault {
		signal.Ignore(syscall.SIGXFSZ)
		setLimit(8 << 10)
	}
	failed := false
	nextNew := 0
	var news []backup
	for _, b := range order {
		if b.Form == "new" {
			news = append(news, b)
		}
	}
	setClock(at(p.Now), 0)
	if len(news) > 0 {
		setClock(at(news[0].T), 0)
	}
	for _, o := range k.Trigger {
		switch o.Op {
		case "write":
			b := make([]byte, o.N)
			for i := range b {
				b[i] = byte('a' + i%26)
			}
			if _, err := l.Write(b); err != nil {
				failed = true
			}
		case "content": // the content of the next backup made by a rotation
			if _, err := l.Write(content(news[nextNew])); err != nil {
				failed = true
			}
		case "rotate":
			setClock(at(news[nextNew].T), 0)
			nextNew++
			if err := l.Rotate(); err != nil {
				failed = true
			}
		case "rotate0": // there is no current file to move away
			if err := l.Rotate(); err != nil {
				failed = true
			}
		}
	}
	// the mill runs
	torn := 0
	read := func() ([][]interface{}, []int) {
		res := [][]interface{}{}
		cur := []int{-1}
		fs, err := os.ReadDir(n.dir)
		must(err)
		isForeign := map[string]bool{}
		for _, f := range p.Foreign {
			isForeign[strings.TrimRight(f, "/.")] = true
		}
		for _, f := range fs {
			full := filepath.Join(n.dir, f.Name())
			if isForeign[f.Name()] {
				continue
			}
			if f.Type()&os.ModeNamedPipe != 0 {
				for _, x := range fifos {
					if x.path == full {
						c, ok := unzip(x.got)
						if ok && known[string(c)] != nil {
							res = append(res, []interface{}{"gz", known[string(c)]})
						} else {
							res = append(res, []interface{}{"fifo", x.m})
						}
					}
				}
				continue
			}
			if f.IsDir() {
				if b, err := os.ReadFile(filepath.Join(full, "keep")); err != nil || string(b) != "k" {
					res = append(res, []interface{}{"dir", []int{}})
				}
				continue
			}
			gone := false
			if pl, ok := gzPlain[full]; ok {
				_, err := os.Lstat(pl)
				gone = os.IsNotExist(err)
			}
			b, err := os.ReadFile(full)
			if err != nil {
				continue // removed meanwhile
			}
			if f.Name() == n.file {
				cur = ints(b)
				continue
			}
			if strings.HasSuffix(full, ".gz") {
				c, ok := unzip(b)
				switch {
				case ok && known[string(c)] != nil:
					res = append(res, []interface{}{"gz", known[string(c)]})
				case ok:
					res = append(res, []interface{}{"gz", []int{-7}})
				case bad[full] != nil:
					res = append(res, []interface{}{"bad", bad[full]})
				default:
					res = append(res, []interface{}{"bad", []int{-7}})
					if _, err := os.Lstat(full); gone && err == nil {
						torn++
					}
				}
				continue
			}
			m := known[string(b)]
			if m == nil {
				m = []int{-7}
			}
			res = append(res, []interface{}{"plain", m})
		}
		return res, cur
	}
	key := func(r [][]interface{}) string {
		ks := []string{}
		for _, x := range r {
			b, _ := json.Marshal(x)
			ks = append(ks, string(b))
		}
		sort.Strings(ks)
		return strings.Join(ks, ";")
	}
	want := key(k.Expect)
	deadline := time.Now().Add(20 * time.Second)
	matched := 0
	var last [][]interface{}
	var cur []int
	pause := 300 * time.Microsecond
	for time.Now().Before(deadline) {
		busy := false
		for _, x := range fifos {
			if x.step() {
				busy = true
			}
		}
		if busy {
			time.Sleep(500 * time.Microsecond)
			continue
		}
		last, cur = read()
		if key(last) == want {
			matched++
			if matched >= 8 { // stays so
				break
			}
			time.Sleep(2 * time.Millisecond)
		} else {
			matched = 0
			time.Sleep(pause)
			if pause < 10*time.Millisecond {
				pause += pause / 4
			}
		}
	}
	for _, x := range fifos {
		if x.missingAt >= 0 && len(x.got)-x.missingAt > x.size {
			torn++
		}
	}
	if p.Fault {
		setLimit(^uint64(0))
	}
	for _, f := range p.Foreign {
		full := filepath.Join(n.dir, f)
		if strings.HasSuffix(f, "/") {
			full = filepath.Join(full, "in")
		}
		if strings.HasSuffix(f, "/.") {
			if i, err := os.Stat(full); err == nil && i.IsDir() {
				foreign = append(foreign, f)
			}
			continue
		}
		if b, err := os.ReadFile(full); err == nil && string(b) == f {
			foreign = append(foreign, f)
		}
	}
	if torn > 0 {
		torn = 1
	}
	rec := &h.Rec{}
	rec.Log("Settled", "err", failed, "after", last, "cur", cur, "foreign", foreign, "torn", torn)
	l.Close()
	return rec.Events(), p, matched >= 8
}

func setLimit(v uint64) {
	var r struct{ cur, max uint64 }
	syscall.RawSyscall(syscall.SYS_GETRLIMIT, 1, uintptr(unsafe.Pointer(&r)), 0)
	if v == ^uint64(0) {
		v = r.max
	}
	r.cur = v
	if _, _, e := syscall.RawSyscall(syscall.SYS_SETRLIMIT, 1, uintptr(unsafe.Pointer(&r)), 0); e != 0 {
		h.Fail("setrlimit %v", e)
	}
}

func main() {
	h.MainPar(func(raw []byte) ([]h.Ev, interface{}, bool) {
		var k kase
		must(json.Unmarshal(raw, &k))
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "lj-")
		must(err)
		defer os.RemoveAll(dir)
		if k.Kind == "c06" {
			return run06(&k, dir)
		}
		return run05(&k, dir)
	})
}
