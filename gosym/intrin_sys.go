package main

import (
	"fmt"
	"go/types"
	"net"
	"net/http"
	"net/url"
	"path"
	"strings"
)

var byteT types.Type = types.Typ[types.Uint8]

func typesPtr(t types.Type) types.Type { return types.NewPointer(t) }

// ---------- file system

type fsEnt struct {
	path Value
	dir  bool
	data Value // string or *StrV
}

type symFS struct {
	ents []*fsEnt
	tmp  int
}

func newSymFS() *symFS { return &symFS{} }

func cleanPath(v Value) Value {
	if s, ok := v.(string); ok {
		return path.Clean(s)
	}
	return v
}

func (m *Machine) fsFind(p Value) *fsEnt {
	p = cleanPath(p)
	for _, e := range m.fs.ents {
		if m.decide(m.strEq(e.path, p)) {
			return e
		}
	}
	return nil
}

func (m *Machine) fsRemove(e *fsEnt) {
	for i, x := range m.fs.ents {
		if x == e {
			m.fs.ents = append(m.fs.ents[:i:i], m.fs.ents[i+1:]...)
			return
		}
	}
}

func (m *Machine) pathErr(op string, p Value, name string) Value {
	t := m.p.pathErr
	st := t.(*types.Pointer).Elem()
	return IfaceV{t, newPtr(m.mkStruct(st, map[string]Value{"Op": op, "Path": p, "Err": m.globalVal("io/fs", name)}))}
}

// parent directory text (nil if none)
func (m *Machine) parent(p Value) Value {
	if s, ok := p.(string); ok {
		d := path.Dir(s)
		return d
	}
	segs := p.(*StrV).segs
	for i := len(segs) - 1; i >= 0; i-- {
		if segs[i].k == SLit {
			if j := strings.LastIndexByte(segs[i].lit, '/'); j >= 0 {
				out := append([]seg(nil), segs[:i]...)
				out = append(out, lit(segs[i].lit[:j]))
				return cleanPath(m.normStr(out))
			}
		} else if segs[i].k == SSym || segs[i].k == SOpq {
			m.unsupported("file path with symbolic characters")
		}
	}
	return "."
}

func (m *Machine) isDir(p Value) bool {
	if s, ok := p.(string); ok && (s == "." || s == "/" || s == "/tmp") {
		return true
	}
	e := m.fsFind(p)
	return e != nil && e.dir
}

type crashState struct {
	g       *Goroutine
	crashed bool
	armed   bool
	alone   bool // other goroutines are other processes
}

// crashPoint: at a mutating file-system operation the process may die; n alternatives of partial effect.
// Returns -1 when the operation completes normally.
func (m *Machine) crashPoint(n int, what string) int {
	if m.crash == nil || !m.crash.armed || m.crash.crashed {
		return -1
	}
	k := m.choiceInput("crash", n+1)
	if k == 0 {
		return -1
	}
	m.trace = append(m.trace, fmt.Sprintf("crash at %s (variant %d) at %s", what, k-1, m.whereStr()))
	m.crash.crashed = true
	return k - 1
}

// die stops every goroutine of the crashed process
func (m *Machine) die(g *Goroutine) (Value, bool) {
	for _, x := range m.gs {
		if m.crash.alone && x != m.crash.g {
			continue
		}
		if x != m.mainG {
			x.status = gDone
			x.stack = nil
		}
	}
	if m.crash.alone {
		panic(switchAway{})
	}
	m.runq = nil
	if m.mainG.status == gRun {
		m.runq = append(m.runq, m.mainG)
	}
	m.timers = nil
	panic(switchAway{})
}

type switchAway struct{}

// crashDuring(f): runs f in a new goroutine with crash points armed; true if the process died
func crashDuring(alone bool) intrinsic {
	return func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		return m.crashDuring(alone, g, a)
	}
}

func (m *Machine) crashDuring(alone bool, g *Goroutine, a []Value) (Value, bool) {
	if g != m.mainG {
		m.unsupported("CrashDuring outside the main goroutine")
	}
	if m.crash == nil {
		ng := m.newGoroutine("process")
		f, ok := a[0].(*FuncV)
		if !ok || f == nil || f.fn == nil {
			m.unsupported("CrashDuring argument")
		}
		m.pushFrame(ng, f.fn, nil, f.env, -1)
		m.crash = &crashState{g: ng, armed: true, alone: alone}
	}
	c := m.crash
	if c.crashed || c.g.status == gDone {
		m.crash = nil
		return m.ctx.Bool(c.crashed), true
	}
	return m.pollBlock(g, "CrashDuring", 0, func() bool { return c.crashed || c.g.status == gDone })
}

// cutText: the part of a write that reached the disk: variant 0 nothing, 1 half, 2 all but the end
func (m *Machine) cutText(v Value, variant int) Value {
	if variant == 0 {
		return ""
	}
	lines, ok := m.splitRope(v, "\n", -1)
	if !ok {
		m.unsupported("torn write of symbolic text")
	}
	nl := func(ls []Value) Value {
		var r Value = ""
		for _, l := range ls {
			r = m.strConcat(m.strConcat(r, l), "\n")
		}
		return r
	}
	halfLine := func(l Value) Value {
		n := fixedLen(m.toStrV(l))
		if n < 0 {
			return ""
		}
		if s, ok := l.(string); ok {
			if isDecLine(s) {
				return ""
			}
			return s[:n/2]
		}
		return m.substr(l, 0, n/2)
	}
	n := len(lines)
	if variant == 1 {
		if n >= 2 {
			return nl(lines[:n/2])
		}
		return halfLine(lines[0])
	}
	r := nl(lines[:n-1])
	return m.strConcat(r, halfLine(lines[n-1]))
}

func isDecLine(s string) bool {
	if len(s) >= 64 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func fileInfo(m *Machine, name Value, dir bool) Value {
	return IfaceV{types.NewPointer(m.typ(repoMod+"/internal/zmodel", "FileInfo")), newPtr(StructV{name, m.ctx.Bool(dir)})}
}

type fsFile struct {
	e      *fsEnt
	path   Value
	closed bool
	off    int
}

func init() {
	nilE := Value(IfaceV{})
	writeFile := func(m *Machine, g *Goroutine, p, data Value, n0 string) (Value, bool) {
		p = cleanPath(p)
		e := m.fsFind(p)
		if e != nil && e.dir {
			return m.pathErr("open", p, "ErrInvalid"), true
		}
		if e == nil && !m.isDir(m.parent(p)) {
			return m.pathErr("open", p, "ErrNotExist"), true
		}
		set := func(v Value) {
			if e == nil {
				e = &fsEnt{path: p}
				m.fs.ents = append(m.fs.ents, e)
			}
			e.data = v
		}
		txt := m.bytesToStr(data)
		if k := m.crashPoint(4, "write of "+m.panicText(p)); k >= 0 {
			if k > 0 {
				set(m.cutText(txt, k-1))
			}
			return m.die(g)
		}
		set(txt)
		return nilE, true
	}
	reg("os.WriteFile", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		return writeFile(m, g, a[0], a[1], "")
	})
	regS("os.ReadFile", func(m *Machine, a []Value) Value {
		e := m.fsFind(a[0])
		if e == nil {
			return TupleV{SliceV(nil), m.pathErr("open", a[0], "ErrNotExist")}
		}
		if e.dir {
			return TupleV{SliceV(nil), m.pathErr("read", a[0], "ErrInvalid")}
		}
		return TupleV{m.strToBytes(e.data), nilE}
	})
	stat := func(m *Machine, a []Value) Value {
		if m.isDir(cleanPath(a[0])) {
			return TupleV{fileInfo(m, a[0], true), nilE}
		}
		if m.fsFind(a[0]) == nil {
			return TupleV{IfaceV{}, m.pathErr("stat", a[0], "ErrNotExist")}
		}
		return TupleV{fileInfo(m, a[0], false), nilE}
	}
	regS("os.Stat", stat)
	regS("os.Lstat", stat)
	mkdir := func(all bool) intrinsic {
		return func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
			s, ok := concStr(a[0])
			if !ok {
				m.unsupported("mkdir with symbolic path")
			}
			s = path.Clean(s)
			if e := m.fsFind(s); e != nil {
				if e.dir {
					if all {
						return nilE, true
					}
					return m.pathErr("mkdir", a[0], "ErrExist"), true
				}
				return m.pathErr("mkdir", a[0], "ErrInvalid"), true
			}
			if k := m.crashPoint(1, "mkdir "+s); k >= 0 {
				return m.die(g)
			}
			if all {
				for d := s; d != "." && d != "/"; d = path.Dir(d) {
					if e := m.fsFind(d); e == nil {
						m.fs.ents = append(m.fs.ents, &fsEnt{path: d, dir: true})
					}
				}
				return nilE, true
			}
			if !m.isDir(path.Dir(s)) {
				return m.pathErr("mkdir", a[0], "ErrNotExist"), true
			}
			m.fs.ents = append(m.fs.ents, &fsEnt{path: s, dir: true})
			return nilE, true
		}
	}
	reg("os.MkdirAll", mkdir(true))
	reg("os.Mkdir", mkdir(false))
	reg("os.Rename", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		e := m.fsFind(a[0])
		if e == nil {
			return m.pathErr("rename", a[0], "ErrNotExist"), true
		}
		if k := m.crashPoint(1, "rename to "+m.panicText(a[1])); k >= 0 {
			return m.die(g)
		}
		if o := m.fsFind(a[1]); o != nil && o != e {
			m.fsRemove(o)
		}
		e.path = cleanPath(a[1])
		return nilE, true
	})
	reg("os.Remove", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		e := m.fsFind(a[0])
		if e == nil {
			return m.pathErr("remove", a[0], "ErrNotExist"), true
		}
		if k := m.crashPoint(1, "remove "+m.panicText(a[0])); k >= 0 {
			return m.die(g)
		}
		m.fsRemove(e)
		return nilE, true
	})
	openFile := func(m *Machine, g *Goroutine, p Value, create, trunc, excl, app bool) (Value, bool) {
		nilF := Value((*Value)(nil))
		p = cleanPath(p)
		e := m.fsFind(p)
		if e != nil && e.dir {
			return TupleV{nilF, m.pathErr("open", p, "ErrInvalid")}, true
		}
		if e == nil {
			if !create || !m.isDir(m.parent(p)) {
				return TupleV{nilF, m.pathErr("open", p, "ErrNotExist")}, true
			}
			if k := m.crashPoint(1, "create of "+m.panicText(p)); k >= 0 {
				return m.die(g)
			}
			e = &fsEnt{path: p, data: ""}
			m.fs.ents = append(m.fs.ents, e)
		} else if excl {
			return TupleV{nilF, m.pathErr("open", p, "ErrExist")}, true
		} else if trunc {
			if k := m.crashPoint(1, "truncation of "+m.panicText(p)); k >= 0 {
				return m.die(g)
			}
			e.data = ""
		} else if !app && create {
			m.unsupported("OpenFile without truncation or append")
		}
		return TupleV{newPtr(StructV{&Native{kind: "os.File", obj: &fsFile{e: e, path: p}}}), nilE}, true
	}
	reg("os.Create", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		return openFile(m, g, a[0], true, true, false, false)
	})
	reg("os.Open", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		return openFile(m, g, a[0], false, false, false, true)
	})
	reg("os.OpenFile", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		fl := m.must64(a[1], "flags")
		return openFile(m, g, a[0], fl&0x40 != 0, fl&0x200 != 0, fl&0x80 != 0, fl&0x400 != 0)
	})
	reg("os.CreateTemp", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		pat, ok := concStr(a[1])
		if !ok {
			m.unsupported("CreateTemp pattern")
		}
		d := a[0]
		if s, ok := concStr(d); ok && s == "" {
			d = "/tmp"
		}
		m.fs.tmp++
		nm := pat + fmt.Sprintf("%09d", m.fs.tmp)
		if i := strings.LastIndexByte(pat, '*'); i >= 0 {
			nm = pat[:i] + fmt.Sprintf("%09d", m.fs.tmp) + pat[i+1:]
		}
		return openFile(m, g, m.strConcat(d, "/"+nm), true, true, true, false)
	})
	file := func(m *Machine, v Value) *fsFile {
		s, ok := (*m.deref(v)).(StructV)
		if !ok {
			m.unsupported("os.File")
		}
		n, ok := s[0].(*Native)
		if !ok {
			m.unsupported("os.File not opened by the model")
		}
		return n.obj.(*fsFile)
	}
	fw := func(m *Machine, g *Goroutine, f *fsFile, data Value) (Value, bool) {
		if p, _ := concStr(f.path); p == "Stdout" || p == "Stderr" {
			if m.console && p == "Stdout" {
				m.stdout = m.strConcat(m.stdout, data)
			}
			return TupleV{m.ctx.BV(64, 0), nilE}, true
		}
		if f.closed {
			return TupleV{m.ctx.BV(64, 0), m.pathErr("write", f.path, "ErrClosed")}, true
		}
		cur := f.e.data
		if k := m.crashPoint(3, "write to "+m.panicText(f.path)); k >= 0 {
			if k > 0 {
				f.e.data = m.strConcat(cur, m.cutText(data, k))
			}
			return m.die(g)
		}
		f.e.data = m.strConcat(cur, data)
		n, ok := m.tryVal(func() Value { return m.ctx.BV(64, uint64(m.strFixed(data))) })
		if !ok {
			n = m.ctx.BV(64, 0)
		}
		return TupleV{n, nilE}, true
	}
	regS("(*os.File).Read", func(m *Machine, a []Value) Value {
		f := file(m, a[0])
		d := m.sliceOf(a[1])
		eof := m.globalVal("io", "EOF")
		p, _ := concStr(f.path)
		if p == "Stdin" {
			s, ok := concStr(m.stdin)
			if !ok {
				m.unsupported("console input with symbolic characters")
			}
			n := copy(d, m.sliceOf(m.bytesVal([]byte(s))))
			m.stdin = s[n:]
			if n == 0 && len(d) > 0 {
				return TupleV{m.ctx.BV(64, 0), eof}
			}
			return TupleV{m.ctx.BV(64, uint64(n)), nilE}
		}
		if f.closed {
			return TupleV{m.ctx.BV(64, 0), m.pathErr("read", f.path, "ErrClosed")}
		}
		bs := m.strBytes(f.e.data)
		if f.off > len(bs) {
			f.off = len(bs)
		}
		n := 0
		for n < len(d) && f.off < len(bs) {
			d[n] = bs[f.off]
			n++
			f.off++
		}
		if n == 0 && len(d) > 0 {
			return TupleV{m.ctx.BV(64, 0), eof}
		}
		return TupleV{m.ctx.BV(64, uint64(n)), nilE}
	})
	// a whole file at once, so that its text stays in one piece
	reg("io.ReadAll", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		iv, ok := a[0].(IfaceV)
		if !ok || iv.t == nil || iv.t.String() != "*os.File" {
			return interpretIt, true
		}
		f := file(m, iv.v)
		if p, _ := concStr(f.path); p == "Stdin" || f.closed || f.off != 0 {
			return interpretIt, true
		}
		f.off = 1 << 40
		return TupleV{m.strToBytes(f.e.data), nilE}, true
	})
	reg("(*os.File).Write", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		return fw(m, g, file(m, a[0]), m.bytesToStr(a[1]))
	})
	reg("(*os.File).WriteString", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		return fw(m, g, file(m, a[0]), a[1])
	})
	regS("(*os.File).Sync", func(m *Machine, a []Value) Value { return nilE })
	regS("(*os.File).Chmod", func(m *Machine, a []Value) Value { return nilE })
	regS("os.Chmod", func(m *Machine, a []Value) Value { return nilE })
	regS("(*os.File).Name", func(m *Machine, a []Value) Value { return file(m, a[0]).path })
	regS("(*os.File).Close", func(m *Machine, a []Value) Value {
		f := file(m, a[0])
		if f.closed {
			return m.pathErr("close", f.path, "ErrClosed")
		}
		f.closed = true
		return nilE
	})
	pj := func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		var parts []Value
		allc := true
		for _, p := range m.sliceOf(a[0]) {
			if s, ok := p.(string); ok && s == "" {
				continue
			} else if !ok {
				allc = false
				for _, sg := range p.(*StrV).segs {
					if sg.k == SSym || sg.k == SOpq || sg.k == SB64 {
						m.unsupported("path.Join of symbolic characters")
					}
				}
			}
			parts = append(parts, p)
		}
		var r Value = ""
		for i, p := range parts {
			if i > 0 {
				r = m.strConcat(r, "/")
			}
			r = m.strConcat(r, p)
		}
		if allc {
			if r == Value("") {
				return "", true
			}
			return path.Clean(r.(string)), true
		}
		return r, true
	}
	reg("path.Join", pj)
	reg("path/filepath.Join", pj)
	regS("path/filepath.Dir", func(m *Machine, a []Value) Value { return m.parent(a[0]) })
	regS("path.Dir", func(m *Machine, a []Value) Value { return m.parent(a[0]) })
}

// ---------- network

type tcpEnd struct {
	in           []*Term
	peer         *tcpEnd
	closed       bool
	rdl, wdl     int64
	lip, rip     string
	lport, rport int
	id           int
}

type tcpListener struct {
	q      []*tcpEnd
	closed bool
	addr   string
}

func (m *Machine) tcpPair(ip1 string, p1 int, ip2 string, p2 int) (*tcpEnd, *tcpEnd) {
	x := &tcpEnd{lip: ip1, lport: p1, rip: ip2, rport: p2}
	y := &tcpEnd{lip: ip2, lport: p2, rip: ip1, rport: p1}
	x.peer, y.peer = y, x
	return x, y
}

func (m *Machine) tcpConn(e *tcpEnd) Value {
	return newPtr(StructV{StructV{&Native{kind: "tcp", obj: e}}})
}

// tcpOf accepts *net.TCPConn or *net.conn
func (m *Machine) tcpOf(v Value) *tcpEnd {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.runtimePanic("invalid memory address or nil pointer dereference (nil connection)")
	}
	s := (*p).(StructV)
	if in, ok := s[0].(StructV); ok {
		s = in
	}
	n, ok := s[0].(*Native)
	if !ok {
		m.unsupported("connection not created by the model")
	}
	return n.obj.(*tcpEnd)
}

func (m *Machine) opErr(op string, err Value) Value {
	t := m.typ("net", "OpError")
	return IfaceV{typesPtr(t), newPtr(m.mkStruct(t, map[string]Value{"Op": op, "Net": "tcp", "Err": err}))}
}

func (m *Machine) tcpAddr(ip string, port int) Value {
	t := m.typ("net", "TCPAddr")
	return newPtr(m.mkStruct(t, map[string]Value{"IP": m.bytesVal(net.ParseIP(ip).To16()), "Port": m.ctx.BV(64, uint64(port))}))
}

func (m *Machine) addrIface(ip string, port int) Value {
	return IfaceV{typesPtr(m.typ("net", "TCPAddr")), m.tcpAddr(ip, port)}
}

func (m *Machine) addrText(v Value) (string, int) {
	s := (*m.deref(v)).(StructV)
	t := m.typ("net", "TCPAddr")
	b, ok := concBytes(m.sliceOf(s[fieldIdx(t, "IP")]))
	if !ok {
		m.unsupported("symbolic IP address")
	}
	return net.IP(b).String(), int(m.must64(s[fieldIdx(t, "Port")], "port"))
}

func lkey(port int) string { return fmt.Sprint(port) }

func init() {
	nilE := Value(IfaceV{})
	cn := "(*net.conn)."
	n0 := func(m *Machine) Value { return m.ctx.BV(64, 0) }
	reg(cn+"Read", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		e := m.tcpOf(a[0])
		b := m.sliceOf(a[1])
		m.point(g)
		if e.closed {
			return TupleV{n0(m), m.opErr("read", m.globalVal("net", "ErrClosed"))}, true
		}
		if e.rdl > 0 && m.now >= e.rdl {
			return TupleV{n0(m), m.opErr("read", m.globalVal("internal/poll", "ErrDeadlineExceeded"))}, true
		}
		if len(b) == 0 {
			return TupleV{n0(m), nilE}, true
		}
		if len(e.in) > 0 {
			n := min(len(b), len(e.in))
			if n > 1 && m.shortLeft > 0 {
				m.shortLeft--
				switch m.choose(3, "short read") {
				case 1:
					n = 1
				case 2:
					n = n / 2
				}
			}
			for i := 0; i < n; i++ {
				b[i] = e.in[i]
			}
			e.in = e.in[n:]
			return TupleV{m.ctx.BV(64, uint64(n)), nilE}, true
		}
		if e.peer == nil || e.peer.closed {
			return TupleV{n0(m), m.globalVal("io", "EOF")}, true
		}
		return m.pollBlock(g, "network read", e.rdl, func() bool { return len(e.in) > 0 || e.peer.closed || e.closed })
	})
	reg(cn+"Write", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		e := m.tcpOf(a[0])
		m.point(g)
		if e.closed {
			return TupleV{n0(m), m.opErr("write", m.globalVal("net", "ErrClosed"))}, true
		}
		if e.wdl > 0 && m.now >= e.wdl {
			return TupleV{n0(m), m.opErr("write", m.globalVal("internal/poll", "ErrDeadlineExceeded"))}, true
		}
		ts := m.byteTerms(a[1])
		if e.peer == nil || e.peer.closed {
			return TupleV{n0(m), m.opErr("write", m.mkError("broken pipe"))}, true
		}
		e.peer.in = append(e.peer.in[:len(e.peer.in):len(e.peer.in)], ts...)
		return TupleV{m.ctx.BV(64, uint64(len(ts))), nilE}, true
	})
	reg(cn+"Close", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		e := m.tcpOf(a[0])
		if e.closed {
			return m.opErr("close", m.globalVal("net", "ErrClosed")), true
		}
		e.closed = true
		return nilE, true
	})
	dl := func(name string, r, w bool) {
		regS(cn+name, func(m *Machine, a []Value) Value {
			e := m.tcpOf(a[0])
			if e.closed {
				return m.opErr("set", m.globalVal("net", "ErrClosed"))
			}
			t, ok := m.toVirtual(a[1])
			if !ok {
				t = 0
			} else if t <= 0 {
				t = 1
			}
			if r {
				e.rdl = t
			}
			if w {
				e.wdl = t
			}
			return nilE
		})
	}
	dl("SetReadDeadline", true, false)
	dl("SetWriteDeadline", false, true)
	dl("SetDeadline", true, true)
	regS(cn+"LocalAddr", func(m *Machine, a []Value) Value { e := m.tcpOf(a[0]); return m.addrIface(e.lip, e.lport) })
	regS(cn+"RemoteAddr", func(m *Machine, a []Value) Value { e := m.tcpOf(a[0]); return m.addrIface(e.rip, e.rport) })
	for _, n := range []string{"SetKeepAlive", "SetNoDelay", "SetLinger"} {
		regS("(*net.TCPConn)."+n, func(m *Machine, a []Value) Value { return nilE })
	}
	// bulk transfer helpers fall back to plain reads and writes
	regS("(net.IP).String", func(m *Machine, a []Value) Value {
		b, ok := concBytes(m.sliceOf(a[0]))
		if !ok {
			m.unsupported("symbolic IP")
		}
		return net.IP(b).String()
	})
	regS("(*net.TCPAddr).String", func(m *Machine, a []Value) Value {
		if p, ok := a[0].(*Value); ok && p == nil {
			return "<nil>"
		}
		ip, port := m.addrText(a[0])
		return net.JoinHostPort(ip, fmt.Sprint(port))
	})
	regS("net.ResolveTCPAddr", func(m *Machine, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok {
			m.unsupported("symbolic network address")
		}
		host, port, err := net.SplitHostPort(s)
		if err != nil {
			return TupleV{(*Value)(nil), m.mkError("address " + s + ": " + err.Error())}
		}
		pn := 0
		if _, e := fmt.Sscanf(port, "%d", &pn); e != nil || pn < 0 || pn > 65535 {
			return TupleV{(*Value)(nil), m.mkError("address " + s + ": invalid port")}
		}
		switch host {
		case "", "localhost":
			host = "127.0.0.1"
		}
		if net.ParseIP(host) == nil {
			return TupleV{(*Value)(nil), m.mkError("lookup " + host + ": no such host")}
		}
		return TupleV{m.tcpAddr(host, pn), nilE}
	})
	regS("net.ListenTCP", func(m *Machine, a []Value) Value {
		_, port := m.addrText(a[1])
		if l := m.listeners[lkey(port)]; l != nil && !l.closed {
			return TupleV{(*Value)(nil), m.opErr("listen", m.mkError("address already in use"))}
		}
		l := &tcpListener{addr: lkey(port)}
		m.listeners[l.addr] = l
		return TupleV{newPtr(StructV{&Native{kind: "listener", obj: l}}), nilE}
	})
	lis := func(m *Machine, v Value) *tcpListener { return (*m.deref(v)).(StructV)[0].(*Native).obj.(*tcpListener) }
	accept := func(m *Machine, g *Goroutine, a []Value, dst int) (Value, *tcpEnd, bool) {
		l := lis(m, a[0])
		if l.closed {
			return m.opErr("accept", m.globalVal("net", "ErrClosed")), nil, true
		}
		if len(l.q) == 0 {
			m.pollBlock(g, "accept", 0, func() bool { return l.closed || len(l.q) > 0 })
			return nil, nil, false
		}
		e := l.q[0]
		l.q = l.q[1:]
		return nilE, e, true
	}
	reg("(*net.TCPListener).AcceptTCP", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		err, e, done := accept(m, g, a, dst)
		if !done {
			return nil, false
		}
		if e == nil {
			return TupleV{(*Value)(nil), err}, true
		}
		return TupleV{m.tcpConn(e), err}, true
	})
	regS("(*net.TCPListener).Close", func(m *Machine, a []Value) Value { lis(m, a[0]).closed = true; return nilE })
	regS("net.DialTCP", func(m *Machine, a []Value) Value {
		ip, port := m.addrText(a[2])
		l := m.listeners[lkey(port)]
		if l == nil || l.closed {
			return TupleV{(*Value)(nil), m.opErr("dial", m.mkError("connection refused"))}
		}
		m.nets++
		x, y := m.tcpPair("127.0.0.1", 40000+m.nets, ip, port)
		l.q = append(l.q, y)
		return TupleV{m.tcpConn(x), nilE}
	})
	// ----- http
	regS("net/http.HandleFunc", func(m *Machine, a []Value) Value {
		p, ok := concStr(a[0])
		if !ok {
			m.unsupported("symbolic http pattern")
		}
		if m.handlers[p] != nil {
			m.runtimePanic("http: multiple registrations for " + p)
		}
		m.handlers[p] = a[1]
		return nil
	})
	reg("net/http.ListenAndServe", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		if ad, ok := concStr(a[0]); ok {
			m.served = append(m.served, ad[strings.LastIndexByte(ad, ':')+1:])
		}
		return m.pollBlock(g, "serving http", 0, func() bool { return false })
	})
	regS(repoMod+"/internal/zverif.Served", func(m *Machine, a []Value) Value {
		h, ok := concStr(a[0])
		if !ok {
			m.unsupported("symbolic server address")
		}
		port := "80"
		if i := strings.LastIndexByte(h, ':'); i >= 0 {
			port = h[i+1:]
		}
		for _, p := range m.served {
			if p == port {
				return m.ctx.tt
			}
		}
		return m.ctx.ff
	})
	regS("maps.clone", func(m *Machine, a []Value) Value {
		iv := a[0].(IfaceV)
		mo, _ := iv.v.(*MapObj)
		if mo == nil {
			return iv
		}
		n := newMap()
		n.nsym, n.live = mo.nsym, mo.live
		for _, e := range mo.ents {
			if !e.dead {
				x := &MapEntry{k: e.k, v: copyVal(e.v)}
				n.ents = append(n.ents, x)
				if key, ok := concKey(e.k, nil); ok {
					n.idx[string(key)] = x
				}
			}
		}
		iv.v = n
		return iv
	})
	canon := func(v Value) (string, bool) {
		s, ok := concStr(v)
		return http.CanonicalHeaderKey(s), ok
	}
	regS("(net/http.Header).Get", func(m *Machine, a []Value) Value {
		k, ok := canon(a[1])
		mo, _ := a[0].(*MapObj)
		if !ok {
			m.unsupported("symbolic header key")
		}
		if e := m.mapFind(mo, k); e != nil {
			if s := m.sliceOf(e.v); len(s) > 0 {
				return s[0]
			}
		}
		return ""
	})
	regS("(net/http.Header).Set", func(m *Machine, a []Value) Value {
		k, ok := canon(a[1])
		mo, _ := a[0].(*MapObj)
		if !ok {
			m.unsupported("symbolic header key")
		}
		if mo == nil {
			m.runtimePanic("assignment to entry in nil map")
		}
		m.mapSet(mo, k, SliceV{a[2]})
		return nil
	})
	regS("(net/http.Header).Add", func(m *Machine, a []Value) Value {
		k, ok := canon(a[1])
		mo, _ := a[0].(*MapObj)
		if !ok || mo == nil {
			m.unsupported("header add")
		}
		var s SliceV
		if e := m.mapFind(mo, k); e != nil {
			s = m.sliceOf(e.v)
		}
		m.mapSet(mo, k, append(s[:len(s):len(s)], a[2]))
		return nil
	})
	reg("(*net/url.URL).Query", func(m *Machine, g *Goroutine, a []Value, dst int) (Value, bool) {
		p := m.deref(a[0])
		q := (*p).(StructV)[fieldIdx(m.typ("net/url", "URL"), "RawQuery")]
		if s, ok := concStr(q); ok {
			vs, _ := url.ParseQuery(s)
			mo := newMap()
			for _, kv := range strings.Split(s, "&") {
				k, _, _ := strings.Cut(kv, "=")
				k, _ = url.QueryUnescape(k)
				if xs, ok := vs[k]; ok && m.mapFind(mo, k) == nil {
					sl := SliceV{}
					for _, x := range xs {
						sl = append(sl, x)
					}
					m.mapSet(mo, k, sl)
				}
			}
			return mo, true
		}
		for _, g := range q.(*StrV).segs {
			if g.k == SSym {
				for _, x := range g.b {
					for _, c := range "&=%+;#" {
						if m.decide(m.ctx.Eq(x, m.ctx.BV(8, uint64(c)))) {
							m.unsupported("query text with a symbolic special character")
						}
					}
				}
			}
		}
		parts := m.splitSegs(q.(*StrV), '&', -1)
		mo := newMap()
		for _, part := range parts {
			var kv []Value
			if s, ok := concStr(part); ok {
				k, v, has := strings.Cut(s, "=")
				kv = []Value{k}
				if has {
					kv = append(kv, v)
				}
			} else {
				kv = m.splitSegs(part.(*StrV), '=', 2)
			}
			k, ok := concStr(kv[0])
			if !ok {
				m.unsupported("symbolic query key")
			}
			if k == "" && len(kv) == 1 {
				continue
			}
			k, _ = url.QueryUnescape(k)
			var v Value = ""
			if len(kv) == 2 {
				v = kv[1]
				if s, ok := concStr(v); ok {
					v, _ = url.QueryUnescape(s)
				}
			}
			var sl SliceV
			if e := m.mapFind(mo, k); e != nil {
				sl = m.sliceOf(e.v)
			}
			m.mapSet(mo, k, append(sl[:len(sl):len(sl)], v))
		}
		return mo, true
	})
}
