#!/usr/bin/env python3
"""syncoverlay.py REPO OUT: writes OUT/overlay.json, a go build -overlay under which the non-test files of REPO that import
"sync" or "sync/atomic" import stand-ins for them: the same operations with a scheduling point before each, so that the
explorer of C06 decides the order of synchronised operations too. The stand-ins live in a package tree that exists only in
the overlay. Files that import neither are left alone."""
import json, os, re, sys

repo, out = sys.argv[1], sys.argv[2]
MOD = "github.com/katydid/katydid"
over = {}


def put(path, text):
    name = os.path.join(out, path.replace("/", "__"))
    with open(name, "w") as f:
        f.write(text)
    over[os.path.join(repo, path)] = name


HOOK = '''// Package hook connects the stand-ins with a scheduler.
package hook

// Yielder is called before an operation; it reports whether a scheduler is in control.
var Yielder func() bool

// Blocker is called by a thread that cannot go on until another wakes it; it reports whether a scheduler is in control.
var Blocker func() bool

// Waker is called when threads that were blocked may go on.
var Waker func()

// Dead reports whether threads have been given up in a deadlock.
var Dead func() bool

func Yield() bool { return Yielder != nil && Yielder() }
func Blocked() bool { return Blocker != nil && Blocker() }
func Woken() {
	if Waker != nil {
		Waker()
	}
}

// Acquire takes a lock.
func Acquire(try func() bool, lock func()) {
	if Yield() {
		for {
			if try() {
				return
			}
			if !Blocked() {
				break
			}
		}
	}
	if Dead != nil && Dead() {
		if !try() {
			panic("deadlock")
		}
		return
	}
	lock()
}
'''

SYNC = '''// Package sync stands in for the standard package.
package sync

import (
	rs "sync"
	ra "sync/atomic"

	"MOD/verifsync/hook"
)

type Locker = rs.Locker
type Cond = rs.Cond
type WaitGroup = rs.WaitGroup

func NewCond(l Locker) *Cond { return rs.NewCond(l) }
func OnceFunc(f func()) func() { return rs.OnceFunc(f) }

type Mutex struct{ m rs.Mutex }

func (m *Mutex) Lock()         { hook.Acquire(m.m.TryLock, m.m.Lock) }
func (m *Mutex) TryLock() bool { hook.Yield(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); hook.Woken() }

// RWMutex lets no further reader in while a writer waits, as the real one does.
type RWMutex struct {
	m       rs.RWMutex
	waiting ra.Int32
}

func (m *RWMutex) Lock() {
	waits := false
	hook.Acquire(func() bool {
		ok := m.m.TryLock()
		if ok == waits {
			waits = !ok
			m.waiting.Add(map[bool]int32{true: 1, false: -1}[waits])
		}
		return ok
	}, m.m.Lock)
	if waits {
		m.waiting.Add(-1)
	}
}
func (m *RWMutex) RLock() {
	hook.Acquire(func() bool { return m.waiting.Load() == 0 && m.m.TryRLock() }, m.m.RLock)
}
func (m *RWMutex) TryLock() bool  { hook.Yield(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { hook.Yield(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); hook.Woken() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); hook.Woken() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Map struct{ m rs.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { hook.Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { hook.Yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	hook.Yield()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	hook.Yield()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{})                        { hook.Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool)   { hook.Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool     { hook.Yield(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o interface{}) bool      { hook.Yield(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(key, value interface{}) bool) {
	hook.Yield()
	m.m.Range(func(k, v interface{}) bool { hook.Yield(); return f(k, v) })
}
func (m *Map) Clear() {
	hook.Yield()
	m.m.Range(func(k, v interface{}) bool { m.m.Delete(k); return true })
}

// Pool hands out what was put last, whoever asks.
type Pool struct {
	New   func() interface{}
	m     rs.Mutex
	items []interface{}
}

func (p *Pool) Get() interface{} {
	hook.Yield()
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	hook.Yield()
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}
'''.replace("MOD", MOD)


def atomic():
    s = '''// Package atomic stands in for the standard package.
package atomic

import (
	ra "sync/atomic"
	"unsafe"

	"MOD/verifsync/hook"
)

var _ unsafe.Pointer

'''.replace("MOD", MOD)
    for name, t in [("Int32", "int32"), ("Int64", "int64"), ("Uint32", "uint32"), ("Uint64", "uint64"), ("Uintptr", "uintptr"), ("Pointer", "unsafe.Pointer")]:
        s += "func Load%s(a *%s) %s { hook.Yield(); return ra.Load%s(a) }\n" % (name, t, t, name)
        s += "func Store%s(a *%s, v %s) { hook.Yield(); ra.Store%s(a, v) }\n" % (name, t, t, name)
        s += "func Swap%s(a *%s, v %s) %s { hook.Yield(); return ra.Swap%s(a, v) }\n" % (name, t, t, t, name)
        s += "func CompareAndSwap%s(a *%s, o, n %s) bool { hook.Yield(); return ra.CompareAndSwap%s(a, o, n) }\n" % (name, t, t, name)
        if name == "Pointer":
            continue
        s += "func Add%s(a *%s, v %s) %s { hook.Yield(); return ra.Add%s(a, v) }\n" % (name, t, t, t, name)
        s += "func And%s(a *%s, v %s) %s { hook.Yield(); return ra.And%s(a, v) }\n" % (name, t, t, t, name)
        s += "func Or%s(a *%s, v %s) %s { hook.Yield(); return ra.Or%s(a, v) }\n" % (name, t, t, t, name)
    for name, t, add in [("Int32", "int32", 1), ("Int64", "int64", 1), ("Uint32", "uint32", 1), ("Uint64", "uint64", 1), ("Uintptr", "uintptr", 1), ("Bool", "bool", 0), ("Value", "interface{}", 0)]:
        s += "\ntype %s struct{ v ra.%s }\n\n" % (name, name)
        s += "func (x *%s) Load() %s { hook.Yield(); return x.v.Load() }\n" % (name, t)
        s += "func (x *%s) Store(v %s) { hook.Yield(); x.v.Store(v) }\n" % (name, t)
        s += "func (x *%s) Swap(v %s) %s { hook.Yield(); return x.v.Swap(v) }\n" % (name, t, t)
        s += "func (x *%s) CompareAndSwap(o, n %s) bool { hook.Yield(); return x.v.CompareAndSwap(o, n) }\n" % (name, t)
        if add:
            s += "func (x *%s) Add(v %s) %s { hook.Yield(); return x.v.Add(v) }\n" % (name, t, t)
            s += "func (x *%s) And(v %s) %s { hook.Yield(); return x.v.And(v) }\n" % (name, t, t)
            s += "func (x *%s) Or(v %s) %s { hook.Yield(); return x.v.Or(v) }\n" % (name, t, t)
    return s


put("verifsync/hook/hook.go", HOOK)
put("verifsync/sync/sync.go", SYNC)
put("verifsync/atomic/atomic.go", atomic())

SPEC = re.compile(r'^(?P<pre>(?:import)?[ \t]*(?:[A-Za-z_][A-Za-z0-9_]*[ \t]+)?)"sync(?P<at>/atomic)?"(?P<post>[ \t]*;?[ \t]*(?://.*)?)$', re.M)
for d, dirs, files in os.walk(repo):
    dirs[:] = sorted(x for x in dirs if not x.startswith((".", "_")) and x not in ("testdata", "vendor", "verifsync"))
    for f in sorted(files):
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        path = os.path.join(d, f)
        with open(path, encoding="utf-8", errors="surrogateescape", newline="") as fh:
            text = fh.read()
        # only the part before the first declaration can import
        m = re.search(r"^(func|type|var|const)\b", text, re.M)
        head, body = (text[:m.start()], text[m.start():]) if m else (text, "")
        new = SPEC.sub(lambda g: '%s"%s/verifsync/%s"%s' % (g["pre"], MOD, "atomic" if g["at"] else "sync", g["post"]), head)
        if new != head:
            rel = os.path.relpath(path, repo)
            name = os.path.join(out, rel.replace("/", "__"))
            with open(name, "w", encoding="utf-8", errors="surrogateescape", newline="") as fh:
                fh.write(new + body)
            over[path] = name
with open(os.path.join(out, "overlay.json"), "w") as fh:
    json.dump({"Replace": over}, fh)
