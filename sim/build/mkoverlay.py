#!/usr/bin/env python3
"""Generate the simulator's build overlay.

The simulator owns every source of nondeterminism *below* gopf, so that no hook
is needed inside /repo: this script takes the installed Go standard library and
the cached third-party modules and produces copies with seams in them.

  os        every file operation, process exit, stdout/stderr, Stat, Getpid
  time      Now, Sleep
  math/rand the global generator
  runtime   random seeds of maps and of map iteration

  go-sqlite3  + a VFS whose operations are decided by the simulator
  fftw        plan with ESTIMATE (MEASURE times the machine: nondeterministic),
              a yield point in Execute; the unused single precision half is dropped

Every edit asserts that the text it replaces occurs exactly once; otherwise the
build fails (an error of the check, never a violation).
"""
import json, os, shutil, sys

goroot, modcache, out, here = sys.argv[1:5]
src = os.path.join(goroot, "src")
ov = os.path.join(out, "overlay")
shutil.rmtree(ov, ignore_errors=True)
os.makedirs(ov)
replace = {}


def die(msg):
    sys.stderr.write("mkoverlay: " + msg + "\n")
    sys.exit(3)


def edit(rel, *subs):
    path = os.path.join(src, rel)
    text = open(path).read()
    for old, new in subs:
        if text.count(old) != 1:
            die("%s: expected exactly one occurrence of %r, found %d" % (rel, old, text.count(old)))
        text = text.replace(old, new)
    dst = os.path.join(ov, rel.replace("/", "__"))
    open(dst, "w").write(text)
    replace[path] = dst


def add(rel, text):
    dst = os.path.join(ov, rel.replace("/", "__"))
    open(dst, "w").write(text)
    replace[os.path.join(src, rel)] = dst


# ---------------------------------------------------------------- package os
add("os/simhook.go", '''package os

// SimOp describes one operation that is about to be performed.
type SimOp struct {
	Op    string // open read readat write writeat close sync truncate remove rename mkdir stat
	Path  string
	Path2 string
	File  *File
	Buf   []byte
	Off   int64
	Flag  int
}

// Actions that a hook can request
const (
	SimPass   = iota // perform the operation
	SimReturn        // do not perform it, return (N, Err)
	SimLimit         // read/write: use only the first N bytes of the buffer, then return Err (may be nil for reads)
	SimAfter         // perform it, then return Err
)

// SimRes is the answer of the hook
type SimRes struct {
	Action int
	N      int
	Err    error
}

// SimHook is consulted before every file operation if it is not nil
var SimHook func(op *SimOp) SimRes

// SimExit is called by Exit if it is not nil
var SimExit func(code int)

// SimPid replaces Getpid if it is not nil and returns a non-zero value
var SimPid func() int

// SimTempName provides random suffixes for temporary files
var SimTempName func() (uint32, bool)

// SimFd returns the file descriptor without side effects (-1 when closed)
func SimFd(f *File) int {
	if f == nil || f.file == nil {
		return -1
	}
	return f.pfd.Sysfd
}

func simOp(op string, path string) SimRes {
	if SimHook == nil {
		return SimRes{}
	}
	return SimHook(&SimOp{Op: op, Path: path})
}

func simFileOp(op string, f *File) SimRes {
	if SimHook == nil || f == nil || f.file == nil {
		return SimRes{}
	}
	return SimHook(&SimOp{Op: op, Path: f.name, File: f})
}

func simIO(op string, f *File, b []byte, off int64) SimRes {
	if SimHook == nil {
		return SimRes{}
	}
	return SimHook(&SimOp{Op: op, Path: f.name, File: f, Buf: b, Off: off})
}
''')
edit("os/file.go",
     ('''	n, e := f.read(b)
	return n, f.wrapErr("read", e)
''', '''	if r := simIO("read", f, b, -1); r.Action == SimReturn {
		return r.N, r.Err
	} else if r.Action == SimLimit {
		n, e := f.read(b[:r.N])
		if r.Err != nil {
			return n, r.Err
		}
		return n, f.wrapErr("read", e)
	}
	n, e := f.read(b)
	return n, f.wrapErr("read", e)
'''),
     ('''		return 0, &PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
''', '''		return 0, &PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
	if r := simIO("readat", f, b, off); r.Action == SimReturn {
		return r.N, r.Err
	}
'''),
     ('''	n, handled, e := f.readFrom(r)
	if !handled {
''', '''	if SimHook != nil {
		return genericReadFrom(f, r)
	}
	n, handled, e := f.readFrom(r)
	if !handled {
'''),
     ('''	n, e := f.write(b)
	if n < 0 {
		n = 0
	}
''', '''	if r := simIO("write", f, b, -1); r.Action == SimReturn {
		return r.N, r.Err
	} else if r.Action == SimLimit {
		n, _ := f.write(b[:r.N])
		return n, r.Err
	} else if r.Action == SimAfter {
		n, _ := f.write(b)
		return n, r.Err
	}
	n, e := f.write(b)
	if n < 0 {
		n = 0
	}
'''),
     ('''		return 0, &PathError{Op: "writeat", Path: f.name, Err: errors.New("negative offset")}
	}
''', '''		return 0, &PathError{Op: "writeat", Path: f.name, Err: errors.New("negative offset")}
	}
	if r := simIO("writeat", f, b, off); r.Action == SimReturn {
		return r.N, r.Err
	} else if r.Action == SimLimit {
		n, _ := f.pwrite(b[:r.N], off)
		return n, r.Err
	}
'''),
     ('''	n, handled, e := f.writeTo(w)
	if handled {
''', '''	if SimHook != nil {
		return genericWriteTo(f, w)
	}
	n, handled, e := f.writeTo(w)
	if handled {
'''),
     ('''func Mkdir(name string, perm FileMode) error {
''', '''func Mkdir(name string, perm FileMode) error {
	if r := simOp("mkdir", name); r.Action == SimReturn {
		return r.Err
	}
'''),
     ('''	testlog.Open(name)
	f, err := openFileNolog(name, flag, perm)
''', '''	testlog.Open(name)
	if SimHook != nil {
		if r := SimHook(&SimOp{Op: "open", Path: name, Flag: flag}); r.Action == SimReturn {
			return nil, r.Err
		}
	}
	f, err := openFileNolog(name, flag, perm)
'''),
     ('''func Rename(oldpath, newpath string) error {
''', '''func Rename(oldpath, newpath string) error {
	if SimHook != nil {
		if r := SimHook(&SimOp{Op: "rename", Path: oldpath, Path2: newpath}); r.Action == SimReturn {
			return r.Err
		}
	}
'''))
edit("os/file_posix.go",
     ('''		return ErrInvalid
	}
	return f.file.close()
''', '''		return ErrInvalid
	}
	if r := simFileOp("close", f); r.Action == SimAfter {
		f.file.close()
		return r.Err
	}
	return f.file.close()
'''),
     ('''	if e := f.pfd.Ftruncate(size); e != nil {
''', '''	if r := simFileOp("truncate", f); r.Action == SimReturn {
		return r.Err
	}
	if e := f.pfd.Ftruncate(size); e != nil {
'''),
     ('''	if e := f.pfd.Fsync(); e != nil {
''', '''	if r := simFileOp("sync", f); r.Action == SimReturn {
		return r.Err
	}
	if e := f.pfd.Fsync(); e != nil {
'''))
edit("os/file_unix.go",
     ('''func Truncate(name string, size int64) error {
''', '''func Truncate(name string, size int64) error {
	if r := simOp("truncate", name); r.Action == SimReturn {
		return r.Err
	}
'''),
     ('''func Remove(name string) error {
''', '''func Remove(name string) error {
	if r := simOp("remove", name); r.Action == SimReturn {
		return r.Err
	}
'''))
edit("os/stat_unix.go",
     ('''	var fs fileStat
	err := f.pfd.Fstat(&fs.sys)
''', '''	if r := simFileOp("stat", f); r.Action == SimReturn {
		return nil, r.Err
	}
	var fs fileStat
	err := f.pfd.Fstat(&fs.sys)
'''))
edit("os/stat.go",
     ('''	testlog.Stat(name)
	return statNolog(name)
''', '''	testlog.Stat(name)
	if r := simOp("stat", name); r.Action == SimReturn {
		return nil, r.Err
	}
	return statNolog(name)
'''),
     ('''	testlog.Stat(name)
	return lstatNolog(name)
''', '''	testlog.Stat(name)
	if r := simOp("stat", name); r.Action == SimReturn {
		return nil, r.Err
	}
	return lstatNolog(name)
'''))
edit("os/proc.go",
     ('''func Exit(code int) {
''', '''func Exit(code int) {
	if SimExit != nil {
		SimExit(code)
	}
'''))
edit("os/exec.go",
     ('''func Getpid() int { return syscall.Getpid() }
''', '''func Getpid() int {
	if SimPid != nil {
		if p := SimPid(); p != 0 {
			return p
		}
	}
	return syscall.Getpid()
}
'''))
edit("os/tempfile.go",
     ('''func nextRandom() string {
''', '''func nextRandom() string {
	if SimTempName != nil {
		if n, ok := SimTempName(); ok {
			return strconv.FormatUint(uint64(n), 10)
		}
	}
'''))

# -------------------------------------------------------------- package time
edit("time/time.go",
     ('''func Now() Time {
	sec, nsec, mono := runtimeNow()
''', '''func Now() Time {
	if SimNow != nil {
		if ns, ok := SimNow(); ok {
			return unixTime(ns/1e9, int32(ns%1e9))
		}
	}
	return SimRealNow()
}

// SimNow provides the simulated wall clock (ns since the epoch)
var SimNow func() (int64, bool)

// SimRealNow reads the real clock
func SimRealNow() Time {
	sec, nsec, mono := runtimeNow()
'''))
edit("time/sleep.go",
     ('''func Sleep(d Duration)
''', '''func Sleep(d Duration) {
	if SimSleep != nil && SimSleep(d) {
		return
	}
	simRealSleep(d)
}

// SimSleep replaces Sleep when it returns true
var SimSleep func(d Duration) bool

func simRealSleep(d Duration)
'''))
edit("runtime/time.go",
     ('''//go:linkname timeSleep time.Sleep
''', '''//go:linkname timeSleep time.simRealSleep
'''))

# ----------------------------------------------------------- package runtime
edit("runtime/rand.go",
     ('''	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,
''', '''	if simMapG != 0 && uintptr(unsafe.Pointer(getg())) == simMapG {
		// also called by compiled code that makes a map on the stack
		simMapState += 0x9e3779b97f4a7c15
		z := simMapState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,
'''),
     ('''func maps_rand() uint64 {
	return rand()
}
''', '''func maps_rand() uint64 {
	return rand()
}

var simMapG uintptr
var simMapState uint64

// SimMapSeed makes the random choices of maps (seed, iteration order) in the
// calling goroutine a function of state.
func SimMapSeed(state uint64) {
	simMapState = state
	simMapG = uintptr(unsafe.Pointer(getg()))
}

// SimMapOff returns to ordinary random maps
func SimMapOff() { simMapG = 0 }
'''))
edit("internal/runtime/maps/runtime_alg.go",
     ('''		hashkey[i] = uintptr(bootstrapRand())
''', '''		bootstrapRand()
		hashkey[i] = uintptr(0x9e3779b97f4a7c15*uint64(i+1)) | 1
'''),
     ('''		key[i] = bootstrapRand()
''', '''		bootstrapRand()
		key[i] = 0xbf58476d1ce4e5b9 * uint64(i+1)
'''))

# --------------------------------------------------------- package math/rand
# a caller that has to wait for one of a limited number of connections asks the simulator
edit("database/sql/sql.go",
     ("""		// Make the connRequest channel. It's buffered so that the
		// connectionOpener doesn't block while waiting for the req to be read.
""", """		if SimPoolWait != nil {
			db.mu.Unlock()
			SimPoolWait()
			return db.conn(ctx, strategy)
		}

		// Make the connRequest channel. It's buffered so that the
		// connectionOpener doesn't block while waiting for the req to be read.
"""))
add("database/sql/simhook.go", """package sql

// SimPoolWait is called instead of waiting for a connection if it is not nil
var SimPoolWait func()
""")
edit("math/rand/rand.go",
     ('''func globalRand() *Rand {
''', '''func globalRand() *Rand {
	if SimGlobal != nil {
		if r := SimGlobal(); r != nil {
			return r
		}
	}
'''),
     ('''func Seed(seed int64) {
''', '''func Seed(seed int64) {
	if SimGlobal != nil {
		if r := SimGlobal(); r != nil {
			r.Seed(seed)
			return
		}
	}
'''),
     ('''//go:linkname runtime_rand runtime.rand
''', '''// SimGlobal replaces the global generator if it returns a non-nil value
var SimGlobal func() *Rand

//go:linkname runtime_rand runtime.rand
'''))
edit("math/rand/v2/rand.go",
     ('''func (runtimeSource) Uint64() uint64 {
''', '''// SimUint64 replaces the global source
var SimUint64 func() (uint64, bool)

func (runtimeSource) Uint64() uint64 {
	if SimUint64 != nil {
		if v, ok := SimUint64(); ok {
			return v
		}
	}
'''))
json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"), indent=1)


# ------------------------------------------------------- third-party modules
def copymod(rel, name, skip=()):
    s = os.path.join(modcache, rel)
    d = os.path.join(out, "mod", name)
    shutil.rmtree(d, ignore_errors=True)

    def ign(dirpath, names):
        return [n for n in names if n in skip or n.endswith("_test.go")]
    shutil.copytree(s, d, ignore=ign)
    for root, dirs, files in os.walk(d):
        os.chmod(root, 0o755)
        for f in files:
            os.chmod(os.path.join(root, f), 0o644)
    return d


def patch(path, *subs):
    text = open(path).read()
    for old, new in subs:
        if text.count(old) < 1:
            die("%s: %r not found" % (path, old))
        text = text.replace(old, new)
    open(path, "w").write(text)


os.makedirs(os.path.join(out, "mod"), exist_ok=True)
d = copymod("github.com/mattn/go-sqlite3@v2.0.3+incompatible", "sqlite3", skip=("_example", "upgrade"))
# The driver does not notice that a column cannot be converted for lack of memory:
# allocations made there never fail
f = os.path.join(d, "sqlite3.go")
t = open(f).read()
assert t.count("C.sqlite3_column_text(") == 1 and t.count("#if SQLITE_VERSION_NUMBER < 3012000") == 1
for fn in ("text", "blob", "bytes"):
    t = t.replace("C.sqlite3_column_%s(" % fn, "C.sim_column_%s(" % fn)
t = t.replace("#if SQLITE_VERSION_NUMBER < 3012000", """const unsigned char *sim_column_text(sqlite3_stmt *s, int i);
const void *sim_column_blob(sqlite3_stmt *s, int i);
int sim_column_bytes(sqlite3_stmt *s, int i);
#if SQLITE_VERSION_NUMBER < 3012000""", 1)
# Nor does it notice that a transaction stays open because COMMIT or ROLLBACK could not
# be prepared for lack of memory, and the pool hands the connection out again
i = t.index("// Commit transaction.")
j = t.index("// RegisterCollation makes")
t = t[:i] + t[i:j].replace("() error {\n", "() error {\n\tsimVFS.Guard(1)\n\tdefer simVFS.Guard(-1)\n") + t[j:]
open(f, "w").write(t)
for f in ("simvfs.go", "simvfs.c"):
    shutil.copy(os.path.join(here, "..", "vfs", f), os.path.join(d, f))
if not os.path.exists(os.path.join(d, "go.mod")):
    open(os.path.join(d, "go.mod"), "w").write("module github.com/mattn/go-sqlite3\n\ngo 1.13\n")

d = copymod("github.com/barnex/fftw@v0.0.0-20181125072904-b800f77a10de", "fftw")
shutil.rmtree(os.path.join(d, "internal", "float"))
os.makedirs(os.path.join(d, "internal", "float"))
open(os.path.join(d, "internal", "float", "wrapper.go"), "w").write('''// Package float is a stub: gopf only uses double precision
package float

import "unsafe"

const msg = "simulator: single precision FFTW is not part of the simulation"

func PlanManyDft(n []int, howmany int, in []complex64, inembed []int, istride, idist int,
	out []complex64, onembed []int, ostride, odist int, sign int, flags uint) unsafe.Pointer {
	panic(msg)
}
func PlanManyDftR2C(n []int, howmany int, in []float32, inembed []int, istride, idist int,
	out []complex64, onembed []int, ostride, odist int, flags uint) unsafe.Pointer {
	panic(msg)
}
func PlanManyDftC2R(n []int, howmany int, in []complex64, inembed []int, istride, idist int,
	out []float32, onembed []int, ostride, odist int, flags uint) unsafe.Pointer {
	panic(msg)
}
func Execute(plan unsafe.Pointer)     { panic(msg) }
func DestroyPlan(plan unsafe.Pointer) { panic(msg) }
func InitThreads()                    {}
func PlanWithNThreads(nthreads int)   {}
''')
patch(os.path.join(d, "flag.go"),
      ("= C.FFTW_MEASURE ", "= C.FFTW_ESTIMATE "),
      ("= C.FFTW_PATIENT ", "= C.FFTW_ESTIMATE "),
      ("= C.FFTW_EXHAUSTIVE ", "= C.FFTW_ESTIMATE "),
      ('''	EXHAUSTIVE:      "EXHAUSTIVE",
	MEASURE:         "MEASURE",
	PATIENT:         "PATIENT",
''', ""))
patch(os.path.join(d, "plan.go"),
      ('''func (h doubleHandle) Execute() {
	double.Execute(h.handle)
}
''', '''func (h doubleHandle) Execute() {
	if SimYield != nil {
		SimYield("pre")
	}
	double.Execute(h.handle)
	if SimYield != nil {
		SimYield("post")
	}
}

// SimYield is called around every transform
var SimYield func(where string)
'''))
if not os.path.exists(os.path.join(d, "go.mod")):
    open(os.path.join(d, "go.mod"), "w").write("module github.com/barnex/fftw\n\ngo 1.13\n")

d = copymod("github.com/spf13/cobra@v1.1.3", "cobra")
patch(os.path.join(d, "command.go"),
      ('''	// Regardless of what command execute is called on, run on Root only
	if c.HasParent() {
''', '''	SimRoot = c.Root()

	// Regardless of what command execute is called on, run on Root only
	if c.HasParent() {
'''),
      ('''// ExecuteC executes the command.
''', '''// SimRoot is the command tree that was executed last
var SimRoot *Command

// ExecuteC executes the command.
'''))
