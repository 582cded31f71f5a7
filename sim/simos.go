package main

import (
	crand "crypto/rand"
	"io"
	randv2 "math/rand/v2"
	"os"
	"strings"
	"syscall"

	"github.com/barnex/fftw"
)

type simRandReader struct{ real io.Reader }

func (r simRandReader) Read(b []byte) (int, error) {
	if s := theSim; s != nil && s.active && s.cur != nil {
		for i := range b {
			b[i] = byte(s.cur.root().rnd.Int())
		}
		return len(b), nil
	}
	return r.real.Read(b)
}

func installMore() {
	crand.Reader = simRandReader{crand.Reader}
	randv2.SimUint64 = func() (uint64, bool) {
		if s := theSim; s != nil && s.active && s.cur != nil {
			return s.cur.root().rnd.Uint64(), true
		}
		return 0, false
	}
	fftw.SimYield = func(where string) {
		if s := theSim; s != nil && s.active {
			s.hit("fft." + where)
		}
	}
}

var errnos = map[string]syscall.Errno{
	"eio": syscall.EIO, "enospc": syscall.ENOSPC, "eacces": syscall.EACCES, "emfile": syscall.EMFILE, "enoent": syscall.ENOENT,
}

func (s *Sim) rel(path string) string { return strings.TrimPrefix(path, s.dir+"/") }

// simOSHook decides every file operation of the simulated processes. The files
// themselves are real files in the scratch directory of the run.
func simOSHook(op *os.SimOp) os.SimRes {
	s := theSim
	if s == nil || !s.active || s.cur == nil {
		return os.SimRes{}
	}
	p := s.cur.root()
	if op.File != nil && (op.File == os.Stdout || op.File == os.Stderr) {
		if op.Op == "write" {
			if op.File == os.Stdout {
				p.stdout.Write(op.Buf)
			} else {
				p.stderr.Write(op.Buf)
			}
			return os.SimRes{Action: os.SimReturn, N: len(op.Buf)}
		}
		return os.SimRes{Action: os.SimReturn}
	}
	site := "os." + op.Op
	if op.Op == "readat" {
		site = "os.read"
	}
	if op.Op == "writeat" {
		site = "os.write"
	}
	if strings.Contains(op.Path, ".gopf") { // the CLI looks for its configuration file: not part of any property
		return os.SimRes{}
	}
	if op.Op == "write" || op.Op == "writeat" {
		s.note(p.id, "data", hashStr(string(op.Buf)), uint64(len(op.Buf)))
	}
	f := s.hit(site)
	if f == nil {
		return os.SimRes{}
	}
	path := op.Path
	if op.File != nil {
		path = op.File.Name()
	}
	perr := func(e error) error { return &os.PathError{Op: op.Op, Path: path, Err: e} }
	switch op.Op {
	case "write", "writeat":
		n := 0
		if len(op.Buf) > 0 {
			n = int(uint64(f.Arg) % uint64(len(op.Buf))) // how much gets through
		}
		switch f.Kind {
		case "torn": // part of the data is written, then the process is killed
			if op.Op == "write" {
				syscall.Write(os.SimFd(op.File), op.Buf[:n])
			}
			s.die(p)
		case "enospc", "eio":
			return os.SimRes{Action: os.SimLimit, N: n, Err: perr(errnos[f.Kind])}
		}
	case "read", "readat":
		switch f.Kind {
		case "short": // legal: fewer bytes than asked for
			n := len(op.Buf)
			if n > 1 {
				n = 1 + int(uint64(f.Arg)%uint64(n-1))
			}
			return os.SimRes{Action: os.SimLimit, N: n}
		case "eio":
			return os.SimRes{Action: os.SimReturn, N: 0, Err: perr(syscall.EIO)}
		}
	case "close":
		// a delayed write error: the tail of the file is lost and close reports it
		fd := os.SimFd(op.File)
		var st syscall.Stat_t
		if fl, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFL, 0); e == 0 && fl&syscall.O_ACCMODE != syscall.O_RDONLY {
			if fl&syscall.O_APPEND == 0 && syscall.Fstat(fd, &st) == nil && st.Size > 0 { // a log keeps what earlier sessions wrote
				syscall.Ftruncate(fd, int64(uint64(f.Arg)%uint64(st.Size)))
			}
			return os.SimRes{Action: os.SimAfter, Err: perr(syscall.EIO)}
		}
		return os.SimRes{}
	default:
		if e, ok := errnos[f.Kind]; ok {
			return os.SimRes{Action: os.SimReturn, Err: perr(e)}
		}
	}
	return os.SimRes{}
}
