package main

import (
	"encoding/binary"
	"hash/fnv"
	"strings"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// SQLite result codes
const (
	sqOK        = 0
	sqBusy      = 5
	sqIOErr     = 10
	sqFull      = 13
	sqCantOpen  = 14
	sqIORead    = 10 | 1<<8
	sqIOShort   = 10 | 2<<8
	sqIOWrite   = 10 | 3<<8
	sqIOSync    = 10 | 4<<8
	sqIOTrunc   = 10 | 6<<8
	sqIOFstat   = 10 | 7<<8
	sqIOUnlock  = 10 | 8<<8
	sqIODelete  = 10 | 10<<8
	sqIOAccess  = 10 | 13<<8
	sqIOLock    = 10 | 15<<8
	sqNoEnt     = 10 | 23<<8
	openCreate  = 4
	openDelOnCl = 8
	lkNone      = 0
	lkShared    = 1
	lkReserved  = 2
	lkPending   = 3
	lkExclusive = 4
)

type pendWrite struct {
	off   int64
	data  []byte
	trunc bool // truncate to off
}

type inode struct {
	name    string
	data    []byte
	durable []byte
	pending []pendWrite
	open    int
	gone    bool
}

type dfile struct {
	id    int
	ino   *inode
	proc  *Proc
	level int
	del   bool
	dead  bool
}

// Disk is the simulated disk that all simulated processes share through SQLite.
// A write is visible to all processes at once and durable after a sync; names
// (create, delete) are durable at once.
type Disk struct {
	sim    *Sim
	files  map[string]*inode
	order  []*inode
	open   map[int]*dfile
	nextID int
	rnd    uint64
	quiet  bool
	lost   int
}

var nextFileID int

func newDisk() *Disk {
	return &Disk{files: map[string]*inode{}, open: map[int]*dfile{}}
}

type vfs struct{}

func initVFS() { sqlite3.SimRegister(vfs{}) }

func (vfs) Alloc() bool { return theSim != nil && theSim.allocFails() }

func (vfs) Guard(n int) {
	if s := theSim; s != nil && s.active && s.cur != nil {
		s.cur.root().guard += n
	}
}

func d() *Disk {
	if theSim == nil {
		return nil
	}
	return theSim.disk
}

// hit consults the plan, unless the harness itself is using the disk
func (dk *Disk) hit(site string) *Fault {
	if s := dk.sim; s.active && s.cur != nil && !dk.quiet {
		return s.hit(site)
	}
	return nil
}

func (dk *Disk) procDied(p *Proc) {
	for _, f := range dk.open {
		if f.proc == p && !f.dead {
			f.level = lkNone
			f.dead = true
		}
	}
}

func (dk *Disk) allDied() {
	for _, f := range dk.open {
		f.level = lkNone
		f.dead = true
	}
}

// powerLoss drops, keeps or tears (at sector boundaries) every write that has
// not been synced. The driver opens databases with synchronous=NORMAL, where
// SQLite itself may lose a database on a file system that reorders the writes
// to the rollback journal; that is not gopf's doing, so the writes to a journal
// survive as a prefix. Those to a database survive in any combination.
func (dk *Disk) powerLoss(arg uint64) {
	for k, ino := range dk.order {
		if ino.gone {
			continue
		}
		mode := arg % 3
		if mode == 1 && strings.HasSuffix(ino.name, "-journal") {
			mode = 2
		}
		img := ino.durable
		for i, w := range ino.pending {
			h := mix(arg, uint64(k), uint64(i))
			keep := false
			switch mode {
			case 0: // everything unsynced is lost
			case 1: // each write survives or not
				keep = h&1 == 0
			case 2: // a prefix survives
				keep = uint64(i) < mix(arg, uint64(k))%uint64(len(ino.pending)+1)
			}
			if w.trunc {
				if keep {
					img = resize(img, w.off)
				} else {
					dk.lost++
				}
				continue
			}
			if keep {
				img = put(img, w.off, w.data)
				continue
			}
			dk.lost++
			if mode == 1 && h&2 == 0 && len(w.data) > 512 { // torn
				n := (int(h>>8) % (len(w.data) / 512)) * 512
				img = put(img, w.off, w.data[:n])
			}
		}
		ino.durable = img
		ino.data = append([]byte(nil), img...)
		ino.pending = nil
	}
}

func resize(b []byte, n int64) []byte {
	if int64(len(b)) > n {
		return b[:n]
	}
	for int64(len(b)) < n {
		b = append(b, make([]byte, n-int64(len(b)))...)
	}
	return b
}

func put(b []byte, off int64, p []byte) []byte {
	if end := off + int64(len(p)); int64(len(b)) < end {
		b = resize(b, end)
	}
	copy(b[off:], p)
	return b
}

func crc(p []byte) uint64 {
	h := fnv.New64a()
	h.Write(p)
	return h.Sum64()
}

func (vfs) file(id int) *dfile {
	dk := d()
	if dk == nil {
		return nil
	}
	f := dk.open[id]
	if f == nil || f.dead {
		return nil
	}
	return f
}

func (vfs) Open(name string, flags int) (int, int) {
	dk := d()
	if dk == nil {
		return 0, sqCantOpen
	}
	if f := dk.hit("vfs.open"); f != nil {
		return 0, sqCantOpen
	}
	var ino *inode
	if name != "" {
		ino = dk.files[name]
	}
	if ino == nil {
		if name != "" && flags&openCreate == 0 {
			return 0, sqCantOpen
		}
		ino = &inode{name: name}
		if name != "" {
			dk.files[name] = ino
		}
		dk.order = append(dk.order, ino)
	}
	nextFileID++
	f := &dfile{id: nextFileID, ino: ino, del: flags&openDelOnCl != 0}
	if dk.sim.active {
		f.proc = dk.sim.cur.root()
	}
	ino.open++
	dk.open[f.id] = f
	return f.id, sqOK
}

func (v vfs) Close(id int) int {
	dk := d()
	if dk == nil {
		return sqOK
	}
	f := dk.open[id]
	if f == nil {
		return sqOK
	}
	if !f.dead {
		f.ino.open--
		if f.del && f.ino.name != "" {
			delete(dk.files, f.ino.name)
			f.ino.gone = true
		}
	}
	delete(dk.open, id)
	return sqOK
}

func (v vfs) Read(id int, p []byte, off int64) int {
	f := v.file(id)
	if f == nil {
		return sqIORead
	}
	if ft := d().hit("vfs.read"); ft != nil {
		return sqIORead
	}
	n := 0
	if off < int64(len(f.ino.data)) {
		n = copy(p, f.ino.data[off:])
	}
	if n < len(p) {
		for i := n; i < len(p); i++ {
			p[i] = 0
		}
		return sqIOShort
	}
	return sqOK
}

func (v vfs) Write(id int, p []byte, off int64) int {
	f := v.file(id)
	if f == nil {
		return sqIOWrite
	}
	dk := d()
	if dk.sim.active && !dk.quiet && dk.sim.cur != nil {
		dk.sim.note(dk.sim.cur.id, "page", uint64(off), crc(p))
	}
	if ft := dk.hit("vfs.write"); ft != nil {
		n := int(uint64(ft.Arg)%uint64(len(p)/512+1)) * 512
		switch ft.Kind {
		case "full":
			if n > 0 && ft.Arg%2 == 1 { // a full disk can still take a part of a write
				f.ino.write(p[:n], off)
			}
			return sqFull
		case "torn":
			f.ino.write(p[:n], off)
			dk.sim.die(dk.sim.cur)
		case "tornpower":
			f.ino.write(p[:n], off)
			dk.sim.power(dk.sim.cur, ft.Arg)
		}
		return sqIOWrite
	}
	f.ino.write(p, off)
	return sqOK
}

func (ino *inode) write(p []byte, off int64) {
	c := append([]byte(nil), p...)
	ino.pending = append(ino.pending, pendWrite{off: off, data: c})
	ino.data = put(ino.data, off, c)
}

func (v vfs) Truncate(id int, size int64) int {
	f := v.file(id)
	if f == nil {
		return sqIOTrunc
	}
	if ft := d().hit("vfs.trunc"); ft != nil {
		return sqIOTrunc
	}
	f.ino.data = resize(f.ino.data, size)
	f.ino.pending = append(f.ino.pending, pendWrite{off: size, trunc: true})
	return sqOK
}

func (v vfs) Sync(id int, flags int) int {
	f := v.file(id)
	if f == nil {
		return sqIOSync
	}
	if ft := d().hit("vfs.sync"); ft != nil {
		return sqIOSync
	}
	for _, w := range f.ino.pending {
		if w.trunc {
			f.ino.durable = resize(f.ino.durable, w.off)
		} else {
			f.ino.durable = put(f.ino.durable, w.off, w.data)
		}
	}
	f.ino.pending = nil
	return sqOK
}

func (v vfs) FileSize(id int) (int64, int) {
	f := v.file(id)
	if f == nil {
		return 0, sqIOFstat
	}
	if ft := d().hit("vfs.size"); ft != nil {
		return 0, sqIOFstat
	}
	return int64(len(f.ino.data)), sqOK
}

func (dk *Disk) others(f *dfile, min int) bool {
	for _, o := range dk.open {
		if o != f && !o.dead && o.ino == f.ino && o.level >= min {
			return true
		}
	}
	return false
}

func (v vfs) Lock(id int, level int) int {
	f := v.file(id)
	if f == nil {
		return sqIOLock
	}
	dk := d()
	if ft := dk.hit("vfs.lock"); ft != nil {
		return sqIOLock
	}
	if level <= f.level {
		return sqOK
	}
	switch level {
	case lkShared:
		if dk.others(f, lkPending) {
			dk.sim.probe("busy-shared")
			return sqBusy
		}
		f.level = lkShared
	case lkReserved:
		if dk.others(f, lkReserved) {
			dk.sim.probe("busy-reserved")
			return sqBusy
		}
		f.level = lkReserved
	case lkPending, lkExclusive:
		if dk.others(f, lkReserved) {
			dk.sim.probe("busy-exclusive")
			return sqBusy
		}
		f.level = lkPending
		if dk.others(f, lkShared) {
			dk.sim.probe("busy-pending")
			return sqBusy
		}
		f.level = lkExclusive
	}
	return sqOK
}

func (v vfs) Unlock(id int, level int) int {
	f := v.file(id)
	if f == nil {
		return sqOK
	}
	d().hit("vfs.unlock")
	if level < f.level {
		f.level = level
	}
	return sqOK
}

func (v vfs) CheckReserved(id int) (bool, int) {
	f := v.file(id)
	if f == nil {
		return false, sqIOLock
	}
	if ft := d().hit("vfs.lock"); ft != nil {
		return false, sqIOLock
	}
	return f.level >= lkReserved || d().others(f, lkReserved), sqOK
}

func (v vfs) Delete(name string) int {
	dk := d()
	if dk == nil {
		return sqOK
	}
	if ft := dk.hit("vfs.delete"); ft != nil {
		return sqIODelete
	}
	ino := dk.files[name]
	if ino == nil {
		return sqNoEnt
	}
	ino.gone = true
	delete(dk.files, name)
	return sqOK
}

func (v vfs) Access(name string, flags int) (bool, int) {
	dk := d()
	if dk == nil {
		return false, sqIOAccess
	}
	if ft := dk.hit("vfs.access"); ft != nil {
		return false, sqIOAccess
	}
	ino := dk.files[name]
	if ino == nil {
		return false, sqOK
	}
	if flags == 0 { // SQLITE_ACCESS_EXISTS: an empty file does not count, as in the unix VFS
		return len(ino.data) > 0, sqOK
	}
	return true, sqOK
}

func (v vfs) Randomness(p []byte) {
	dk := d()
	for i := range p {
		p[i] = 0
	}
	if dk == nil {
		return
	}
	for i := 0; i < len(p); i += 8 {
		dk.rnd++
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], mix(dk.sim.plan.Seed, 0xd15c, dk.rnd))
		copy(p[i:], b[:])
	}
}

func (v vfs) Sleep(us int) {
	dk := d()
	if dk == nil {
		return
	}
	if s := dk.sim; s.active && s.cur != nil && !dk.quiet {
		s.hit("vfs.sleep")
		s.sleep(s.cur, int64(us)*1000, false)
	}
}

func (v vfs) NowJulianMs() int64 {
	const unixEpochJD = int64(24405875) * 8640000
	s := theSim
	if s == nil {
		return unixEpochJD
	}
	return unixEpochJD + s.wallNow(s.cur)/1000000
}
