package sqlite3

/*
int simvfs_register(void);
void simvfs_reset_random(void);
*/
import "C"
import "unsafe"

// SimVFS is the simulated disk. Return values are SQLite result codes.
type SimVFS interface {
	Open(name string, flags int) (id int, rc int)
	Close(id int) int
	Read(id int, p []byte, off int64) int
	Write(id int, p []byte, off int64) int
	Truncate(id int, size int64) int
	Sync(id int, flags int) int
	FileSize(id int) (int64, int)
	Lock(id int, level int) int
	Unlock(id int, level int) int
	CheckReserved(id int) (bool, int)
	Delete(name string) int
	Access(name string, flags int) (bool, int)
	Randomness(p []byte)
	Sleep(us int)
	Alloc() bool // tells if an allocation fails
	Guard(n int) // n > 0: no allocation of this process fails until Guard(-n)
	NowJulianMs() int64
}

var simVFS SimVFS

// SimRegister makes v the default VFS of the process
func SimRegister(v SimVFS) {
	simVFS = v
	if rc := C.simvfs_register(); rc != 0 {
		panic("could not register VFS")
	}
}

// SimResetRandom forces SQLite's generator to be seeded again by the VFS
func SimResetRandom() { C.simvfs_reset_random() }

func bytesAt(p unsafe.Pointer, n C.int) []byte {
	return (*[1 << 30]byte)(p)[:int(n):int(n)]
}

//export simvfsOpen
func simvfsOpen(name *C.char, flags C.int, out *C.int) C.int {
	id, rc := simVFS.Open(C.GoString(name), int(flags))
	*out = C.int(id)
	return C.int(rc)
}

//export simvfsClose
func simvfsClose(id C.int) C.int { return C.int(simVFS.Close(int(id))) }

//export simvfsRead
func simvfsRead(id C.int, p unsafe.Pointer, n C.int, off C.longlong) C.int {
	return C.int(simVFS.Read(int(id), bytesAt(p, n), int64(off)))
}

//export simvfsWrite
func simvfsWrite(id C.int, p unsafe.Pointer, n C.int, off C.longlong) C.int {
	return C.int(simVFS.Write(int(id), bytesAt(p, n), int64(off)))
}

//export simvfsTruncate
func simvfsTruncate(id C.int, size C.longlong) C.int {
	return C.int(simVFS.Truncate(int(id), int64(size)))
}

//export simvfsSync
func simvfsSync(id C.int, flags C.int) C.int { return C.int(simVFS.Sync(int(id), int(flags))) }

//export simvfsFileSize
func simvfsFileSize(id C.int, out *C.longlong) C.int {
	n, rc := simVFS.FileSize(int(id))
	*out = C.longlong(n)
	return C.int(rc)
}

//export simvfsLock
func simvfsLock(id C.int, level C.int) C.int { return C.int(simVFS.Lock(int(id), int(level))) }

//export simvfsUnlock
func simvfsUnlock(id C.int, level C.int) C.int { return C.int(simVFS.Unlock(int(id), int(level))) }

//export simvfsCheckReserved
func simvfsCheckReserved(id C.int, out *C.int) C.int {
	r, rc := simVFS.CheckReserved(int(id))
	if r {
		*out = 1
	}
	return C.int(rc)
}

//export simvfsDelete
func simvfsDelete(name *C.char, dirSync C.int) C.int { return C.int(simVFS.Delete(C.GoString(name))) }

//export simvfsAccess
func simvfsAccess(name *C.char, flags C.int, out *C.int) C.int {
	r, rc := simVFS.Access(C.GoString(name), int(flags))
	if r {
		*out = 1
	}
	return C.int(rc)
}

//export simvfsRandomness
func simvfsRandomness(p unsafe.Pointer, n C.int) { simVFS.Randomness(bytesAt(p, n)) }

//export simvfsSleep
func simvfsSleep(us C.int) C.int {
	simVFS.Sleep(int(us))
	return us
}

//export simvfsNow
func simvfsNow() C.longlong { return C.longlong(simVFS.NowJulianMs()) }

//export simvfsAlloc
func simvfsAlloc() C.int {
	if simVFS.Alloc() {
		return 1
	}
	return 0
}
