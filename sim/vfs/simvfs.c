// A SQLite VFS in which every operation is decided by the simulator (Go side).
#include <string.h>
#include <stdint.h>
#include "sqlite3-binding.h"
#include "_cgo_export.h"

typedef struct simfile {
  sqlite3_file base;
  int id;
} simfile;

static int sfClose(sqlite3_file *f) { return simvfsClose(((simfile *)f)->id); }
static int sfRead(sqlite3_file *f, void *p, int n, sqlite3_int64 off) { return simvfsRead(((simfile *)f)->id, p, n, off); }
static int sfWrite(sqlite3_file *f, const void *p, int n, sqlite3_int64 off) { return simvfsWrite(((simfile *)f)->id, (void *)p, n, off); }
static int sfTruncate(sqlite3_file *f, sqlite3_int64 size) { return simvfsTruncate(((simfile *)f)->id, size); }
static int sfSync(sqlite3_file *f, int flags) { return simvfsSync(((simfile *)f)->id, flags); }
static int sfFileSize(sqlite3_file *f, sqlite3_int64 *out) {
  long long v = 0;
  int rc = simvfsFileSize(((simfile *)f)->id, &v);
  *out = v;
  return rc;
}
static int sfLock(sqlite3_file *f, int l) { return simvfsLock(((simfile *)f)->id, l); }
static int sfUnlock(sqlite3_file *f, int l) { return simvfsUnlock(((simfile *)f)->id, l); }
static int sfCheckReserved(sqlite3_file *f, int *out) {
  int v = 0;
  int rc = simvfsCheckReserved(((simfile *)f)->id, &v);
  *out = v;
  return rc;
}
static int sfFileControl(sqlite3_file *f, int op, void *arg) { return SQLITE_NOTFOUND; }
static int sfSectorSize(sqlite3_file *f) { return 4096; }
static int sfDevChar(sqlite3_file *f) { return SQLITE_IOCAP_POWERSAFE_OVERWRITE; }

static const sqlite3_io_methods simio = {
    1, sfClose, sfRead, sfWrite, sfTruncate, sfSync, sfFileSize, sfLock, sfUnlock,
    sfCheckReserved, sfFileControl, sfSectorSize, sfDevChar};

static int svOpen(sqlite3_vfs *v, const char *name, sqlite3_file *f, int flags, int *outFlags) {
  int id = 0;
  simfile *sf = (simfile *)f;
  sf->base.pMethods = 0;
  int rc = simvfsOpen((char *)(name ? name : ""), flags, &id);
  if (rc != SQLITE_OK) return rc;
  sf->id = id;
  sf->base.pMethods = &simio;
  if (outFlags) *outFlags = flags;
  return SQLITE_OK;
}
static int svDelete(sqlite3_vfs *v, const char *name, int dirSync) { return simvfsDelete((char *)name, dirSync); }
static int svAccess(sqlite3_vfs *v, const char *name, int flags, int *out) {
  int r = 0;
  int rc = simvfsAccess((char *)name, flags, &r);
  *out = r;
  return rc;
}
static int svFullPathname(sqlite3_vfs *v, const char *name, int n, char *out) {
  if ((int)strlen(name) + 1 > n) return SQLITE_CANTOPEN;
  strcpy(out, name);
  return SQLITE_OK;
}
static int svRandomness(sqlite3_vfs *v, int n, char *out) {
  simvfsRandomness(out, n);
  return n;
}
static int svSleep(sqlite3_vfs *v, int us) { return simvfsSleep(us); }
static int svCurrentTimeInt64(sqlite3_vfs *v, sqlite3_int64 *t) {
  *t = simvfsNow();
  return SQLITE_OK;
}
static int svCurrentTime(sqlite3_vfs *v, double *t) {
  *t = simvfsNow() / 86400000.0;
  return SQLITE_OK;
}
static int svLastError(sqlite3_vfs *v, int n, char *out) { return 0; }

static sqlite3_vfs simvfs = {
    2, sizeof(simfile), 1024, 0, "sim", 0,
    svOpen, svDelete, svAccess, svFullPathname, 0, 0, 0, 0,
    svRandomness, svSleep, svCurrentTime, svLastError, svCurrentTimeInt64};

/* Every allocation of SQLite is a seam: it fails when the plan says so */
static sqlite3_mem_methods realMem;
static int inColumn; /* processes take turns, and none does inside these calls */
static void *smMalloc(int n) { return !inColumn && simvfsAlloc() ? 0 : realMem.xMalloc(n); }
static void *smRealloc(void *p, int n) { return !inColumn && simvfsAlloc() ? 0 : realMem.xRealloc(p, n); }
const unsigned char *sim_column_text(sqlite3_stmt *s, int i) {
  inColumn++;
  const unsigned char *r = sqlite3_column_text(s, i);
  inColumn--;
  return r;
}
const void *sim_column_blob(sqlite3_stmt *s, int i) {
  inColumn++;
  const void *r = sqlite3_column_blob(s, i);
  inColumn--;
  return r;
}
int sim_column_bytes(sqlite3_stmt *s, int i) {
  inColumn++;
  int r = sqlite3_column_bytes(s, i);
  inColumn--;
  return r;
}

int simvfs_register(void) {
  int rc = sqlite3_config(SQLITE_CONFIG_GETMALLOC, &realMem);
  if (rc == SQLITE_OK) {
    sqlite3_mem_methods m = realMem;
    m.xMalloc = smMalloc;
    m.xRealloc = smRealloc;
    rc = sqlite3_config(SQLITE_CONFIG_MALLOC, &m);
  }
  if (rc != SQLITE_OK) return rc;
  return sqlite3_vfs_register(&simvfs, 1);
}
void simvfs_reset_random(void) { sqlite3_randomness(0, 0); }
