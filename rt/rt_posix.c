// POSIX file-system, clock and process model.
#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include "symx.h"

#define NINO 48
#define NENT 64
#define NFD 48
#define BASE(i) ((char*)(0x9000000000ULL + ((uint64_t)(i) << 32)))
#define MAXFILE ((int64_t)1 << 31)
struct inode { int used, isdir, nlink, opens; int64_t size, alloc; int lock, ext; long mtime; long syncs; int dirty; };
struct dent { int used; int ino; char name[120]; };
struct fdesc { int used, ino, flags; int64_t off; };
static struct inode ino[NINO];
static struct dent dents[NENT];
static struct fdesc fds[NFD];
struct mapping { void* a; size_t len; int ino; int64_t off; int anon; };
static struct mapping maps[64];

int rt_fault_budget, rt_fault_reads, rt_short_io, rt_power_loss, rt_fault_fired;
long rt_write_calls;
long rt_clock_ns = 1600000000000000000L, rt_clock_step = 1000;

static int fail(int e) { errno = e; return -1; }
static int fault(int is_read) {
  if (rt_fault_budget <= 0) return 0;
  if (is_read && !rt_fault_reads) return 0;
  if (symx_choice(2, "io_fault")) { rt_fault_budget--; rt_fault_fired++; return 1; }
  return 0;
}
static void norm(const char* p, char* o) {  // collapse //, /./ and trailing slashes; relative paths are under /cwd
  size_t n = 0;
  if (*p != '/') { strcpy(o, "/cwd"); n = 4; }
  while (*p) {
    while (*p == '/') p++;
    if (!*p) break;
    const char* e = p; while (*e && *e != '/') e++;
    if (e - p == 1 && p[0] == '.') { p = e; continue; }
    if (e - p == 2 && p[0] == '.' && p[1] == '.') { while (n > 0 && o[--n] != '/') {} p = e; continue; }
    if (n + (e - p) + 2 >= 120) symx_unsupported("path too long");
    o[n++] = '/'; memcpy(o + n, p, e - p); n += e - p; p = e;
  }
  if (n == 0) o[n++] = '/';
  o[n] = 0;
}
static struct dent* find(const char* n) { for (int i = 0; i < NENT; i++) if (dents[i].used && !strcmp(dents[i].name, n)) return &dents[i]; return 0; }
static int isroot(const char* n) { return !strcmp(n, "/") || !strcmp(n, "/tmp") || !strcmp(n, "/cwd"); }
static int parent_ok(const char* n) {
  char b[120]; strcpy(b, n); size_t l = strlen(b); while (l > 0 && b[l - 1] != '/') l--; if (l <= 1) return 1; b[l - 1] = 0;
  if (isroot(b)) return 1; struct dent* d = find(b); return d && ino[d->ino].isdir;
}
static int newino(int dir) { for (int i = 1; i < NINO; i++) if (!ino[i].used) { memset(&ino[i], 0, sizeof ino[i]); ino[i].used = 1; ino[i].isdir = dir; return i; } symx_unsupported("too many inodes"); return 0; }
static void putino(int i) {
  if (ino[i].nlink == 0 && ino[i].opens == 0) {
    for (int k = 0; k < 64; k++) if (maps[k].a && !maps[k].anon && maps[k].ino == i) return;
    if (ino[i].alloc) symx_region_drop(BASE(i), ino[i].alloc);
    ino[i].used = 2;  // never reused
  }
}
static int addent(const char* n, int i) { for (int k = 0; k < NENT; k++) if (!dents[k].used) { dents[k].used = 1; dents[k].ino = i; strcpy(dents[k].name, n); ino[i].nlink++; return 0; } symx_unsupported("too many directory entries"); return -1; }
static void resize(int i, int64_t n) {
  if (n > MAXFILE) symx_unsupported("file too large for the model");
  int64_t na = (n + 4095) & ~4095LL;
  if (na > ino[i].alloc) symx_region(BASE(i) + ino[i].alloc, na - ino[i].alloc);
  if (na < ino[i].alloc) symx_region_drop(BASE(i) + na, ino[i].alloc - na);
  ino[i].alloc = na;
  if (n < ino[i].size && na > n) memset(BASE(i) + n, 0, na - n);
  ino[i].size = n;
}
static struct fdesc* getfd(int fd) { if (fd < 3 || fd >= NFD || !fds[fd].used) return 0; return &fds[fd]; }
static void touch(int i) { rt_clock_ns += rt_clock_step; ino[i].mtime = rt_clock_ns; }

static int do_open(const char* path, int flags) {
  char n[120]; norm(path, n);
  if (!*path) return fail(ENOENT);
  if (fault((flags & O_ACCMODE) == O_RDONLY)) return fail(EMFILE);
  struct dent* d = find(n); int i;
  if (!d) {
    if (isroot(n)) { if ((flags & O_ACCMODE) != O_RDONLY) return fail(EISDIR); i = 0; ino[0].used = 1; ino[0].isdir = 1; ino[0].nlink = 1; }
    else {
      if (!(flags & O_CREAT)) return fail(ENOENT);
      if (!parent_ok(n)) return fail(ENOENT);
      symx_crash_point();
      rt_write_calls++;
      i = newino(0); addent(n, i); touch(i);
    }
  } else {
    i = d->ino;
    if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if (ino[i].isdir && (flags & O_ACCMODE) != O_RDONLY) return fail(EISDIR);
    if ((flags & O_TRUNC) && !ino[i].isdir) { symx_crash_point(); rt_write_calls++; resize(i, 0); touch(i); }
  }
  for (int f = 3; f < NFD; f++) if (!fds[f].used) { fds[f].used = 1; fds[f].ino = i; fds[f].flags = flags; fds[f].off = 0; ino[i].opens++; return f; }
  symx_unsupported("too many descriptors"); return -1;
}
int open64(const char* path, int flags, ...) { return do_open(path, flags); }
int open(const char* path, int flags, ...) { return do_open(path, flags); }
int close(int fd) {
  struct fdesc* f = getfd(fd); if (!f) return fail(EBADF);
  int bad = fault(0);
  f->used = 0; ino[f->ino].opens--; ino[f->ino].lock = 0; putino(f->ino);
  if (bad) return fail(EIO);
  return 0;
}
static ssize_t do_read(int fd, void* buf, size_t n, int64_t off) {
  struct fdesc* f = getfd(fd); if (!f) return fail(EBADF);
  if ((f->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
  if (ino[f->ino].isdir) return fail(EISDIR);
  if (off < 0) return fail(EINVAL);
  if (fault(1)) return fail(EIO);
  if (off >= ino[f->ino].size) return 0;
  if ((int64_t)n > ino[f->ino].size - off) n = ino[f->ino].size - off;
  if (rt_short_io > 0 && n > 1 && symx_choice(2, "short_read")) { rt_short_io--; n = n / 2; }
  memcpy(buf, BASE(f->ino) + off, n);
  return n;
}
ssize_t pread64(int fd, void* b, size_t n, off_t off) { return do_read(fd, b, n, off); }
ssize_t pread(int fd, void* b, size_t n, off_t off) { return do_read(fd, b, n, off); }
ssize_t read(int fd, void* b, size_t n) { struct fdesc* f = getfd(fd); if (!f) return fail(EBADF); ssize_t r = do_read(fd, b, n, f->off); if (r > 0) f->off += r; return r; }
static ssize_t do_write(int fd, const void* buf, size_t n, int64_t off) {
  struct fdesc* f = getfd(fd); if (!f) return fail(EBADF);
  if ((f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
  if (off < 0) return fail(EINVAL);
  if (fault(0)) return fail(ENOSPC);
  if (n == 0) return 0;
  if (rt_short_io > 0 && n > 1 && symx_choice(2, "short_write")) { rt_short_io--; n = n / 2; }
  if (off + (int64_t)n > ino[f->ino].size) { symx_crash_point(); resize(f->ino, off + n); }
  memcpy(BASE(f->ino) + off, buf, n); ino[f->ino].dirty = 1;
  rt_write_calls++;
  touch(f->ino);
  return n;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t off) { return do_write(fd, b, n, off); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t off) { return do_write(fd, b, n, off); }
ssize_t write(int fd, const void* b, size_t n) {
  if (fd == 1 || fd == 2) return n;
  struct fdesc* f = getfd(fd); if (!f) return fail(EBADF);
  ssize_t r = do_write(fd, b, n, (f->flags & O_APPEND) ? ino[f->ino].size : f->off);
  if (r > 0) f->off = ((f->flags & O_APPEND) ? ino[f->ino].size : f->off + r);
  return r;
}
off_t lseek64(int fd, off_t o, int w) {
  struct fdesc* f = getfd(fd); if (!f) return fail(EBADF);
  if (fault(1)) return fail(EIO);
  int64_t n = w == SEEK_SET ? o : w == SEEK_CUR ? f->off + o : ino[f->ino].size + o;
  if (n < 0) return fail(EINVAL);
  f->off = n; return n;
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int ftruncate64(int fd, off_t n) {
  struct fdesc* f = getfd(fd); if (!f) return fail(EBADF);
  if ((f->flags & O_ACCMODE) == O_RDONLY) return fail(EINVAL);
  if (n < 0) return fail(EINVAL);
  if (fault(0)) return fail(ENOSPC);
  symx_crash_point();
  rt_write_calls++;
  resize(f->ino, n); ino[f->ino].dirty = 1; touch(f->ino); return 0;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char* p, off_t n) {
  char b[120]; norm(p, b); struct dent* d = find(b); if (!d) return fail(ENOENT);
  if (ino[d->ino].isdir) return fail(EISDIR);
  if (fault(0)) return fail(ENOSPC);
  symx_crash_point(); rt_write_calls++; resize(d->ino, n); touch(d->ino); return 0;
}
int truncate(const char* p, off_t n) { return truncate64(p, n); }
static void fill(struct stat* st, int i) {
  memset(st, 0, sizeof *st); st->st_ino = i; st->st_dev = 1; st->st_nlink = ino[i].nlink; st->st_mode = ino[i].isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644); st->st_size = ino[i].size;
  st->st_mtim.tv_sec = ino[i].mtime / 1000000000L; st->st_mtim.tv_nsec = ino[i].mtime % 1000000000L; st->st_ctim = st->st_mtim; st->st_atim = st->st_mtim; st->st_blksize = 4096;
}
int fstat64(int fd, struct stat64* st) { struct fdesc* f = getfd(fd); if (!f) return fail(EBADF); if (fault(1)) return fail(EIO); fill((struct stat*)st, f->ino); return 0; }
int fstat(int fd, struct stat* st) { return fstat64(fd, (struct stat64*)st); }
int stat64(const char* p, struct stat64* st) {
  char b[120]; if (!*p) return fail(ENOENT); norm(p, b); struct dent* d = find(b);
  if (!d) { if (isroot(b)) { ino[0].isdir = 1; ino[0].used = 1; fill((struct stat*)st, 0); return 0; } return fail(ENOENT); }
  fill((struct stat*)st, d->ino); return 0;
}
int stat(const char* p, struct stat* st) { return stat64(p, (struct stat64*)st); }
int lstat64(const char* p, struct stat64* st) { return stat64(p, st); }
int lstat(const char* p, struct stat* st) { return stat64(p, (struct stat64*)st); }
int fsync(int fd) { struct fdesc* f = getfd(fd); if (!f) return fail(EBADF); if (fault(0)) return fail(EIO); ino[f->ino].syncs++; ino[f->ino].dirty = 0; return 0; }
int fdatasync(int fd) { return fsync(fd); }
int sync_file_range(int fd, off64_t o, off64_t n, unsigned fl) { return fsync(fd); }
int posix_fadvise64(int fd, off_t a, off_t b, int c) { return 0; }
int posix_fadvise(int fd, off_t a, off_t b, int c) { return 0; }
int posix_madvise(void* a, size_t n, int c) { return 0; }
int unlink(const char* p) {
  char b[120]; norm(p, b); struct dent* d = find(b); if (!d) return fail(ENOENT);
  if (ino[d->ino].isdir) return fail(EISDIR);
  if (fault(0)) return fail(EACCES);
  symx_crash_point(); rt_write_calls++;
  d->used = 0; ino[d->ino].nlink--; putino(d->ino); return 0;
}
int rename(const char* a, const char* b) {
  char x[120], y[120]; norm(a, x); norm(b, y);
  struct dent* s = find(x); if (!s) return fail(ENOENT);
  if (!parent_ok(y)) return fail(ENOENT);
  struct dent* t = find(y);
  if (t && t->ino != s->ino && ino[t->ino].isdir != ino[s->ino].isdir) return fail(ino[t->ino].isdir ? EISDIR : ENOTDIR);
  if (fault(0)) return fail(EACCES);
  if (t == s) return 0;
  symx_crash_point(); rt_write_calls++;
  if (t) { t->used = 0; ino[t->ino].nlink--; putino(t->ino); }
  if (ino[s->ino].isdir) {
    size_t l = strlen(x);
    for (int k = 0; k < NENT; k++) if (dents[k].used && !strncmp(dents[k].name, x, l) && dents[k].name[l] == '/') { char z[240]; strcpy(z, y); strcat(z, dents[k].name + l); strcpy(dents[k].name, z); }
  }
  strcpy(s->name, y); return 0;
}
int mkdir(const char* p, mode_t m) {
  char b[120]; norm(p, b); if (find(b) || isroot(b)) return fail(EEXIST); if (!parent_ok(b)) return fail(ENOENT);
  if (fault(0)) return fail(EACCES);
  rt_write_calls++; int i = newino(1); addent(b, i); touch(i); return 0;
}
int rmdir(const char* p) {
  char b[120]; norm(p, b); struct dent* d = find(b); if (!d) return fail(ENOENT); if (!ino[d->ino].isdir) return fail(ENOTDIR);
  size_t l = strlen(b);
  for (int k = 0; k < NENT; k++) if (dents[k].used && !strncmp(dents[k].name, b, l) && dents[k].name[l] == '/') return fail(ENOTEMPTY);
  rt_write_calls++; d->used = 0; ino[d->ino].nlink--; putino(d->ino); return 0;
}
char* realpath(const char* p, char* out) {
  char b[120]; norm(p, b); if (!find(b) && !isroot(b)) { errno = ENOENT; return 0; }
  if (!out) out = malloc(4096); strcpy(out, b); return out;
}
struct rtdir { char name[120]; int pos; struct dirent e; };
DIR* opendir(const char* p) { char b[120]; norm(p, b); struct dent* d = find(b); if (!isroot(b) && (!d || !ino[d->ino].isdir)) { errno = ENOENT; return 0; } struct rtdir* r = malloc(sizeof *r); strcpy(r->name, b); r->pos = -2; return (DIR*)r; }
struct dirent64* readdir64(DIR* dp) {
  struct rtdir* r = (struct rtdir*)dp; size_t l = strlen(r->name); if (l == 1) l = 0;
  if (r->pos < 0) { strcpy(r->e.d_name, r->pos == -2 ? "." : ".."); r->e.d_type = DT_DIR; r->pos++; return (struct dirent64*)&r->e; }
  for (; r->pos < NENT; r->pos++) {
    struct dent* d = &dents[r->pos];
    if (d->used && !strncmp(d->name, r->name, l) && d->name[l] == '/' && !strchr(d->name + l + 1, '/')) { strcpy(r->e.d_name, d->name + l + 1); r->e.d_type = ino[d->ino].isdir ? DT_DIR : DT_REG; r->pos++; return (struct dirent64*)&r->e; }
  }
  return 0;
}
struct dirent* readdir(DIR* dp) { return (struct dirent*)readdir64(dp); }
int closedir(DIR* dp) { free(dp); return 0; }
int fcntl64(int fd, int cmd, ...) {
  struct fdesc* f = getfd(fd); if (!f) return fail(EBADF);
  va_list ap; va_start(ap, cmd);
  if (cmd == F_SETLK || cmd == F_SETLKW) {
    struct flock* l = va_arg(ap, struct flock*); va_end(ap);
    if (fault(0)) return fail(EAGAIN);
    if (l->l_type == F_UNLCK) { ino[f->ino].lock = 0; return 0; }
    int want = l->l_type == F_WRLCK ? 2 : 1;
    if ((want == 2 && (f->flags & O_ACCMODE) == O_RDONLY) || (want == 1 && (f->flags & O_ACCMODE) == O_WRONLY)) return fail(EBADF);
    if ((want == 2 && ino[f->ino].ext) || (want == 1 && ino[f->ino].ext == 2)) { if (cmd == F_SETLK) return fail(EAGAIN); symx_reach("blocked-on-file-lock"); symx_exit(); }
    ino[f->ino].lock = want; return 0;
  }
  va_end(ap); return 0;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* p = va_arg(ap, void*); va_end(ap); return fcntl64(fd, cmd, p); }
int ioctl(int fd, unsigned long r, ...) { return fail(EOPNOTSUPP); }
ssize_t sendfile64(int o, int in, off_t* off, size_t n) {
  struct fdesc *d = getfd(o), *s = getfd(in); if (!d || !s) return fail(EBADF);
  if (fault(0)) return fail(EIO);
  int64_t so = off ? *off : s->off; int64_t left = ino[s->ino].size - so; if (left <= 0) return 0;
  if ((int64_t)n > left) n = left;
  if (d->off + (int64_t)n > ino[d->ino].size) { symx_crash_point(); resize(d->ino, d->off + n); }
  memcpy(BASE(d->ino) + d->off, BASE(s->ino) + so, n); rt_write_calls++;
  d->off += n; if (off) *off += n; else s->off += n;
  touch(d->ino); return n;
}
ssize_t sendfile(int o, int in, off_t* off, size_t n) { return sendfile64(o, in, off, n); }
void* mmap64(void* hint, size_t len, int prot, int flags, int fd, off_t off) {
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  if (fault(0)) { errno = ENOMEM; return MAP_FAILED; }
  int k = 0; while (k < 64 && maps[k].a) k++;
  if (k == 64) symx_unsupported("too many mappings");
  if (flags & MAP_ANONYMOUS) { void* p = aligned_alloc(4096, len); memset(p, 0, len); maps[k].a = p; maps[k].len = len; maps[k].anon = 1; return p; }
  struct fdesc* f = getfd(fd); if (!f) { errno = EBADF; return MAP_FAILED; }
  if (off & 4095) { errno = EINVAL; return MAP_FAILED; }
  if ((prot & PROT_WRITE) && (flags & MAP_SHARED) && (f->flags & O_ACCMODE) != O_RDWR) { errno = EACCES; return MAP_FAILED; }
  void* a = symx_map(BASE(f->ino) + off, len);
  maps[k].a = a; maps[k].len = len; maps[k].ino = f->ino; maps[k].off = off; maps[k].anon = 0;
  return a;
}
void* mmap(void* h, size_t len, int prot, int flags, int fd, off_t off) { return mmap64(h, len, prot, flags, fd, off); }
int munmap(void* a, size_t len) {
  for (int k = 0; k < 64; k++) if (maps[k].a == a) {
    if (fault(0)) return fail(EINVAL);
    if (((maps[k].len + 4095) & ~4095UL) != ((len + 4095) & ~4095UL)) symx_die("munmap length differs from the mapping");
    maps[k].a = 0; if (maps[k].anon) free(a); else { symx_unmap(a, len); putino(maps[k].ino); } return 0; }
  return fail(EINVAL);
}
void* mremap(void* a, size_t o, size_t n, int flags, ...) {
  for (int k = 0; k < 64; k++) if (maps[k].a == a && !maps[k].anon) {
    if (fault(0)) { errno = ENOMEM; return MAP_FAILED; }
    if (((maps[k].len + 4095) & ~4095UL) != ((o + 4095) & ~4095UL)) symx_die("mremap old length differs from the mapping");
    // the kernel may move the mapping: the model always does
    void* na = symx_map(BASE(maps[k].ino) + maps[k].off, n);
    symx_unmap(a, o); maps[k].a = na; maps[k].len = n; return na;
  }
  errno = EFAULT; return MAP_FAILED;
}
int msync(void* a, size_t n, int fl) {
  if (fault(0)) return fail(EIO);
  for (int k = 0; k < 64; k++) if (maps[k].a && !maps[k].anon && (char*)a >= (char*)maps[k].a && (char*)a < (char*)maps[k].a + maps[k].len) { if (((uintptr_t)a) & 4095) return fail(EINVAL); ino[maps[k].ino].syncs++; ino[maps[k].ino].dirty = 0; return 0; }
  return fail(ENOMEM);
}
pid_t getpid(void) { return 4242; }
long sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_PHYS_PAGES ? 1 << 20 : n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF ? 4 : -1; }
int getrusage(int who, struct rusage* r) { memset(r, 0, sizeof *r); r->ru_maxrss = 1000; return 0; }
int nanosleep(const struct timespec* t, struct timespec* rem) { rt_clock_ns += t->tv_sec * 1000000000L + t->tv_nsec; symx_yield(); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) { rt_clock_ns += rt_clock_step; t->tv_sec = rt_clock_ns / 1000000000L; t->tv_nsec = rt_clock_ns % 1000000000L; return 0; }
time_t time(time_t* t) { rt_clock_ns += rt_clock_step; time_t r = rt_clock_ns / 1000000000L; if (t) *t = r; return r; }

// ---- controls ----
void rt_fs_process_exit(void) {
  for (int f = 3; f < NFD; f++) if (fds[f].used) { fds[f].used = 0; ino[fds[f].ino].opens--; ino[fds[f].ino].lock = 0; putino(fds[f].ino); }
  for (int k = 0; k < 64; k++) if (maps[k].a) { if (!maps[k].anon) symx_unmap(maps[k].a, maps[k].len); maps[k].a = 0; }
}
static int byname(const char* p) { char b[120]; norm(p, b); struct dent* d = find(b); return d ? d->ino : -1; }
int64_t rt_file_size(const char* p) { int i = byname(p); return i < 0 ? -1 : ino[i].size; }
int rt_file_exists(const char* p) { return byname(p) >= 0; }
int rt_file_get(const char* p, int64_t off, void* b, size_t n) { int i = byname(p); if (i < 0 || off + (int64_t)n > ino[i].size) return -1; memcpy(b, BASE(i) + off, n); return 0; }
int rt_file_put(const char* p, const void* b, size_t n) {
  char nm[120]; norm(p, nm); struct dent* d = find(nm); int i;
  if (d) i = d->ino; else { i = newino(0); addent(nm, i); }
  resize(i, 0); resize(i, n); memcpy(BASE(i), b, n); return 0;
}
int rt_file_poke(const char* p, int64_t off, const void* b, size_t n) { int i = byname(p); if (i < 0 || off + (int64_t)n > ino[i].alloc) return -1; memcpy(BASE(i) + off, b, n); return 0; }
void* rt_file_ptr(const char* p) { int i = byname(p); return i < 0 ? 0 : BASE(i); }
int rt_open_fds(void) { int n = 0; for (int f = 3; f < NFD; f++) n += fds[f].used; return n; }
int rt_open_maps(void) { int n = 0; for (int k = 0; k < 64; k++) n += maps[k].a && !maps[k].anon; return n; }
void rt_ext_lock(const char* p, int k) { int i = byname(p); if (i >= 0) ino[i].ext = k; }
int rt_held_lock(const char* p) { int i = byname(p); return i < 0 ? -1 : ino[i].lock; }
int64_t rt_file_synced(const char* p) { int i = byname(p); return i < 0 ? -1 : ino[i].syncs; }
void rt_copy_file(const char* from, const char* to) {
  int s = byname(from); if (s < 0) return; char nm[120]; norm(to, nm); struct dent* d = find(nm); int i;
  if (d) i = d->ino; else { i = newino(0); addent(nm, i); }
  resize(i, 0); resize(i, ino[s].size); memcpy(BASE(i), BASE(s), ino[s].size);
}
