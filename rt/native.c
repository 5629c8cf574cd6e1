// Native runtime: runs the linked harness bitcode, compiled to machine code, on one concrete input vector.
// exit 0: completed, 1: assertion failed / aborted, 77: cannot be run natively (threads, crash points), 78: assumption false
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <setjmp.h>
#include <math.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <signal.h>
static struct { char name[64]; unsigned char* d; size_t n; } in[4096];
static int nin, pos, failed;
static void done(int c) { fflush(stdout); _exit(c); }
static void on_sig(int s) { printf("signal %d\n", s); done(1); }
static int mfd = -1;
#define FB 0x9000000000ULL
static void next(const char* name, unsigned char* p, size_t n) {
  memset(p, 0, n);
  if (pos < nin) { if (strcmp(in[pos].name, name)) { printf("input mismatch %s %s\n", name, in[pos].name); done(79); } memcpy(p, in[pos].d, in[pos].n < n ? in[pos].n : n); pos++; }
}
void symx_make_symbolic(void* p, size_t n, const char* name) { next(name, p, n); }
uint64_t symx_int(uint64_t lo, uint64_t hi, const char* name) { uint64_t v = 0; next(name, (unsigned char*)&v, 8); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
uint64_t symx_choice(uint64_t n, const char* name) { if (n == 1) return 0; return symx_int(0, n - 1, name); }
void symx_assume(int c) { if (!c) { printf("assumption false\n"); done(78); } }
void symx_assert(int c, const char* m) { if (!c) { printf("ASSERT %s\n", m); failed = 1; done(1); } }
void symx_fail(const char* m) { printf("ASSERT %s\n", m); done(1); }
void symx_die(const char* m) { printf("ABORT %s\n", m); done(1); }
void symx_unsupported(const char* m) { printf("UNSUPPORTED %s\n", m); done(77); }
void symx_exit(void) { done(0); }
void symx_silent_end(void) { done(0); }
void symx_reach(const char* l) {}
void symx_observe(const char* name, const void* p, size_t n) { printf("OBS %s ", name); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
void symx_observe_int(const char* name, uint64_t v) { printf("OBS %s %llx\n", name, (unsigned long long)v); }
uint64_t symx_concretize(uint64_t v) { return v; }
int symx_is_symbolic(uint64_t v) { return 0; }
int symx_bytes_symbolic(const void* p, size_t n) { return 0; }
void symx_print(const char* s) { fprintf(stderr, "%s\n", s); }
void symx_print_int(const char* s, uint64_t v) { fprintf(stderr, "%s = %llu\n", s, (unsigned long long)v); }
int symx_engine(void) { return 0; }
void symx_region(void* addr, size_t len) {
  if (mfd < 0) { mfd = memfd_create("symx", 0); if (ftruncate(mfd, 64LL << 32)) {} }
  off_t o = (uint64_t)addr - FB;
  fallocate(mfd, 3 /* keep size, punch hole */, o, len);
  if (mmap(addr, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, mfd, o) == MAP_FAILED) { perror("mmap"); done(77); }
}
void symx_region_drop(void* addr, size_t len) { munmap(addr, len); }
static struct { char* a; size_t n; char* base; } mp[256];
void* symx_map(void* base, size_t len) {
  len = (len + 4095) & ~4095UL;
  char* a = mmap(0, len, PROT_READ | PROT_WRITE, MAP_SHARED, mfd, (uint64_t)base - FB);
  for (int i = 0; i < 256; i++) if (!mp[i].a) { mp[i].a = a; mp[i].n = len; mp[i].base = base; break; }
  return a;
}
int symx_unmap(void* a, size_t len) { len = (len + 4095) & ~4095UL; munmap(a, len); for (int i = 0; i < 256; i++) if (mp[i].a == a) { if (len >= mp[i].n) mp[i].a = 0; else { mp[i].a += len; mp[i].n -= len; mp[i].base += len; } return 1; } return 0; }
void symx_unmap_all(void) { for (int i = 0; i < 256; i++) if (mp[i].a) { munmap(mp[i].a, mp[i].n); mp[i].a = 0; } }
size_t symx_map_size(void* a) { for (int i = 0; i < 256; i++) if (mp[i].a == a) return mp[i].n; return 0; }
void* symx_map_base(void* a) { for (int i = 0; i < 256; i++) if (mp[i].a && (char*)a >= mp[i].a && (char*)a < mp[i].a + mp[i].n) return mp[i].base + ((char*)a - mp[i].a); return 0; }
int symx_valid(const void* a, size_t n) { return 1; }
static jmp_buf jb;
int symx_try(void (*fn)(void*), void* arg) { if (setjmp(jb)) return 1; fn(arg); return 0; }
void symx_crash_arm(int on) {}
void symx_crash_point(void) {}
void symx_crash_now(void) { longjmp(jb, 1); }
int symx_crash_index(void) { return -1; }
int symx_thread_create(void (*fn)(void*), void* arg) { printf("UNSUPPORTED threads\n"); done(77); return 0; }
int symx_self(void) { return 0; }
void symx_sched_point(void) {}
void symx_yield(void) {}
void symx_block(const void* a) { printf("UNSUPPORTED block\n"); done(77); }
void symx_block_timed(const void* a) {}
int symx_timed_out(void) { return 1; }
void symx_wake(const void* a, size_t n) {}
void symx_acquire(const void* a) {}
void symx_release(const void* a) {}
int symx_thread_done(int t) { return 1; }
void* symx_thread_key(int t) { return 0; }
void symx_thread_exit(void) { done(77); }
int symx_nthreads(void) { return 1; }
int symx_alive_threads(void) { return 1; }
void symx_atomic_begin(void) {}
void symx_atomic_end(void) {}
int symx_fmt_double(char* b, size_t n, const char* f, double v) { return snprintf(b, n, f, v); }
long double powl(long double a, long double b) { return pow(a, b); }
void symx_main(void);
int main(int argc, char** argv) {
  FILE* fp = fopen(argv[1], "r"); static char line[1 << 20], nm[64], hx[1 << 20];
  if (!fp) return 2;
  while (fgets(line, sizeof line, fp)) {
    hx[0] = 0;
    if (sscanf(line, "in %63s %1048575s", nm, hx) < 1) continue;
    size_t n = strlen(hx) / 2; in[nin].d = malloc(n + 1); in[nin].n = n; strcpy(in[nin].name, nm);
    for (size_t i = 0; i < n; i++) { unsigned x; sscanf(hx + 2 * i, "%2x", &x); in[nin].d[i] = x; }
    if (++nin >= 4096) break;
  }
  fclose(fp);
  signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGBUS, on_sig); signal(SIGFPE, on_sig); signal(SIGILL, on_sig);
  alarm(60);
  symx_main();
  done(0);
}
