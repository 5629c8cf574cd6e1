// Harness and runtime-model interface to the symbolic executor.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void symx_make_symbolic(void* p, size_t n, const char* name);
uint64_t symx_int(uint64_t lo, uint64_t hi, const char* name);     // symbolic integer in [lo,hi]
uint64_t symx_choice(uint64_t n, const char* name) __attribute__((nothrow));    // forked choice in [0,n)
void symx_assume(int c);
void symx_assert(int c, const char* msg);
void symx_fail(const char* msg) __attribute__((noreturn));
void symx_die(const char* msg) __attribute__((noreturn, nothrow));
void symx_unsupported(const char* msg) __attribute__((noreturn, nothrow));
void symx_exit(void) __attribute__((noreturn));
void symx_silent_end(void) __attribute__((noreturn));
void symx_reach(const char* label);
void symx_observe(const char* name, const void* p, size_t n);
void symx_observe_int(const char* name, uint64_t v);
uint64_t symx_concretize(uint64_t v);
int symx_is_symbolic(uint64_t v);
int symx_bytes_symbolic(const void* p, size_t n);
void symx_print(const char* s);
void symx_print_int(const char* s, uint64_t v);
int symx_engine(void);
void symx_region(void* addr, size_t len);
void symx_region_drop(void* addr, size_t len);
void* symx_map(void* base, size_t len);
int symx_unmap(void* a, size_t len);
void symx_unmap_all(void);
size_t symx_map_size(void* a);
void* symx_map_base(void* a);
int symx_valid(const void* a, size_t n);
int symx_try(void (*fn)(void*), void* arg);   // 1 when the process was killed inside
void symx_crash_arm(int on);                  // 1 arm, 2 arm without half-done stores, 0 disarm
void symx_crash_point(void);
void symx_crash_now(void);
int symx_crash_index(void);
int symx_thread_create(void (*fn)(void*), void* arg);
int symx_self(void);
void symx_sched_point(void);
void symx_yield(void);
void symx_block(const void* a);
void symx_block_timed(const void* a);
int symx_timed_out(void);
void symx_wake(const void* a, size_t n);
void symx_acquire(const void* a);
void symx_release(const void* a);
int symx_thread_done(int tid);
void* symx_thread_key(int tid);
void symx_thread_exit(void);
int symx_nthreads(void);
int symx_alive_threads(void);
void symx_atomic_begin(void);
void symx_atomic_end(void);
int symx_fmt_double(char* buf, size_t n, const char* fmt, double v);

// ---- file model controls (rt_posix) ----
extern int rt_fault_budget;      // number of injected I/O failures still allowed
extern int rt_fault_reads;       // also fail reads
extern int rt_short_io;          // allow short reads/writes (budget)
extern long rt_clock_ns;
extern long rt_clock_step;
extern int rt_power_loss;        // track what has been synchronised
extern int rt_fault_fired;       // number of failures injected so far
extern long rt_write_calls;      // calls that modified any file
void rt_fs_process_exit(void);   // closes every descriptor and mapping (process death)
int64_t rt_file_size(const char* path);
int rt_file_get(const char* path, int64_t off, void* buf, size_t n);
int rt_file_put(const char* path, const void* buf, size_t n);  // create/replace
int rt_file_poke(const char* path, int64_t off, const void* buf, size_t n);
void* rt_file_ptr(const char* path);
int rt_file_exists(const char* path);
int rt_open_fds(void);
int rt_open_maps(void);
void rt_ext_lock(const char* path, int kind);  // 0 none 1 shared 2 exclusive, held by another process
int rt_held_lock(const char* path);            // lock this process holds: 0 none 1 shared 2 exclusive
int64_t rt_file_synced(const char* path);      // number of sync calls that covered the file
void rt_copy_file(const char* from, const char* to);
#ifdef __cplusplus
}
#endif
