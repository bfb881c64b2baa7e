// Public interface of the controlled-execution engine (libmc.so).
// Everything the code under test does that is nondeterministic goes through here.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct mc_config {
  const char* name;        // scenario name (for reports)
  int bound;               // deviation bound
  int64_t start_time;      // virtual CLOCK_REALTIME at start of every execution
  int64_t tick;            // ns added by every clock read
  int cores;               // what sysconf(_SC_NPROCESSORS_ONLN) reports
  bool time_deviation;     // the clock may jump to the next deadline while threads are runnable
  int64_t max_jump;        // such a jump is at most this long (0: no limit)
  bool clock_read_points;  // clock reads are scheduling points too
  bool spurious;           // condition waits may wake spuriously (cost 1)
  bool short_io;           // short reads/writes on sockets (cost 1)
  bool eintr_io;           // EINTR/EAGAIN on sockets (cost 1)
  bool udp_loss;           // datagrams may be dropped (cost 1)
  bool race_points;        // detect races and promote them to scheduling points
  bool hb_cache;           // prune happens-before equivalent prefixes
  bool create_switch;      // reserved
  bool alloc_fail;         // reserved
  bool deadlock_ok;        // a state without enabled threads simply ends the execution
  int64_t quiet_until;     // alternatives are not explored before this virtual time
  int kill_proc;           // 0, or 1 + a process that may be killed at any of its visible operations (cost 1)
  int64_t max_steps;       // visible operations per execution before "no termination" is reported
  int64_t max_time;        // virtual nanoseconds per execution before "no termination"
  int fair;                // consecutive operations of a thread before a forced switch
  int stack_kb;
  int64_t net_latency;     // virtual ns before written stream data is readable
  int slow_proc;           // 0, or 1 + a process whose written data take slow_latency longer
  int64_t slow_latency;
  int64_t lat_dev;         // written data may take this much longer (cost 1)
  bool sched_points;       // scheduling alternatives are explored
  int64_t skew[8];         // per process: its clock minus the real clock
  int64_t step[8], step_at[8]; // per process: its clock is set by step at start + step_at (if not 0)
} mc_config;

enum mc_status { MC_ALL_EXITED = 0, MC_STOPPED = 1, MC_DEADLOCK = 2, MC_HORIZON = 3, MC_PRUNED = 4, MC_FAILED = 5 };

extern mc_config mc_cfg;

// setup() runs at the start of every execution and spawns processes; finish() judges the execution.
typedef void (*mc_setup_f)(void);
typedef void (*mc_finish_f)(int status);
// Runs the exploration as given by the command line; returns the process exit code.
int mc_main(int argc, char** argv, mc_setup_f setup, mc_finish_f finish);
// value of "--set key=value" arguments, or def
const char* mc_arg(const char* key, const char* def);
long mc_argi(const char* key, long def);

// Create a process (a group of threads that exits together) whose main thread runs fn(arg). Returns its id.
int mc_spawn(const char* name, int (*fn)(void*), void* arg);
int mc_proc_exited(int p, int* code); // 1 if process p has exited
int mc_proc_alive_threads(int p);
int mc_thread_waiting_in_cond(int tid);

// Nondeterministic choice in 0..n-1. free: every alternative costs nothing; else non-zero alternatives cost 1.
int mc_choose(int n, bool free, const char* label);
// A visible operation on a harness object: scheduling point; orders accesses to the same object.
void mc_visible(const void* obj, bool write, const char* label);
// Plain scheduling point with no conflicts
void mc_touch(const void* obj, bool write); // as mc_visible, without being a scheduling point
void mc_yield(void);
// While quiet, alternatives are not explored (except those of mc_choose with free set).
void mc_quiet(bool on);
// Stop everything: the execution ends here with MC_STOPPED
void mc_stop(void);
void mc_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Block the calling thread until *flag is non-zero (harness-level synchronisation)
void mc_wait_flag(volatile int* flag);
int64_t mc_now(void);
void mc_advance(int64_t ns); // the calling thread consumes this much time without blocking
void mc_sleep_until(int64_t t);
int64_t mc_delayed(void); // number of writes that took longer
int mc_listening_port(int proc); // the port at which a process accepts connections, or 0
int mc_self(void);
int mc_self_proc(void);
int64_t mc_step(void); // number of visible operations so far
void mc_outcome(uint64_t h); // adds to the distinct-outcome statistic
// Count of live allocations made by process p since mark (see mc_alloc_mark)
size_t mc_live_allocs(int p);
size_t mc_live_bytes(int p);
// describe up to n live allocations in the log
void mc_dump_live(int p, int n);
// number of live allocations of process p, made after allocation number from, with one of the given sizes
size_t mc_live_sized(int p, uint64_t from, const size_t* sizes, int nsizes, int log);
uint64_t mc_alloc_seq(void); // number of the latest allocation
int mc_is_live(const void* ptr, size_t* size); // ptr is the start of a live allocation
int mc_addressable(const void* ptr, size_t n);
uint64_t mc_hash(uint64_t a, uint64_t b);
// host memory that survives between executions and is not subject to checks
void* mc_host_alloc(size_t n);
// in-memory files written by the code under test
const unsigned char* mc_file(const char* name, size_t* size);
void mc_file_put(const char* name, const void* data, size_t size);
// Abruptly kill a process (as by SIGKILL): its sockets are closed, threads vanish.
void mc_kill(int p);
// Network helpers for harness-controlled peers: all of the mc_ socket calls may be used as well.
const char* mc_output(int p); // what process p printed in this execution (kept only if mc_keep_output)
extern bool mc_keep_output;
extern bool mc_verbose;
// Statistics for evidence
void mc_note(const char* key, int64_t value); // added to JSON stats (last value wins)
void mc_count(const char* key); // increments a named counter over all executions

// the libc surface usable directly by harness code
int mc_pthread_create(unsigned long*, const void*, void* (*)(void*), void*);
int mc_pthread_join(unsigned long, void**);
int mc_pthread_mutex_lock(void*);
int mc_pthread_mutex_unlock(void*);
int mc_socket(int, int, int);
int mc_connect(int, const void*, unsigned);
int mc_bind(int, const void*, unsigned);
int mc_listen(int, int);
int mc_accept(int, void*, unsigned*);
long mc_read(int, void*, size_t);
long mc_write(int, const void*, size_t);
int mc_close(int);
int mc_shutdown(int, int);
void* mc_malloc(size_t);
void* mc_calloc(size_t, size_t);
void mc_free(void*);
#ifdef __cplusplus
}
#endif
