// Public API of the simulator, used by harnesses (code in node shared objects).
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <stdint.h>
#include <stddef.h>
extern "C" {
// --- choices: every one is a decision of the seeded PRNG, or of a replayed trace
uint64_t sim_choose(uint64_t n,const char *tag);        // 0..n-1; 0 is the "simplest"
int      sim_flip(double p,const char *tag);            // 1 with probability p; 0 simplest
double   sim_param(const char *name,double dflt);       // run-time parameter given on the command line
int      sim_tier();                                     // 0 quick, 1 thorough
uint64_t sim_seed();
// --- time, logging
uint64_t sim_now_ns();
uint64_t sim_seq();                                      // strictly increasing global event number
void     sim_log(const char *fmt,...) __attribute__((format(printf,1,2)));
void     sim_state(uint64_t h);                          // register an abstract state reached (coverage)
void     sim_probe(const char *name);                    // count a rare condition that was reached
uint64_t sim_probe_count(const char *name);
// --- verdicts
void     sim_violation(const char *cls,const char *fmt,...) __attribute__((noreturn,format(printf,2,3)));
void     sim_pass() __attribute__((noreturn));
void     sim_discard(const char *why) __attribute__((noreturn));  // run is vacuous; not counted
void     sim_known(const char *id,const char *fmt,...);  // see known findings
// --- scheduling
int      sim_spawn(void (*fn)(void*),void *arg,const char *name);  // fiber in the calling node
void     sim_join(int id);
void     sim_yield();
void     sim_sleep_ns(uint64_t ns);
// waits until pred is true (evaluated when nothing else can run, and periodically); 0 on timeout
int      sim_wait(int (*pred)(void*),void *arg,uint64_t timeout_ns);
void     sim_calm();                                     // stop injecting faults, schedule fairly from now on
void     sim_wild();                                     // resume exploration
void     sim_dump();                                     // dump fiber states to the report
void     sim_atomic_begin(); void sim_atomic_end();      // no preemption in between (harness only)
void     sim_instr(int on);                              // instrumentation-based preemption on/off for this fiber
int      sim_self();
int      sim_live_fibers(int node);                      // threads of a node that have not ended, without the caller
int      sim_fiber_blocked(int id);                      // 1 if blocked, 2 if finished
void     sim_set_pct_allowed(int on);
// --- nodes (simulated processes)
int      sim_node();                                     // index of the calling node
int      sim_node_start(const char *host,int role,void *shared); // new process, runs node_main(role,shared)
void     sim_node_crash(int node);                       // SIGKILL
int      sim_node_alive(int node);
int      sim_node_exited(int node,int *code);
void     sim_node_signal(int node,int sig);
void     sim_node_set_pid_host(const char *host,int pid);
// --- faults: per-run probabilities/knobs; set by the harness from sim_choose/sim_flip
struct SimFaults {
  double net_short;      // partial send/recv
  double net_eintr;      // EINTR from interruptible calls
  double net_reset;      // connection reset on an I/O call
  uint64_t net_lat_min,net_lat_max;  // ns
  uint64_t net_sndbuf;   // bytes in flight before EAGAIN/blocking
  double cond_spurious;  // spurious wakeup per wait
  double stall;          // thread stalls at a scheduling point
  uint64_t stall_ns;
  double disk_write_err; // EIO/ENOSPC on write
  double disk_short;     // short write/read (then continues)
  double disk_read_err;
  double disk_sync_err;  // fsync fails
  int64_t disk_quota;    // bytes left on device (-1 unlimited)
  double alloc_fail;
  double conn_refuse;
  double accept_fail;
};
extern struct SimFaults sim_faults;
// network control
void     sim_net_partition(const char *hostA,const char *hostB,int on);
void     sim_net_reset_all(const char *hostA,const char *hostB); // reset established connections
int      sim_net_open_conns(int node);
uint64_t sim_net_connects();                            // connections made so far
// open harness-side (adversary) sockets use the ordinary socket calls
// disk control
void     sim_disk_put(const char *host,const char *path,const void *data,size_t n);
int64_t  sim_disk_get(const char *host,const char *path,void *buf,size_t max); // -1: absent; else size
int      sim_disk_exists(const char *host,const char *path);
void     sim_disk_truncate(const char *host,const char *path,size_t n);
void     sim_disk_remove(const char *host,const char *path);
int      sim_disk_count_open(int node);
void     sim_disk_arm_crash(int64_t bytes);              // node of caller is killed when that many more bytes were written
void     sim_fault_count(const char *kind);
void     sim_clock_jump(int64_t ns);                     // wall clock jump
uint64_t sim_heap_live();
}
#endif
