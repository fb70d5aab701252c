// Deterministic simulation core: one seed -> one plan -> one exactly repeatable run.
// Owns: the PRNG, the plan format, fibers (simulated processes and threads), the
// virtual clock (basic-block ticks + syscall costs), the virtual disk, the
// allocator seam, every fault, and the event log hash.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <algorithm>

namespace sim {
typedef uint64_t U;
typedef std::vector<uint8_t> Bytes;

struct Rng {
    U s;
    explicit Rng(U seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    U next() {
        U z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    U below(U n) { return n ? next() % n : 0; }
    U range(U a, U b) { return a + below(b - a + 1); }          // inclusive
    bool chance(U num, U den) { return below(den) < num; }
    U pow2ish(U max) {                                           // small values likelier
        U bits = 0; while ((max >> bits) && bits < 63) bits++;
        U b = below(bits + 1); U v = b ? (next() & ((1ull << b) - 1)) : 0; return v > max ? max : v;
    }
};

struct Line {
    std::string verb;
    std::map<std::string, std::string> kv;
    U num(const char *k, U def = 0) const;
    std::string str(const char *k, const char *def = "") const;
    Line &set(const char *k, U v) { kv[k] = std::to_string(v); return *this; }
    Line &set(const char *k, const std::string &v) { kv[k] = v; return *this; }
    std::string format() const;
};
struct Plan {
    std::string check; U seed = 0;
    std::vector<Line> lines;
    Line &add(const std::string &verb) { lines.push_back(Line{verb, {}}); return lines.back(); }
    const Line *find(const char *verb) const;
    std::string format() const;
    static bool parse(const std::string &text, Plan &out, std::string &err);
};

// ---- verdicts -------------------------------------------------------------
struct Stop { };
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define REQUIRE(cond, cls, ...) do { if (!(cond)) sim::violation(cls, __VA_ARGS__); } while (0)
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // goes to the log hash
void mixlog(U v);
void mixlog(const void *p, size_t n);
void probe(const char *name, U n = 1);      // "this rare condition was hit" counters
void op_done();                             // counts workload operations

// ---- virtual disk -----------------------------------------------------------
struct VFile { Bytes data; Bytes synced; bool ever_synced = false; U writes = 0; U ino = 0; struct timespec mtime = {}; };
bool vfs_exists(const std::string &path);
Bytes vfs_get(const std::string &path);
void vfs_put(const std::string &path, const Bytes &b);
void vfs_remove(const std::string &path);
std::vector<std::string> vfs_list();
void vfs_capacity(U bytes);                 // ENOSPC beyond this many bytes in total

// ---- simulated processes and threads ---------------------------------------------
enum TaskState { T_READY, T_DONE, T_EXITED, T_CRASHED };
struct Proc;
struct Outcome {
    TaskState st = T_DONE; int code = 0; std::string why;
    bool injected = false;                  // crash was an injected one / follows an injected allocation failure
    bool returned() const { return st == T_DONE; }
};
Proc *proc_new();                           // fresh address space image, fd table, stdout
int proc_id(Proc *);
void proc_end(Proc *);                      // flush nothing, drop fds (used after crash automatically)
const std::string &proc_stdout(Proc *);
const std::string &proc_stderr(Proc *);
void proc_stdout_clear(Proc *);
size_t proc_open_fds(Proc *);
bool proc_faulted(Proc *);                  // any fault fired in this process so far
U proc_fault_count(Proc *);
bool proc_alloc_faulted(Proc *);
Proc *proc_default();
std::string proc_flush_stdout(Proc *);
void proc_end_shared();
U fault_proc_open(Proc *);                  // number of opens so far

Outcome call(std::function<void()> fn, Proc *p = nullptr);                // one task, run to completion
struct TaskSpec { std::function<void()> fn; Proc *proc; };
std::vector<Outcome> run_tasks(std::vector<TaskSpec> specs);              // interleaved by the plan's switch points
void yield_point();                                                       // explicit scheduling point for harness code inside a task
int current_task();

// Arms the plan's `sw` and `fault` lines. Call once at the start of run().
void arm(const Plan &p);
// fault lines: fault proc=<i> call=<open|read|write|close|fstat|alloc|seek|rename|unlink|sync|trunc> n=<k> act=<fail|short|crash|trunc|flip|grow|eof> arg=<..> err=<errno>
void gen_mem(Rng &r, Plan &p);
void gen_fault(Rng &r, Plan &p, int proc, U mask);       // mask of fault families
enum { F_OPEN = 1, F_READ = 2, F_WRITE = 4, F_CLOSE = 8, F_STAT = 16, F_ALLOC = 32, F_CRASH = 64, F_CORRUPT = 128, F_SHORT = 256, F_CAP = 512, F_META = 1024, F_CONS = 2048 };
void gen_switches(Rng &r, Plan &p, U count, U span, U grp = 0);   // grp: which run_tasks call with several tasks

void hot_watch(int mode, U seed = 0, U pct = 0);   // 1: note which static data is written; 2: switch (pct in 100) on access to it; 0: off
U hot_pages();
U ticks();
U fault_fired_total();
void set_budget(U ticks_from_now);          // hang detector
Proc *proc_calm(Proc *p);                   // a process of the harness itself: no fault or kill reaches it
void faults_enable(bool on, Proc *p);       // also restarts the call counters of the process
void leak_track(bool on);                   // account for blocks the code under test has not given back
U leak_blocks(); U leak_bytes();
void set_fill(uint8_t b);                   // fresh heap memory content
void set_bufsz(size_t n);                   // stdio buffer size knob
void power_loss(const std::string &path, U mode, U keep, const Bytes &old);

// ---- scenarios ------------------------------------------------------------------
struct Scenario {
    const char *id;
    void (*gen)(Rng &, Plan &, bool thorough);
    void (*run)(const Plan &);
};
extern std::vector<Scenario> &scenarios();
struct Register { Register(const char *id, void (*g)(Rng &, Plan &, bool), void (*r)(const Plan &)) { scenarios().push_back({id, g, r}); } };

extern bool verbose; void vlog(const char *s);   // printed when verbose
std::string hex(const uint8_t *p, size_t n);
}
