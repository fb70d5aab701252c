#define _GNU_SOURCE 1
#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <exception>
#include <ucontext.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <pthread.h>
#include <iostream>
#include <streambuf>
#include <sys/time.h>
#include <ctime>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *p);

namespace sim {
bool verbose = false;

// ---------------------------------------------------------------- plan
U Line::num(const char *k, U def) const { auto i = kv.find(k); return i == kv.end() ? def : strtoull(i->second.c_str(), 0, 10); }
std::string Line::str(const char *k, const char *def) const { auto i = kv.find(k); return i == kv.end() ? def : i->second; }
std::string Line::format() const { std::string s = verb; for (auto &e : kv) s += " " + e.first + "=" + e.second; return s; }
const Line *Plan::find(const char *verb) const { for (auto &l : lines) if (l.verb == verb) return &l; return nullptr; }
std::string Plan::format() const {
    std::string s = "crefl-sim-plan 1\ncheck " + check + "\nseed " + std::to_string(seed) + "\n";
    for (auto &l : lines) s += l.format() + "\n";
    return s;
}
bool Plan::parse(const std::string &text, Plan &out, std::string &err) {
    size_t i = 0; int ln = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i); if (e == std::string::npos) e = text.size();
        std::string l = text.substr(i, e - i); i = e + 1; ln++;
        if (l.empty() || l[0] == '#') continue;
        std::vector<std::string> w; size_t p = 0;
        while (p < l.size()) { size_t q = l.find(' ', p); if (q == std::string::npos) q = l.size(); if (q > p) w.push_back(l.substr(p, q - p)); p = q + 1; }
        if (w.empty()) continue;
        if (w[0] == "crefl-sim-plan") continue;
        if (w[0] == "check") { out.check = w.size() > 1 ? w[1] : ""; continue; }
        if (w[0] == "seed") { out.seed = w.size() > 1 ? strtoull(w[1].c_str(), 0, 10) : 0; continue; }
        Line L; L.verb = w[0];
        for (size_t k = 1; k < w.size(); k++) {
            size_t q = w[k].find('=');
            if (q == std::string::npos) { err = "line " + std::to_string(ln) + ": bad field"; return false; }
            L.kv[w[k].substr(0, q)] = w[k].substr(q + 1);
        }
        out.lines.push_back(L);
    }
    if (out.check.empty()) { err = "no check line"; return false; }
    return true;
}
std::string hex(const uint8_t *p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", p[i]); s += b; } return s; }
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }

// ---------------------------------------------------------------- state
enum SysKind { S_OPEN, S_READ, S_WRITE, S_CLOSE, S_STAT, S_ALLOC, S_SEEK, S_RENAME, S_UNLINK, S_SYNC, S_TRUNC, S_CONS, S_MAX };
static const char *sysname[S_MAX] = { "open", "read", "write", "close", "fstat", "alloc", "seek", "rename", "unlink", "sync", "trunc", "stdout" };
static const U syscost[S_MAX] = { 3000, 2000, 2500, 500, 300, 0, 200, 3000, 2500, 100000, 2500, 0 };
struct Fault { int proc; int call; U n; U rep; std::string act; U arg; int err; U fired; };
struct OpenFile {
    int fd; std::shared_ptr<VFile> file; std::string path; U pos = 0; bool rd = false, wr = false, append = false;
    bool closed = false; bool console = false; int console_which = 0;
    FILE *fp = nullptr; Proc *proc = nullptr; U gen = 0; U wstart = 0;
};
struct Proc {
    std::vector<uint8_t> tls; int id = 0; std::vector<std::vector<uint8_t>> image; bool image_valid = false;
    std::map<int, OpenFile *> fds; std::vector<OpenFile *> all;
    FILE *out = nullptr, *err = nullptr; std::string out_text, err_text;
    U count[S_MAX] = {}; U faults = 0; bool alloc_fault = false; bool said = false; bool dead = false, calm = false; pid_t pid = 2; U rnd = 1;
};
struct Task {
    int id; std::function<void()> fn; ucontext_t ctx; Outcome o; Proc *proc; int stack; bool started = false; bool unwound = false; void *fake = nullptr;
    int err = 0; std::vector<uint8_t> *tls = nullptr, own_tls;      // per-thread errno and thread-local variables
};
static const size_t STACK = 2u << 20;
struct StackSlot { uint8_t *base; bool used; bool dirty; };
static std::vector<StackSlot> stacks;

static U g_seed, g_hash, g_ticks, g_next, g_budget, g_run_gen, g_ops, g_fired, g_nsw;
static U g_sig;
static bool g_in_task = false;             // a simulated task is on the cpu
static Task *g_cur = nullptr;
static ucontext_t g_main; static void *g_main_fake; static const void *g_main_bottom; static size_t g_main_size;
static std::vector<Task *> g_tasks;
struct SwPlan { U grp, at, to; bool sys; }; static std::vector<SwPlan> g_swplan; static U g_group;   // switch points are relative to the start of their group of tasks
static std::vector<std::pair<U, U>> g_switch, g_sysswitch; static size_t g_swi, g_ssi; static U g_sysn;
static std::vector<std::pair<U, U>> g_crash, g_killplan;                                  // kills are relative to the birth of their process
static std::vector<Fault> g_faults;
static std::map<std::string, std::shared_ptr<VFile>> g_files;
static U g_cap = ~0ull;
static int g_next_fd;
static std::vector<Proc *> g_procs; static Proc *g_proc = nullptr, *g_loaded = nullptr;
static uint8_t g_fill = 0xA5; static size_t g_bufsz = 4096;
static bool g_viol = false; static std::string g_vcls, g_vmsg;
static std::map<std::string, U> g_probes, g_faultcount;
static std::vector<uint8_t> g_cov(1 << 16); static U g_prevpc; static U g_covn;
static const int FD0 = 1000000;
static bool g_consfaults;                          // some fault of this plan concerns what is printed
static FILE *real_stdout, *real_stderr;

void mixlog(U v) { g_hash ^= v; g_hash *= 0x100000001b3ull; g_hash ^= g_hash >> 29; g_hash *= 0xBF58476D1CE4E5B9ull; g_hash ^= g_hash >> 32; }
void mixlog(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; U h = 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; } mixlog(h ^ n); }
void vlog(const char *s) { if (verbose) { ssize_t r = ::write(2, s, strlen(s)); (void)r; } }
void event(const char *fmt, ...) {
    char b[1024]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, a); va_end(a);
    if (n > (int)sizeof b - 3) n = sizeof b - 3;
    mixlog(b, n); 
    if (verbose) { char h[48]; snprintf(h, sizeof h, "[%10llu] ", (unsigned long long)g_ticks); b[n] = '\n'; b[n + 1] = 0; vlog(h); vlog(b); }
}
void probe(const char *name, U n) { g_probes[name] += n; }
void op_done() { g_ops++; }
static void to_main();
void violation(const char *cls, const char *fmt, ...) {
    char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (!g_viol) { g_viol = true; g_vcls = cls; g_vmsg = b; for (auto &c : g_vmsg) if (c == '\n') c = ' '; event("VIOLATION %s: %s", cls, b); }
    if (g_in_task) { to_main(); __builtin_unreachable(); }
    throw Stop();
}
U ticks() { return g_ticks; }
// ---- the rest of what a process can observe of its surroundings: clocks, its id, randomness. All a function of the plan's seed.
// One step of the code is taken for a nanosecond; the wall clock of a process starts somewhere of its own and is set forwards and backwards at times.
static U g_ino, g_envreads; static Rng g_envrng(1); static int64_t g_wall0, g_walljump;
static void env_reset(U seed) { g_envrng = Rng(seed * 0x9E3779B97F4A7C15ull + 77); g_ino = 100; g_envreads = 0; g_wall0 = (int64_t)g_envrng.range(315532800, 4102444800u) * 1000000000 + g_envrng.below(1000000000); g_walljump = 0; }
static int64_t wall_at() { return g_wall0 + g_walljump + (int64_t)g_ticks; }
static struct timespec wall_coarse() { int64_t t = wall_at() / 4000000 * 4000000; return { (time_t)(t / 1000000000), (long)(t % 1000000000) }; }
static int64_t wall_read() {        // most readings pass little time; some find the clock set to another hour, day or year
    g_envreads++; g_probes["environment read by the code (clock, id, randomness)"]++;
    U k = g_envrng.below(16);
    if (k < 3) { int64_t j = (int64_t)g_envrng.below(k == 0 ? 2000000000ull : k == 1 ? 100000ull * 1000000000 : 400ull * 86400 * 1000000000); if (g_envrng.chance(1, 2)) j = -j; if (wall_at() + j > 0) g_walljump += j; g_faultcount["clock.jump"]++; }
    else g_walljump += g_envrng.below(50000000);
    return wall_at();
}
static int64_t g_mono;
static int64_t mono_read() { g_envreads++; g_mono += g_envrng.pow2ish(1ull << 36); return g_mono + (int64_t)g_ticks; }
static U env_random() { g_envreads++; g_probes["environment read by the code (clock, id, randomness)"]++; return g_envrng.next(); }
static std::shared_ptr<VFile> vfile_new() { auto f = std::make_shared<VFile>(); f->ino = g_ino++; f->mtime = wall_coarse(); return f; }
U fault_fired_total() { return g_fired; }

// ---------------------------------------------------------------- SUT image (globals)
struct Seg { uint8_t *p; size_t n; };
static std::vector<Seg> g_segs; static std::vector<std::vector<uint8_t>> g_init_image;
__attribute__((no_sanitize("address"), noinline)) static void rawcopy(uint8_t *d, const uint8_t *s, size_t n) {
    while (n >= 8) { asm volatile("" ::: "memory"); *(volatile U *)d = *(const volatile U *)s; d += 8; s += 8; n -= 8; }
    while (n--) { *(volatile uint8_t *)d++ = *(const volatile uint8_t *)s++; }
}
static uint8_t *g_tls; static size_t g_tls_n; static std::vector<uint8_t> g_tls_init; static std::vector<uint8_t> *g_tls_at;   // the library's thread-local block of the one real thread
static int seg_cb(struct dl_phdr_info *i, size_t, void *) {
    if (!i->dlpi_name || !strstr(i->dlpi_name, "libsut")) return 0;
    U rs = 0, re = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { g_tls = (uint8_t *)i->dlpi_tls_data; g_tls_n = g_tls ? i->dlpi_phdr[k].p_memsz : 0; }
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rs = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; re = (rs + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ull; }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &h = i->dlpi_phdr[k];
        if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
        U a = i->dlpi_addr + h.p_vaddr, e = a + h.p_memsz;
        if (re > a && rs <= a) a = re < e ? re : e;
        if (a < e) g_segs.push_back({ (uint8_t *)a, (size_t)(e - a) });
    }
    return 0;
}
static void image_init() {
    dl_iterate_phdr(seg_cb, nullptr);
    if (g_tls_n) { g_tls_init.resize(g_tls_n); rawcopy(g_tls_init.data(), g_tls, g_tls_n); }
    for (auto &s : g_segs) { g_init_image.emplace_back(s.n); rawcopy(g_init_image.back().data(), s.p, s.n); }
}
// Conflict-directed scheduling: pages of the library's static data that a task wrote while running alone ("hot") are made
// inaccessible while several tasks run together, and each access asks the scheduler for a switch. Costs nothing when nothing is written.
struct HotPage { uint8_t *p; bool hot, open; };
static std::vector<HotPage> g_pages; static int g_hotmode; static U g_hotn, g_hotfaults; static Rng g_hotrng(1); static U g_hotpct;
static bool g_hot_armed, g_hot_reprotect; static std::vector<HotPage *> g_hotopen;
static bool g_force; static U g_force_to;
static void hot_apply(bool on) {
    if (!g_hotmode || on == g_hot_armed) return;
    g_hot_armed = on; g_hotopen.clear(); g_hot_reprotect = false;
    for (auto &q : g_pages) { if (g_hotmode == 2 && !q.hot) continue; q.open = false; mprotect(q.p, 4096, !on ? PROT_READ | PROT_WRITE : g_hotmode == 1 ? (q.hot ? PROT_READ | PROT_WRITE : PROT_READ) : PROT_NONE); }
}
void hot_watch(int mode, U seed, U pct) {
    if (g_pages.empty()) for (auto &s : g_segs) for (U a = (U)s.p & ~4095ull; a < (U)s.p + s.n; a += 4096) if ((U)s.p <= a) g_pages.push_back({ (uint8_t *)a, false, false });
    hot_apply(false);
    if (mode == 1 && g_hotmode != 1) { for (auto &q : g_pages) q.hot = false; g_hotn = 0; }
    if (mode == 2) { g_hotrng = Rng(seed); g_hotpct = pct; g_hotfaults = 0; if (!g_hotn) mode = 0; }
    g_hotmode = mode;
}
U hot_pages() { return g_hotn; }
static bool hot_fault(U addr) {          // in the signal handler; true: access may go on
    if (!g_hotmode || !g_hot_armed) return false;
    for (auto &q : g_pages) if (addr >= (U)q.p && addr < (U)q.p + 4096) {
        mprotect(q.p, 4096, PROT_READ | PROT_WRITE);
        if (g_hotmode == 1) { if (!q.hot) { q.hot = true; g_hotn++; } return true; }
        if (!q.open) { q.open = true; g_hotopen.push_back(&q); }
        if (++g_hotfaults > 3000) return true;
        g_hot_reprotect = true; if (g_hotrng.below(100) < g_hotpct) { g_force = true; g_force_to = g_hotrng.below(4); } g_next = g_ticks;
        return true;
    }
    return false;
}
static void tls_load(std::vector<uint8_t> *want) {
    if (!g_tls_n || g_tls_at == want) return;
    if (g_tls_at) { g_tls_at->resize(g_tls_n); rawcopy(g_tls_at->data(), g_tls, g_tls_n); }
    rawcopy(g_tls, want->empty() ? g_tls_init.data() : want->data(), g_tls_n); g_tls_at = want;
}
static void image_load(Proc *p) {
    if (g_loaded == p) return;
    if (g_loaded) { g_loaded->image.resize(g_segs.size()); for (size_t i = 0; i < g_segs.size(); i++) { g_loaded->image[i].resize(g_segs[i].n); rawcopy(g_loaded->image[i].data(), g_segs[i].p, g_segs[i].n); } g_loaded->image_valid = true; }
    for (size_t i = 0; i < g_segs.size(); i++) rawcopy(g_segs[i].p, p->image_valid ? p->image[i].data() : g_init_image[i].data(), g_segs[i].n);
    g_loaded = p;
    stdout = p->out; stderr = p->err; std::cout.clear(); std::cerr.clear();
    if (!p->image_valid && !p->said) { p->said = true; for (auto o : { &std::cout, &std::cerr }) { o->copyfmt(std::ios(nullptr)); o->exceptions(std::ios::goodbit); } std::cerr.setf(std::ios::unitbuf); }
}
// what is printed through iostreams goes where the process's stdio streams go
struct StdioBuf : std::streambuf {
    FILE **f; StdioBuf(FILE **x) : f(x) {}
    int overflow(int c) override { return c == EOF ? 0 : fputc(c, *f); }
    std::streamsize xsputn(const char *b, std::streamsize n) override { return fwrite(b, 1, n, *f); }
    int sync() override { return fflush(*f); }
};

// ---------------------------------------------------------------- virtual disk
bool vfs_exists(const std::string &p) { return g_files.count(p) != 0; }
Bytes vfs_get(const std::string &p) { auto i = g_files.find(p); return i == g_files.end() ? Bytes() : i->second->data; }
void vfs_put(const std::string &p, const Bytes &b) { auto f = vfile_new(); f->data = b; g_files[p] = f; }
void vfs_remove(const std::string &p) { g_files.erase(p); }
std::vector<std::string> vfs_list() { std::vector<std::string> v; for (auto &e : g_files) if (e.first.compare(0, 10, "/sim//dev/")) v.push_back(e.first); return v; }
void vfs_capacity(U n) { g_cap = n; }
static U vfs_used() { U n = 0; for (auto &e : g_files) n += e.second->data.size(); return n; }
void set_fill(uint8_t b) { g_fill = b; }
void set_bufsz(size_t n) { g_bufsz = n; }
void power_loss(const std::string &path, U mode, U keep, const Bytes &old) {
    // un-synced data after a power cut: either the pre-open content, or a prefix of what was written
    if (!g_files.count(path)) return;
    auto f = g_files[path];
    if (mode == 0) f->data = old;
    else { U n = f->data.size(); f->data.resize(n ? keep % (n + 1) : 0); }
    event("power loss %s mode=%llu -> %zu bytes", path.c_str(), (unsigned long long)mode, f->data.size());
}

static bool g_faults_off;
void faults_enable(bool on, Proc *p) { g_faults_off = !on; if (on && p) for (auto &c : p->count) c = 0; }
static void schedule_now() { if (g_next > g_ticks + 1) g_next = g_ticks + 1; }
static void task_crash(const char *why, bool injected);

// Returns the fault that applies to this call, if any; counts the call.
static Fault *fault_for(SysKind k, const char *what) {
    if (!g_proc) return nullptr;
    U n = g_proc->count[k]++;
    g_ticks += syscost[k];
    if (k != S_ALLOC) event("sys p%d %s#%llu %s", g_proc->id, sysname[k], (unsigned long long)n, what);
    if (k != S_ALLOC && g_tasks.size() > 1) { g_sysn++; while (g_ssi < g_sysswitch.size() && g_sysswitch[g_ssi].first <= g_sysn) { g_force = true; g_force_to = g_sysswitch[g_ssi++].second; } }
    if (g_faults_off || g_proc->calm) { if (g_force) g_next = g_ticks; return nullptr; }
    if (g_force) g_next = g_ticks;
    for (auto &f : g_faults) if (f.call == k && (f.proc < 0 || f.proc == g_proc->id) && n >= f.n && n - f.n < f.rep) {
        f.fired++; g_fired++; g_proc->faults++;
        g_faultcount[std::string(sysname[k]) + "." + f.act]++;
        g_sig = (g_sig ^ (k * 131 + n * 7 + f.act[0])) * 0x100000001b3ull;
        event("FAULT p%d %s#%llu act=%s arg=%llu err=%d", g_proc->id, sysname[k], (unsigned long long)n, f.act.c_str(), (unsigned long long)f.arg, f.err);
        if (f.act == "crash" && f.arg == 0) task_crash("killed", true);
        return &f;
    }
    return nullptr;
}
static bool is_sim_path(const char *p) { return p && strncmp(p, "/sim/", 5) == 0; }
static OpenFile *of(int fd) { if (!g_proc) return nullptr; auto i = g_proc->fds.find(fd); return i == g_proc->fds.end() ? nullptr : i->second; }

static int vfs_open(const char *path, bool rd, bool wr, bool creat, bool trunc, bool append, bool excl) {
    Fault *f = fault_for(S_OPEN, path);
    if (f && f->act != "crash") { errno = f->err ? f->err : EACCES; return -1; }
    if (g_proc->fds.size() > 200) { errno = EMFILE; return -1; }
    auto i = g_files.find(path);
    if (i == g_files.end()) {
        if (!creat) { errno = ENOENT; return -1; }
        g_files[path] = vfile_new(); i = g_files.find(path);
    } else if (creat && excl) { errno = EEXIST; return -1; }
    OpenFile *o = new OpenFile; o->fd = g_next_fd++; o->file = i->second; o->path = path; o->rd = rd; o->wr = wr; o->append = append; o->proc = g_proc; o->gen = g_run_gen;
    if (trunc && wr) o->file->data.clear();
    g_proc->fds[o->fd] = o; g_proc->all.push_back(o);
    if (f && f->act == "crash") task_crash("killed", true);     // crash right after the open took effect
    schedule_now();
    return o->fd;
}
static ssize_t vfs_read(OpenFile *o, char *b, size_t n) {
    Fault *f = fault_for(S_READ, o->path.c_str());
    if (!o->rd) { errno = EBADF; return -1; }
    size_t lim = n;
    if (f) {
        if (f->act == "fail") { errno = f->err ? f->err : EIO; return -1; }
        if (f->act == "short") lim = n ? 1 + f->arg % n : 0;
        if (f->act == "eof") { o->file->data.resize(std::min<size_t>(o->file->data.size(), o->pos)); g_faultcount["read.eof-real"]++; }
        if (f->act == "flip" && !o->file->data.empty()) { U bit = f->arg % (o->file->data.size() * 8); o->file->data[bit / 8] ^= 1 << (bit % 8); }
    }
    U sz = o->file->data.size();
    if (o->pos >= sz) return 0;
    size_t m = std::min<size_t>(lim, sz - o->pos);
    memcpy(b, o->file->data.data() + o->pos, m); o->pos += m;
    if (f && f->act == "crash") task_crash("killed", true);
    schedule_now();
    return m;
}
static ssize_t vfs_write(OpenFile *o, const char *b, size_t n) {
    if (o->console) {
        if (o->console_which == 1 && g_proc && g_in_task && g_consfaults) if (Fault *f = fault_for(S_CONS, o->path.c_str())) {
            if (f->act == "short") n = n ? 1 + f->arg % n : 0;
            else if (f->act == "crash") { o->proc->out_text.append(b, std::min<size_t>(n, f->arg)); task_crash("killed", true); }
            else { errno = f->err ? f->err : ENOSPC; return -1; }
        }
        (o->console_which == 1 ? o->proc->out_text : o->proc->err_text).append(b, n); return n;
    }
    Fault *f = fault_for(S_WRITE, o->path.c_str());
    if (!o->wr) { errno = EBADF; return -1; }
    size_t m = n; bool fail = false; int err = 0;
    if (f) {
        if (f->act == "fail") { fail = true; err = f->err ? f->err : EIO; m = 0; }
        else if (f->act == "short") { m = n ? 1 + f->arg % n : 0; }
        else if (f->act == "crash") { m = f->arg > 1 ? (f->arg - 1) % (n + 1) : n; }
    }
    if (o->append) o->pos = o->file->data.size();
    if (g_cap != ~0ull && !fail) {
        U used = vfs_used(); U end = o->pos + m; U grow = end > o->file->data.size() ? end - o->file->data.size() : 0;
        U room = g_cap > used ? g_cap - used : 0;
        if (grow > room) {
            U can = m - (grow - room); g_fired++; g_proc->faults++; g_faultcount["write.enospc-cap"]++;
            event("FAULT p%d disk full: %llu of %zu fit", g_proc->id, (unsigned long long)can, m);
            if (can == 0) { errno = ENOSPC; return -1; }
            m = can;
        }
    }
    if (fail) { errno = err; return -1; }
    if (o->pos + m > o->file->data.size()) o->file->data.resize(o->pos + m);
    memcpy(o->file->data.data() + o->pos, b, m); o->pos += m; o->file->writes++; o->file->mtime = wall_coarse();
    mixlog(b, m);
    if (f && f->act == "crash") task_crash("killed", true);
    schedule_now();
    return m;
}
static int vfs_close(OpenFile *o) {
    if (o->closed) { errno = EBADF; return -1; }
    if (!o->console) {
        Fault *f = fault_for(S_CLOSE, o->path.c_str());
        o->closed = true; o->proc->fds.erase(o->fd);
        if (f && f->act == "crash") task_crash("killed", true);
        if (f) {
            if (o->wr && f->arg) { auto &d = o->file->data; if (d.size()) d.resize(d.size() - 1 - f->arg % d.size()); event("close error lost the tail: %zu bytes left", d.size()); }
            errno = f->err ? f->err : EIO; return -1;
        }
        schedule_now();
        return 0;
    }
    o->closed = true; o->proc->fds.erase(o->fd);
    return 0;
}
static int vfs_stat(std::shared_ptr<VFile> file, struct stat *st, const char *path, OpenFile *o = nullptr) {
    Fault *f = fault_for(S_STAT, path);
    if (f && f->act == "fail") { errno = f->err ? f->err : EIO; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_blksize = 4096; st->st_dev = 2; st->st_ino = 1;
    if (file) { st->st_ino = file->ino; st->st_mtim = st->st_ctim = st->st_atim = file->mtime; st->st_size = file->data.size(); st->st_blocks = (file->data.size() + 511) / 512; }
    else st->st_mode = S_IFCHR | 0620;
    if (f && file) {   // the file changes between this fstat and the reads that follow
        auto &d = file->data;
        if (f->act == "trunc") d.resize(d.empty() ? 0 : f->arg % d.size());
        else if (f->act == "grow") d.insert(d.end(), 1 + f->arg % 64, (uint8_t)(f->arg >> 8));
    }
    schedule_now();
    return 0;
}
static off_t vfs_seek(OpenFile *o, off_t off, int wh) {
    Fault *f = fault_for(S_SEEK, o->path.c_str());
    if (f && f->act == "fail") { errno = f->err ? f->err : EIO; return -1; }
    if (o->console) { errno = ESPIPE; return -1; }
    off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->pos : (off_t)o->file->data.size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    o->pos = base + off; return o->pos;
}

// ---------------------------------------------------------------- stdio cookies
static ssize_t ck_read(void *c, char *b, size_t n) { OpenFile *o = (OpenFile *)c; if (o->gen != g_run_gen || o->closed || o->proc->dead) return 0; return vfs_read(o, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {      // loops over short writes exactly as glibc's _IO_new_file_write does
    OpenFile *o = (OpenFile *)c; if (o->gen != g_run_gen || o->closed || o->proc->dead) return n;
    size_t done = 0;
    while (done < n) { ssize_t m = vfs_write(o, b + done, n - done); if (m < 0) return done; if (m == 0) return done; done += m; }
    return done;
}
static int ck_seek(void *c, off64_t *off, int wh) { OpenFile *o = (OpenFile *)c; if (o->gen != g_run_gen || o->closed || o->proc->dead) return -1; off_t r = vfs_seek(o, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void *c) { OpenFile *o = (OpenFile *)c; if (o->gen != g_run_gen || o->closed || o->proc->dead) return 0; o->fp = nullptr; return vfs_close(o); }
static FILE *mkfile(OpenFile *o, const char *mode, int bufmode) {
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *f = fopencookie(o, mode, io);
    setvbuf(f, nullptr, bufmode, g_bufsz);
    o->fp = f; return f;
}
static FILE *console(Proc *p, int which) {
    OpenFile *o = new OpenFile; o->fd = which; o->console = true; o->console_which = which; o->wr = true; o->proc = p; o->gen = g_run_gen; o->path = which == 1 ? "<stdout>" : "<stderr>";
    p->all.push_back(o);
    return mkfile(o, "w", which == 1 ? _IOFBF : _IONBF);
}

// ---------------------------------------------------------------- processes
Proc *proc_new() {
    Proc *p = new Proc; p->id = g_procs.size(); p->pid = 2 + g_envrng.below(32766); p->rnd = 1; g_procs.push_back(p);
    p->out = console(p, 1); p->err = console(p, 2);
    for (auto &k : g_killplan) if (k.second == (U)p->id) g_crash.push_back({ g_ticks + k.first, k.second });
    return p;
}
Proc *proc_calm(Proc *p) { p->calm = true; return p; }
Proc *proc_default() { return g_procs.at(0); }
int proc_id(Proc *p) { return p->id; }
const std::string &proc_stdout(Proc *p) { return p->out_text; }
const std::string &proc_stderr(Proc *p) { return p->err_text; }
void proc_stdout_clear(Proc *p) { p->out_text.clear(); }
std::string proc_flush_stdout(Proc *p) { Proc *sv = g_proc; g_proc = nullptr; fflush(p->out); g_proc = sv; return p->out_text; }
size_t proc_open_fds(Proc *p) { return p->fds.size(); }
bool proc_faulted(Proc *p) { return p->faults != 0; }
U proc_fault_count(Proc *p) { return p->faults; }
bool proc_alloc_faulted(Proc *p) { return p->alloc_fault; }
U fault_proc_open(Proc *p) { return p->count[S_OPEN]; }
void proc_end(Proc *p) { p->dead = true; for (auto &e : p->fds) e.second->closed = true; p->fds.clear(); }
static void proc_exit_flush(Proc *p) {      // what exit() does to open streams
    std::vector<OpenFile *> v = p->all;
    for (auto o : v) if (o->fp && !o->closed && !o->console) { FILE *f = o->fp; fclose(f); }
    if (p->out) fflush(p->out);
}

// ---------------------------------------------------------------- fibers
static int stack_get() {
    for (size_t i = 0; i < stacks.size(); i++) if (!stacks[i].used) { stacks[i].used = true; return i; }
    uint8_t *m = (uint8_t *)mmap(nullptr, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(m, 8192, PROT_NONE);
    stacks.push_back({ m + 8192, true, false });
    return stacks.size() - 1;
}
static void stack_put(int i, bool abandoned) { stacks[i].used = false; if (abandoned) stacks[i].dirty = true; }

static void to_main() {           // leaves the current task for good or until resumed
    Task *t = g_cur; bool dead = t->o.st != T_READY || g_viol;
    g_in_task = false;
    __sanitizer_start_switch_fiber(dead ? nullptr : &t->fake, g_main_bottom, g_main_size);
    swapcontext(&t->ctx, &g_main);
    __sanitizer_finish_switch_fiber(t->fake, nullptr, nullptr);
    g_in_task = true;
}
static void tramp() {
    __sanitizer_finish_switch_fiber(nullptr, &g_main_bottom, &g_main_size);
    g_in_task = true;
    Task *t = g_cur;
    try { t->fn(); t->o.st = T_DONE; }
    catch (Stop &) { }
    catch (std::exception &e) { t->o.st = T_CRASHED; t->o.why = std::string("uncaught exception ") + e.what(); t->o.injected = t->proc->alloc_fault; }
    catch (...) { t->o.st = T_CRASHED; t->o.why = "uncaught exception"; t->o.injected = t->proc->alloc_fault; }
    t->unwound = true;
    to_main();
    abort();
}
static void task_crash(const char *why, bool injected) {
    Task *t = g_cur; if (!t || !g_in_task) return;
    t->o.st = T_CRASHED; t->o.why = why; t->o.injected = injected; proc_end(t->proc);
    event("CRASH p%d %s", t->proc->id, why);
    to_main(); abort();
}
static void resume(Task *t) {
    g_cur = t; g_proc = t->proc; image_load(t->proc); tls_load(t->tls);
    uint8_t *base = stacks[t->stack].base;
    if (!t->started) {
        t->started = true;
        if (stacks[t->stack].dirty) { __asan_unpoison_memory_region(base, STACK); stacks[t->stack].dirty = false; }
        memset(base + STACK - 32768, 0x5C, 32768);
        getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = base; t->ctx.uc_stack.ss_size = STACK; t->ctx.uc_link = nullptr;
        makecontext(&t->ctx, tramp, 0);
    }
    hot_apply(true);
    int me = errno; errno = t->err;
    __sanitizer_start_switch_fiber(&g_main_fake, base, STACK);
    swapcontext(&g_main, &t->ctx);
    t->err = errno; errno = me;
    hot_apply(false);
    __sanitizer_finish_switch_fiber(g_main_fake, nullptr, nullptr);
    g_in_task = false; g_proc = nullptr;
}
static bool g_want_switch; static U g_switch_to;
static void set_next() {
    g_next = g_budget; if (g_force) g_next = g_ticks;
    if (g_tasks.size() > 1 && g_swi < g_switch.size() && g_switch[g_swi].first < g_next) g_next = g_switch[g_swi].first;
    for (auto &c : g_crash) if (c.first < g_next) g_next = c.first;
}
static void slow_tick(U pc) {
    if (g_ticks >= g_budget) { event("HANG"); violation("hang", "a call did not finish within its step budget (%llu steps)", (unsigned long long)g_budget); }
    for (size_t i = 0; i < g_crash.size(); i++) if (g_crash[i].first <= g_ticks) {
        U pid = g_crash[i].second; 
        if (g_proc && (U)g_proc->id == pid && !g_proc->calm) { g_crash.erase(g_crash.begin() + i); g_fired++; g_proc->faults++; g_faultcount["kill.step"]++; set_next(); task_crash("killed", true); }
        else { g_crash[i].first = g_ticks + 50; }
    }
    if (g_hot_reprotect) { g_hot_reprotect = false; for (auto q : g_hotopen) { q->open = false; mprotect(q->p, 4096, PROT_NONE); } g_hotopen.clear(); }
    if (g_force) {          // a switch asked for by an access to shared static data or by a system call
        g_force = false;
        if (g_tasks.size() > 1) { g_switch_to = g_force_to; g_want_switch = true; g_nsw++; g_sig = (g_sig ^ pc) * 0x100000001b3ull; set_next(); to_main(); return; }
    }
    if (g_tasks.size() > 1 && g_swi < g_switch.size() && g_switch[g_swi].first <= g_ticks) {
        g_switch_to = g_switch[g_swi].second; g_swi++;
        while (g_swi < g_switch.size() && g_switch[g_swi].first <= g_ticks) g_swi++;
        g_want_switch = true; g_nsw++;
        g_sig = (g_sig ^ pc) * 0x100000001b3ull;
        set_next(); to_main(); return;
    }
    set_next();
}
void yield_point() { g_ticks += 10; if (g_in_task && g_ticks >= g_next) slow_tick(1); }
int current_task() { return g_cur && g_in_task ? g_cur->id : -1; }
// blocks the code under test asked for and has not given back
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static bool g_track, g_trackbusy; static std::map<const void *, size_t> g_liveblk; static U g_livebytes;
static void live_add(const void *p, size_t n) { if (!g_track || g_trackbusy || !p) return; g_trackbusy = true; if (g_liveblk.insert({ p, n }).second) g_livebytes += n; g_trackbusy = false; }
static void live_del(const void *p) { if (!g_track || g_trackbusy || !p) return; g_trackbusy = true; auto i = g_liveblk.find(p); if (i != g_liveblk.end()) { g_livebytes -= i->second; g_liveblk.erase(i); } g_trackbusy = false; }
void leak_track(bool on) {
    static bool hooked = false; if (on && !hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks([](const volatile void *, size_t) {}, [](const volatile void *p) { if (g_track) live_del((const void *)p); }); }
    g_track = false; g_liveblk.clear(); g_livebytes = 0; g_track = on;
}
U leak_blocks() { return g_liveblk.size(); }
U leak_bytes() { return g_livebytes; }
static U g_mix, g_reuse, g_nalloc; static std::map<size_t, std::vector<void *>> g_cache;
static U g_limit = 40000000;
void set_budget(U n) { g_limit = n; }

std::vector<Outcome> run_tasks(std::vector<TaskSpec> specs) {
    if (g_in_task) { fprintf(real_stderr, "sim: nested run_tasks\n"); _exit(3); }
    g_tasks.clear();
    for (size_t i = 0; i < specs.size(); i++) {
        Task *t = new Task; t->id = i; t->fn = specs[i].fn; t->proc = specs[i].proc ? specs[i].proc : proc_default();
        t->o.st = T_READY; t->stack = stack_get(); bool first = true; for (auto q : g_tasks) if (q->proc == t->proc) first = false;
        t->tls = first ? &t->proc->tls : &t->own_tls; g_tasks.push_back(t);     // the first task of a process is its main thread
    }
    g_switch.clear(); g_swi = 0; g_sysswitch.clear(); g_ssi = 0; g_sysn = 0; g_force = false;
    if (specs.size() > 1) { for (auto &w : g_swplan) if (w.grp == g_group) { if (w.sys) g_sysswitch.push_back({ w.at, w.to }); else g_switch.push_back({ g_ticks + w.at, w.to }); } g_group++; }
    g_budget = g_ticks + g_limit; set_next();
    size_t cur = 0; std::vector<Outcome> res;
    for (;;) {
        std::vector<Task *> ready; for (auto t : g_tasks) if (t->o.st == T_READY) ready.push_back(t);
        if (ready.empty()) break;
        Task *t = nullptr;
        if (g_want_switch) { g_want_switch = false; std::vector<Task *> other; for (auto r : ready) if (r->id != (int)cur) other.push_back(r); t = other.empty() ? ready[0] : other[g_switch_to % other.size()]; }
        else { for (auto r : ready) if (r->id >= (int)cur) { t = r; break; } if (!t) t = ready[0]; }
        if (t->id != (int)cur) { event("switch t%zu->t%d", cur, t->id); cur = t->id; }
        resume(t);
        if (t->o.st == T_CRASHED && t->proc->dead) for (auto q : g_tasks) if (q != t && q->proc == t->proc && q->o.st == T_READY) { q->o.st = T_CRASHED; q->o.why = "process died"; q->o.injected = t->o.injected; }
        if (g_viol) { for (auto q : g_tasks) stack_put(q->stack, !q->unwound && q->started); g_cur = nullptr; throw Stop(); }
    }
    for (auto t : g_tasks) { stack_put(t->stack, !t->unwound); res.push_back(t->o); }
    for (auto t : g_tasks) { if (g_tls_at == &t->own_tls) g_tls_at = nullptr; delete t; }
    g_tasks.clear(); g_cur = nullptr; g_proc = nullptr;
    return res;
}
Outcome call(std::function<void()> fn, Proc *p) { std::vector<TaskSpec> v; v.push_back({ fn, p }); return run_tasks(v)[0]; }

// ---------------------------------------------------------------- plan arming, generation
// allocator behaviour of one run: contents of fresh memory, size of stdio buffers, whether freed addresses come back at once
void gen_mem(Rng &r, Plan &p) {
    Line &l = p.add("mem").set("fill", r.chance(1, 3) ? 0xA5 : r.below(256)).set("bufsz", r.chance(1, 2) ? 4096 : r.chance(1, 3) ? 1 + r.below(64) : 1 + r.pow2ish(8192));
    U m = r.below(4); if (m & 1) l.set("mix", 1 + r.below(1 << 20)); if (m & 2) l.set("reuse", 1);
}
void arm(const Plan &p) {
    for (auto &l : p.lines) {
        if (l.verb == "sw") g_swplan.push_back({ l.num("grp"), l.num("at"), l.num("to"), l.num("sys") != 0 });
        else if (l.verb == "kill") { if (l.num("proc") < g_procs.size()) g_crash.push_back({ g_ticks + l.num("at"), l.num("proc") }); else g_killplan.push_back({ l.num("at"), l.num("proc") }); }
        else if (l.verb == "cap") g_cap = l.num("bytes");
        else if (l.verb == "mem") { g_fill = l.num("fill", 0xA5); g_bufsz = l.num("bufsz", 4096); if (g_bufsz < 1) g_bufsz = 1; g_mix = l.num("mix"); g_reuse = l.num("reuse"); }
        else if (l.verb == "fault") {
            std::string c = l.str("call"); int k = -1; for (int i = 0; i < S_MAX; i++) if (c == sysname[i]) k = i;
            if (k < 0) continue;
            int pr = l.kv.count("proc") ? (int)l.num("proc") : -1;
            if (k == S_CONS) g_consfaults = true;
            g_faults.push_back({ pr, k, l.num("n"), l.num("rep", 1), l.str("act", "fail"), l.num("arg"), (int)l.num("err"), 0 });
        }
    }
    std::stable_sort(g_swplan.begin(), g_swplan.end(), [](const SwPlan &a, const SwPlan &b) { return a.at < b.at; });
}
void gen_fault(Rng &r, Plan &p, int proc, U mask) {
    static const int errs_w[] = { EIO, ENOSPC, EDQUOT, EFBIG, EINTR, EAGAIN };
    std::vector<U> fam; for (U b = 1; b <= F_CONS; b <<= 1) if (mask & b) fam.push_back(b);
    if (fam.empty()) return;
    U f = fam[r.below(fam.size())];
    U n = r.chance(2, 3) ? r.below(2) : r.below(8);
    if (f == F_CAP) { p.add("cap").set("bytes", r.chance(1, 2) ? r.below(600) : r.below(20000)); return; }
    Line l; l.verb = "fault"; if (proc >= 0) l.set("proc", proc);
    l.set("n", n);
    switch (f) {
    case F_OPEN: l.set("call", "open").set("act", "fail").set("err", r.chance(1, 2) ? EACCES : r.chance(1, 2) ? ENOENT : EMFILE); break;
    case F_READ: l.set("call", "read").set("act", "fail").set("err", r.chance(2, 3) ? EIO : EINTR).set("rep", r.chance(1, 2) ? 1 : 50); break;
    case F_WRITE: l.set("call", "write").set("act", "fail").set("err", (U)errs_w[r.below(6)]).set("rep", r.chance(1, 2) ? 1 : 50); break;
    case F_CLOSE: l.set("call", "close").set("act", "fail").set("err", (U)errs_w[r.below(3)]).set("arg", r.chance(1, 2) ? 0 : r.below(5000)); break;
    case F_STAT: l.set("call", "fstat").set("act", "fail").set("err", EIO); break;
    case F_ALLOC: l.set("call", "alloc").set("act", "fail").set("n", r.chance(1, 3) ? r.below(12) : r.below(400)).set("rep", r.chance(2, 3) ? 1 : 1000); break;
    case F_CRASH: { U k = r.below(4); l.set("call", k == 0 ? "open" : k == 3 ? "close" : "write").set("act", "crash").set("arg", r.chance(1, 4) ? 0 : 1 + r.below(9000)); break; }
    case F_CORRUPT: { U k = r.below(4); if (k == 0) l.set("call", "read").set("act", "flip").set("arg", r.next() >> 8); else if (k == 1) l.set("call", "fstat").set("act", "trunc").set("arg", r.next() >> 8); else if (k == 2) l.set("call", "fstat").set("act", "grow").set("arg", r.next() >> 8); else l.set("call", "read").set("act", "eof"); break; }
    case F_META: {
        static const char *const calls[] = { "rename", "rename", "rename", "unlink", "sync", "trunc", "seek" }; static const int errs_m[] = { EIO, ENOSPC, EACCES, EXDEV, EPERM, EROFS };
        l.set("call", calls[r.below(7)]); l.set("n", r.below(2));
        if (r.chance(1, 3)) l.set("act", "crash").set("arg", r.below(2)); else l.set("act", "fail").set("err", (U)errs_m[r.below(6)]).set("rep", r.chance(1, 2) ? 1 : 50);
        break; }
    case F_CONS: { static const int errs_c[] = { ENOSPC, EIO, EPIPE, EINTR }; U k = r.below(6); l.set("call", "stdout"); if (k == 0) l.set("act", "short").set("arg", r.pow2ish(4096)).set("rep", 1 + r.below(20)); else if (k == 1) l.set("act", "crash").set("arg", r.below(3000)); else l.set("act", "fail").set("err", (U)errs_c[r.below(4)]).set("rep", r.chance(1, 2) ? 1 : 50); break; }
    case F_SHORT: l.set("call", r.chance(1, 2) ? "read" : "write").set("act", "short").set("arg", r.pow2ish(4096)).set("rep", 1 + r.below(20)); break;
    }
    p.lines.push_back(l);
}
void gen_switches(Rng &r, Plan &p, U count, U span, U grp) {
    // a mix of uniform points and tight bursts (many switches close together), as races need
    U at = 0, sat = 0, sysn = r.below(4) ? 0 : 1 + r.below(20);
    for (U i = 0; i < sysn; i++) { sat += 1 + r.below(4); p.add("sw").set("grp", grp).set("at", sat).set("to", r.below(4)).set("sys", 1); }      // right after a system call
    for (U i = 0; i < count; i++) {
        U gap = r.chance(1, 3) ? 1 + r.below(12) : 1 + r.below(2 * span / (count + 1) + 1);
        at += gap; p.add("sw").set("grp", grp).set("at", at).set("to", r.below(4));
    }
}

// ---------------------------------------------------------------- run control
static void cache_drop() { for (auto &e : g_cache) for (void *p : e.second) { __asan_unpoison_memory_region(p, e.first ? e.first : 1); free(p); } g_cache.clear(); }
static void reset_world(U seed) {
    hot_watch(0, 0, 0); g_force = false;
    g_run_gen++;
    for (auto p : g_procs) { p->dead = true; delete p; }
    g_procs.clear(); g_loaded = nullptr; g_proc = nullptr;
    g_files.clear(); g_cap = ~0ull; g_next_fd = FD0;
    g_faults.clear(); g_consfaults = false; g_switch.clear(); g_swi = 0; g_crash.clear(); g_killplan.clear(); g_swplan.clear(); g_group = 0;
    g_hash = 0xcbf29ce484222325ull; g_sig = 14695981039346656037ull; g_ticks = 0; g_viol = false; g_vcls.clear(); g_vmsg.clear();
    g_faults_off = false; leak_track(false); g_mix = g_reuse = g_nalloc = 0; cache_drop(); g_ops = g_fired = g_nsw = 0; g_want_switch = false; g_fill = 0xA5; g_bufsz = 4096; g_limit = 40000000; g_prevpc = 0;
    g_seed = seed; env_reset(seed); g_mono = 0;
    g_tls_at = nullptr; Proc *p = proc_new(); image_load(p);
}
struct Result { bool viol; std::string cls, msg; U hash, obs, ticks, ops, fired, nsw, sig; };
static Result run_plan(const Plan &p) {
    const Scenario *s = nullptr; for (auto &x : scenarios()) if (p.check == x.id) s = &x;
    if (!s) { fprintf(real_stderr, "sim: no scenario %s\n", p.check.c_str()); _exit(3); }
    reset_world(p.seed);
    arm(p);
    try { s->run(p); } catch (Stop &) { }
    stdout = real_stdout; stderr = real_stderr;
    g_cur = nullptr; g_in_task = false; g_proc = nullptr;
    U obs = g_hash;                                   // what happened; how many steps it took can depend on addresses
    mixlog(g_ticks);
    return { g_viol, g_vcls, g_vmsg, g_hash, obs, g_ticks, g_ops, g_fired, g_nsw, g_sig };
}
static Plan gen_plan(const std::string &id, U seed, bool thorough) {
    Plan p; p.check = id; p.seed = seed;
    for (auto &x : scenarios()) if (id == x.id) { U h = 1469598103934665603ull; for (char c : id) h = (h ^ (uint8_t)c) * 1099511628211ull; Rng r(seed ^ (h << 1)); x.gen(r, p, thorough); }
    return p;
}

static void on_segv(int sig, siginfo_t *si, void *) {
    U addr = (U)si->si_addr;
    if (sig == SIGSEGV && hot_fault(addr)) return;
    if (g_in_task && g_cur && sig == SIGSEGV && g_cur->proc->alloc_fault && addr < (64u << 20)) {
        g_probes["fail-stop after injected allocation failure"]++;
        g_cur->o.st = T_CRASHED; g_cur->o.why = "null dereference after injected allocation failure"; g_cur->o.injected = true; proc_end(g_cur->proc);
        g_in_task = false;
        sigset_t m; sigemptyset(&m); sigaddset(&m, SIGSEGV); sigprocmask(SIG_UNBLOCK, &m, nullptr);
        __sanitizer_start_switch_fiber(nullptr, g_main_bottom, g_main_size);
        setcontext(&g_main);
    }
    char b[160]; int n = snprintf(b, sizeof b, "\nSIM-CRASH signal=%d addr-class=%s stack=%d\n", sig, addr < 65536 ? "null" : "wild",
        g_cur && addr >= (U)stacks[g_cur->stack].base - 8192 && addr < (U)stacks[g_cur->stack].base + 65536);
    ssize_t r = ::write(2, b, n); (void)r;
    __sanitizer_print_stack_trace();
    _exit(78);
}
}  // namespace sim

using namespace sim;

// ---------------------------------------------------------------- hooks called from instrumented code
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
    if (!g_in_task) return;
    U pc = (U)__builtin_return_address(0);
    g_ticks++;
    U e = ((pc >> 1) ^ (g_prevpc >> 2) * 3) & 0xffff; g_prevpc = pc;
    if (!g_cov[e]) { g_cov[e] = 1; g_covn++; }
    if (__builtin_expect(g_ticks >= g_next, 0)) slow_tick(pc & 0xffff);
}
// allocator seam
static void mem_fill(void *p, size_t n) {       // fresh memory: one byte for the whole run, or different for every allocation
    int b = g_fill; if (g_mix) { U x = (++g_nalloc + g_mix) * 0x9E3779B97F4A7C15ull; b = x >> 56; }
    memset(p, b, n);
}
static void *mem_get(size_t n) {
    void *p = nullptr;
    if (g_reuse) { auto i = g_cache.find(n); if (i != g_cache.end() && !i->second.empty()) { p = i->second.back(); i->second.pop_back(); __asan_unpoison_memory_region(p, n ? n : 1); } }
    if (!p) p = malloc(n);
    if (p) { mem_fill(p, n); if (g_in_task) live_add(p, n); }
    return p;
}
static void mem_put(void *p) {
    if (g_track) live_del(p);
    if (!p || !g_reuse || !g_in_task) { free(p); return; }
    size_t n = __sanitizer_get_allocated_size(p);
    if (n == 0 || n > (1 << 20) || __asan_address_is_poisoned(p)) { if (n && __asan_address_is_poisoned(p)) { fprintf(real_stderr, "sim: freed twice\n"); abort(); } free(p); return; }
    memset(p, 0xDD, n); __asan_poison_memory_region(p, n); g_cache[n].push_back(p);
}
static bool alloc_fails() {
    if (!g_in_task) return false;
    bool armed = false; for (auto &f : g_faults) if (f.call == S_ALLOC) armed = true;
    if (!armed) { g_proc->count[S_ALLOC]++; return false; }
    Fault *f = fault_for(S_ALLOC, "");
    if (f) { g_proc->alloc_fault = true; return true; }
    return false;
}
extern "C" {
void *sut_malloc(size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } return mem_get(n); }
void *sut_calloc(size_t a, size_t b) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } void *p = mem_get(a * b); if (p) memset(p, 0, a * b); return p; }
void *sut_realloc(void *p, size_t n) {
    if (alloc_fails()) { errno = ENOMEM; return nullptr; }
    if (!p) return mem_get(n);
    size_t old = __sanitizer_get_allocated_size(p);
    if (!g_reuse) { void *q = realloc(p, n); if (q && g_track) { live_del(p); live_add(q, n); } if (q && n > old) mem_fill((char *)q + old, n - old); return q; }
    void *q = mem_get(n); if (!q) return q;
    memcpy(q, p, old < n ? old : n); mem_put(p); return q;
}
void sut_free(void *p) { mem_put(p); }
char *sut_strdup(const char *s) { char *p = (char *)sut_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
void *sut_new(size_t n) { if (alloc_fails()) throw std::bad_alloc(); void *p = mem_get(n); if (!p) throw std::bad_alloc(); return p; }
void sut_delete(void *p) { mem_put(p); }
void sut_delete_sz(void *p, size_t) { mem_put(p); }
void *sut_newa(size_t n) { return sut_new(n); }
void sut_deletea(void *p) { mem_put(p); }
void sut_deletea_sz(void *p, size_t) { mem_put(p); }
__attribute__((noreturn)) void sut_exit(int code) {
    if (!g_in_task) _exit(code);
    event("exit p%d code=%d", g_proc->id, code);
    proc_exit_flush(g_proc);
    g_cur->o.st = T_EXITED; g_cur->o.code = code & 255; to_main(); abort();
}
__attribute__((noreturn)) void sut__exit(int code) {
    if (!g_in_task) _exit(code);
    event("_exit p%d code=%d", g_proc->id, code);
    g_cur->o.st = T_EXITED; g_cur->o.code = code & 255; to_main(); abort();
}
__attribute__((noreturn)) void sut__Exit(int code) { sut__exit(code); }
__attribute__((noreturn)) void sut_abort(void) { if (g_in_task) task_crash("abort", g_proc->alloc_fault); abort(); }
__attribute__((noreturn)) void sut_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; if (g_in_task) { std::string w = std::string("assert ") + e; task_crash(w.c_str(), g_proc->alloc_fault); } abort(); }
static void wait_turn();
int sut_guard_acquire(char *g) { while (true) { if (g[0]) return 0; if (!g[1]) { g[1] = 1; return 1; } if (g_in_task && g_tasks.size() < 2) sut_abort(); wait_turn(); } }
void sut_guard_release(char *g) { g[0] = 1; g[1] = 0; }
void sut_guard_abort(char *g) { g[1] = 0; }
// ---- mutual exclusion: waiting gives the other tasks their turn; with nobody to wait for it is a deadlock
static void wait_turn() { if (!g_in_task) return; if (g_tasks.size() < 2) violation("hang", "a lock is waited for that nobody can release"); g_ticks += 50; if (g_ticks >= g_budget) violation("hang", "a lock is never released"); g_want_switch = true; g_switch_to = (g_envrng.next() >> 7) & 3; to_main(); }
int sut_mutex_lock(pthread_mutex_t *m) { int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) wait_turn(); if (g_in_task) schedule_now(); return r; }
int sut_rdlock(pthread_rwlock_t *m) { int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) wait_turn(); return r; }
int sut_wrlock(pthread_rwlock_t *m) { int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) wait_turn(); return r; }
int sut_once(pthread_once_t *o, void (*fn)()) { int *s = (int *)o; while (*s != 2) { if (*s == 0) { *s = 1; fn(); *s = 2; return 0; } wait_turn(); } return 0; }
pthread_t sut_pthread_self() { return g_in_task ? 1 + (pthread_t)g_cur->id : pthread_self(); }
// ---- clocks, identity, randomness
time_t sut_time(time_t *t) { if (!g_in_task) return time(t); time_t v = wall_read() / 1000000000; if (t) *t = v; return v; }
int sut_clock_gettime(clockid_t c, struct timespec *t) { if (!g_in_task) return clock_gettime(c, t); int64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? wall_read() : mono_read(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
int sut_timespec_get(struct timespec *t, int base) { sut_clock_gettime(CLOCK_REALTIME, t); return base; }
int sut_gettimeofday(struct timeval *t, void *) { int64_t v = g_in_task ? wall_read() : (int64_t)time(nullptr) * 1000000000; if (t) { t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; } return 0; }
clock_t sut_clock() { return g_in_task ? mono_read() / 1000 : clock(); }
int64_t sut_system_now() { return g_in_task ? wall_read() : (int64_t)time(nullptr) * 1000000000; }
int64_t sut_steady_now() { return g_in_task ? mono_read() : (int64_t)time(nullptr) * 1000000000; }
pid_t sut_getpid() { if (!g_in_task) return getpid(); g_envreads++; return g_proc->pid; }
pid_t sut_getppid() { return g_in_task ? 1 : getppid(); }
pid_t sut_gettid() { return g_in_task ? g_proc->pid + g_cur->id : getpid(); }
unsigned sut_rdev(void *) { return (unsigned)env_random(); }
static U lib_rand() { U &x = g_in_task ? g_proc->rnd : g_seed; x = x * 6364136223846793005ull + 1442695040888963407ull; return x >> 33; }      // rand() starts the same in every process, as the C library's does
int sut_rand() { return lib_rand() & 0x7fffffff; }
void sut_srand(unsigned s) { if (g_in_task) g_proc->rnd = s; }
int sut_rand_r(unsigned *s) { *s = *s * 1103515245u + 12345; return *s >> 1; }
long sut_random() { return lib_rand() & 0x7fffffff; }
void sut_srandom(unsigned s) { sut_srand(s); }
double sut_drand48() { return (double)lib_rand() / 2147483648.0; }
ssize_t sut_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)env_random(); return n; }
int sut_getentropy(void *b, size_t n) { sut_getrandom(b, n, 0); return 0; }
uint32_t sut_arc4random() { return (uint32_t)env_random(); }
char *sut_getenv(const char *n) { if (!g_in_task) return getenv(n); g_envreads++; return nullptr; }
int sut_gethostname(char *b, size_t n) { snprintf(b, n, "host%u", (unsigned)(env_random() % 10000)); return 0; }
uid_t sut_getuid() { return 1000; }
uid_t sut_geteuid() { return 1000; }
char *sut_secure_getenv(const char *n) { return sut_getenv(n); }
unsigned sut_sleep(unsigned n) { if (g_in_task) { g_mono += (int64_t)n * 1000000000; g_walljump += (int64_t)n * 1000000000; schedule_now(); } return 0; }
int sut_usleep(useconds_t n) { if (g_in_task) { g_mono += (int64_t)n * 1000; g_walljump += (int64_t)n * 1000; schedule_now(); } return 0; }
int sut_nanosleep(const struct timespec *t, struct timespec *) { if (g_in_task) { int64_t n = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; g_mono += n; g_walljump += n; schedule_now(); } return 0; }
int sut_sched_yield() { if (g_in_task && g_tasks.size() > 1) wait_turn(); return 0; }

// ---- system call and stdio seam: defined in the executable, so every shared object resolves here first.
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
static FILE *(*r_fopen)(const char *, const char *); static FILE *(*r_fdopen)(int, const char *); static int (*r_fileno)(FILE *);
static void init_real() { if (!r_fopen) { r_fopen = (decltype(r_fopen))dlsym(RTLD_NEXT, "fopen"); r_fdopen = (decltype(r_fdopen))dlsym(RTLD_NEXT, "fdopen"); r_fileno = (decltype(r_fileno))dlsym(RTLD_NEXT, "fileno"); } }
static bool isfake(int fd) { return fd >= FD0; }
static bool is_random(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static void fill_random(const char *p) { auto f = vfile_new(); f->data.resize(65536); for (auto &b : f->data) b = (uint8_t)env_random(); g_files[std::string("/sim/") + p] = f; }
static FILE *sim_fopen(const char *path, const char *mode) {
    bool rd = false, wr = false, cr = false, tr = false, ap = false, ex = false;
    switch (mode[0]) { case 'r': rd = true; break; case 'w': wr = cr = tr = true; break; case 'a': wr = cr = ap = true; break; default: errno = EINVAL; return nullptr; }
    for (const char *m = mode + 1; *m; m++) { if (*m == '+') rd = wr = true; if (*m == 'x') ex = true; }
    int fd = vfs_open(path, rd, wr, cr, tr, ap, ex); if (fd < 0) return nullptr;
    return mkfile(of(fd), mode, _IOFBF);
}
FILE *fopen(const char *p, const char *m) { if (g_in_task && is_random(p)) { fill_random(p); return sim_fopen((std::string("/sim/") + p).c_str(), m); } if (g_in_task && is_sim_path(p)) return sim_fopen(p, m); init_real(); return r_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m) noexcept { if (g_in_task && isfake(fd)) { OpenFile *o = of(fd); if (!o) { errno = EBADF; return nullptr; } return mkfile(o, m, _IOFBF); } init_real(); return r_fdopen(fd, m); }
static int my_fileno(FILE *f) {
    for (auto p : g_procs) for (auto o : p->all) if (o->fp == f && !o->closed) return o->fd;
    init_real(); return r_fileno(f);
}
int fileno(FILE *f) noexcept { return my_fileno(f); }
int fileno_unlocked(FILE *f) noexcept { return my_fileno(f); }
static int sim_open(const char *p, int fl) {
    int a = fl & O_ACCMODE; bool rd = a == O_RDONLY || a == O_RDWR, wr = a == O_WRONLY || a == O_RDWR;
    return vfs_open(p, rd, wr, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
}
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (g_in_task && is_random(p)) { fill_random(p); return sim_open((std::string("/sim/") + p).c_str(), fl); } if (g_in_task && is_sim_path(p)) return sim_open(p, fl); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (g_in_task && is_random(p)) { fill_random(p); return sim_open((std::string("/sim/") + p).c_str(), fl); } if (g_in_task && is_sim_path(p)) return sim_open(p, fl); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (g_in_task && is_random(p)) { fill_random(p); return sim_open((std::string("/sim/") + p).c_str(), fl); } if (g_in_task && is_sim_path(p)) return sim_open(p, fl); return syscall(SYS_openat, d, p, fl, m); }
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) { if (g_in_task && isfake(fd)) { OpenFile *o = of(fd); if (!o) { errno = EBADF; return -1; } return vfs_read(o, (char *)b, n); } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    if (g_in_task && isfake(fd)) { OpenFile *o = of(fd); if (!o) { errno = EBADF; return -1; } return vfs_write(o, (const char *)b, n); }
    if (g_in_task && g_proc && (fd == 1 || fd == 2)) { if (!g_viol) return vfs_write(g_proc->all[fd - 1], (const char *)b, n); (fd == 1 ? g_proc->out_text : g_proc->err_text).append((const char *)b, n); }
    return syscall(SYS_write, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) { if (g_in_task && isfake(fd)) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t m = read(fd, v[i].iov_base, v[i].iov_len); if (m < 0) return t ? t : m; t += m; if ((size_t)m < v[i].iov_len) break; } return t; } return syscall(SYS_readv, fd, v, c); }
ssize_t writev(int fd, const struct iovec *v, int c) { if (g_in_task && isfake(fd)) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t m = write(fd, v[i].iov_base, v[i].iov_len); if (m < 0) return t ? t : m; t += m; if ((size_t)m < v[i].iov_len) break; } return t; } return syscall(SYS_writev, fd, v, c); }
ssize_t pread(int fd, void *b, size_t n, off_t off) { if (g_in_task && isfake(fd)) { OpenFile *o = of(fd); if (!o) { errno = EBADF; return -1; } U sv = o->pos; o->pos = off; ssize_t r = vfs_read(o, (char *)b, n); o->pos = sv; return r; } return syscall(SYS_pread64, fd, b, n, off); }
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return pread(fd, b, n, off); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { if (g_in_task && isfake(fd)) { OpenFile *o = of(fd); if (!o) { errno = EBADF; return -1; } U sv = o->pos; o->pos = off; ssize_t r = vfs_write(o, (const char *)b, n); o->pos = sv; return r; } return syscall(SYS_pwrite64, fd, b, n, off); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return pwrite(fd, b, n, off); }
off_t lseek(int fd, off_t o, int w) noexcept { if (g_in_task && isfake(fd)) { OpenFile *f = of(fd); if (!f) { errno = EBADF; return -1; } return vfs_seek(f, o, w); } return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) { if (g_in_task && isfake(fd)) { OpenFile *o = of(fd); if (!o) { errno = EBADF; return -1; } return vfs_close(o); } return syscall(SYS_close, fd); }
int fstat(int fd, struct stat *st) noexcept { if (g_in_task && isfake(fd)) { OpenFile *o = of(fd); if (!o) { errno = EBADF; return -1; } return vfs_stat(o->file, st, o->path.c_str()); } return syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) noexcept { if (g_in_task && is_sim_path(p)) { auto i = g_files.find(p); if (i == g_files.end()) { errno = ENOENT; return -1; } return vfs_stat(i->second, st, p); } return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) noexcept { if (g_in_task && is_sim_path(p)) return stat(p, st); return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) noexcept { return lstat(p, (struct stat *)st); }
int fstatat(int d, const char *p, struct stat *st, int fl) noexcept { if (g_in_task && is_sim_path(p)) return stat(p, st); if (g_in_task && isfake(d)) return fstat(d, st); return syscall(SYS_newfstatat, d, p, st, fl); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) noexcept { return fstatat(d, p, (struct stat *)st, fl); }
int access(const char *p, int m) noexcept { if (g_in_task && is_sim_path(p)) { if (g_files.count(p)) return 0; errno = ENOENT; return -1; } return syscall(SYS_access, p, m); }
// metadata calls: each can fail with any errno, or the process can die just before (arg=0) or just after (arg=1) the effect
static int meta(SysKind k, const char *what, std::function<int()> effect) {
    Fault *f = fault_for(k, what);
    if (f && f->act != "crash") { errno = f->err ? f->err : EIO; return -1; }
    int r = effect();
    if (f) task_crash("killed", true);
    schedule_now();
    return r;
}
int unlink(const char *p) noexcept { if (g_in_task && is_sim_path(p)) return meta(S_UNLINK, p, [&] { if (!g_files.erase(p)) { errno = ENOENT; return -1; } return 0; }); return syscall(SYS_unlink, p); }
int unlinkat(int d, const char *p, int fl) noexcept { if (g_in_task && is_sim_path(p)) return unlink(p); return syscall(SYS_unlinkat, d, p, fl); }
int remove(const char *p) noexcept { return unlink(p); }
int rename(const char *a, const char *b) noexcept { if (g_in_task && is_sim_path(a)) return meta(S_RENAME, a, [&] { auto i = g_files.find(a); if (i == g_files.end()) { errno = ENOENT; return -1; } auto fl = i->second; g_files.erase(i); g_files[b] = fl; return 0; }); return syscall(SYS_rename, a, b); }
int renameat(int da, const char *a, int db, const char *b) noexcept { if (g_in_task && is_sim_path(a)) return rename(a, b); return syscall(SYS_renameat, da, a, db, b); }
int renameat2(int da, const char *a, int db, const char *b, unsigned fl) noexcept { if (g_in_task && is_sim_path(a)) { if ((fl & 1) && g_files.count(b)) { errno = EEXIST; return -1; } return rename(a, b); } return syscall(SYS_renameat2, da, a, db, b, fl); }
int link(const char *a, const char *b) noexcept { if (g_in_task && is_sim_path(a)) return meta(S_RENAME, a, [&] { auto i = g_files.find(a); if (i == g_files.end()) { errno = ENOENT; return -1; } if (g_files.count(b)) { errno = EEXIST; return -1; } g_files[b] = i->second; return 0; }); return syscall(SYS_link, a, b); }
static int sim_mkstemp(char *t, int sl) {
    size_t n = strlen(t); if (n < 6 + (size_t)sl || strncmp(t + n - 6 - sl, "XXXXXX", 6)) { errno = EINVAL; return -1; }
    for (U i = 0;; i++) { char b[16]; snprintf(b, sizeof b, "%06llu", (unsigned long long)(i % 1000000)); memcpy(t + n - 6 - sl, b, 6); if (!g_files.count(t)) return sim_open(t, O_RDWR | O_CREAT | O_EXCL); }
}
int mkstemp(char *t) { if (g_in_task && is_sim_path(t)) return sim_mkstemp(t, 0); static auto f = (int (*)(char *))dlsym(RTLD_NEXT, "mkstemp"); return f(t); }
int mkstemp64(char *t) { return mkstemp(t); }
int mkstemps(char *t, int sl) { if (g_in_task && is_sim_path(t)) return sim_mkstemp(t, sl); static auto f = (int (*)(char *, int))dlsym(RTLD_NEXT, "mkstemps"); return f(t, sl); }
int mkostemp(char *t, int fl) { if (g_in_task && is_sim_path(t)) return sim_mkstemp(t, 0); static auto f = (int (*)(char *, int))dlsym(RTLD_NEXT, "mkostemp"); return f(t, fl); }
int fsync(int fd) { if (g_in_task && isfake(fd)) return meta(S_SYNC, "", [] { return 0; }); return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
static int set_size(std::shared_ptr<VFile> f, off_t n) {
    if (n < 0) { errno = EINVAL; return -1; }
    U used = vfs_used(); if ((U)n > f->data.size() && g_cap != ~0ull && used + n - f->data.size() > g_cap) { g_fired++; g_proc->faults++; g_faultcount["trunc.enospc-cap"]++; errno = ENOSPC; return -1; }
    f->data.resize(n); return 0;
}
int ftruncate(int fd, off_t n) noexcept { if (g_in_task && isfake(fd)) { OpenFile *o = of(fd); if (!o || !o->wr) { errno = EBADF; return -1; } return meta(S_TRUNC, o->path.c_str(), [&] { return set_size(o->file, n); }); } return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int truncate(const char *p, off_t n) noexcept { if (g_in_task && is_sim_path(p)) return meta(S_TRUNC, p, [&] { auto i = g_files.find(p); if (i == g_files.end()) { errno = ENOENT; return -1; } return set_size(i->second, n); }); return syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off64_t n) noexcept { return truncate(p, n); }
int posix_fallocate(int fd, off_t o, off_t n) { if (g_in_task && isfake(fd)) { OpenFile *f = of(fd); if (!f || !f->wr) return EBADF; int e = errno; int r = meta(S_TRUNC, f->path.c_str(), [&] { return (U)(o + n) > f->file->data.size() ? set_size(f->file, o + n) : 0; }) < 0 ? errno : 0; errno = e; return r; } int e = errno; int r = syscall(SYS_fallocate, fd, 0, o, n) < 0 ? errno : 0; errno = e; return r; }
int posix_fallocate64(int fd, off64_t o, off64_t n) { return posix_fallocate(fd, o, n); }
int posix_fadvise(int fd, off_t o, off_t n, int ad) { if (g_in_task && isfake(fd)) return 0; return syscall(SYS_fadvise64, fd, o, n, ad) < 0 ? errno : 0; }
int posix_fadvise64(int fd, off64_t o, off64_t n, int ad) { return posix_fadvise(fd, o, n, ad); }
int flock(int fd, int op) noexcept { if (g_in_task && isfake(fd)) return 0; return syscall(SYS_flock, fd, op); }
int fchmod(int fd, mode_t m) noexcept { if (g_in_task && isfake(fd)) return 0; return syscall(SYS_fchmod, fd, m); }
int ioctl(int fd, unsigned long rq, ...) noexcept { va_list a; va_start(a, rq); void *arg = va_arg(a, void *); va_end(a); if (isfake(fd)) { errno = ENOTTY; return -1; } return syscall(SYS_ioctl, fd, rq, arg); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) noexcept {
    if (fd >= FD0 && g_in_task) {
        if ((fl & MAP_SHARED) && (pr & PROT_WRITE)) { errno = ENODEV; return MAP_FAILED; }       // the virtual disk has no writable mappings
        OpenFile *o = of(fd); Fault *f = fault_for(S_READ, "mmap"); if (!o || (f && f->act == "fail")) { errno = EIO; return MAP_FAILED; }
        void *m = (void *)syscall(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) return m;
        auto &d = o->file->data; if ((size_t)off < d.size()) memcpy(m, d.data() + off, std::min(n, d.size() - (size_t)off)); return m;
    }
    return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, off);
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t off) noexcept { return mmap(a, n, pr, fl, fd, off); }

const char *__asan_default_options() {
    return "handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:"
           "allocator_may_return_null=1:max_allocation_size_mb=1024:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:malloc_context_size=6:"
           "use_sigaltstack=0:intercept_tls_get_addr=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:max_free_fill_size=65536:free_fill_byte=221:abort_on_error=0:print_legend=0:print_full_thread_history=0";
}
}

// ---------------------------------------------------------------- main
#include <sys/personality.h>
#include <time.h>
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string slurp(const char *p) { std::string s; int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY, 0); if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n); syscall(SYS_close, fd); return s; }
static void spit(const std::string &p, const std::string &s) { int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return; ssize_t r = syscall(SYS_write, fd, s.data(), s.size()); (void)r; syscall(SYS_close, fd); }
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

int main(int argc, char **argv) {
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOEXEC")) { if (personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOEXEC", "1", 1); execv("/proc/self/exe", argv); } }
    real_stdout = stdout; real_stderr = stderr; std::cout.rdbuf(new StdioBuf(&stdout)); std::cerr.rdbuf(new StdioBuf(&stderr)); std::clog.rdbuf(std::cerr.rdbuf());
    image_init();
    stack_t ss; ss.ss_size = 1 << 18; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (getenv("SIM_VERBOSE")) verbose = true;
    if (cmd == "run" && argc > 2) {           // replay: a pure function of the plan file and the code
        if (argc > 3 && !strcmp(argv[3], "-v")) verbose = true;
        Plan p; std::string err; if (!Plan::parse(slurp(argv[2]), p, err)) { fprintf(stderr, "bad plan: %s\n", err.c_str()); return 3; }
        Result r = run_plan(p);
        printf("RESULT %s class=%s hash=%016llx ticks=%llu ops=%llu faults=%llu switches=%llu msg=%s\n", r.viol ? "violation" : "ok", r.viol ? r.cls.c_str() : "-", (unsigned long long)r.hash, (unsigned long long)r.ticks, (unsigned long long)r.ops, (unsigned long long)r.fired, (unsigned long long)r.nsw, r.msg.c_str());
        fflush(stdout); _exit(r.viol ? 1 : 0);
    }
    if (cmd == "gen" && argc > 4) { Plan p = gen_plan(argv[2], strtoull(argv[3], 0, 10), !strcmp(argv[4], "thorough")); fputs(p.format().c_str(), stdout); fflush(stdout); _exit(0); }
    if (cmd == "hash" && argc > 4) {          // hash <id> <tier> <seed>... : determinism proof across processes
        for (int i = 4; i < argc; i++) { U s = strtoull(argv[i], 0, 10); Result r = run_plan(gen_plan(argv[2], s, !strcmp(argv[3], "thorough"))); printf("%llu %016llx %016llx\n", (unsigned long long)s, (unsigned long long)r.obs, (unsigned long long)r.hash); }
        fflush(stdout); _exit(0);
    }
    if (cmd == "fuzz" && argc > 8) {          // fuzz <id> <tier> <start> <stride> <max> <seconds> <outbase>
        std::string id = argv[2]; bool th = !strcmp(argv[3], "thorough"); U start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), max = strtoull(argv[6], 0, 10); double secs = atof(argv[7]); std::string out = argv[8];
        int fd = syscall(SYS_openat, AT_FDCWD, (out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); { ssize_t q = syscall(SYS_ftruncate, fd, 16L); (void)q; } volatile U *cur = (volatile U *)syscall(SYS_mmap, 0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        double t0 = now(); U n = 0, tot_ticks = 0, ops = 0, fired = 0, nsw = 0, faulted = 0, rechecked = 0; std::set<U> sigs; std::string viol = "null"; std::vector<std::string> samples;
        U s = start;
        for (; n < max && now() - t0 < secs; n++, s += stride) {
            if (n % 32 == 31) { std::string m = slurp("/proc/self/statm"); unsigned long a = 0, rss = 0; sscanf(m.c_str(), "%lu %lu", &a, &rss); if (rss * 4096 > (1200ul << 20)) break; }   // killed processes leak; the driver starts a fresh worker
            cur[0] = s; cur[1] = n;
            Plan p = gen_plan(id, s, th);
            Result r = run_plan(p);
            tot_ticks += r.ticks; ops += r.ops; fired += r.fired; nsw += r.nsw; if (r.fired || r.nsw) faulted++;
            if (r.ops) sigs.insert(r.sig ^ (r.ops * 0x9E3779B97F4A7C15ull) ^ r.hash);
            if (samples.size() < 2 && (n % 97) == 5) samples.push_back(p.format());
            if (r.viol) {
                spit(out + ".plan", p.format());
                viol = "{\"seed\":" + std::to_string(s) + ",\"class\":" + js(r.cls) + ",\"msg\":" + js(r.msg) + "}"; n++; break;
            }
            if (n % 61 == 7) { Result q = run_plan(p); rechecked++; if (q.obs != r.obs) { std::string nd = slurp((out + ".nd").c_str()); spit(out + ".nd", nd + std::to_string(s) + "\n"); } }   // the driver repeats it in fresh processes
        }
        std::string j = "{\"runs\":" + std::to_string(n) + ",\"start\":" + std::to_string(start) + ",\"next\":" + std::to_string(s) + ",\"stride\":" + std::to_string(stride) + ",\"ticks\":" + std::to_string(tot_ticks) + ",\"ops\":" + std::to_string(ops) + ",\"fired\":" + std::to_string(fired) + ",\"switches\":" + std::to_string(nsw) + ",\"runs_with_faults\":" + std::to_string(faulted) + ",\"rechecked\":" + std::to_string(rechecked) + ",\"edges\":" + std::to_string(g_covn) + ",\"wall\":" + std::to_string(now() - t0) + ",\"violation\":" + viol + ",\"probes\":{";
        bool c = false; for (auto &e : g_probes) { j += (c ? "," : "") + js(e.first) + ":" + std::to_string(e.second); c = true; }
        j += "},\"faults\":{"; c = false; for (auto &e : g_faultcount) { j += (c ? "," : "") + js(e.first) + ":" + std::to_string(e.second); c = true; }
        j += "},\"samples\":["; c = false; for (auto &e : samples) { j += (c ? "," : "") + js(e); c = true; }
        j += "],\"distinct\":" + std::to_string(sigs.size()) + "}\n";
        spit(out + ".json", j);
        _exit(viol == "null" ? 0 : 1);
    }
    fprintf(stderr, "usage: sim run <plan> [-v] | gen <id> <seed> <tier> | hash <id> <tier> <seeds..> | fuzz ...\n");
    return 3;
}
