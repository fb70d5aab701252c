// The command-line tools as whole simulated processes, and the listings they print.
#include "dbm.h"
#include "simw.h"
#include <deque>
#include <crefl/asn1.h>
int crefltool_main(int argc, const char **argv);
int asn1tool_main(int argc, const char **argv);
using namespace sim; using namespace dbm;

namespace {
static const char *fmt_opt[8] = { "--dump", "--dump-fqn", "--dump-sum", "--dump-all", "--dump-ext", "--dump-ext-fqn", "--dump-ext-sum", "--dump-ext-all" };
std::vector<std::string> lines_of(const std::string &t) { std::vector<std::string> v; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) { v.push_back(t.substr(i)); break; } v.push_back(t.substr(i, e - i)); i = e + 1; } return v; }
std::string pad(const std::string &s, size_t w) { return s.size() < w ? s + std::string(w - s.size(), ' ') : s.substr(0, w - 1) + "\xe2\x80\xa6"; }
// every declaration from the root on has one line that carries its own numbers, names, properties, target, hash and full name
typedef std::vector<std::pair<std::string, std::string>> Ids;     // identity hash in hex and full name, per declaration
std::string props_text(const Node &n) {
    static const std::pair<u32, const char *> names[] = { { 1 << 10, "const" }, { 1 << 11, "volatile" }, { 1 << 12, "restrict" }, { 1 << 13, "static" }, { 1 << 14, "extern_c" }, { 1 << 15, "inline" }, { 1 << 16, "noreturn" }, { 1 << 17, "local" }, { 1 << 18, "global" }, { 1 << 19, "weak" }, { 1 << 20, "default" }, { 1 << 21, "hidden" }, { 1 << 22, "in" }, { 1 << 23, "out" }, { 1 << 24, "vla" } };
    std::string s, num; char t[40]; auto add = [&](const std::string &x) { if (!s.empty()) s += ","; s += x; };
    for (auto &e : names) if (n.props & e.first) add(e.second);
    switch (n.tag) {
    case _decl_set: case _decl_enum: case _decl_pointer: case _decl_intrinsic: add("width=" + std::to_string(n.qty)); break;
    case _decl_array: add("size=" + std::to_string(n.qty)); break;
    case _decl_constant: case _decl_value: add("value=" + std::to_string(n.qty)); break;
    case _decl_function: snprintf(t, sizeof t, "addr=0x%llx", (unsigned long long)n.qty); add(t); break;
    case _decl_field: if (n.props & _decl_bitfield) add("width=" + std::to_string(n.qty)); break;
    }
    return s;
}
void check_listing(const std::string &text, const Snap &s, int fmt, const char *when, const Ids *ids = nullptr) {
    auto v = lines_of(text); size_t rows = s.n.size() - s.root; REQUIRE(!text.empty() && text.back() == '\n', "listing", "%s: the listing does not end with a complete line", when);
    REQUIRE(v.size() == rows + 3, "listing", "%s: %zu lines for %zu declarations", when, v.size(), rows);
    REQUIRE(v[1] == v[rows + 2] && v[1].find_first_not_of('-') == std::string::npos && v[0].substr(0, 10) == "id   attr ", "listing", "%s: header or trailer damaged", when);
    bool ext = fmt >= 4, hash = fmt & 2, full = fmt & 1;
    std::string head = pad("id", 5) + pad("attr", 5) + pad("next", 5) + pad("link", 5) + pad("type", 10) + pad("name", ext ? 28 : 15) + pad("props", ext ? 25 : 15) + pad("detail", ext ? 30 : 20) + (hash ? pad("hash", 57) : "") + (full ? pad("fqn", ext ? 30 : 23) : "");
    REQUIRE(v[0] == head, "listing", "%s: the header is '%.160s'", when, v[0].c_str()); REQUIRE(v[1].size() == head.size(), "listing", "%s: the rule is %zu wide, the header %zu", when, v[1].size(), head.size());
    for (size_t k = 0; k < rows; k++) {
        u32 i = s.root + k; const Node &n = s.n[i]; size_t at = 0; const std::string &line = v[2 + k];
        auto col = [&](const char *what, const std::string &val, size_t w) { std::string p = pad(val, w); REQUIRE(line.compare(at, p.size(), p) == 0, "listing", "%s: the line of declaration %u (%s '%.40s') shows '%.60s' as its %s, expected '%.60s'", when, i, crefl_tag_name(n.tag), n.name.c_str(), line.substr(std::min(at, line.size()), p.size()).c_str(), what, p.c_str()); at += p.size(); };
        col("number", std::to_string(i), 5); col("attribute", std::to_string(n.attr), 5); col("next", std::to_string(n.next), 5); col("link", std::to_string(n.link), 5);
        col("kind", crefl_tag_name(n.tag), 10); col("name", n.name.empty() ? "(anonymous)" : n.name, ext ? 28 : 15); col("properties", props_text(n), ext ? 25 : 15);
        const Node &l = s.n[n.link < s.n.size() ? n.link : 0]; col("target", std::string(crefl_tag_name(l.tag)) + "(\"" + (l.name.empty() ? "anonymous" : l.name) + "\")", ext ? 30 : 20);
        if (!ids) continue;
        if (hash) col("hash", (*ids)[i].first, 57);
        if (full) { u32 j = n.tag == _decl_alias ? n.link : i; col("full name", std::string(crefl_tag_name(s.n[j].tag)) + " " + (*ids)[j].second, ext ? 30 : 23); }
        REQUIRE(at == line.size(), "listing", "%s: the line of declaration %u has more than its columns: '%.60s'", when, i, line.substr(std::min(at, line.size())).c_str());
    }
}
void check_stats(const std::string &text, const Snap &s, size_t image, const char *when) {
    char t[400]; size_t b = s.builtin, u = s.n.size() - b; unsigned long long nb = 0, nu = 0;
    auto v = lines_of(text); REQUIRE(v.size() == 5, "stats", "%s: %zu lines of statistics", when, v.size());
    snprintf(t, sizeof t, "decl.builtin %zu bytes (%zu records)", b * sizeof(decl_node), b); REQUIRE(v[0] == t, "stats", "%s: '%s' should be '%s'", when, v[0].c_str(), t);
    snprintf(t, sizeof t, "decl.user    %zu bytes (%zu records)", u * sizeof(decl_node), u); REQUIRE(v[1] == t, "stats", "%s: '%s' should be '%s'", when, v[1].c_str(), t);
    REQUIRE(sscanf(v[2].c_str(), "name.builtin %llu bytes", &nb) == 1 && sscanf(v[3].c_str(), "name.user %llu bytes", &nu) == 1, "stats", "%s: name sizes missing", when);
    REQUIRE(nu == image - 20 - 32 * u, "stats", "%s: name.user is %llu, the image holds %zu bytes of names", when, nu, image - 20 - 32 * u);
    snprintf(t, sizeof t, "file.size    %zu bytes", image); REQUIRE(v[4] == t, "stats", "%s: '%s' should be '%s'", when, v[4].c_str(), t);
}

// ---------------------------------------------------------------- a run of a tool as a process
struct Run {
    Proc *p = nullptr; std::vector<std::string> args; std::vector<const char *> argv; Outcome o; std::string out; U faults = 0;
    int cmd = 0; std::vector<std::string> in; std::string outp; bool valid = true; Bytes want; std::string want_text; bool usage = false; std::vector<Snap> snaps; std::vector<Bytes> inb;
    void prep(Proc *q) { p = q; argv.clear(); for (auto &a : args) argv.push_back(a.c_str()); argv.push_back(nullptr); }
};
void exec(std::vector<Run *> rs, int (*mainfn)(int, const char **)) {
    std::vector<TaskSpec> t; for (auto r : rs) t.push_back({ [r, mainfn] { int rc = mainfn((int)r->args.size(), r->argv.data()); r->o.code = rc; r->o.st = T_EXITED; }, r->p });
    auto o = run_tasks(t);
    for (size_t i = 0; i < rs.size(); i++) { int rc = rs[i]->o.code; bool ret = o[i].st == T_DONE; rs[i]->o = o[i]; if (ret) { rs[i]->o.st = T_EXITED; rs[i]->o.code = rc & 255; } rs[i]->out = o[i].st == T_CRASHED ? "" : proc_flush_stdout(rs[i]->p); rs[i]->faults = proc_fault_count(rs[i]->p);
        event("tool p%d st=%d code=%d faults=%llu out=%zu", proc_id(rs[i]->p), rs[i]->o.st, rs[i]->o.code, (unsigned long long)rs[i]->faults, rs[i]->out.size()); mixlog(rs[i]->out.data(), rs[i]->out.size()); if (o[i].st != T_CRASHED) proc_end(rs[i]->p); }
}
// ---------------------------------------------------------------- C08
struct Tw : Host {
    Universe u; Snap builtins; size_t bnames = 0; Proc *ref = nullptr; std::vector<std::string> pool; std::map<std::string, Bytes> contents;
    Outcome lib(std::function<void()> f) { Outcome o = call(f, ref); REQUIRE(o.st == T_DONE, "reference", "the undisturbed library call failed: %s", o.why.c_str()); return o; }
    bool complete(const Bytes &b, Snap &s) { std::string e; return decode(b, builtins, bnames, s, e) && s.n.size() > s.builtin && s.root == s.builtin; }
};
static const char *outname[] = { "/sim/out.refl", "/sim/d/lib.refl", "/sim/x", "/sim/out.c" };
void plan_run(Tw &w, Run &r, const Line &l, U slot) {
    U cmd = l.num("cmd") % 13; r.cmd = cmd; Rng k(l.num("pick")); std::string o = outname[l.num("out") % 4] + std::to_string(slot); U n = cmd == 9 ? l.num("n") >= 1000 ? l.num("n") - 1000 : 1 + l.num("n") % 4 : 1;
    for (U i = 0; i < n; i++) r.in.push_back(w.pool[k.below(w.pool.size())]);
    r.args = { "crefltool" };
    if (cmd < 8) r.args.push_back(fmt_opt[cmd]); else r.args.push_back(cmd == 8 ? "--stats" : cmd == 9 ? "--merge" : cmd == 10 ? "--emit" : cmd == 11 ? "--dump-none" : "--merge");
    if (cmd == 9 || cmd == 10) { r.outp = o; r.args.push_back(o); }
    for (auto &i : r.in) r.args.push_back(i);
    if (cmd == 11 || cmd == 12) r.usage = true;
    r.valid = !r.usage;
    for (auto &i : r.in) { Snap s; Bytes b = vfs_exists(i) ? vfs_get(i) : Bytes(); if (!vfs_exists(i) || !w.complete(b, s)) r.valid = false; r.snaps.push_back(s); r.inb.push_back(b); }
    if (!r.valid) return;
    if (cmd < 9) { r.want_text = ""; proc_flush_stdout(w.ref); proc_stdout_clear(w.ref); w.lib([&] { decl_db *d = crefl_db_new(); int x = crefl_db_read_mem(d, r.inb[0].data(), r.inb[0].size()); REQUIRE(x == 0, "reference", "loading a complete image failed"); if (cmd < 8) { crefl_db_set_dump_fmt((crefl_db_dump_fmt)cmd); crefl_db_dump(d); } else crefl_db_dump_stats(d); crefl_db_destroy(d); }); r.want_text = proc_flush_stdout(w.ref); }
    if (cmd == 9) w.lib([&] { std::vector<decl_db *> v; for (auto &b : r.inb) { v.push_back(crefl_db_new()); int x = crefl_db_read_mem(v.back(), b.data(), b.size()); REQUIRE(x == 0, "reference", "loading a complete image failed"); } decl_db *out = crefl_db_new(); int x = crefl_link_merge(out, o.c_str(), v.data(), v.size()); REQUIRE(x >= 0, "reference", "merging failed"); r.want.resize(crefl_db_size(out)); crefl_db_write_mem(out, r.want.data(), r.want.size()); crefl_db_destroy(out); for (auto d : v) crefl_db_destroy(d); });
    if (cmd == 10) r.want = r.inb[0];
}
bool parse_emit(const std::string &t, Bytes &out, std::string &err) {
    size_t a = t.find("__crefl_main_data[]"), b = t.find('{', a), c = t.find('}', b); if (a == std::string::npos || b == std::string::npos || c == std::string::npos) { err = "no data array"; return false; }
    size_t z = t.find("__crefl_main_size", c); if (z == std::string::npos || t.find(';', z) == std::string::npos || t.find("sizeof", z) == std::string::npos) { err = "no size"; return false; }
    bool need = true;   // a number is expected next
    for (size_t i = b + 1; i < c;) {
        if (isspace((unsigned char)t[i])) { i++; continue; }
        if (t[i] == ',') { if (need) { err = "stray comma"; return false; } need = true; i++; continue; }
        if (!need) { err = "missing comma"; return false; }
        char *e; unsigned long v = strtoul(t.c_str() + i, &e, 0); if (e == t.c_str() + i || v > 255) { err = "not a byte"; return false; } out.push_back(v); i = e - t.c_str(); need = false;
    }
    return true;
}
void judge(Tw &w, Run &r, bool again) {
    char what[300]; snprintf(what, sizeof what, "crefltool %s%s (%zu input(s))", r.args[1].c_str(), again ? ", run again" : "", r.in.size()); op_done();
    for (size_t i = 0; i < r.in.size(); i++) REQUIRE((vfs_exists(r.in[i]) ? vfs_get(r.in[i]) : Bytes()) == r.inb[i], "input-modified", "%s changed its input %s", what, r.in[i].c_str());
    if (r.o.st == T_CRASHED) { REQUIRE(r.o.injected, "crash", "%s crashed: %s", what, r.o.why.c_str()); probe("tool processes killed"); return; }
    REQUIRE(r.o.st == T_EXITED, "crash", "%s did not end", what);
    if (r.o.code != 0) { REQUIRE(r.faults || !r.valid, "spurious-failure", "%s failed (exit %d) although its input is valid and nothing went wrong", what, r.o.code); probe(r.valid ? "tool runs failed under fault" : "tool runs refused bad input"); return; }
    REQUIRE(!r.usage, "false-success", "%s: an unknown command was accepted", what);
    REQUIRE(r.valid, "false-success", "%s exited with success although an input is missing or damaged", what);
    probe(r.faults ? "tool runs succeeded despite a fault" : "tool runs succeeded");
    if (r.cmd < 9) { REQUIRE(r.out == r.want_text, "wrong-listing", "%s exited with success but printed something else than an undisturbed run (%zu bytes, expected %zu)", what, r.out.size(), r.want_text.size()); if (r.cmd < 8) check_listing(r.out, r.snaps[0], r.cmd, what); else check_stats(r.out, r.snaps[0], r.inb[0].size(), what); return; }
    REQUIRE(vfs_exists(r.outp), "missing-output", "%s exited with success but left no output file", what);
    Bytes got = vfs_get(r.outp);
    if (r.cmd == 10) { Bytes b; std::string e; bool ok = parse_emit(std::string(got.begin(), got.end()), b, e); REQUIRE(ok, "wrong-output", "%s exited with success but the output is not complete: %s (%zu bytes)", what, e.c_str(), got.size()); REQUIRE(b == r.want, "wrong-output", "%s exited with success but the emitted bytes are not the input's (%zu, expected %zu)", what, b.size(), r.want.size()); return; }
    REQUIRE(got == r.want, "wrong-output", "%s exited with success but the output is not what an undisturbed merge gives (%zu bytes, expected %zu)", what, got.size(), r.want.size());
    Snap m; REQUIRE(w.complete(got, m), "wrong-output", "%s exited with success but the output is not a complete image", what);
    auto ch = children(m, m.root); REQUIRE(m.n[m.root].tag == _decl_archive && ch.size() == r.in.size(), "wrong-output", "%s: the archive holds %zu sources, %zu were merged", what, ch.size(), r.in.size());
    for (size_t i = 0; i < r.in.size(); i++) { Cmp c(r.snaps[i], m); REQUIRE(c.same(r.snaps[i].root, ch[i]), "wrong-output", "%s: source %zu of the archive is not input %zu: %s", what, i, i, c.why.c_str()); }
}
Bytes make_image(Tw &w, U seed, U pct, U idx) {
    Rng r(seed); std::vector<int> order; const Universe &u = w.u; for (size_t i = 0; i < u.t.size(); i++) if (!u.t[i].nested && r.below(100) < pct) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    Bytes b; w.lib([&] { decl_db *x = crefl_db_new(); crefl_db_defaults(x); Emitter e(x, u); e.source("unit" + std::to_string(idx) + ".c", order); b.resize(crefl_db_size(x)); crefl_db_write_mem(x, b.data(), b.size()); crefl_db_destroy(x); }); return b;
}
bool setup(Tw &w, const Plan &p) {
    w.boot(); w.ref = proc_calm(proc_new()); const Line *ul = p.find("uni"); if (!ul) return false; U nintr = 0;
    w.lib([&] { decl_db *d = crefl_db_new(); crefl_db_defaults(d); w.builtins = snap(d); w.bnames = d->name_builtin; nintr = d->decl_builtin - 1; crefl_db_destroy(d); });
    Rng ur(ul->num("seed")); w.u = gen_universe(ur, ul->num("n", 8), ul->num("cyc"), ul->num("multi"), nintr, ul->num("big"));
    if (ul->num("ring")) rings(w.u, ul->num("ring")); if (ul->num("deep")) deep_refs(w.u, ul->num("deep"));
    bool large = ul->num("big"); for (auto &l : p.lines) if (l.verb == "run" && l.num("n") >= 1000) large = true; if (large) set_budget(800000000); if (ul->num("ring")) set_budget(3000000000);
    return true;
}
void run_c08(const Plan &p) {
    Tw w; if (!setup(w, p)) return; U idx = 0;
    for (auto &l : p.lines) if (l.verb == "input") {
        std::string path = "/sim/in" + std::to_string(idx); Bytes b = make_image(w, l.num("seed"), l.num("pct", 50), idx); U k = l.num("kind"), a = l.num("arg");
        if (k == 1) { w.pool.push_back(path); idx++; continue; }                          // missing
        if (k == 2) b.resize(a % b.size());                                               // cut short
        if (k == 3) {                                                                     // header damaged: not the magic, or more than the file holds
            U i = a % 16; if (i < 8) b[i] ^= 1 + (a >> 8) % 255; else { U o = i & ~3ull, v = b[o] | b[o + 1] << 8 | b[o + 2] << 16 | (U)b[o + 3] << 24, m = 0xffffffffull - v; v += 1 + (a >> 8) % ((i & 1) ? std::min<U>(m, 300) : m); for (int j = 0; j < 4; j++) b[o + j] = v >> 8 * j; }
        }
        if (k == 4) b.clear();                                                            // empty
        vfs_put(path, b); w.pool.push_back(path); idx++;
    }
    if (w.pool.empty()) return;
    std::vector<Line> todo; for (auto &l : p.lines) if (l.verb == "run" || l.verb == "room") todo.push_back(l);
    std::set<std::string> left;             // what interrupted runs left lying about besides their outputs
    for (size_t i = 0; i < todo.size();) {
        if (todo[i].verb == "room") { U used = 0; for (auto &f : vfs_list()) used += vfs_get(f).size(); vfs_capacity(todo[i].num("bytes") ? used + todo[i].num("bytes") - 1 : ~0ull); i++; continue; }
        std::deque<Run> g; std::vector<Run *> rs; size_t j = i;
        do { g.emplace_back(); plan_run(w, g.back(), todo[j], g.size()); j++; } while (j < todo.size() && todo[j].verb == "run" && todo[j].num("conc") && g.size() < 4);
        size_t i0 = i; i = j;
        std::map<std::string, Bytes> before; for (auto &f : vfs_list()) before[f] = vfs_get(f);
        // an output that another run of the group reads would be a race of the user's own making
        bool race = false; for (auto &a : g) for (auto &b : g) if (!a.outp.empty()) for (auto &x : b.in) if (x == a.outp) race = true; if (race) continue;
        for (size_t q = 0; q < g.size(); q++) if (U st = todo[i0 + q].num("stale")) if (!g[q].outp.empty() && std::find(w.pool.begin(), w.pool.end(), g[q].outp) == w.pool.end()) {     // what stands under the output's name already
            Rng k(st); Bytes old = g[q].want; if (vfs_exists(g[q].outp) && (g[q].cmd == 10 || k.chance(1, 3))) old = vfs_get(g[q].outp); if (old.empty()) old.resize(1 + k.below(400), 'x');
            switch (k.below(4)) { case 0: case 1: { size_t at = g[q].cmd == 10 || k.chance(1, 3) ? k.below(old.size()) : old.size() - 1 - k.below(std::min<U>(old.size(), 8)); if (old[at] > ' ' && old[at] < 127) old[at] = old[at] == 'z' ? 'q' : 'z'; else if (at) { at--; old[at] ^= 1; } break; } case 2: old.resize(k.below(old.size() + 1)); break; case 3: old.resize(old.size() + 1 + k.below(3000), (uint8_t)k.next()); break; }
            vfs_put(g[q].outp, old); before[g[q].outp] = old; probe("older files under the output's name");
        }
        for (auto &r : g) { r.prep(proc_new()); rs.push_back(&r); }
        if (rs.size() > 1) probe("groups of concurrent tool processes");
        exec(rs, crefltool_main);
        for (auto &r : g) judge(w, r, false);
        std::set<std::string> outs; for (auto &r : g) if (!r.outp.empty()) outs.insert(r.outp);
        bool dist = false; for (auto &r : g) if (r.o.st == T_CRASHED || proc_faulted(r.p)) dist = true;      // an interrupted run may leave a temporary file
        for (auto &f : vfs_list()) if (dist && !before.count(f) && !outs.count(f)) left.insert(f);
        for (auto &f : vfs_list()) if (!outs.count(f) && !left.count(f)) REQUIRE(before.count(f) && vfs_get(f) == before[f], "stray-write", "a tool run touched %s, which is not its output", f.c_str());
        for (auto &e : before) if (!left.count(e.first)) REQUIRE(vfs_exists(e.first), "stray-write", "a tool run removed %s", e.first.c_str());
        for (auto &r : g) if (r.o.st == T_CRASHED || r.o.code != 0) if (r.valid) { Run q = r; q.o = Outcome(); q.prep(proc_new()); exec({ &q }, crefltool_main); judge(w, q, true); if (q.o.st == T_CRASHED || proc_faulted(q.p)) for (auto &f : vfs_list()) if (!before.count(f) && !outs.count(f)) left.insert(f); if (q.o.st == T_EXITED && q.o.code == 0) probe("interrupted runs repeated"); r.o = q.o; }
        for (auto &r : g) if (r.cmd == 9 && r.o.st == T_EXITED && r.o.code == 0 && std::find(w.pool.begin(), w.pool.end(), r.outp) == w.pool.end() && vfs_get(r.outp).size() < 200000) w.pool.push_back(r.outp);
    }
}
void gen_uni(Rng &r, Plan &p, bool th) {
    gen_mem(r, p);
    p.add("uni").set("seed", r.next()).set("n", r.chance(1, 8) ? r.below(th ? 100 : 40) : 1 + r.below(12)).set("cyc", r.chance(1, 3)).set("multi", r.chance(1, 2)); if (r.chance(1, 24)) p.lines.back().set("big", 1 + r.below(1 << 30)); if (r.chance(1, 24)) p.lines.back().set("ring", 1 + r.below(1 << 30)); if (r.chance(1, 10)) p.lines.back().set("deep", 1 + r.below(1 << 30));
}
void gen_c08(Rng &r, Plan &p, bool th) {
    gen_uni(r, p, th); U ni = 1 + r.below(4); bool bad = r.chance(1, 3);
    for (U i = 0; i < ni; i++) { p.add("input").set("seed", r.next()).set("pct", r.chance(1, 4) ? 100 : 10 + r.below(80)).set("kind", bad && r.chance(1, 3) ? 1 + r.below(4) : 0).set("arg", r.next() >> 8); }
    U nr = 1 + r.below(th ? 8 : 5), grp = 0; bool conc = r.chance(1, 3), was = false; bool faults = r.chance(3, 4); U room = r.chance(1, 5) ? r.below(nr) : 999;
    for (U i = 0; i < nr; i++) {
        if (i == room) p.add("room").set("bytes", 1 + r.pow2ish(8000));
        U c = r.below(20); bool cc = conc && i && i != room && r.chance(2, 3);
        p.add("run").set("cmd", c < 8 ? 9 : c < 14 ? 10 : c < 15 ? 8 : c < 19 ? r.below(8) : 11 + r.below(2)).set("pick", r.next()).set("n", r.chance(1, 30) ? 1005 + r.below(r.chance(1, 3) ? 300 : 60) : r.below(4)).set("out", r.below(4)).set("conc", cc);
        if (c < 14 && r.chance(1, 3)) p.lines.back().set("stale", 1 + r.below(1 << 30));
        if (cc && !was) gen_switches(r, p, 1 + r.below(30), 60000, grp++); was = cc;
        if (i == room && r.chance(1, 2)) p.add("room").set("bytes", (U)0);
    }
    if (faults) { U nf = 1 + r.below(3); for (U i = 0; i < nf; i++) gen_fault(r, p, 2 + r.below(nr), F_OPEN | F_READ | F_WRITE | F_CLOSE | F_STAT | F_ALLOC | F_CRASH | F_SHORT); if (r.chance(1, 3)) gen_fault(r, p, 2 + r.below(nr), F_META); if (r.chance(1, 4)) p.add("kill").set("at", r.pow2ish(200000)).set("proc", 2 + r.below(nr)); }
    if (r.chance(1, 4)) { std::vector<U> d; U k = 0; for (auto &l : p.lines) if (l.verb == "run") { if (l.num("cmd") < 9) d.push_back(k); k++; } if (d.size()) gen_fault(r, p, 2 + d[r.below(d.size())], F_CONS); }      // the listing cannot be printed
}
Register r08("C08", gen_c08, run_c08);

// ---------------------------------------------------------------- C17
struct Doc { decl_db *db = nullptr; Bytes image; Snap s; bool lost = false; };
struct Lw : Tw { std::deque<Doc> docs; std::map<std::pair<Bytes, int>, std::string> seen; std::map<Bytes, Ids> ids; };
Doc *pickd(Lw &w, U k) { std::vector<Doc *> v; for (auto &d : w.docs) if (d.db) v.push_back(&d); return v.empty() ? nullptr : v[k % v.size()]; }
std::string printed(Lw &w, const char *what, std::function<void()> f, bool &ok) { proc_flush_stdout(w.proc); proc_stdout_clear(w.proc); Proc *q = w.proc; ok = w.sut(what, f); std::string t = ok ? proc_flush_stdout(q) : ""; proc_stdout_clear(q); mixlog(t.data(), t.size()); return t; }
void same_text(Lw &w, const Bytes &img, int fmt, const std::string &t, const char *when) {
    auto a = w.seen.insert({ { img, fmt }, t }); if (a.second) return; probe("listings compared with an earlier one");
    const std::string &o = a.first->second; if (o == t) return;
    auto x = lines_of(o), y = lines_of(t); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
    REQUIRE(false, "not-reproducible", "%s: the same database in the same format (%d) prints differently, line %zu: '%.160s' / '%.160s'", when, fmt, i, i < x.size() ? x[i].c_str() : "-", i < y.size() ? y[i].c_str() : "-");
}
// identity hashes and full names as an index of its own gives them
const Ids &ids_of(Lw &w, const Bytes &img) {
    auto f = w.ids.find(img); if (f != w.ids.end()) return f->second; Ids &v = w.ids[img];
    w.lib([&] { decl_db *d = crefl_db_new(); int x = crefl_db_read_mem(d, img.data(), img.size()); REQUIRE(x == 0, "reference", "loading a saved image failed"); decl_index *ix = crefl_index_new(); crefl_index_scan(ix, d); v.resize(d->decl_offset);
        for (u32 i = 1; i < v.size(); i++) { decl_entry_ref er = crefl_entry_ref(ix, crefl_lookup(d, i)); decl_entry *e = crefl_entry_ptr(er); char t[4]; for (size_t k = 0; k < sizeof e->hash.sum; k++) { snprintf(t, sizeof t, "%02x", e->hash.sum[k]); v[i].first += t; } v[i].second = crefl_entry_fqn(er); }
        crefl_index_destroy(ix); crefl_db_destroy(d); });
    return v;
}
void list_one(Lw &w, Doc &d, int fmt, const char *when) {
    bool ok; decl_db *x = d.db; std::string t;
    if (fmt < 8) { t = printed(w, "dumping", [&] { crefl_db_set_dump_fmt((crefl_db_dump_fmt)fmt); crefl_db_dump(x); }, ok); if (!ok) return; check_listing(t, d.s, fmt, when, &ids_of(w, d.image)); }
    else { t = printed(w, "printing statistics", [&] { crefl_db_dump_stats(x); }, ok); if (!ok) return; check_stats(t, d.s, d.image.size(), when); }
    op_done(); same_text(w, d.image, fmt, t, when); REQUIRE(diff(d.s, snap(d.db)) == "", "changed", "%s changed the database", when);
}
decl_db *load(Lw &w, const Bytes &b) { decl_db *x = nullptr; int r = -9; if (!w.sut("loading", [&] { x = crefl_db_new(); r = crefl_db_read_mem(x, b.data(), b.size()); })) return nullptr; REQUIRE(r == 0, "load", "loading a saved database failed"); return x; }
bool add_doc(Lw &w, decl_db *x) { if (!x) return false; Doc d; d.db = x; d.s = snap(x); if (!w.sut("saving", [&] { d.image.resize(crefl_db_size(x)); crefl_db_write_mem(x, d.image.data(), d.image.size()); })) return false; w.docs.push_back(d); return true; }
void run_c17(const Plan &p) {
    Lw w; if (!setup(w, p)) return; U idx = 0; w.on_boot = [&w] { for (auto &d : w.docs) if (d.db) { d.db = nullptr; d.lost = true; } };
    for (auto &l : p.lines) {
        U k = l.num("k"), a = l.num("a"), b = l.num("b");
        for (auto &d : w.docs) for (int t = 0; t < 20 && d.lost; t++) if ((d.db = load(w, d.image))) d.lost = false;     // after a restart
        if (l.verb == "input") { Rng r(l.num("seed")); std::vector<int> order; for (size_t i = 0; i < w.u.t.size(); i++) if (!w.u.t[i].nested && r.below(100) < l.num("pct", 50)) order.push_back(i); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); decl_db *x = nullptr; if (w.sut("building", [&] { x = crefl_db_new(); crefl_db_defaults(x); Emitter e(x, w.u); e.source("unit" + std::to_string(idx++) + ".c", order, l.num("listed")); })) add_doc(w, x); continue; }
        if (l.verb != "op") continue;
        switch (k) {
        case 0: { Doc *d = pickd(w, a); if (d) list_one(w, *d, b % 9, "listing"); break; }
        case 1: { Doc *d = pickd(w, a); if (d) { decl_db *y = load(w, d->image); if (!y || !add_doc(w, y)) break; d = nullptr; for (auto &e : w.docs) if (e.db && e.db != w.docs.back().db && e.image == w.docs.back().image) d = &e; REQUIRE(d, "load", "a loaded copy saves to other bytes"); list_one(w, w.docs.back(), b % 9, "listing a saved-and-loaded copy"); if (d->db) list_one(w, *d, b % 9, "listing again"); } break; }
        case 2: { std::vector<decl_db *> v; U nodes = 0; Rng r(a); for (U i = 0; i < 1 + b % 3; i++) { Doc *d = pickd(w, r.next()); if (d && nodes + d->s.n.size() < 20000) { v.push_back(d->db); nodes += d->s.n.size(); } } decl_db *o = nullptr; if (v.size() && w.sut("merging", [&] { o = crefl_db_new(); crefl_link_merge(o, "ar.refl", v.data(), v.size()); })) add_doc(w, o); break; }
        case 3: { Doc *d = pickd(w, a); if (d) { decl_db *x = d->db; w.sut("scanning", [&] { decl_index *ix = crefl_index_new(); crefl_index_scan(ix, x); crefl_index_destroy(ix); }); } break; }
        case 4: set_fill(a & 255); w.boot(); probe("orderly restarts"); break;
        case 5: set_fill(a & 255); break;
        case 6: { Doc *d = pickd(w, a); if (d && w.docs.size() > 1) { decl_db *x = d->db; if (w.sut("destroying", [&] { crefl_db_destroy(x); })) d->db = nullptr; } break; }
        case 7: { Doc *d = pickd(w, a); if (!d) break; int f = b % 9; vfs_put("/sim/list.refl", d->image); Run r; r.args = { "crefltool", f < 8 ? fmt_opt[f] : "--stats", "/sim/list.refl" }; r.prep(proc_new()); exec({ &r }, crefltool_main); if (r.faults && (r.o.st == T_CRASHED ? r.o.injected : r.o.code != 0)) break; REQUIRE(r.o.st == T_EXITED && r.o.code == 0, "tool", "the tool could not list a good file (%d, %d %s)", r.o.st, r.o.code, r.o.why.c_str()); same_text(w, d->image, f, r.out, "listing by the tool in a fresh process"); probe("listings by the tool"); op_done(); break; }
        case 8: { Doc *d = pickd(w, a); if (!d || d->s.n.size() <= d->s.root) break; int f = b % 8; u32 row = d->s.root + (a >> 20) % (d->s.n.size() - d->s.root); bool ok; decl_db *x = d->db; std::string t = printed(w, "printing one row", [&] { crefl_db_set_dump_fmt((crefl_db_dump_fmt)f); crefl_db_dump_row(x, crefl_lookup(x, row)); }, ok); if (!ok) break;
                  auto i = w.seen.find({ d->image, f }); if (i == w.seen.end()) { list_one(w, *d, f, "listing"); i = w.seen.find({ d->image, f }); if (i == w.seen.end()) break; } auto v = lines_of(i->second); size_t at = 2 + row - d->s.root; REQUIRE(at < v.size() && t == v[at] + "\n", "row", "the row of declaration %u printed by itself is '%.160s', in the listing '%.160s'", row, t.c_str(), at < v.size() ? v[at].c_str() : "-"); probe("single rows compared"); op_done(); break; }
        case 10: { Doc *d = pickd(w, a); if (!d) break; decl_db *x = d->db; Snap s = d->s; Bytes img; list_one(w, *d, b % 9, "listing"); if (!d->db) break; bool arch = s.n[s.root].tag == _decl_archive; if (!w.sut("editing in place", [&] { edit_in_place(x, s, a >> 8, 1 + b % 4, !arch); img.resize(crefl_db_size(x)); crefl_db_write_mem(x, img.data(), img.size()); })) { break; } d->s = s; d->image = img; probe("edits in place");
                  REQUIRE(diff(s, snap(x)) == "", "changed", "an edit in place did not take"); list_one(w, *d, b % 9, "listing after an edit in place"); if (!d->db) break; decl_db *y = load(w, img); if (!y || !add_doc(w, y)) break; list_one(w, w.docs.back(), b % 9, "listing a saved-and-loaded copy of an edited database");
                  Run r; r.args = { "crefltool", b % 9 < 8 ? fmt_opt[b % 9] : "--stats", "/sim/list.refl" }; vfs_put("/sim/list.refl", img); r.prep(proc_new()); exec({ &r }, crefltool_main); if (r.faults && (r.o.st == T_CRASHED ? r.o.injected : r.o.code != 0)) break; REQUIRE(r.o.st == T_EXITED && r.o.code == 0, "tool", "the tool could not list an edited database"); same_text(w, img, b % 9, r.out, "listing an edited database in a fresh process"); break; }
        case 9: { Bytes bad(1 + a % 40, (uint8_t)b); Doc *d = pickd(w, a); if (d && (b & 1)) { bad = d->image; bad.resize(a % bad.size()); } if (b & 2) vfs_put("/sim/bad.refl", d && (b & 4) ? d->image : bad); w.sut("loading a damaged image", [&] { decl_db *x = crefl_db_new(); if (b & 2) crefl_db_read_file(x, "/sim/bad.refl"); else crefl_db_read_mem(x, bad.data(), bad.size()); crefl_db_destroy(x); }); break; }
        }
    }
    for (auto &d : w.docs) if (d.db) { decl_db *x = d.db; w.sut("destroying", [&] { crefl_db_destroy(x); }); }
}
void gen_c17(Rng &r, Plan &p, bool th) {
    gen_uni(r, p, th); U ni = 1 + r.below(3); for (U i = 0; i < ni; i++) p.add("input").set("seed", r.next()).set("listed", r.chance(1, 2) ? 0 : r.next() >> 8).set("pct", r.chance(1, 4) ? 100 : 10 + r.below(80));
    if (r.chance(1, 2)) { U nf = 1 + r.below(3); for (U i = 0; i < nf; i++) { gen_fault(r, p, -1, F_OPEN | F_READ | F_STAT | F_SHORT | F_CLOSE | F_ALLOC); if (p.lines.back().str("call") == "alloc") p.lines.back().set("n", r.below(9000)).set("proc", r.chance(1, 2) ? 0 : 2 + r.below(4)); } }
    if (r.chance(1, 4)) p.add("kill").set("at", r.pow2ish(3000000)).set("proc", r.chance(1, 2) ? 0 : 2 + r.below(3));
    U n = 3 + r.below(th ? 20 : 10); for (U i = 0; i < n; i++) { U x = r.below(20), k = x < 8 ? 0 : x < 10 ? 1 : x < 11 ? 2 : x < 12 ? 3 : x < 13 ? 4 : x < 14 ? 5 : x < 15 ? 6 : x < 17 ? 7 : x < 18 ? 8 : x < 19 ? 10 : 9; p.add("op").set("k", k).set("a", r.next() >> 1).set("b", r.chance(1, 2) ? r.below(3) : r.below(9)); }
}
Register r17("C17", gen_c17, run_c17);

// ---------------------------------------------------------------- C19
struct El { U tag; int cls; bool cons; Bytes body; std::vector<El> kids; int longform; };
void put_len(Bytes &b, U n, int lf) {
    if (n < 128 && !lf) { b.push_back(n); return; }
    int w = 1; while (w < 7 && (n >> (8 * w))) w++; w += lf; if (w > 7) w = 7;
    b.push_back(0x80 | w); for (int i = w - 1; i >= 0; i--) b.push_back(n >> (8 * i));
}
void put_el(Bytes &b, const El &e) {
    Bytes c = e.body; if (e.tag == 16 || e.tag == 17) { c.clear(); for (auto &k : e.kids) put_el(c, k); }
    uint8_t lead = e.cls << 6 | (e.cons ? 0x20 : 0);
    if (e.tag < 31) b.push_back(lead | e.tag);
    else { b.push_back(lead | 31); int n = 1; while (n < 8 && (e.tag >> (7 * n))) n++; for (int i = n - 1; i >= 0; i--) b.push_back((e.tag >> (7 * i) & 127) | (i ? 128 : 0)); }
    put_len(b, c.size(), e.longform); b.insert(b.end(), c.begin(), c.end());
}
Bytes gen_oid(Rng &r) { Bytes b; static const uint8_t kn[][9] = { { 3, 0x55, 4, 8 }, { 3, 0x55, 4, 9 }, { 8, 3, 0xa2, 0x31, 5, 3, 1, 9, 1 }, { 1, 9 } }; if (r.chance(1, 3)) { auto &k = kn[r.below(4)]; b.assign(k + 1, k + 1 + k[0]); return b; }
    U n = 1 + r.below(8); for (U i = 0; i < n; i++) { U v = r.pow2ish((1ull << 40) - 1); int w = 1; while (v >> (7 * w)) w++; for (int j = w - 1; j >= 0; j--) b.push_back((v >> (7 * j) & 127) | (j ? 128 : 0)); } return b; }
El gen_el(Rng &r, int depth, U &left) {
    El e; e.cls = 0; e.cons = false; e.longform = r.chance(1, 8) ? 1 + r.below(2) : 0; U k = r.below(12); if (left) left--;
    if (k < 4 && depth < 12 && left) { e.tag = r.chance(1, 4) ? 17 : 16; e.cons = true; U n = r.below(5); for (U i = 0; i < n && left; i++) e.kids.push_back(gen_el(r, depth + 1, left)); return e; }
    if (k < 5) { e.tag = 6; e.body = gen_oid(r); return e; }
    if (k < 7) { static const U t[] = { 9, 2, 3 }; e.tag = t[r.below(3)]; }
    else if (k < 9) e.tag = r.chance(1, 2) ? 23 : 19;
    else { do { e.tag = r.chance(1, 5) ? 31 + r.pow2ish((1ull << 50) - 1) : r.below(31); } while (e.tag == 16 || e.tag == 17 || e.tag == 6); e.cls = r.chance(1, 3) ? 1 + r.below(3) : 0; e.cons = r.chance(1, 4); }
    U n = r.chance(1, 12) ? r.below(700) : r.below(12); if (r.chance(1, 120)) n = r.below(80000); bool txt = e.tag == 23 || e.tag == 19; for (U i = 0; i < n; i++) e.body.push_back(txt ? 32 + r.below(95) : r.next()); return e;
}
// the listing the file calls for, from an independent reader; amb: outside what the statement settles
struct Want { U off, len; int depth; bool cons; U tag; std::string text; bool has_text; };
struct DerRef {
    const Bytes &b; std::vector<Want> out; bool amb = false; DerRef(const Bytes &x) : b(x) { }
    bool one(U &pos, U lim, int depth) {
        if (depth > 200) { amb = true; return false; }
        if (pos >= lim) return false; uint8_t h = b[pos++]; U tag = h & 31; int cls = h >> 6; bool cons = h & 32;
        if (tag == 31) { tag = 0; int n = 0; for (;;) { if (pos >= lim) { if (pos < b.size()) amb = true; return false; } uint8_t c = b[pos++]; if (++n > 8) return false; tag = tag << 7 | (c & 127); if (!(c & 128)) break; } if (tag < 31) return false; }
        if (pos >= lim) { if (pos < b.size()) amb = true; return false; }
        uint8_t l = b[pos++]; U len = l & 127;
        if (l & 128) { int n = len; if (n == 0) return false; if (n > 8) { amb = true; return false; } len = 0; for (int i = 0; i < n; i++) { if (pos >= lim) { if (pos < b.size()) amb = true; return false; } len = len << 8 | b[pos++]; } }
        if (len > lim - pos) return false;
        Want w; w.off = pos; w.len = len; w.depth = depth; w.cons = cons; w.tag = tag; w.has_text = false;
        bool seq = tag == 16 || tag == 17; if (seq && (cls || !cons)) amb = true;      // the tool looks at the number only
        if (tag == 6 && !cls) { w.text = oid(pos, len, w.has_text); if (len == 0 || (b[pos + len - 1] & 128)) amb = true; } else if (tag == 6) amb = true;
        if ((tag == 9 || tag == 2 || tag == 3)) { w.has_text = true; w.text = "{"; char t[4]; for (U i = 0; i < len; i++) { snprintf(t, 4, "%02x", b[pos + i]); if (i) w.text += ","; w.text += t; } w.text += "}"; }
        if (tag == 23 || tag == 19) { bool plain = true; for (U i = 0; i < len; i++) if (b[pos + i] < 32 || b[pos + i] > 126) plain = false; if (plain) { w.has_text = true; w.text = "\"" + std::string(b.begin() + pos, b.begin() + pos + len) + "\""; } else amb_text = true; }
        out.push_back(w);
        if (seq) { U end = pos + len; while (pos < end) if (!one(pos, end, depth + 1)) return false; }
        else pos += len;
        return true;
    }
    bool amb_text = false;
    std::string oid(U pos, U len, bool &ok) {
        std::vector<U> c; U v = 0; int n = 0; ok = true; for (U i = 0; i < len; i++) { uint8_t x = b[pos + i]; if (n == 0 && x == 0x80) ok = false; if (++n > 8) ok = false; v = v << 7 | (x & 127); if (!(x & 128)) { c.push_back(v); v = 0; n = 0; } }
        if (n || c.empty() || c.size() + 1 > 15) ok = false; if (!ok) return "";
        std::string s; U f = c[0] < 40 ? 0 : c[0] < 80 ? 1 : 2; s = "(" + std::to_string(f) + "." + std::to_string(c[0] - 40 * f); for (size_t i = 1; i < c.size(); i++) s += "." + std::to_string(c[i]); return s + ")";
    }
};
void run_c19(const Plan &p) {
    Proc *h = proc_default(); (void)h; Bytes b; U nth = 0;
    for (auto &l : p.lines) {
        if (l.verb == "file") { Rng r(l.num("seed")); b.clear(); U n = l.num("n", 1); for (U i = 0; i < n; i++) { U left = l.num("size", 10); put_el(b, gen_el(r, 0, left)); }
            if (l.num("deep")) { U d = l.num("deep"); std::reverse(b.begin(), b.end()); for (U i = 0; i < d; i++) { Bytes c; c.push_back(i & 1 ? 0x31 : 0x30); put_len(c, b.size(), 0); b.insert(b.end(), c.rbegin(), c.rend()); } std::reverse(b.begin(), b.end()); } }
        if (l.verb == "noise") { Rng r(l.num("seed")); b.resize(l.num("len")); for (auto &x : b) x = r.chance(1, 3) ? 0x30 : r.chance(1, 4) ? r.below(40) : r.next(); }
        if (l.verb == "hurt" && b.size()) { U k = l.num("k"), a = l.num("a"), v = l.num("v"); switch (k) { case 0: b[a % b.size()] ^= 1 << (v & 7); break; case 1: b[a % b.size()] = v; break; case 2: b.resize(a % b.size()); break; case 3: b.insert(b.begin() + a % (b.size() + 1), 1 + v % 9, (uint8_t)(v >> 8)); break; case 4: b.erase(b.begin() + a % b.size(), b.begin() + std::min<size_t>(b.size(), a % b.size() + 1 + v % 9)); break; case 5: { size_t i = a % b.size(); b[i] = 0x80 | (v & 15); break; } case 6: b[a % b.size()] = 0x1f | (v & 0xe0); break;
            case 7: { size_t i = a % b.size(); U len = -(U)(v % (i + 24)); b[i] = 0x88; Bytes o; for (int q = 7; q >= 0; q--) o.push_back(len >> (8 * q)); b.insert(b.begin() + i + 1, o.begin(), o.end()); probe("lengths near 2^64"); break; } } }
        if (l.verb != "list") continue;
        std::string path = "/sim/der" + std::to_string(nth++); bool absent = l.num("absent"); if (!absent) vfs_put(path, b);
        if (U us = l.num("usage")) {
            Run r; r.args = { "asn1tool" }; if (us == 2) r.args.push_back("--dump"); if (us == 3) r.args.push_back("--list"); if (us == 3) r.args.push_back(path); if (us == 4) r.args = { "asn1tool", "--dump", path, path }; if (us == 5) r.args = { "asn1tool", path, "--dump" };
            r.prep(proc_new()); exec({ &r }, asn1tool_main); op_done(); if (r.o.st == T_CRASHED) { REQUIRE(r.o.injected, "crash", "the lister crashed: %s", r.o.why.c_str()); continue; }
            REQUIRE(r.o.code != 0, "false-success", "the lister exited with success although its arguments are not '--dump <file>'"); probe("wrong arguments refused"); continue;
        }
        DerRef d(b); U pos = 0; bool wf = !b.empty() && !absent; while (wf && pos < b.size()) if (!d.one(pos, b.size(), 0)) wf = false;
        bool amb = d.amb || (b.empty() && !absent);
        Run r; r.args = { "asn1tool", "--dump", path }; r.prep(proc_new()); exec({ &r }, asn1tool_main); op_done();
        if (!absent) REQUIRE(vfs_get(path) == b || r.faults, "input-modified", "the lister changed its input");
        if (!proc_alloc_faulted(r.p)) REQUIRE(proc_open_fds(r.p) == 0, "handle-leak", "files left open");
        if (r.o.st == T_CRASHED) { REQUIRE(r.o.injected, "crash", "the lister crashed: %s", r.o.why.c_str()); continue; }
        if (r.o.code != 0) { REQUIRE(r.faults || !wf || amb, "refused", "a well-formed file of %zu bytes was not listed (exit %d)", b.size(), r.o.code); probe("listings refused"); continue; }
        Bytes nowb = vfs_get(path); if (nowb != b) { probe("file changed while being read"); continue; }
        if (amb) { probe("listings outside the statement"); continue; }
        REQUIRE(wf, "false-success", "the lister exited with success on a file that is %s", absent ? "missing" : "not well-formed");
        // the listing itself
        size_t at = 0; U k = 0; probe("listings compared", 1);
        for (auto &e : d.out) {
            char t[200]; std::string ind(2 * e.depth, ' '); snprintf(t, sizeof t, "[%5llu;%-5llu]", (unsigned long long)e.off, (unsigned long long)e.len); std::string want = t + ind + "|-" + (e.cons ? "*" : " ");
            REQUIRE(r.out.compare(at, want.size(), want) == 0, "wrong-line", "element %llu: expected '%s', printed '%.60s'", (unsigned long long)k, want.c_str(), r.out.substr(at, 60).c_str());
            at += want.size(); const char *nm = asn1_tag_name(e.tag); REQUIRE(r.out.compare(at, strlen(nm), nm) == 0, "wrong-line", "element %llu is a %s, printed '%.30s'", (unsigned long long)k, nm, r.out.substr(at, 30).c_str());
            size_t eol; if (e.has_text && (e.tag == 23 || e.tag == 19)) { size_t q = r.out.find('"', at); REQUIRE(q != std::string::npos && r.out.compare(q, e.text.size() + 1, e.text + "\n") == 0, "wrong-line", "element %llu: the text is not %s", (unsigned long long)k, e.text.c_str()); eol = q + e.text.size(); }
            else if ((e.tag == 23 || e.tag == 19)) { size_t q = r.out.find('"', at); std::string w = "\"" + std::string(b.begin() + e.off, b.begin() + e.off + e.len) + "\"\n"; if (q == std::string::npos || r.out.compare(q, w.size(), w)) { probe("unprintable text not compared"); return; } eol = q + w.size() - 1; }
            else { eol = r.out.find('\n', at); REQUIRE(eol != std::string::npos, "wrong-line", "line of element %llu is not complete", (unsigned long long)k); std::string ln = r.out.substr(at, eol - at); if (e.has_text) { REQUIRE(ln.size() >= e.text.size() && ln.compare(ln.size() - e.text.size(), e.text.size(), e.text) == 0, "wrong-line", "element %llu shows '%.120s', its content is %.120s", (unsigned long long)k, ln.c_str(), e.text.c_str()); } }
            at = eol + 1; k++;
        }
        REQUIRE(at == r.out.size(), "extra-output", "the lister printed more than the file's elements: '%.60s'", r.out.substr(at, 60).c_str());
        probe("elements compared", k);
    }
}
void gen_c19(Rng &r, Plan &p, bool th) {
    gen_mem(r, p);
    U nf = 1 + r.below(3), proc = 1; bool faults = r.chance(1, 3);
    for (U i = 0; i < nf; i++) {
        if (r.chance(1, 5)) p.add("noise").set("seed", r.next()).set("len", r.pow2ish(600));
        else p.add("file").set("seed", r.next()).set("n", 1 + r.below(3)).set("size", r.chance(1, 8) ? r.below(200) : 1 + r.below(20)).set("deep", r.chance(1, 10) ? r.pow2ish(r.chance(1, 6) ? 30000 : 700) : 0);
        if (r.chance(1, 2)) p.add("list").set("absent", (U)0); 
        U nh = r.chance(1, 3) ? 0 : 1 + r.below(4); for (U k = 0; k < nh; k++) { p.add("hurt").set("k", r.below(8)).set("a", r.chance(1, 2) ? r.below(12) : r.next() >> 8).set("v", r.next() >> 40); if (r.chance(1, 2)) p.add("list").set("absent", (U)0); }
        p.add("list").set("absent", r.chance(1, 20) ? 1 : (U)0); if (r.chance(1, 16)) p.lines.back().set("usage", 1 + r.below(5));
    }
    if (faults) { U n = 1 + r.below(2); for (U i = 0; i < n; i++) gen_fault(r, p, r.chance(1, 2) ? (int)(1 + r.below(4)) : -1, F_OPEN | F_READ | F_CLOSE | F_STAT | F_ALLOC | F_SHORT | F_CORRUPT); }
    if (r.chance(1, 8)) gen_fault(r, p, (int)(1 + r.below(3)), F_CONS);      // the listing cannot be printed
}
Register r19("C19", gen_c19, run_c19);
}
