// Database save / load under I/O faults, torn files, corruption, growth histories.
#include "dbm.h"
#include <deque>
using namespace sim; using namespace dbm;

namespace {
struct Ref {                       // independent model of one database
    Snap s; bool ordinary() const { return s.builtin && s.n.size() > s.builtin && s.root == s.builtin; }
};
struct Slot { decl_db *db = nullptr; Ref ref; std::vector<std::pair<decl_ref, u32>> handles; };

struct World {
    // deque: pointers to slots stay valid while others are added
    std::deque<Slot> slots; Proc *proc; Snap builtins; size_t bnames = 0; U incarnation = 0;
    std::map<std::string, std::vector<Snap>> files;    // acceptable contents per path if a load succeeds
    std::map<std::string, bool> acked; std::vector<Bytes> blobs; std::vector<Snap> blobsnap;
    World() { boot(); }
    void boot() {
        slots.clear(); proc = incarnation++ ? proc_new() : proc_default();
        call([&] { decl_db *d = crefl_db_new(); crefl_db_defaults(d); builtins = snap(d); bnames = d->name_builtin; crefl_db_destroy(d); }, nullptr_proc());
    }
    Proc *nullptr_proc() { static thread_local Proc *p; p = proc_new(); return p; }
    void dead() { event("process died, restarting"); probe("process restarts"); boot(); }
    // one library call; false if the process died of an injected cause
    bool sut(const char *what, std::function<void()> f) {
        size_t fds = proc_open_fds(proc);
        Outcome o = call(f, proc);
        if (o.st == T_CRASHED && o.injected) { dead(); return false; }
        REQUIRE(o.st != T_CRASHED, "crash", "%s crashed: %s", what, o.why.c_str());
        REQUIRE(o.st == T_DONE, "exit", "%s ended the whole process (exit code %d)", what, o.code);
        REQUIRE(proc_open_fds(proc) == fds, "handle-leak", "%s left %zu file handle(s) open", what, proc_open_fds(proc) - fds);
        return true;
    }
    void check(Slot &s, const char *cls, const char *when) {
        Snap now = snap(s.db); std::string d = diff(s.ref.s, now);
        REQUIRE(d.empty(), cls, "%s: expected vs actual: %s", when, d.c_str());
    }
    Slot *pick(U a) { std::vector<Slot *> v; for (auto &s : slots) if (s.db) v.push_back(&s); return v.empty() ? nullptr : v[a % v.size()]; }
};

std::string rnd_name(Rng &r, U style) {
    static const char *common[] = { "a", "size", "value", "next", "struct_name", "x" };
    if (r.chance(1, 8)) return "";
    if (style == 0) return common[r.below(6)];
    if (style == 4) { U m = 1 + r.pow2ish(150000); std::string s(m, 'a'); for (U i = 0; i < 8 && i < m; i++) s[r.below(m)] = 'b' + r.below(20); return s; }
    U n = style == 1 ? 1 + r.below(12) : style == 2 ? 1 + r.below(300) : 1 + r.below(4000);
    std::string s; for (U i = 0; i < n; i++) s += (char)(style == 3 && r.chance(1, 4) ? 0x80 + r.below(0x7f) : 'A' + r.below(57));
    return s;
}
// adds nodes with arbitrary but in-bounds references
void build(World &w, Slot &s, U count, U seed, U style) {
    Rng r(seed); decl_db *db = s.db; auto &n = s.ref.s.n; auto &hs = s.handles; auto &ref = s.ref.s;
    w.sut("building", [&, count, style] {
        for (U i = 0; i < count; i++) {
            u32 tag = 1 + r.below(18); std::string nm = rnd_name(r, style);
            U order = r.below(3); decl_ref h; u32 nid = 0;
            u32 from = r.chance(1, 8) ? r.below(n.size()) : 0;       // named like another declaration of the database, by its own name
            if (from) nm = n[from].name;
            auto name = [&] { nid = crefl_name_new(db, from ? crefl_decl_name(crefl_lookup(db, from)) : nm.c_str()); };
            if (order == 0) { name(); h = crefl_decl_new(db, tag); }
            else { h = crefl_decl_new(db, tag); name(); }
            decl_node *p = crefl_decl_ptr(h);
            Node fresh; fresh.tag = tag;     // a new declaration starts blank
            REQUIRE(p->_tag == tag && p->_props == 0 && p->_name == 0 && p->_next == 0 && p->_link == 0 && p->_attr == 0 && p->_quantity == 0, "fresh-node", "a new declaration does not start blank");
            REQUIRE(crefl_decl_idx(h) == n.size(), "handle", "new declaration got index %u, expected %zu", crefl_decl_idx(h), n.size());
            Node m; m.tag = tag; m.name = nm; p->_name = nid;
            m.props = p->_props = r.next() & 0x1ffffff; m.qty = p->_quantity = r.chance(1, 2) ? r.below(256) : r.next();
            if (r.chance(2, 3)) m.next = p->_next = r.below(n.size() + 1);
            if (r.chance(2, 3)) m.link = p->_link = r.below(n.size() + 1);
            if (r.chance(1, 4)) m.attr = p->_attr = r.below(n.size() + 1);
            n.push_back(m);
            if (ref.root == 0) { db->root_element = n.size() - 1; ref.root = n.size() - 1; }
            if (r.chance(1, 6)) hs.push_back({ h, (u32)n.size() - 1 });
        }
    });
}
void edit(World &w, Slot &s, U count, U seed) {
    Rng r(seed); decl_db *db = s.db; auto &n = s.ref.s.n; size_t lo = s.ref.s.builtin;
    if (n.size() <= lo) return;
    w.sut("editing", [&] {
        for (U i = 0; i < count; i++) {
            u32 k = lo + r.below(n.size() - lo); Node &m = n[k]; decl_ref h = crefl_lookup(db, k);
            switch (r.below(5)) {
            case 0: { std::string nm = rnd_name(r, r.below(3)); u32 from = r.chance(1, 4) ? r.below(n.size()) : 0; if (from) nm = n[from].name; u32 id = crefl_name_new(db, from ? crefl_decl_name(crefl_lookup(db, from)) : nm.c_str()); crefl_decl_ptr(h)->_name = id; m.name = nm; break; }
            case 1: m.qty = crefl_decl_ptr(h)->_quantity = r.next(); break;
            case 2: m.next = crefl_decl_ptr(h)->_next = r.below(n.size()); break;
            case 3: m.link = crefl_decl_ptr(h)->_link = r.below(n.size()); break;
            case 4: m.props = crefl_decl_ptr(h)->_props = r.next() & 0x1ffffff; break;
            }
        }
    });
}
Slot *new_slot(World &w, bool defaults) {
    Slot s; w.slots.push_back(s); Slot *q = &w.slots.back(); decl_db *db = nullptr;
    if (!w.sut("creating", [&] { db = crefl_db_new(); if (defaults) crefl_db_defaults(db); })) return nullptr;
    q->db = db;
    if (defaults) q->ref.s = w.builtins; else { q->ref.s.n.resize(1); q->ref.s.builtin = 1; }
    return q;
}
void destroy(World &w, Slot *s) { decl_db *db = s->db; if (w.sut("destroying", [&] { crefl_db_destroy(db); })) { s->db = nullptr; } }

// after a refused load: the same declarations, and an image of the same size
std::string same(const Snap &before, size_t size, decl_db *db) {
    std::string d = diff(before, snap(db)); size_t now = crefl_db_size(db);
    if (d.empty() && now != size) d = "its image would take " + std::to_string(now) + " bytes, not " + std::to_string(size);
    return d;
}
// after a successful load, the database must be exactly one of the acceptable contents
void check_loaded(World &w, Slot &s, const std::vector<Snap> &ok, const char *cls, const char *what) {
    Snap now = snap(s.db); std::string why;
    for (auto &o : ok) { std::string d = diff(o, now); if (d.empty()) { s.ref.s = now; return; } why = d; }
    REQUIRE(false, cls, "%s succeeded but the database is not what was saved: %s", what, ok.empty() ? "nothing complete was ever saved there" : why.c_str());
}
bool complete(World &w, const Bytes &b, Snap &out) { std::string e; return decode(b, w.builtins, w.bnames, out, e) && out.n.size() > out.builtin && out.root == out.builtin; }

// where to cut an image: at the end of a part of it (1), behind one of its names (2), somewhere near its end (3)
size_t cut_at(const Bytes &b, U c, U style) {
    if (b.size() < 21) return c % b.size(); size_t cnt = get32(&b[8]), names = std::min<size_t>(b.size(), 20 + cnt * 32);
    if (style == 1) { size_t e[] = { 0, 8, 12, 16, 19, 20, 20 + c / 8 % (cnt + 1) * 32, names, b.size() - 1 }; size_t x = e[c % 9]; return x < b.size() ? x : b.size() - 1; }
    if (style == 2) { std::vector<size_t> e; for (size_t i = names; i + 1 < b.size(); i++) if (!b[i]) e.push_back(i + 1); if (!e.empty()) return e[c & 1 ? e.size() - 1 - (c >> 1) % std::min<size_t>(e.size(), 3) : (c >> 1) % e.size()]; }
    return b.size() - 1 - c % std::min<size_t>(b.size() - 1, 40);
}
void save_file(World &w, Slot &s, const std::string &path) {
    Ref ref = s.ref; U f0 = fault_fired_total(); int ret = -99; decl_db *db = s.db; std::vector<Snap> before = w.files[path];
    Bytes oldb = vfs_get(path); bool existed = vfs_exists(path);
    bool alive = w.sut("saving", [&] { ret = crefl_db_write_file(db, path.c_str()); });
    bool faulted = fault_fired_total() != f0; op_done();
    event("save %s -> %d faulted=%d", path.c_str(), ret, faulted);
    if (!alive) { w.files[path].push_back(ref.s); w.acked[path] = false; return; }
    if (ret == 0) {
        Snap got; std::string e; Bytes b = vfs_get(path);
        bool dec = decode(b, w.builtins, w.bnames, got, e); std::string d = dec ? diff(ref.s, got) : e;
        // root and builtins are stored as they are
        if (dec && !ref.ordinary()) d = "";
        REQUIRE(d.empty(), "ack-not-on-disk", "save reported success but the file does not hold the database: %s (%zu bytes on disk)", d.c_str(), b.size());
        w.files[path] = { ref.s }; w.acked[path] = true; probe("saves acknowledged");
    } else {
        REQUIRE(faulted, "spurious-failure", "save failed (%d) although no I/O fault happened", ret);
        w.files[path].push_back(ref.s); w.acked[path] = false; probe("saves failed under fault");
    }
    if (s.db) w.check(s, "save-changed-db", "after save");
    (void)existed;
}
bool faulted_again(World &w, const std::string &path, Slot *into) {
    Bytes pre = vfs_get(path); Snap want; bool whole = complete(w, pre, want); if (!whole) return true;
    U f0 = fault_fired_total(); int ret = -99; decl_db *db = into->db;
    if (!w.sut("loading again", [&] { ret = crefl_db_read_file(db, path.c_str()); })) return true;
    if (ret != 0) { REQUIRE(fault_fired_total() != f0, "spurious-failure", "a second load into the same database failed although the file is complete and the fault is over"); return true; }
    std::string d = diff(want, snap(db)); REQUIRE(d.empty(), "wrong-load", "a load after a failed one gave something else: %s", d.c_str());
    into->ref.s = want; probe("loads retried after a failure"); return false;
}
void load_file(World &w, const std::string &path, Slot *into) {
    Bytes pre = vfs_get(path); Snap want; bool whole = complete(w, pre, want); U f0 = fault_fired_total(); int ret = -99;
    bool fresh = !into; if (fresh) { into = new_slot(w, false); if (!into) return; }
    decl_db *db = into->db; Snap before = into->ref.s; size_t size0 = crefl_db_size(db);
    if (!w.sut("loading", [&] { ret = crefl_db_read_file(db, path.c_str()); })) return;
    bool faulted = fault_fired_total() != f0; op_done();
    event("load %s -> %d faulted=%d whole=%d", path.c_str(), ret, faulted, whole);
    if (ret == 0) {
        if (!pre.empty() && pre.size() >= 20 && get32(&pre[8]) == 0) { if (fresh) destroy(w, into); else into->ref.s = snap(db); return; }
        std::vector<Snap> ok; if (whole) ok.push_back(want);
        if (!whole) REQUIRE(false, "torn-accepted", "load of %s reported success although the file is incomplete (%zu bytes) or absent", path.c_str(), pre.size());
        check_loaded(w, *into, ok, "wrong-load", "load");
        auto &cand = w.files[path]; bool known = false; for (auto &c : cand) if (diff(c, want).empty()) known = true;
        REQUIRE(known, "mixture-accepted", "load returned a database that was never saved to %s", path.c_str());
        probe("loads succeeded");
    } else {
        if (fresh && whole) REQUIRE(faulted, "spurious-failure", "load failed (%d) although the file is complete and no I/O fault happened", ret);
        std::string d = same(before, size0, db);
        REQUIRE(d.empty(), "failed-load-changed-db", "a failed load changed the database it was loading into: %s", d.c_str());
        probe(whole ? "loads failed under fault" : "incomplete files rejected");
        if (fresh && into->db) {
            // the same database can be used for another attempt, which succeeds once the faults are over
            U inc = w.incarnation; if (whole) faulted_again(w, path, into);
            if (w.incarnation == inc) destroy(w, into);
        }
    }
}
void save_mem(World &w, Slot &s, U slack) {
    size_t sz = 0; int ret = -99; Ref ref = s.ref; decl_db *db = s.db; Bytes buf; U small = 0;
    if (!w.sut("sizing", [&] { sz = crefl_db_size(db); })) return;
    size_t cap = slack % 3 == 0 ? sz : slack % 3 == 1 ? sz + 1 + slack % 37 : (sz ? sz - 1 - (slack / 3) % sz : 0); small = cap < sz;
    Bytes guard(cap + 64, 0xEE); uint8_t *heap = (uint8_t *)malloc(cap ? cap : 1); memset(heap, 0xEE, cap);
    if (!w.sut("saving to memory", [&] { ret = crefl_db_write_mem(db, heap, cap); })) return;
    buf.assign(heap, heap + cap); free(heap); op_done();
    event("save_mem cap=%zu size=%zu -> %d", cap, sz, ret);
    if (small) {
        REQUIRE(ret != 0, "small-accepted", "save into a %zu byte buffer reported success, the database needs %zu", cap, sz);
        for (auto c : buf) REQUIRE(c == 0xEE, "small-written", "a refused save modified the destination");
        probe("undersized destinations refused"); return;
    }
    REQUIRE(ret == 0, "spurious-failure", "save into a big enough buffer failed");
    Bytes exact(buf.begin(), buf.begin() + sz); for (size_t i = sz; i < cap; i++) REQUIRE(buf[i] == 0xEE, "overrun", "save wrote past the size it declared");
    Snap got; std::string e; bool dec = decode(exact, w.builtins, w.bnames, got, e); std::string d = dec ? (ref.ordinary() ? diff(ref.s, got) : "") : e;
    REQUIRE(d.empty(), "roundtrip", "saved bytes do not hold the database: %s", d.c_str());
    w.blobs.push_back(exact); w.blobsnap.push_back(ref.s);
    w.check(s, "save-changed-db", "after save to memory");
}
void load_mem(World &w, U which, U cut, U resave, U style = 0) {
    if (w.blobs.empty()) return; Bytes b = w.blobs[which % w.blobs.size()]; Snap want = w.blobsnap[which % w.blobs.size()];
    if (style && !b.empty()) cut = b.size() - cut_at(b, cut, style);
    bool torn = cut && cut <= b.size(); if (torn) b.resize(b.size() - cut);
    Slot *s = new_slot(w, false); if (!s) return; decl_db *db = s->db; Snap before = s->ref.s; int ret = -99; size_t size0 = crefl_db_size(db);
    uint8_t *heap = (uint8_t *)malloc(b.size() ? b.size() : 1); memcpy(heap, b.data(), b.size()); size_t n = b.size();
    bool ok = w.sut("loading from memory", [&] { ret = crefl_db_read_mem(db, heap, n); });
    memset(heap, 0xDD, n); free(heap);        // the database must not keep pointing into the caller's buffer
    if (!ok) return; op_done();
    event("load_mem %zu torn=%d -> %d", n, torn, ret);
    bool ordinary = want.n.size() > want.builtin && want.root == want.builtin && want.builtin == w.builtins.builtin;
    if (torn) {
        REQUIRE(ret != 0, "torn-accepted", "load reported success on a database cut short by %llu of %llu bytes", (unsigned long long)cut, (unsigned long long)(n + cut));
        std::string d = same(before, size0, db); REQUIRE(d.empty(), "failed-load-changed-db", "a failed load changed the database: %s", d.c_str());
        probe("torn images rejected"); destroy(w, s); return;
    }
    if (ret != 0) { REQUIRE(!ordinary, "spurious-failure", "load of an intact saved database failed"); std::string d = same(before, size0, db); REQUIRE(d.empty(), "failed-load-changed-db", "a failed load changed the database: %s", d.c_str()); destroy(w, s); return; }
    if (want.n.size() <= want.builtin) { destroy(w, s); return; }
    check_loaded(w, *s, { want }, "roundtrip", "load");
    if (resave) {
        size_t sz = 0; Bytes again;
        if (!w.sut("saving again", [&] { sz = crefl_db_size(db); again.resize(sz); crefl_db_write_mem(db, again.data(), sz); })) return;
        REQUIRE(again == b, "resave-differs", "saving a loaded database does not give the same bytes (%zu vs %zu)", again.size(), b.size());
    }
}
void check_handles(World &w, Slot &s) {
    for (auto &h : s.handles) {
        if (h.second >= s.ref.s.n.size()) continue; const Node &m = s.ref.s.n[h.second]; decl_ref r = h.first; std::string nm; u32 tag = 0; u64 q = 0; u32 nx = 0, lk = 0, at = 0, pr = 0;
        if (!w.sut("using a handle", [&] { nm = crefl_decl_name(r); tag = crefl_decl_tag(r); q = crefl_decl_qty(r); pr = crefl_decl_props(r); nx = crefl_decl_idx(crefl_decl_next(r)); lk = crefl_decl_idx(crefl_decl_link(r)); at = crefl_decl_idx(crefl_decl_attr(r)); })) return;
        REQUIRE(nm == m.name && tag == m.tag && q == m.qty && nx == m.next && lk == m.link && at == m.attr && pr == m.props, "handle", "a handle taken earlier no longer denotes its declaration (index %u)", h.second);
    }
}
std::string path_of(U k) { return "/sim/f" + std::to_string(k % 3) + ".refl"; }
enum { OP_NEW, OP_BUILD, OP_EDIT, OP_SAVEF, OP_LOADF, OP_SAVEM, OP_LOADM, OP_DESTROY, OP_RELOAD, OP_HANDLES, OP_POWER, OP_CUTFILE };
void run_db(const Plan &p) {
    World w; Bytes lastold;
    for (auto &l : p.lines) {
        if (l.verb != "op") continue;
        U k = l.num("k"), a = l.num("a"), b = l.num("b"), c = l.num("c"), d = l.num("d");
        size_t inc = w.incarnation;
        Slot *s = w.pick(a);
        switch (k) {
        case OP_NEW: if (w.slots.size() < 24) new_slot(w, true); break;
        case OP_BUILD: if (!s) s = new_slot(w, true); if (s) build(w, *s, b, c, d); break;
        case OP_EDIT: if (s) edit(w, *s, b, c); break;
        case OP_SAVEF: if (s) save_file(w, *s, path_of(b)); break;
        case OP_LOADF: load_file(w, path_of(b), nullptr); break;
        case OP_RELOAD: if (s) load_file(w, path_of(b), s); break;
        case OP_SAVEM: if (s) save_mem(w, *s, b); break;
        case OP_LOADM: load_mem(w, b, c, d & 1, d >> 1); break;
        case OP_DESTROY: if (s) destroy(w, s); break;
        case OP_HANDLES: if (s) check_handles(w, *s); break;
        case OP_POWER: if (vfs_exists(path_of(b)) && !w.acked[path_of(b)]) power_loss(path_of(b), 1, c, lastold); break;
        case OP_CUTFILE: {   // the file is cut short behind the library's back (crashed copy, full disk)
            std::string pa = path_of(b); Bytes x = vfs_get(pa); if (x.empty()) break; x.resize(d ? cut_at(x, c, d) : c % x.size()); vfs_put(pa, x); event("cut %s to %zu", pa.c_str(), x.size()); break; }
        }
        if (w.incarnation == inc && (k == OP_BUILD || k == OP_EDIT || k == OP_NEW)) { if (s && s->db) w.check(*s, "db-state", "after building"); if (Slot *o = w.pick(c >> 7)) if (o != s) w.check(*o, "db-state", "after building another database"); }
    }
    for (auto &q : w.slots) if (q.db) { w.check(q, "db-state", "at the end"); check_handles(w, q); }
    std::vector<Slot *> v; for (auto &q : w.slots) if (q.db) v.push_back(&q);
    for (auto q : v) if (q->db) { size_t inc = w.incarnation; destroy(w, q); if (w.incarnation != inc) break; }
}
void op(Plan &p, U k, U a, U b, U c, U d) { p.add("op").set("k", k).set("a", a).set("b", b).set("c", c).set("d", d); }
void gen_common(Rng &r, Plan &p) { gen_mem(r, p); }
U bstyle(Rng &r) { return r.chance(1, 40) ? 4 : r.below(4); }
U bsize(Rng &r, bool th) { return r.chance(1, 10) ? r.below(th ? 3000 : 700) : r.chance(1, 3) ? 1 + r.below(80) : 1 + r.below(8); }

void build_op(Rng &r, Plan &p, bool th, U slot) { if (r.chance(1, 5000)) op(p, OP_BUILD, slot, 65000 + r.below(3000), r.next(), 1); else { U st = bstyle(r); op(p, OP_BUILD, slot, st == 4 ? 1 + r.below(4) : bsize(r, th), r.next(), st); } }
// C01: save/load histories, mostly fault-free; a third of the runs carry faults
void gen_c01(Rng &r, Plan &p, bool th) {
    gen_common(r, p);
    if (r.chance(1, 3)) { U n = 1 + r.below(3); for (U i = 0; i < n; i++) gen_fault(r, p, -1, F_WRITE | F_READ | F_SHORT | F_CLOSE | F_CRASH | F_CAP | F_OPEN | F_STAT); if (r.chance(1, 3)) gen_fault(r, p, -1, F_META); }
    U n = 4 + r.below(th ? 40 : 18);
    op(p, OP_NEW, 0, 1, 0, 0); build_op(r, p, th, 0);
    for (U i = 0; i < n; i++) {
        U x = r.below(100);
        if (x < 8) op(p, OP_NEW, 0, 1, 0, 0);
        else if (x < 30) build_op(r, p, th, r.below(8));
        else if (x < 38) op(p, OP_EDIT, r.below(8), 1 + r.below(10), r.next(), 0);
        else if (x < 50) op(p, OP_SAVEF, r.below(8), r.below(3), 0, 0);
        else if (x < 62) op(p, OP_LOADF, 0, r.below(3), 0, 0);
        else if (x < 78) op(p, OP_SAVEM, r.below(8), r.below(1000), 0, 0);
        else if (x < 92) op(p, OP_LOADM, 0, r.below(1000), 0, 1);
        else if (x < 95) op(p, OP_DESTROY, r.below(8), 0, 0, 0);
        else op(p, OP_HANDLES, r.below(8), 0, 0, 0);
    }
}
// C02: every run injects I/O faults into saves and loads
void gen_c02(Rng &r, Plan &p, bool th) {
    gen_common(r, p);
    U n = 1 + r.below(4); for (U i = 0; i < n; i++) gen_fault(r, p, r.chance(1, 2) ? 0 : -1, r.chance(1, 8) ? (U)F_ALLOC : (F_OPEN | F_READ | F_WRITE | F_CLOSE | F_STAT | F_SHORT | F_CAP));
    if (r.chance(1, 3)) gen_fault(r, p, -1, F_META);
    if (r.chance(1, 4)) gen_fault(r, p, -1, F_CORRUPT);
    for (auto &l : p.lines) if (l.verb == "fault" && (l.str("act") == "flip" || l.str("act") == "grow")) l.set("call", "read").set("act", "eof");
    op(p, OP_NEW, 0, 1, 0, 0); build_op(r, p, th, 0);
    U m = 3 + r.below(th ? 20 : 10);
    for (U i = 0; i < m; i++) {
        U x = r.below(10);
        if (x < 5) op(p, OP_SAVEF, r.below(4), r.below(2), 0, 0);
        else if (x < 8) op(p, OP_LOADF, 0, r.below(2), 0, 0);
        else if (r.chance(1, 2)) op(p, OP_EDIT, r.below(4), 1 + r.below(3), r.next(), 0);
        else build_op(r, p, th, r.below(4));
    }
    op(p, OP_LOADF, 0, 0, 0, 0); op(p, OP_LOADF, 0, 1, 0, 0);
}
// C03: crash, power loss, truncation: incomplete files
void gen_c03(Rng &r, Plan &p, bool th) {
    gen_common(r, p);
    U n = r.below(4); for (U i = 0; i < n; i++) gen_fault(r, p, -1, F_CRASH | F_WRITE | F_CAP | F_CLOSE);
    if (r.chance(1, 3)) gen_fault(r, p, -1, F_META);
    if (r.chance(1, 3)) { p.add("fault").set("call", "fstat").set("act", "trunc").set("n", r.below(4)).set("arg", r.next() >> 8); }
    if (r.chance(1, 4)) { p.add("fault").set("call", "read").set("act", "eof").set("n", r.below(5)); }
    op(p, OP_NEW, 0, 1, 0, 0); build_op(r, p, th, 0);
    U m = 4 + r.below(th ? 24 : 14);
    for (U i = 0; i < m; i++) {
        U x = r.below(100);
        if (x < 22) op(p, OP_SAVEF, r.below(4), r.below(2), 0, 0);
        else if (x < 40) { op(p, OP_CUTFILE, 0, r.below(2), r.next() >> 16, r.chance(1, 2) ? 0 : 1 + r.below(3)); op(p, OP_LOADF, 0, p.lines.back().num("b"), 0, 0); }
        else if (x < 52) { op(p, OP_POWER, 0, r.below(2), r.next() >> 16, 0); op(p, OP_LOADF, 0, p.lines.back().num("b"), 0, 0); }
        else if (x < 62) op(p, OP_RELOAD, r.below(4), r.below(2), 0, 0);
        else if (x < 72) op(p, OP_LOADF, 0, r.below(2), 0, 0);
        else if (x < 80) op(p, OP_SAVEM, r.below(4), r.below(2), 0, 0);
        else if (x < 92) op(p, OP_LOADM, 0, r.below(1000), 1 + (r.chance(1, 2) ? r.below(40) : r.below(20000)), r.chance(1, 2) ? 0 : 2 * (1 + r.below(3)));
        else if (x < 95) op(p, OP_EDIT, r.below(4), 1 + r.below(6), r.next(), 0);
        else build_op(r, p, th, r.below(4));
    }
}
// C16: growth histories over several databases; handles and names stay valid
void gen_c16(Rng &r, Plan &p, bool th) {
    gen_common(r, p);
    U n = 6 + r.below(th ? 40 : 24);
    for (U i = 0; i < n; i++) {
        U x = r.below(100);
        if (x < 12) op(p, OP_NEW, 0, 1, 0, 0);
        else if (x < 55) build_op(r, p, th, r.below(8));
        else if (x < 70) op(p, OP_EDIT, r.below(8), 1 + r.below(10), r.next(), 0);
        else if (x < 85) op(p, OP_HANDLES, r.below(8), 0, 0, 0);
        else if (x < 90) op(p, OP_SAVEM, r.below(8), 0, 0, 0);
        else if (x < 96) op(p, OP_LOADM, 0, r.below(1000), 0, 1);
        else op(p, OP_DESTROY, r.below(8), 0, 0, 0);
    }
}

// ---- C04: damaged bytes -----------------------------------------------------------------
static U g_bnames;
static void put_at(Bytes &b, size_t o, U v) { for (int j = 0; j < 4; j++) b[o + j] = v >> (8 * j); }
void mutate(Rng &r, Bytes &b) {
    U n = 1 + r.below(4);
    for (U i = 0; i < n && !b.empty(); i++) {
        U x = r.below(12); size_t at = r.below(b.size());
        if (x < 3) b[at] ^= 1 << r.below(8);
        else if (x < 4) { size_t m = std::min<size_t>(b.size() - at, 1 + r.below(64)); memset(&b[at], 0, m); }
        else if (x < 5) { size_t m = std::min<size_t>(b.size() - at, 1 + r.below(512)); for (size_t j = 0; j < m; j++) b[at + j] = r.next(); }
        else if (x < 7 && b.size() >= 20) { static const U v[] = { 0, 1, 0x7fffffff, 0xffffffff, 0x08000000, 22, 23, 24 }; U val = r.chance(1, 2) ? v[r.below(8)] : get32(&b[8 + 4 * r.below(3)]) + r.range(0, 8) - 4; size_t o = 8 + 4 * r.below(3); for (int j = 0; j < 4; j++) b[o + j] = val >> (8 * j); }
        else if (x < 10 && b.size() >= 52) { size_t cnt = (b.size() - 20) / 32; size_t o = 20 + 32 * r.below(cnt) + 4 * r.below(6); U val = r.chance(1, 3) ? (r.chance(1, 2) ? get32(&b[12]) : cnt) + r.below(400) : r.chance(1, 2) ? r.below(2 * cnt + 40) : r.chance(1, 2) ? (U)get32(&b[o]) + r.below(5) - 2 : r.next(); if (o + 4 <= b.size()) for (int j = 0; j < 4; j++) b[o + j] = val >> (8 * j); }
        else if (x < 11) b.resize(at);
        else { size_t m = 1 + r.below(64); for (size_t j = 0; j < m; j++) b.push_back(r.next()); if (!b.empty() && r.chance(1, 2)) b.back() = 'x'; }
    }
    // names run up to the last byte: un-terminate them
    if (r.chance(1, 6) && !b.empty()) b.back() = 'Z';
    if (r.chance(1, 12) && b.size() >= 52) {       // a name table of no or a few bytes
        size_t cnt = std::min<size_t>(get32(&b[8]), (b.size() - 20) / 32), k = r.below(4); b.resize(20 + 32 * cnt); put_at(b, 8, cnt); put_at(b, 12, k);
        U first = get32(&b[16]) ? g_bnames : 0; for (size_t i = 0; i < cnt; i++) put_at(b, 20 + 32 * i + 8, r.chance(1, 2) ? 0 : first + r.below(k + 1));
        for (size_t i = 0; i < k; i++) b.push_back(r.chance(1, 4) ? 0 : 'a' + i);
    }
}
// one reference moved to the edge of what is in range
void edge(Rng &r, Bytes &b, U bn, U bnames) {
    size_t cnt = get32(&b[8]), nsz = get32(&b[12]), f = r.below(4); size_t o = 20 + 32 * r.below(cnt) + (f == 3 ? 8 : 12 + 4 * f); U lim = f == 3 ? bnames + nsz : bn + cnt, val = lim + r.below(3) - 1;
    if (r.chance(1, 6)) { o = 16; val = bn + cnt + r.below(3) - 1; }
    for (int j = 0; j < 4; j++) b[o + j] = val >> (8 * j);
}
void run_c04(const Plan &p) {
    World w;
    for (auto &l : p.lines) {
        if (l.verb != "op") continue;
        Rng r(l.num("seed")); U nodes = l.num("n"), style = l.num("style"), mode = l.num("mode");
        // a saved image, built by the reference writer (independent of the code under test)
        Bytes img; { Snap s = w.builtins; Bytes names; put32(img, 0); img.clear(); const char *m = "crefl000"; img.assign(m, m + 8); Bytes decls;
            for (U i = 0; i < nodes; i++) { std::string nm = rnd_name(r, style); u32 id = nm.empty() ? 0 : w.bnames + names.size(); if (!nm.empty()) { names.insert(names.end(), nm.begin(), nm.end()); names.push_back(0); }
                put32(decls, 1 + r.below(18)); put32(decls, r.next() & 0xffffff); put32(decls, id); put32(decls, r.chance(1, 2) && i + 1 < nodes ? w.builtins.builtin + i + 1 : 0); put32(decls, r.below(w.builtins.builtin + nodes)); put32(decls, r.chance(1, 5) ? r.below(w.builtins.builtin + nodes) : 0); put32(decls, r.below(200)); put32(decls, 0); }
            put32(img, nodes); put32(img, names.size()); put32(img, w.builtins.builtin); img.insert(img.end(), decls.begin(), decls.end()); img.insert(img.end(), names.begin(), names.end()); }
        if (l.num("damage", 1)) { if (nodes && r.chance(1, 3)) edge(r, img, w.builtins.builtin, w.bnames); else { g_bnames = w.bnames; mutate(r, img); } }
        Slot *s = new_slot(w, false); if (!s) continue; decl_db *db = s->db; Snap before = s->ref.s; int ret = -99; size_t size0 = crefl_db_size(db);
        std::string path = "/sim/d.refl";
        if (mode == 0) { uint8_t *heap = (uint8_t *)malloc(img.size() ? img.size() : 1); memcpy(heap, img.data(), img.size()); if (!w.sut("loading damaged bytes", [&] { ret = crefl_db_read_mem(db, heap, img.size()); })) { free(heap); continue; } memset(heap, 0xDD, img.size()); free(heap); }
        else { vfs_put(path, img); if (!w.sut("loading a damaged file", [&] { ret = crefl_db_read_file(db, path.c_str()); })) continue; }
        op_done(); event("damaged load %zu bytes -> %d", img.size(), ret);
        if (ret == 0) {
            probe("damaged images accepted");
            if (fault_fired_total() == 0) REQUIRE(img.size() >= 8 && !memcmp(img.data(), "crefl000", 8), "wrong-mark", "load accepted %zu bytes that do not begin with the mark of the format", img.size());
            // accepted: every reference in bounds, every name terminated inside the table
            for (size_t i = 0; i < db->decl_offset; i++) {
                decl_node *d = db->decl + i;
                REQUIRE(d->_next < db->decl_offset && d->_link < db->decl_offset && d->_attr < db->decl_offset, "dangling", "load accepted damaged bytes: declaration %zu refers outside the database", i);
                REQUIRE(d->_name < db->name_offset, "dangling", "load accepted damaged bytes: name of declaration %zu lies outside the name table", i);
                REQUIRE(memchr(db->name + d->_name, 0, db->name_offset - d->_name), "unterminated", "load accepted damaged bytes: name of declaration %zu runs off the end of the name table", i);
            }
            REQUIRE(db->root_element < db->decl_offset, "dangling", "root outside the database");
            // walking accessors over every node stays in bounds and can be saved again
            size_t total = db->decl_offset;
            if (!w.sut("reading an accepted database", [&] { U h = 0; for (size_t i = 0; i < total; i++) { decl_ref d = crefl_lookup(db, i); h += strlen(crefl_decl_name(d)) + crefl_decl_tag(crefl_decl_link(d)) + crefl_decl_tag(crefl_decl_next(d)) + crefl_decl_tag(crefl_decl_attr(d)) + strlen(crefl_tag_name(crefl_decl_tag(d))); } size_t sz = crefl_db_size(db); Bytes o(sz); crefl_db_write_mem(db, o.data(), sz); mixlog(h); })) continue;
        } else {
            probe("damaged images rejected");
            std::string d = same(before, size0, db); REQUIRE(d.empty(), "failed-load-changed-db", "a failed load changed the database: %s", d.c_str());
            if (!l.num("damage", 1)) REQUIRE(fault_fired_total() != 0, "spurious-failure", "an intact image was rejected");
        }
        // same bytes, same verdict
        if (mode == 0 && fault_fired_total() == 0) { int ret2 = -98; decl_db *d2 = nullptr; if (w.sut("loading again", [&] { d2 = crefl_db_new(); ret2 = crefl_db_read_mem(d2, img.data(), img.size()); crefl_db_destroy(d2); })) REQUIRE((ret == 0) == (ret2 == 0), "verdict", "the same damaged bytes were accepted once and rejected once"); }
        destroy(w, s); w.slots.clear();
    }
}
void gen_c04(Rng &r, Plan &p, bool th) {
    gen_common(r, p);
    if (r.chance(1, 3)) { U n = 1 + r.below(3); for (U i = 0; i < n; i++) gen_fault(r, p, -1, F_CORRUPT | F_SHORT); }
    U n = 2 + r.below(8);
    for (U i = 0; i < n; i++) p.add("op").set("seed", r.next()).set("n", r.chance(1, 8) ? 0 : r.chance(1, 6) ? r.below(th ? 600 : 150) : 1 + r.below(12)).set("style", r.below(4)).set("mode", r.below(2)).set("damage", r.chance(9, 10));
}
Register r1("C01", gen_c01, run_db), r2("C02", gen_c02, run_db), r3("C03", gen_c03, run_db), r16("C16", gen_c16, run_db), r4("C04", gen_c04, run_c04);
}
