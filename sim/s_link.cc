// Merging, type queries and identity hashes over histories of several databases.
#include "dbm.h"
#include "simw.h"
#include <deque>
using namespace sim; using namespace dbm;

namespace {
// ---- which declarations are the same: partition refinement over all given databases, recursive ones included
struct Same { std::vector<std::vector<int>> cls; U rounds = 0; };
Same same_classes(const std::vector<const Snap *> &v, bool resolve) {
    Same r; size_t n = 1; std::vector<size_t> base; for (auto s : v) { base.push_back(n); n += s->n.size(); }
    std::vector<int> cur(n, 0), nxt(n, 0); std::vector<std::vector<u32>> to(n); std::map<std::string, int> labels; std::vector<u64> label(n, 0);
    for (size_t k = 0; k < v.size(); k++) {
        const Snap &s = *v[k]; auto res = [&](u32 i) { int g = 0; while (resolve && i && i < s.n.size() && s.n[i].tag == _decl_alias && g++ < 1000) i = s.n[i].link; return i < s.n.size() ? i : 0; };
        for (u32 i = 1; i < s.n.size(); i++) {
            const Node &x = s.n[i]; auto &e = to[base[k] + i]; U na = 0; auto add = [&](u32 j) { j = res(j); e.push_back(j ? base[k] + j : 0); };
            for (u32 a = x.attr; a && a < s.n.size() && na < 100000; a = s.n[a].next, na++) add(a);
            if (container(x.tag)) for (u32 c : children(s, i)) add(c); else if (x.link) add(x.link);
            std::string t = std::to_string(x.tag) + "|" + std::to_string(x.props) + "|" + std::to_string(x.qty) + "|" + std::to_string(na) + "|" + std::to_string(e.size()) + "|" + x.name;
            label[base[k] + i] = cur[base[k] + i] = labels.insert({ t, (int)labels.size() + 1 }).first->second;
        }
    }
    size_t count = labels.size(); auto mix = [](u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); };
    for (;;) {
        std::map<std::pair<u64, u64>, int> ids; r.rounds++;
        for (size_t i = 1; i < n; i++) { if (!label[i]) continue; u64 a = label[i], b = ~label[i]; for (u32 e : to[i]) { a = mix(a, cur[e] + 1); b = mix(b, cur[e] * 3ull + 7); } nxt[i] = ids.insert({ { a, b }, (int)ids.size() + 1 }).first->second; }
        cur.swap(nxt); if (ids.size() == count) break; count = ids.size();
    }
    for (size_t k = 0; k < v.size(); k++) r.cls.emplace_back(cur.begin() + base[k], cur.begin() + base[k] + v[k]->n.size());
    return r;
}
struct Db { decl_db *db = nullptr; Snap s; bool archive = false; bool nested_archive = false; std::vector<std::string> srcs; std::string name; std::vector<int> inputs; };
struct World : Host {
    Universe base; std::vector<Universe> vars; std::deque<Db> dbs; std::deque<std::pair<Snap, std::vector<std::string>>> hashed; bool q_names = false; bool q_merge = true, q_query = false, q_hash = false, q_repro = false;
    struct MergeRec { std::string name; std::vector<Bytes> src; Bytes out; }; std::vector<MergeRec> recs; std::map<Bytes, U> names_of; U budget_nodes = 60000; bool ring = false;
    void drop(Db &d) { decl_db *x = d.db; if (x && sut("destroying", [&] { crefl_db_destroy(x); })) d.db = nullptr; }
    Db *pick(U k, bool tu_only = false) { std::vector<Db *> v; for (auto &d : dbs) if (d.db && (!tu_only || !d.archive)) v.push_back(&d); return v.empty() ? nullptr : v[k % v.size()]; }
    Bytes bytes(Db &d) { Bytes b; decl_db *x = d.db; sut("saving", [&] { b.resize(crefl_db_size(x)); int r = crefl_db_write_mem(x, b.data(), b.size()); REQUIRE(r == 0, "save", "saving failed (%d)", r); }); return b; }
    decl_db *from(const Bytes &b) { decl_db *x = nullptr; int r = -9; sut("loading", [&] { x = crefl_db_new(); r = crefl_db_read_mem(x, b.data(), b.size()); }); REQUIRE(r == 0, "load", "loading a saved database failed (%d)", r); return x; }
};
void noise(World &w, U seed, U n) {     // unrelated work in the same process
    Rng r(seed); w.sut("unrelated work", [&] {
        decl_db *d = crefl_db_new(); crefl_db_defaults(d); u32 root = crefl_decl_idx(crefl_decl_new(d, _decl_source)); d->root_element = root; u32 last = 0;
        for (U i = 0; i < n; i++) { std::string nm = "noise" + std::to_string(r.below(1000)); u32 id = crefl_name_new(d, nm.c_str()); decl_ref k = crefl_decl_new(d, _decl_struct); crefl_decl_ptr(k)->_name = id; u32 x = crefl_decl_idx(k); decl_node *ln = crefl_decl_ptr(crefl_lookup(d, last ? last : root)); if (last) ln->_next = x; else ln->_link = x; last = x; }
        decl_index *ix = crefl_index_new(); crefl_index_scan(ix, d); crefl_index_destroy(ix); crefl_db_destroy(d);
    });
}
// a variant of the universe: some definitions changed, as another translation unit's version of a header
Universe vary(const Universe &u, U seed) {
    if (!seed) return u; Universe v = u; Rng r(seed);
    U n = 1 + r.below(4);
    for (U k = 0; k < n; k++) {
        int i = r.below(v.t.size()); if (r.chance(1, 2)) for (size_t j = 0; j < v.t.size(); j++) if (v.t[j].f.size() > 60 || v.t[j].consts.size() > 60) i = j;
        Type &t = v.t[i];
        switch (t.kind) {
        case K_STRUCT: case K_UNION: case K_FUNC:
            if (t.f.empty()) { if (t.kind != K_FUNC) { t.incomplete = false; t.f.push_back(Field{ "added", 0, 0, 0, -1, {} }); } break; }
            { size_t x = r.below(t.f.size()); if (r.chance(1, 3)) x = t.f.size() - 1;
              switch (r.below(7)) { case 0: t.f[x].name += "_v"; break; case 1: if (t.f[x].anon < 0) { t.f[x].width++; t.f[x].props |= _decl_bitfield; } break; case 2: if (t.f[x].anon < 0) t.f[x].type = r.below(4); break; case 3: if (t.f[x].anon < 0) t.f.erase(t.f.begin() + x); break; case 4: t.props ^= _decl_static; break;
                case 5: t.f[x].attrs.push_back({ "annotate", true, "v" + std::to_string(r.below(9)), 0 }); break; case 6: if (t.f[x].anon < 0 && t.f.size() > 1) { size_t y = r.below(t.f.size()); if (t.f[y].anon < 0) std::swap(t.f[x], t.f[y]); } break; } }
            break;
        case K_ENUM: case K_SET: if (t.consts.empty() || r.chance(1, 3)) t.qty = t.qty == 64 ? 32 : 64; else t.consts[r.chance(1, 3) ? t.consts.size() - 1 : r.below(t.consts.size())].second ^= 1ull << r.below(64); break;
        case K_ARRAY: if (r.chance(1, 3)) { t.props ^= _decl_vla; break; } t.qty++; t.props = 0; t.name = "[" + std::to_string(t.qty) + "]"; break;
        case K_TYPEDEF: if (r.chance(1, 2)) t.attrs.push_back({ "aligned", true, "", 1ull << r.below(40) }); else t.target = r.below(4); break;
        case K_INTRINSIC: t.intrinsic = 1 + t.intrinsic % 20; break;
        case K_QUAL: t.props ^= _decl_const | _decl_volatile; break;
        default: break;
        }
    }
    return v;
}
// by-value expansion size of each type, so that layout queries stay affordable
std::vector<double> expansion(const Universe &u) { std::vector<double> e(u.t.size(), -1); std::function<double(int)> f = [&](int i) -> double { if (e[i] >= 0) return e[i]; const Type &t = u.t[i]; e[i] = 1; double s = 1; if (t.kind == K_ARRAY || t.kind == K_TYPEDEF || t.kind == K_QUAL) s += f(t.target); if (t.kind == K_STRUCT || t.kind == K_UNION) for (auto &x : t.f) s += f(x.type); return e[i] = s; }; for (size_t i = 0; i < u.t.size(); i++) f(i); return e; }

// ---- queries seen through the public API ------------------------------------------
// two databases that are supposed to describe the same declarations
void same_queries(World &w, decl_db *a, decl_db *b, const std::set<std::pair<u32, u32>> &pairs, const char *when) {
    U n = 0; std::vector<std::pair<u32, u32>> v(pairs.begin(), pairs.end());
    U step = v.size() > 400 ? v.size() / 400 : 1;
    for (size_t k = 0; k < v.size(); k += step) {
        std::string x, y;
        if (!w.sut("querying types", [&] { x = query(a, v[k].first); y = query(b, v[k].second); })) return;
        REQUIRE(x == y, "query", "%s: the same declaration answers differently: %.300s / %.300s", when, x.c_str(), y.c_str()); n++;
    }
    probe("type queries compared", n);
}
std::set<std::pair<u32, u32>> identity(const Snap &s) { std::set<std::pair<u32, u32>> p; for (u32 i = 1; i < s.n.size(); i++) if (s.n[i].tag != _decl_attribute && s.n[i].tag != _decl_value) p.insert({ i, i }); return p; }

void build_tu(World &w, U var, U seed, U pct, U idx, U listed, U fewname) {
    const Universe &u = w.vars[var]; Rng r(seed); std::vector<int> order;
    for (size_t i = 0; i < u.t.size(); i++) if (!u.t[i].nested && r.below(100) < pct) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) if (r.chance(2, 3)) std::swap(order[i - 1], order[r.below(i)]);
    w.dbs.emplace_back(); Db &d = w.dbs.back(); d.name = fewname ? (fewname & 1 ? "a" : "a.refl") : "unit" + std::to_string(idx) + ".c"; decl_db *x = nullptr;
    if (!w.sut("building a translation unit", [&] { x = crefl_db_new(); crefl_db_defaults(x); Emitter e(x, u); e.source(d.name, order, listed); })) return;
    d.db = x; d.s = snap(x); d.srcs = { d.name };
}
void check_sources_untouched(World &w, const char *when) { for (auto &d : w.dbs) if (d.db) { std::string e = diff(d.s, snap(d.db)); REQUIRE(e.empty(), "source-changed", "%s changed another database: %s", when, e.c_str()); } }

void merge(World &w, U pickseed, U n, bool allow_archive, const std::string &path) {
    Rng r(pickseed); std::vector<Db *> src; U nodes = 0;
    for (U i = 0; i < n; i++) { Db *d = w.pick(r.next(), !allow_archive); if (d && nodes + d->s.n.size() < w.budget_nodes) { src.push_back(d); nodes += d->s.n.size(); } }
    if (src.empty()) return;
    std::vector<decl_db *> raw; for (auto d : src) raw.push_back(d->db);
    decl_db *out = nullptr; int ret = -99; set_budget((w.ring ? 3000000000 : 400000000) + nodes * 10000);
    if (!w.sut("merging", [&] { out = crefl_db_new(); ret = crefl_link_merge(out, path.c_str(), raw.data(), raw.size()); })) return;
    op_done(); REQUIRE(ret == 0, "merge-failed", "merging %zu databases failed (%d)", raw.size(), ret);
    Snap m = snap(out); event("merge %zu sources, %zu -> %zu nodes", raw.size(), (size_t)nodes, m.n.size());
    check_sources_untouched(w, "merging");
    // every reference in bounds
    for (u32 i = 1; i < m.n.size(); i++) REQUIRE(m.n[i].next < m.n.size() && m.n[i].link < m.n.size() && m.n[i].attr < m.n.size(), "dangling", "merge made a reference out of bounds at %u", i);
    bool plain = true; for (auto d : src) if (d->archive) plain = false;
    if (w.q_merge || w.q_query) {
        size_t sl = path.find_last_of('/'); std::string base = sl == std::string::npos ? path : path.substr(sl + 1);
        REQUIRE(m.root < m.n.size() && m.n[m.root].tag == _decl_archive, "archive", "merge result has no archive at its root");
        if (w.q_merge) REQUIRE(m.n[m.root].name == base, "archive", "archive is named '%s', not '%s'", m.n[m.root].name.c_str(), base.c_str());
        auto ch = children(m, m.root); REQUIRE(ch.size() == src.size(), "archive", "archive holds %zu sources, %zu were merged", ch.size(), src.size());
        std::set<u32> used;
        for (size_t i = 0; i < src.size(); i++) {
            if (w.q_merge) REQUIRE(m.n[ch[i]].tag == src[i]->s.n[src[i]->s.root].tag, "archive", "input %zu is listed in the archive as %s", i, crefl_tag_name(m.n[ch[i]].tag));
            Cmp c(src[i]->s, m); bool ok = c.same(src[i]->s.root, ch[i]); probe("aliases in archives", c.aliases);
            if (w.q_merge) REQUIRE(ok, "not-isomorphic", "source %zu of the archive is not what was merged: %s", i, c.why.c_str());
            if (w.q_query && ok) { decl_db *sd = src[i]->db; same_queries(w, sd, out, c.seen, "after merging"); }
        }
        if (w.q_merge && plain) {   // one copy of each container
            const std::vector<int> cn = same_classes({ &m }, true).cls[0]; std::map<int, u32> first; U shared = 0;
            for (u32 i = 1; i < m.n.size(); i++) { u32 t = m.n[i].tag; if (!container(t) || t == _decl_archive || t == _decl_source) continue; auto ins = first.insert({ cn[i], i }); REQUIRE(ins.second, "not-shared", "the same %s '%s' is stored twice in the archive (declarations %u and %u)", crefl_tag_name(t), m.n[i].name.c_str(), ins.first->second, i); shared++; }
            for (u32 i = m.builtin; i < m.n.size(); i++) REQUIRE(m.n[i].tag != _decl_intrinsic, "not-shared", "builtin type '%s' is stored again in the archive (declaration %u)", m.n[i].name.c_str(), i);
            probe("distinct containers in archives", shared);
        }
    }
    w.dbs.emplace_back(); Db &d = w.dbs.back(); d.db = out; d.s = m; d.archive = true; d.name = path;
    if (w.q_repro) { World::MergeRec rec; rec.name = path; for (auto s : src) rec.src.push_back(w.bytes(*s)); rec.out = w.bytes(d); w.recs.push_back(rec); }
}
void roundtrip(World &w, U k, U mode, U noise_seed) {
    Db *d = w.pick(k); if (!d) return; decl_db *x = d->db, *y = nullptr; int r1 = -9, r2 = -9; U f0 = fault_fired_total();
    if (mode == 0) { Bytes b = w.bytes(*d); y = w.from(b); r1 = r2 = 0; }
    else {
        std::string p = "/sim/rt.refl";
        if (!w.sut("saving", [&] { r1 = crefl_db_write_file(x, p.c_str()); })) return;
        if (r1 != 0) { REQUIRE(fault_fired_total() != f0, "save", "saving failed without a fault"); return; }
        if (noise_seed % 3 == 0) noise(w, noise_seed, noise_seed % 50);
        if (!w.sut("loading", [&] { y = crefl_db_new(); r2 = crefl_db_read_file(y, p.c_str()); })) return;
        if (r2 != 0) { REQUIRE(fault_fired_total() != f0, "load", "loading failed without a fault"); w.sut("destroying", [&] { crefl_db_destroy(y); }); return; }
    }
    op_done(); Snap s = snap(y); 
    if (w.q_query) { if (s.n.size() == d->s.n.size()) same_queries(w, x, y, identity(s), "after saving and loading"); else REQUIRE(false, "query", "loading gave %zu declarations, %zu were saved", s.n.size(), d->s.n.size()); }
    w.dbs.emplace_back(); Db &e = w.dbs.back(); e.db = y; e.s = s; e.archive = d->archive; e.name = d->name;
}
void hashes(World &w, U k) {
    Db *d = w.pick(k); if (!d) return; decl_db *x = d->db; std::vector<std::string> hs(d->s.n.size());
    if (!w.sut("hashing", [&] { decl_index *ix = crefl_index_new(); crefl_index_scan(ix, x); for (u32 i = 1; i < hs.size() && i < ix->entry_size; i++) { decl_entry_ref er = { ix, i }; if (crefl_entry_is_valid(er)) hs[i] = std::string((char *)crefl_entry_ptr(er)->hash.sum, sizeof(decl_hash)); } crefl_index_destroy(ix); })) return;
    op_done(); U seen = 0; 
    REQUIRE(!hs[d->s.root].empty(), "hash-missing", "the root has no identity hash after a scan");
    bool known = false; for (auto &h : w.hashed) if (h.first.root == d->s.root && h.first.n == d->s.n) { known = true; REQUIRE(h.second == hs, "hash-unstable", "the same database has other identity hashes when scanned again"); }
    if (!known) { w.hashed.push_back({ d->s, hs }); U total = 0; for (auto &h : w.hashed) total += h.first.n.size(); while (total > 150000 && w.hashed.size() > 1) { total -= w.hashed.front().first.n.size(); w.hashed.pop_front(); } }
    std::vector<const Snap *> all; for (auto &h : w.hashed) all.push_back(&h.first);
    Same sc = same_classes(all, false); std::map<int, const std::string *> hash_of; std::map<std::string, int> class_of; probe("rounds of refinement", sc.rounds);
    for (size_t q = 0; q < all.size() && !known; q++) for (u32 i = 1; i < all[q]->n.size(); i++) {
        const std::string &h = w.hashed[q].second[i]; const Node &n = all[q]->n[i]; if (h.empty()) continue; int c = sc.cls[q][i]; seen++;
        auto a = hash_of.insert({ c, &h }); REQUIRE(*a.first->second == h, "hash-unstable", "two identical declarations have different identity hashes (%s '%.60s', declaration %u)", crefl_tag_name(n.tag), n.name.c_str(), i);
        auto b = class_of.insert({ h, c }); REQUIRE(b.first->second == c, "hash-collision", "different declarations have the same identity hash (%s '%.60s', declaration %u)", crefl_tag_name(n.tag), n.name.c_str(), i);
    }
    // every declaration reachable from the root has one
    std::vector<u32> st = { d->s.root }; std::set<u32> vis; while (!st.empty()) { u32 i = st.back(); st.pop_back(); if (!i || i >= hs.size() || !vis.insert(i).second) continue; REQUIRE(!hs[i].empty(), "hash-missing", "declaration %u (%s '%.60s') is reachable but has no identity hash", i, crefl_tag_name(d->s.n[i].tag), d->s.n[i].name.c_str()); const Node &n = d->s.n[i]; U g = 0; for (u32 a = n.attr; a && g < 10000; a = d->s.n[a].next, g++) st.push_back(a); if (container(n.tag)) for (u32 c : children(d->s, i)) st.push_back(c); else if (n.link) st.push_back(n.link); }
    probe("identity hashes compared", seen);
}
// C24: the full name of each declaration continues that of one that lists or refers to it
void fullnames(World &w, U k, U cap) {
    Db *d = w.pick(k); if (!d) return; decl_db *x = d->db; const Snap &s = d->s; std::vector<std::string> fq(s.n.size()); std::vector<char> ok(s.n.size(), 0);
    if (!w.sut("naming", [&] { decl_index *ix = crefl_index_new(); if (cap) (void)crefl_entry_ref(ix, crefl_lookup(x, 1 + cap % (s.n.size() - 1))); crefl_index_scan(ix, x); for (u32 i = 1; i < fq.size() && i < ix->entry_size; i++) { decl_entry_ref er = { ix, i }; if (crefl_entry_is_valid(er)) { ok[i] = 1; fq[i] = crefl_entry_fqn(er); } } crefl_index_destroy(ix); })) return;
    op_done(); std::vector<std::vector<u32>> par(s.n.size());
    std::vector<u32> st = { s.root }; std::vector<char> vis(s.n.size(), 0); vis[s.root] = 1;
    while (!st.empty()) { u32 i = st.back(); st.pop_back(); const Node &n = s.n[i]; auto to = [&](u32 c) { if (!c || c >= s.n.size()) return; par[c].push_back(i); if (!vis[c]) { vis[c] = 1; st.push_back(c); } }; U g = 0; for (u32 a = n.attr; a && g < 100000; a = s.n[a].next, g++) to(a); if (container(n.tag)) for (u32 c : children(s, i)) to(c); else if (n.link) to(n.link); }
    auto own = [&](u32 i, const std::string &pre) { const Node &n = s.n[i]; if (n.tag == _decl_array || n.tag == _decl_pointer || n.name.empty()) return pre; return pre.empty() ? n.name : pre + "::" + n.name; };
    U seen = 0, deep = 0;
    for (u32 i = 1; i < s.n.size(); i++) {
        if (!vis[i]) continue; seen++;
        REQUIRE(ok[i], "name-missing", "declaration %u (%s '%.60s') is reachable but was not named by the scan", i, crefl_tag_name(s.n[i].tag), s.n[i].name.c_str());
        bool good = i == s.root && fq[i] == own(i, "");
        for (u32 p : par[i]) { if (good) break; bool top = s.n[p].tag == _decl_source || s.n[p].tag == _decl_archive; std::string want = top ? s.n[i].name : own(i, fq[p]); if (fq[i] == want) { good = true; if (!top) deep++; } }
        REQUIRE(good, "full-name", "declaration %u (%s '%.60s') has the full name '%.200s', which does not follow from any declaration that lists or refers to it", i, crefl_tag_name(s.n[i].tag), s.n[i].name.c_str(), fq[i].c_str());
        if (par[i].size() == 1 && (s.n[par[i][0]].tag == _decl_source || s.n[par[i][0]].tag == _decl_archive)) REQUIRE(fq[i] == s.n[i].name, "full-name", "top-level declaration %u '%.60s' has the full name '%.200s'", i, s.n[i].name.c_str(), fq[i].c_str());
    }
    // the same content gives the same names, wherever it came from
    Bytes b = w.bytes(*d); U h = 1469598103934665603ull; for (auto &f : fq) for (char c : f + "\n") h = (h ^ (uint8_t)c) * 1099511628211ull;
    auto in = w.names_of.insert({ b, h }); REQUIRE(in.first->second == h, "full-name", "the same database got other full names than before");
    probe("full names checked", seen); probe("full names below the top level", deep); mixlog(h);
}
// C26: answers about single declarations, against a reference computed from the stored nodes alone
struct Fact { int kinds = 0; size_t width = 0, wi = 0, ws = 0, wu = 0, wp = 0, count = 0, addr = 0; u64 value = 0; u32 link[6] = {}; bool named = false; int orc = -1; std::vector<size_t> offs; std::vector<u32> offd; };
typedef int (*KindFn)(decl_ref);
const std::vector<std::pair<u32, KindFn>> &kind_fns() {
    static const std::vector<std::pair<u32, KindFn>> v = { { _decl_none, crefl_is_none }, { _decl_intrinsic, crefl_is_intrinsic }, { _decl_typedef, crefl_is_typedef }, { _decl_set, crefl_is_set }, { _decl_enum, crefl_is_enum }, { _decl_struct, crefl_is_struct }, { _decl_union, crefl_is_union }, { _decl_field, crefl_is_field }, { _decl_array, crefl_is_array }, { _decl_pointer, crefl_is_pointer }, { _decl_constant, crefl_is_constant }, { _decl_function, crefl_is_function }, { _decl_param, crefl_is_param }, { _decl_attribute, crefl_is_attribute }, { _decl_value, crefl_is_value }, { _decl_archive, crefl_is_archive }, { _decl_source, crefl_is_source }, { _decl_alias, crefl_is_alias } }; return v;
}
const char *link_fn_name[] = { "typedef", "field", "array", "pointer", "constant", "param" }; const u32 link_fn_tag[] = { _decl_typedef, _decl_field, _decl_array, _decl_pointer, _decl_constant, _decl_param };
void facts(World &w, U k, U seed) {
    Db *d = w.pick(k); if (!d) return; decl_db *x = d->db; const Snap &s = d->s; Rng r(seed); std::vector<u32> who; std::vector<Fact> got; Layout lay(s);
    for (u32 i = 0; i < s.n.size(); i++) if (s.n.size() < 400 || r.chance(400, s.n.size())) who.push_back(i);
    std::vector<std::pair<u32, U>> ask; std::vector<u32> ans; for (U i = 0; i < 12; i++) { const Node &b = s.n[1 + r.below(s.builtin - 1)]; u32 props = b.props; if (r.chance(1, 2)) props &= r.next(); if (r.chance(1, 8)) props |= _decl_static; ask.push_back({ props, r.chance(1, 8) ? r.below(300) : b.qty }); }
    if (!w.sut("asking about declarations", [&] {
        for (u32 i : who) {
            Fact f; decl_ref q = crefl_lookup(x, i); for (size_t b = 0; b < kind_fns().size(); b++) if (kind_fns()[b].second(q)) f.kinds |= 1 << b; if (crefl_is_type(q)) f.kinds |= 1 << 20; if (crefl_is_any(q)) f.kinds |= 1 << 21;
            f.width = crefl_type_width(q); f.wi = crefl_intrinsic_width(q); f.ws = crefl_struct_width(q); f.wu = crefl_union_width(q); f.wp = crefl_pointer_width(q); f.count = crefl_array_count(q);
            decl_ref (*lf[])(decl_ref) = { crefl_typedef_type, crefl_field_type, crefl_array_type, crefl_pointer_type, crefl_constant_type, crefl_param_type }; for (int b = 0; b < 6; b++) f.link[b] = crefl_decl_idx(lf[b](q));
            f.value = crefl_constant_value(q).ux; f.addr = (size_t)crefl_function_addr(q); f.named = crefl_decl_has_name(q);
            if (s.n[i].tag == _decl_struct) { size_t n = 0; f.orc = crefl_struct_fields_offsets(q, nullptr, nullptr, &n); std::vector<decl_ref> v(n); f.offs.resize(n); if (n) f.orc |= crefl_struct_fields_offsets(q, v.data(), f.offs.data(), &n); for (auto &y : v) f.offd.push_back(crefl_decl_idx(y)); }
            got.push_back(f);
        }
        for (auto &a : ask) ans.push_back(crefl_decl_idx(crefl_intrinsic(x, a.first, a.second)));
    })) return;
    op_done(); U laid = 0, structs = 0;
    for (size_t n = 0; n < who.size(); n++) {
        u32 i = who[n]; const Node &m = s.n[i]; const Fact &f = got[n]; char id[120]; snprintf(id, sizeof id, "declaration %u (%s '%.60s')", i, crefl_tag_name(m.tag), m.name.c_str());
        for (size_t b = 0; b < kind_fns().size(); b++) REQUIRE(!!(f.kinds >> b & 1) == (kind_fns()[b].first == m.tag), "kind", "%s: the kind test for %s answers %d", id, crefl_tag_name(kind_fns()[b].first), f.kinds >> b & 1);
        bool ty = m.tag == _decl_typedef || m.tag == _decl_intrinsic || m.tag == _decl_set || m.tag == _decl_enum || m.tag == _decl_struct || m.tag == _decl_union || m.tag == _decl_array || m.tag == _decl_pointer || m.tag == _decl_qualifier;
        REQUIRE(!!(f.kinds >> 20 & 1) == ty && (f.kinds >> 21 & 1), "kind", "%s: is taken %s a type", id, ty ? "not for" : "for");
        for (int b = 0; b < 6; b++) REQUIRE(f.link[b] == (m.tag == link_fn_tag[b] ? m.link : 0), "type-of", "%s: the %s type is %u, it refers to %u", id, link_fn_name[b], f.link[b], m.link);
        REQUIRE(f.count == (m.tag == _decl_array ? m.qty : 0), "count", "%s: element count %zu", id, f.count);
        REQUIRE(f.value == (m.tag == _decl_constant ? m.qty : 0), "value", "%s: constant value %llu", id, (unsigned long long)f.value);
        REQUIRE(f.addr == (m.tag == _decl_function ? m.qty : 0), "value", "%s: function address %zx", id, f.addr);
        REQUIRE(f.named == !m.name.empty(), "named", "%s: %s a name", id, f.named ? "claims" : "denies");
        REQUIRE(f.wi == (m.tag == _decl_intrinsic ? f.width : 0) && f.ws == (m.tag == _decl_struct ? f.width : 0) && f.wu == (m.tag == _decl_union ? f.width : 0) && f.wp == (m.tag == _decl_pointer ? f.width : 0), "width", "%s: width is %zu by itself, %zu as builtin, %zu as struct, %zu as union, %zu as pointer", id, f.width, f.wi, f.ws, f.wu, f.wp);
        Layout::L want = lay.get(i); if (!want.known) continue; laid++;
        REQUIRE(f.width == want.width, "width", "%s: width is %zu, its parts make %llu", id, f.width, (unsigned long long)want.width);
        if (m.tag != _decl_struct) continue; structs++;
        std::vector<std::pair<u32, u64>> of = lay.offsets(i); REQUIRE(f.orc == 0 && f.offs.size() == of.size() + !of.empty(), "offset", "%s: %zu offsets for %zu fields", id, f.offs.size(), of.size());
        for (size_t j = 0; j < of.size(); j++) REQUIRE(f.offd[j] == of[j].first && f.offs[j] == of[j].second, "offset", "%s: field %zu is at %zu, expected %llu", id, j, f.offs[j], (unsigned long long)of[j].second);
        if (!of.empty()) REQUIRE(f.offs.back() == want.width, "offset", "%s: the fields end at %zu, the width is %llu", id, f.offs.back(), (unsigned long long)want.width);
    }
    for (size_t n = 0; n < ask.size(); n++) {
        auto fits = [&](u32 i) { return s.n[i].tag == _decl_intrinsic && s.n[i].qty == ask[n].second && (s.n[i].props & ask[n].first) == ask[n].first; }; bool any = false; for (u32 i = 1; i < s.n.size(); i++) any |= fits(i);
        REQUIRE(ans[n] < s.n.size() && (ans[n] ? fits(ans[n]) : !any), "builtin", "asking for a builtin type of width %llu with properties %x gives declaration %u", (unsigned long long)ask[n].second, ask[n].first, ans[n]);
    }
    std::string e = builtin_table_error(s); REQUIRE(e.empty(), "builtin", "%s", e.c_str());
    probe("declarations asked", who.size()); probe("widths compared", laid); probe("struct layouts compared", structs);
}
void repro(World &w, U k) {
    if (w.recs.empty()) return; auto rec = w.recs[k % w.recs.size()]; std::vector<decl_db *> raw; std::vector<Snap> before;
    for (auto &b : rec.src) { raw.push_back(w.from(b)); if (w.boots > 1000) return; }
    decl_db *out = nullptr; int ret = -9; Bytes b; set_budget(700000000);
    if (!w.sut("merging again", [&] { out = crefl_db_new(); ret = crefl_link_merge(out, rec.name.c_str(), raw.data(), raw.size()); b.resize(crefl_db_size(out)); crefl_db_write_mem(out, b.data(), b.size()); crefl_db_destroy(out); for (auto x : raw) crefl_db_destroy(x); })) return;
    op_done(); probe("merges repeated");
    REQUIRE(ret == 0 && b == rec.out, "not-reproducible", "merging the same sources again gives different bytes (%zu vs %zu)", b.size(), rec.out.size());
}
// an edit in place: queries, hashes and merges from now on answer for the edited database
void edit(World &w, U k, U n, U seed) {
    Db *d = w.pick(k); if (!d) return; decl_db *x = d->db; Snap s = d->s; U done = 0; std::vector<u32> who; std::vector<std::string> pre, got, want;
    if (w.q_query) { Rng r(seed); for (u32 i = 1; i < s.n.size(); i++) if (s.n[i].tag != _decl_attribute && s.n[i].tag != _decl_value && (s.n.size() < 300 || r.chance(300, s.n.size()))) who.push_back(i); }
    if (!w.sut("editing in place", [&] { for (u32 i : who) pre.push_back(query(x, i)); done = edit_in_place(x, s, seed, n, !d->archive); })) return;
    d->s = s; op_done(); probe("edits in place", done); std::string e = diff(s, snap(x)); REQUIRE(e.empty(), "edit", "after an edit in place: %s", e.c_str());
    if (!w.q_query) return;
    Bytes b = w.bytes(*d); if (!w.sut("querying after an edit", [&] { for (u32 i : who) got.push_back(query(x, i)); })) return;
    Outcome o = call([&] { decl_db *y = crefl_db_new(); if (crefl_db_read_mem(y, b.data(), b.size()) == 0) for (u32 i : who) want.push_back(query(y, i)); crefl_db_destroy(y); }, proc_new());      // the same database in a process that has seen nothing else
    if (o.st == T_CRASHED && o.injected) return;
    REQUIRE(o.st == T_DONE && want.size() == who.size(), "query", "an edited database cannot be loaded and queried in a fresh process");
    for (size_t i = 0; i < who.size(); i++) REQUIRE(got[i] == want[i], "query", "after an edit in place: declaration %u answers %.300s, after saving and loading in a fresh process %.300s", who[i], got[i].c_str(), want[i].c_str());
    probe("type queries compared", who.size());
}
enum { OP_MERGE, OP_RT, OP_HASH, OP_REPRO, OP_NOISE, OP_RESTART, OP_DROP, OP_EDIT, OP_NAMES, OP_FACTS };
void run_link(const Plan &p) {
    World w; w.boot();
    w.q_merge = p.check == "C05"; w.q_query = p.check == "C06"; w.q_hash = p.check == "C07"; w.q_repro = p.check == "C23"; w.q_names = p.check == "C24";
    const Line *ul = p.find("uni"); if (!ul) return; Rng ur(ul->num("seed")); U nintr = 0;
    w.sut("probing builtins", [&] { decl_db *d = crefl_db_new(); crefl_db_defaults(d); nintr = d->decl_builtin - 1; crefl_db_destroy(d); }); if (!nintr) return;
    w.base = gen_universe(ur, ul->num("n", 10), ul->num("cyc"), ul->num("multi"), nintr, ul->num("big"));
    if (ul->num("ring")) rings(w.base, ul->num("ring")); if (ul->num("deep")) deep_refs(w.base, ul->num("deep"));
    if (ul->num("big")) set_budget(400000000); if (ul->num("ring")) { w.ring = true; set_budget(3000000000); }
    auto ex = expansion(w.base); for (auto e : ex) if (e > 3000 && (w.q_query || p.check == "C26")) { probe("universe too wide, skipped"); return; }
    if (ul->num("few")) few_names(w.base, ul->num("few"));
    w.vars.push_back(w.base); for (auto &l : p.lines) if (l.verb == "var") w.vars.push_back(vary(w.base, l.num("seed")));
    U tu = 0;
    for (auto &l : p.lines) {
        if (l.verb == "tu") build_tu(w, l.num("var") % w.vars.size(), l.num("seed"), l.num("pct", 50), tu++, l.num("listed"), ul->num("few") ? 1 + (l.num("seed") >> 5) % 2 : 0);
        if (l.verb != "op") continue;
        U k = l.num("k"), a = l.num("a"), b = l.num("b"), c = l.num("c");
        switch (k) {
        case OP_MERGE: { const char *nm[] = { "/sim/out.refl", "lib.refl", "a/b/c/long_archive_name.refl", "x" }; static const char *fnm[] = { "/sim/a", "a.refl", "b/a", "x" }; if (ul->num("few")) for (int i = 0; i < 4; i++) nm[i] = fnm[i]; merge(w, a, b, c & 4, nm[c & 3]); break; }
        case OP_RT: roundtrip(w, a, b, c); break;
        case OP_HASH: hashes(w, a); break;
        case OP_REPRO: repro(w, a); break;
        case OP_NAMES: fullnames(w, a, b); break;
        case OP_FACTS: facts(w, a, b); break;
        case OP_NOISE: noise(w, a, b); break;
        case OP_DROP: { Db *d = w.pick(a); if (d) w.drop(*d); break; }
        case OP_EDIT: edit(w, a, b, c); break;
        case OP_RESTART: {   // orderly restart: everything goes through its saved form into a new process image
            std::vector<Bytes> bs; for (auto &d : w.dbs) bs.push_back(d.db ? w.bytes(d) : Bytes()); w.boot(); probe("orderly restarts"); size_t i = 0;
            for (auto &d : w.dbs) { if (d.db) { d.db = w.from(bs[i]); Snap s = snap(d.db); if (w.q_query && diff(d.s, s) != "") REQUIRE(false, "query", "a restart changed a database: %s", diff(d.s, s).c_str()); d.s = s; } i++; }
            break; }
        }
    }
    check_sources_untouched(w, "the whole run"); for (auto &d : w.dbs) if (d.db) w.drop(d);
}
void op(Plan &p, U k, U a, U b, U c) { p.add("op").set("k", k).set("a", a).set("b", b).set("c", c); }
void gen_base(Rng &r, Plan &p, bool th, bool vars) {
    gen_mem(r, p);
    p.add("uni").set("seed", r.next()).set("n", r.chance(1, 8) ? r.below(th ? 120 : 60) : 1 + r.below(16)).set("cyc", r.chance(1, 2)).set("multi", r.chance(1, 2));
    if (r.chance(1, 4)) p.lines.back().set("few", 1 + r.below(1 << 30));
    if (r.chance(1, 16)) p.lines.back().set("big", 1 + r.below(1 << 30));
    if (r.chance(1, 8)) p.lines.back().set("ring", 1 + r.below(1 << 30));
    if (r.chance(1, 6)) p.lines.back().set("deep", 1 + r.below(1 << 30));
    U nv = vars ? r.below(3) : 0; for (U i = 0; i < nv; i++) p.add("var").set("seed", r.next() >> 1);
}
void tus(Rng &r, Plan &p, U n) { for (U i = 0; i < n; i++) p.add("tu").set("seed", r.next()).set("var", r.below(4)).set("pct", r.chance(1, 4) ? 100 : 10 + r.below(80)).set("listed", r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : r.next() >> 8); }
void gen_c05(Rng &r, Plan &p, bool th) { gen_base(r, p, th, true); tus(r, p, 1 + r.below(4)); U n = 1 + r.below(4); for (U i = 0; i < n; i++) { U x = r.below(10); if (x < 7) op(p, OP_MERGE, r.next(), r.chance(1, 40) ? 1 + r.below(r.chance(1, 3) ? 350 : 150) : r.chance(1, 6) ? 1 + r.below(20) : 1 + r.below(4), r.below(8)); else if (x < 8) r.chance(1, 2) ? op(p, OP_NOISE, r.next(), r.below(60), 0) : op(p, OP_EDIT, r.next() >> 4, 1 + r.below(4), r.next()); else if (x < 9) r.chance(1, 2) ? op(p, OP_RT, r.next() >> 4, 0, 0) : op(p, OP_DROP, r.next() >> 4, 0, 0); else op(p, OP_RESTART, 0, 0, 0); } op(p, OP_MERGE, r.next(), 1 + r.below(4), r.below(8)); }
void gen_c06(Rng &r, Plan &p, bool th) { gen_base(r, p, th, true); if (r.chance(1, 4)) gen_fault(r, p, -1, F_SHORT); tus(r, p, 1 + r.below(3)); U n = 2 + r.below(4); for (U i = 0; i < n; i++) { U x = r.below(10); if (x < 4) op(p, OP_MERGE, r.next(), 1 + r.below(4), r.below(8)); else if (x < 6) op(p, OP_RT, r.next() >> 4, r.below(2), r.next() >> 8); else if (x < 8) op(p, OP_EDIT, r.next() >> 4, 1 + r.below(4), r.next()); else if (x < 9) r.chance(1, 2) ? op(p, OP_NOISE, r.next(), r.below(60), 0) : op(p, OP_DROP, r.next() >> 4, 0, 0); else op(p, OP_RESTART, 0, 0, 0); } }
void gen_c07(Rng &r, Plan &p, bool th) { gen_base(r, p, th, true); tus(r, p, 2 + r.below(3)); U n = 3 + r.below(6); for (U i = 0; i < n; i++) { U x = r.below(20); if (x < 12) op(p, OP_HASH, r.next() >> 4, 0, 0); else if (x < 14) r.chance(1, 2) ? op(p, OP_MERGE, r.next(), 1 + r.below(4), r.below(8)) : op(p, OP_RT, r.next() >> 4, 0, 0); else if (x < 16) op(p, OP_NOISE, r.next(), r.below(60), 0); else if (x < 17) op(p, OP_RESTART, 0, 0, 0); else if (x < 18) op(p, OP_DROP, r.next() >> 4, 0, 0); else if (x < 19) { op(p, OP_EDIT, r.next() >> 4, 1 + r.below(4), r.next()); op(p, OP_HASH, p.lines.back().num("a"), 0, 0); } else { p.add("tu").set("seed", r.next()).set("var", r.below(4)).set("pct", 10 + r.below(91)); } } }
void gen_c23(Rng &r, Plan &p, bool th) { gen_base(r, p, th, true); tus(r, p, 1 + r.below(4)); U n = 3 + r.below(6); op(p, OP_MERGE, r.next(), 1 + r.below(r.chance(1, 60) ? 350 : 4), r.below(8)); for (U i = 0; i < n; i++) { U x = r.below(10); if (x < 2) op(p, OP_MERGE, r.next(), 1 + r.below(4), r.below(8)); else if (x < 6) op(p, OP_REPRO, r.next() >> 4, 0, 0); else if (x < 8) op(p, OP_NOISE, r.next(), r.below(100), 0); else if (x < 9) r.chance(1, 2) ? op(p, OP_RESTART, 0, 0, 0) : op(p, OP_EDIT, r.next() >> 4, 1 + r.below(4), r.next()); else op(p, OP_DROP, r.next() >> 4, 0, 0); } op(p, OP_REPRO, r.next() >> 4, 0, 0); }
void gen_c26(Rng &r, Plan &p, bool th) { gen_base(r, p, th, true); tus(r, p, 1 + r.below(3)); U n = 3 + r.below(6); for (U i = 0; i < n; i++) { U x = r.below(20); if (x < 9) op(p, OP_FACTS, r.next() >> 4, r.next() >> 8, 0); else if (x < 11) op(p, OP_MERGE, r.next(), 1 + r.below(4), r.below(8)); else if (x < 13) op(p, OP_RT, r.next() >> 4, r.below(2), r.next() >> 8); else if (x < 14) op(p, OP_NOISE, r.next(), r.below(60), 0); else if (x < 15) op(p, OP_RESTART, 0, 0, 0); else if (x < 16) op(p, OP_DROP, r.next() >> 4, 0, 0); else { op(p, OP_EDIT, r.next() >> 4, 1 + r.below(4), r.next()); if (r.chance(1, 2)) op(p, OP_FACTS, r.next() >> 4, r.next() >> 8, 0); } } op(p, OP_FACTS, r.next() >> 4, r.next() >> 8, 0); }
Register r26("C26", gen_c26, run_link);
void gen_c24(Rng &r, Plan &p, bool th) { gen_base(r, p, th, true); tus(r, p, 1 + r.below(3)); U n = 3 + r.below(6); for (U i = 0; i < n; i++) { U x = r.below(20); if (x < 11) op(p, OP_NAMES, r.next() >> 4, r.chance(1, 3) ? r.next() >> 8 : 0, 0); else if (x < 13) op(p, OP_MERGE, r.next(), 1 + r.below(4), r.below(8)); else if (x < 15) op(p, OP_RT, r.next() >> 4, 0, 0); else if (x < 16) op(p, OP_NOISE, r.next(), r.below(60), 0); else if (x < 17) op(p, OP_RESTART, 0, 0, 0); else if (x < 18) op(p, OP_DROP, r.next() >> 4, 0, 0); else op(p, OP_EDIT, r.next() >> 4, 1 + r.below(4), r.next()); } op(p, OP_NAMES, r.next() >> 4, 0, 0); }
Register r24("C24", gen_c24, run_link);
Register r5("C05", gen_c05, run_link), r6("C06", gen_c06, run_link), r7("C07", gen_c07, run_link), r23("C23", gen_c23, run_link);
}
