// Reference model of a reflection database and a generator of C-like type
// universes. Talks to the code under test only through its public API.
#pragma once
#include "core.h"
#include <crefl/model.h>
#include <crefl/db.h>
#include <crefl/link.h>
#include <crefl/dump.h>

namespace dbm {
using sim::U; using sim::Rng; using sim::Bytes;

// ---- flat snapshot of a database (every stored field, names by content) ------
struct Node {
    u32 tag = 0, props = 0, next = 0, link = 0, attr = 0; u64 qty = 0; std::string name;
    bool operator==(const Node &o) const { return tag == o.tag && props == o.props && next == o.next && link == o.link && attr == o.attr && qty == o.qty && name == o.name; }
};
struct Snap { std::vector<Node> n; u32 root = 0; size_t builtin = 0; };
static inline Node node_of(decl_db *db, size_t i) {
    decl_node *d = crefl_decl_ptr(crefl_lookup(db, i)); Node m;
    m.tag = d->_tag; m.props = d->_props; m.next = d->_next; m.link = d->_link; m.attr = d->_attr; m.qty = d->_quantity;
    m.name = crefl_decl_name(crefl_lookup(db, i)); return m;
}
static inline Snap snap(decl_db *db) {
    Snap s; s.root = db->root_element; s.builtin = db->decl_builtin; s.n.resize(db->decl_offset);
    for (size_t i = 1; i < db->decl_offset; i++) s.n[i] = node_of(db, i);
    return s;
}
static inline std::string diff(const Snap &a, const Snap &b) {
    char t[400];
    if (a.n.size() != b.n.size()) { snprintf(t, sizeof t, "node count %zu vs %zu", a.n.size(), b.n.size()); return t; }
    if (a.root != b.root) { snprintf(t, sizeof t, "root %u vs %u", a.root, b.root); return t; }
    if (a.builtin != b.builtin) { snprintf(t, sizeof t, "builtin boundary %zu vs %zu", a.builtin, b.builtin); return t; }
    for (size_t i = 1; i < a.n.size(); i++) if (!(a.n[i] == b.n[i])) {
        const Node &x = a.n[i], &y = b.n[i];
        snprintf(t, sizeof t, "node %zu {tag %u props %x next %u link %u attr %u qty %llu name '%.40s'} vs {tag %u props %x next %u link %u attr %u qty %llu name '%.40s'}", i,
            x.tag, x.props, x.next, x.link, x.attr, x.qty, x.name.c_str(), y.tag, y.props, y.next, y.link, y.attr, y.qty, y.name.c_str());
        return t;
    }
    return "";
}
static inline U snap_hash(const Snap &s) { U h = 1469598103934665603ull; auto m = [&](U v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 31; }; m(s.root); for (auto &n : s.n) { m(n.tag); m(n.props); m(n.next); m(n.link); m(n.attr); m(n.qty); for (char c : n.name) m((uint8_t)c); } return h; }

// ---- independent codec for the documented file layout -------------------------
static inline void put32(Bytes &b, u32 v) { for (int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); }
static inline u32 get32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static inline u64 get64(const uint8_t *p) { return get32(p) | (u64)get32(p + 4) << 32; }
// what a reader following include/crefl/db.h sees; false if the bytes are not a complete file
static inline bool decode(const Bytes &b, const Snap &builtins, size_t builtin_names, Snap &out, std::string &err) {
    if (b.size() < 20 || memcmp(b.data(), "crefl000", 8)) { err = "no header"; return false; }
    size_t cnt = get32(&b[8]), nsz = get32(&b[12]); u32 root = get32(&b[16]);
    if (b.size() != 20 + cnt * 32 + nsz) { err = "size mismatch"; return false; }
    out = builtins; out.root = root; out.n.resize(builtins.builtin + cnt);
    const uint8_t *names = b.data() + 20 + cnt * 32;
    for (size_t i = 0; i < cnt; i++) {
        const uint8_t *p = b.data() + 20 + i * 32; Node m;
        m.tag = get32(p); m.props = get32(p + 4); u32 nm = get32(p + 8); m.next = get32(p + 12); m.link = get32(p + 16); m.attr = get32(p + 20); m.qty = get64(p + 24);
        if (nm == 0) m.name = "";
        else if (nm >= builtin_names && nm < builtin_names + nsz) { const char *q = (const char *)names + (nm - builtin_names); m.name = std::string(q, strnlen(q, nsz - (nm - builtin_names))); }
        else { err = "name out of table"; m.name = "?"; if (nm >= builtin_names + nsz) return false; m.name = "\x01builtin"; }
        out.n[builtins.builtin + i] = m;
    }
    return true;
}

// ---- a universe of C types shared by several translation units ------------------
struct AttrT { std::string name; bool has_val; std::string sval; u64 val; };
struct Field { std::string name; int type; u64 width; u32 props; int anon; std::vector<AttrT> attrs; };   // anon: index of nested container emitted in place
enum Kind { K_INTRINSIC, K_TYPEDEF, K_SET, K_ENUM, K_STRUCT, K_UNION, K_ARRAY, K_POINTER, K_QUAL, K_FUNC };
struct Type {
    Kind kind; std::string name; u32 props = 0; u64 qty = 0; int intrinsic = 0; int target = -1;
    std::vector<Field> f; std::vector<std::pair<std::string, u64>> consts; std::vector<AttrT> attrs; int base = 0;
    bool nested = false;      // only appears inside another container
    bool incomplete = false;
};
struct Universe { std::vector<Type> t; };

static inline std::string gen_name(Rng &r, const char *pre, U id) {
    std::string s = pre + std::to_string(id);
    if (r.chance(1, 12)) { U n = r.pow2ish(300); if (r.chance(1, 60)) n = 3000 + r.below(4000); for (U i = 0; i < n; i++) s += (char)('a' + r.below(26)); }
    return s;
}
static inline std::vector<AttrT> gen_attrs(Rng &r, bool multi) {
    std::vector<AttrT> v; U n = r.chance(1, 5) ? (multi ? 1 + r.below(3) : 1) : 0;
    static const char *plain[] = { "packed", "deprecated", "used", "unused", "pure", "always_inline" };
    for (U i = 0; i < n; i++) {
        U k = r.below(3);
        if (k == 0) v.push_back({ plain[r.below(6)], false, "", 0 });
        else if (k == 1) v.push_back({ "aligned", true, "", 1ull << r.below(7) });
        else v.push_back({ "annotate", true, "note" + std::to_string(r.below(5)), 0 });
    }
    return v;
}
// arrays with element counts around and beyond 2^16, 2^31, 2^32; every width in bits stays below 2^61
static inline double bits_bound(const Universe &u, int t, std::map<int, double> &memo, int depth = 0) {
    auto i = memo.find(t); if (i != memo.end()) return i->second; const Type &x = u.t[t]; double b = 512; if (depth > 600) return 1e30; memo[t] = b;
    switch (x.kind) {
    case K_ARRAY: b = bits_bound(u, x.target, memo, depth + 1) * (double)x.qty; break;
    case K_TYPEDEF: case K_QUAL: b = bits_bound(u, x.target, memo, depth + 1); break;
    case K_STRUCT: case K_UNION: case K_FUNC: for (auto &f : x.f) b += 512 + bits_bound(u, f.type, memo, depth + 1); break;
    default: break;
    }
    return memo[t] = b < 512 ? 512 : b;
}
static inline void wide_arrays(Universe &u, U seed) {
    Rng r(seed); static const u64 big[] = { 1ull << 16, 65535, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 3, 5000000000ull, 1ull << 34, 65536 * 3, 100000 };
    for (size_t i = 0; i < u.t.size(); i++) {
        if (u.t[i].kind != K_ARRAY || r.chance(1, 3)) continue;
        Type old = u.t[i]; u.t[i].qty = big[r.below(10)]; u.t[i].props = 0; u.t[i].name = "[" + std::to_string(u.t[i].qty) + "]";
        std::map<int, double> memo; for (size_t k = 0; k < u.t.size(); k++) { if (bits_bound(u, k, memo) > 2305843009213693952.0) { u.t[i] = old; break; } }
    }
}
// intrinsic choices: builtin indices 1..22
// big: some type has a great many members, references run in long chains
static inline Universe gen_universe(Rng &r, U ntypes, bool cyclic, bool multi_attr, U nintr, U big = 0) {
    Universe u; U id = 0; Rng br(big); U hot = big ? br.below(ntypes) : ~0ull, chain = big ? br.below(4) : 0; bool vast = big && br.chance(1, 6); auto many = [&](U few) { return 16 + br.below(vast ? few * 22 : few); };
    auto intr = [&]() { Type t; t.kind = K_INTRINSIC; t.intrinsic = 1 + r.below(nintr); return t; };
    for (int i = 0; i < 4; i++) u.t.push_back(intr());
    for (U k = 0; k < ntypes; k++) {
        Type t; U pick = r.below(100);
        auto any = [&]() -> int { if (chain && br.below(4) < chain) for (int x = u.t.size() - 1; x >= 0; x--) if (!u.t[x].nested && u.t[x].kind != K_FUNC) return x; for (int g = 0; g < 20; g++) { int x = r.below(u.t.size()); if (!u.t[x].nested && u.t[x].kind != K_FUNC) return x; } return 0; };
        if (pick < 10) { t.kind = K_TYPEDEF; t.name = gen_name(r, "td", id++); t.target = any(); t.attrs = gen_attrs(r, multi_attr); }
        else if (pick < 22) { t.kind = r.chance(1, 3) ? K_SET : K_ENUM; t.name = r.chance(1, 5) ? "" : gen_name(r, "en", id++); t.qty = 8ull << r.below(4); t.base = 1 + r.below(nintr); U n = r.below(6); if (k == hot) n = many(500); for (U i = 0; i < n; i++) t.consts.push_back({ gen_name(r, "C", id * 10 + i), r.chance(1, 3) ? r.next() : r.below(64) }); t.attrs = gen_attrs(r, multi_attr); }
        else if (pick < 65) {
            t.kind = r.chance(1, 4) ? K_UNION : K_STRUCT; t.name = r.chance(1, 6) ? "" : gen_name(r, t.kind == K_UNION ? "un" : "st", id++);
            if (r.chance(1, 14) && !t.name.empty()) t.incomplete = true;
            else {
                U n = r.chance(1, 10) ? 0 : 1 + r.below(6); if (k == hot) n = many(400);
                for (U i = 0; i < n; i++) {
                    Field f; f.name = gen_name(r, "f", i); f.type = any(); f.width = 0; f.props = 0; f.anon = -1; f.attrs = gen_attrs(r, multi_attr);
                    if (r.chance(1, 6)) { f.width = 1 + r.below(31); f.props = _decl_bitfield; }
                    if (r.chance(1, 7)) {   // nested anonymous container declared in place, followed by a field using it
                        Type nt; nt.kind = r.chance(1, 2) ? K_UNION : K_STRUCT; nt.name = ""; nt.nested = true; U m = 1 + r.below(3);
                        for (U j = 0; j < m; j++) nt.f.push_back(Field{ gen_name(r, "n", j), any(), 0, 0, -1, {} });
                        u.t.push_back(nt); f.anon = u.t.size() - 1; f.type = f.anon; if (r.chance(1, 2)) f.name = ""; f.props = 0; f.width = 0;
                    }
                    t.f.push_back(f);
                }
            }
            t.attrs = gen_attrs(r, multi_attr);
        }
        else if (pick < 75) { t.kind = K_ARRAY; t.target = any(); t.qty = r.chance(1, 8) ? 0 : 1 + r.below(9); if (t.qty == 0) t.props = _decl_vla; t.name = "[" + std::to_string(t.qty) + "]"; }
        else if (pick < 85) { t.kind = K_POINTER; t.target = any(); t.qty = 64; t.name = "*"; }
        else if (pick < 90) { t.kind = K_QUAL; t.target = any(); t.props = r.chance(1, 2) ? _decl_const : _decl_volatile; t.name = "const_q"; }
        else {
            t.kind = K_FUNC; t.name = gen_name(r, "fn", id++); t.props = _decl_global; t.attrs = gen_attrs(r, multi_attr); t.qty = r.chance(1, 3) ? r.next() >> 16 : 0;
            U n = 1 + r.below(4); if (k == hot) n = many(120); for (U i = 0; i < n; i++) t.f.push_back(Field{ i ? gen_name(r, "p", i) : "", any(), 0, i ? 0u : (u32)_decl_out, -1, {} });
        }
        if (k == hot && br.chance(1, 3)) { U n = many(60); for (U i = 0; i < n; i++) t.attrs.push_back({ "annotate", true, "note" + std::to_string(i), 0 }); }
        u.t.push_back(t);
    }
    if (cyclic) {   // self and mutually recursive structs through pointers; names unique, definition the same everywhere
        std::vector<int> st; for (size_t i = 0; i < u.t.size(); i++) if ((u.t[i].kind == K_STRUCT || (u.t[i].kind == K_UNION && (u.t[i].f.size() & 1))) && !u.t[i].nested && !u.t[i].incomplete && !u.t[i].name.empty()) st.push_back(i);
        std::vector<int> tdef; for (size_t i = 0; i < u.t.size(); i++) if (u.t[i].kind == K_TYPEDEF) tdef.push_back(i);
        U m = st.empty() ? 0 : 1 + r.below(3);
        for (U i = 0; i < m; i++) {
            int a = st[r.below(st.size())], b = r.chance(1, 2) ? a : !tdef.empty() && r.chance(1, 2) ? tdef[r.below(tdef.size())] : st[r.below(st.size())];
            Type p; p.kind = K_POINTER; p.target = b; p.qty = 64; p.name = "*"; u.t.push_back(p);
            u.t[a].f.push_back(Field{ r.chance(1, 2) ? gen_name(r, "link", i) : std::string("link"), (int)u.t.size() - 1, 0, 0, -1, {} });
        }
    }
    if (r.chance(1, 6)) wide_arrays(u, r.next());
    if (r.chance(1, 6)) { Rng q(r.next()); auto some = [&](u32 &p) { if (q.chance(1, 3)) p |= (u32)(q.next() & q.next() & 0x3fff) << 10; else if (q.chance(1, 8)) p |= 0x3fffu << 10; }; for (auto &t : u.t) { if (t.kind == K_FUNC || t.kind == K_STRUCT || t.kind == K_UNION || t.kind == K_ENUM || t.kind == K_TYPEDEF) some(t.props); for (auto &f : t.f) some(f.props); } }      // many properties at once
    return u;
}
// records on a long cycle of references that differ only somewhere far along it, and twins of them off the cycle
static inline void rings(Universe &u, U seed) {
    Rng r(seed); int k = r.chance(1, 40) ? 60 + r.below(60) : r.chance(1, 4) ? 20 + r.below(25) : 2 + r.below(16), base = u.t.size(), mode = r.below(4);
    for (int i = 0; i < k; i++) { Type s; s.kind = r.chance(1, 12) ? K_UNION : K_STRUCT; if (mode < 2) s.kind = K_STRUCT; s.name = mode == 0 ? "" : mode == 1 ? "node" : mode == 2 ? (r.chance(1, 2) ? "node" : "item") : "node" + std::to_string(i); s.f.push_back(Field{ "next", base + k + (i + 1) % k, 0, 0, -1, {} }); if (r.chance(1, 3 * k)) s.f.push_back(Field{ "alt", base + k + (int)r.below(k), 0, 0, -1, {} }); u.t.push_back(s); }
    for (int i = 0; i < k; i++) { Type p; p.kind = K_POINTER; p.target = base + i; p.qty = 64; p.name = "*"; u.t.push_back(p); }
    for (U m = r.below(3); m > 0; m--) { Type &s = u.t[base + r.below(k)]; switch (r.below(4)) { case 0: s.f.push_back(Field{ "mark", (int)r.below(4), 0, 0, -1, {} }); break; case 1: s.attrs.push_back({ "annotate", true, "mark", 0 }); break; case 2: s.props |= _decl_static; break; default: s.f[0].name = "mark"; } }
    for (U m = r.below(4); m > 0; m--) {    // a twin of one, and of those before it
        int at = r.below(k); Type s = u.t[base + at]; u.t.push_back(s);
        for (U d = r.below(4); d > 0; d--) { Type p; p.kind = K_POINTER; p.qty = 64; p.name = "*"; p.target = u.t.size() - 1; u.t.push_back(p); at = (at + k - 1) % k; Type q = u.t[base + at]; q.f[0].type = u.t.size() - 1; u.t.push_back(q); }
    }
}
// a long run of references of one kind (or of several) up to something
static inline void deep_refs(Universe &u, U seed) {
    Rng r(seed); U mode = r.below(6), len = r.chance(1, 2) ? 2 + r.below(5) : 2 + r.below(44); std::map<int, double> memo; int at = 0; double prod = 1;
    for (int g = 0; g < 8 && !at; g++) { int x = r.below(u.t.size()); if (!u.t[x].nested && u.t[x].kind != K_FUNC && bits_bound(u, x, memo) < 1e15) at = x; }
    for (U i = 0; i < len; i++) {
        Type t; U m = mode < 4 ? mode : r.below(4); t.target = at;
        if (m == 0) { t.kind = K_POINTER; t.qty = 64; t.name = "*"; } else if (m == 1) { t.kind = K_TYPEDEF; t.name = r.chance(1, 3) ? "same" : "deep" + std::to_string(i); }
        else if (m == 2) { t.kind = K_QUAL; t.props = r.chance(1, 2) ? _decl_const : _decl_volatile; t.name = "const_q"; } else { t.kind = K_ARRAY; t.qty = prod < 500 && r.chance(1, 2) ? 2 + r.below(2) : 1; prod *= t.qty; t.name = "[" + std::to_string(t.qty) + "]"; }
        at = u.t.size(); u.t.push_back(t);
    }
    Type s; s.kind = r.chance(1, 4) ? K_FUNC : r.chance(1, 3) ? K_UNION : K_STRUCT; s.name = "user"; if (s.kind == K_FUNC) s.props = _decl_global;
    s.f.push_back(Field{ "a", at, 0, s.kind == K_FUNC ? (u32)_decl_out : 0, -1, {} }); s.f.push_back(Field{ "b", (int)r.below(4), 0, 0, -1, {} }); if (r.chance(1, 2)) s.f.push_back(Field{ "c", u.t[at].target, 0, 0, -1, {} }); u.t.push_back(s);
}
// every name drawn from a handful, so that different things share names
static inline void few_names(Universe &u, U seed) {
    Rng r(seed); static const char *pool[] = { "a", "b", "a.refl", "x" }; U n = 1 + r.below(4);
    auto nm = [&](std::string &s) { if (!s.empty()) s = pool[r.below(n)]; };
    for (auto &t : u.t) { if (t.kind == K_TYPEDEF || t.kind == K_SET || t.kind == K_ENUM || t.kind == K_STRUCT || t.kind == K_UNION || t.kind == K_FUNC) nm(t.name); for (auto &f : t.f) nm(f.name); for (auto &c : t.consts) nm(c.first); }
}
// ---- emission of a translation unit, the way the plug-in lays it out ----------------
struct Emitter {
    decl_db *db; const Universe &u; std::map<int, u32> at; std::vector<int> defer;
    Emitter(decl_db *d, const Universe &uu) : db(d), u(uu) { }
    struct OutOfMemory { };
    u32 mk(u32 tag, const std::string &name, u32 props, u64 qty) {
        decl_ref r = crefl_decl_new(db, tag); if (!crefl_decl_idx(r)) throw OutOfMemory(); u32 nm = crefl_name_new(db, name.c_str()); if (!nm && !name.empty()) throw OutOfMemory();
        decl_node *p = crefl_decl_ptr(r); p->_name = nm; p->_props = props; p->_quantity = qty; return crefl_decl_idx(r);
    }
    decl_node *P(u32 i) { return crefl_decl_ptr(crefl_lookup(db, i)); }
    void attrs(u32 i, const std::vector<AttrT> &v) {
        u32 last = 0;
        for (auto &a : v) {
            u32 n = mk(_decl_attribute, a.name, 0, 0);
            if (a.has_val) { u32 x = mk(_decl_value, a.sval, 0, a.val); P(n)->_link = x; }
            if (last) P(last)->_next = n; else P(i)->_attr = n;
            last = n;
        }
    }
    // type reference from a field, pointer...: containers, typedefs are shared nodes; the rest are fresh nodes
    u32 ref(int t) {
        const Type &x = u.t[t];
        if (x.kind == K_INTRINSIC) return x.intrinsic;
        if (x.kind == K_ARRAY || x.kind == K_POINTER || x.kind == K_QUAL) {
            u32 tag = x.kind == K_ARRAY ? _decl_array : x.kind == K_POINTER ? _decl_pointer : _decl_qualifier;
            u32 n = mk(tag, x.name, x.props, x.qty); u32 k = ref(x.target); P(n)->_link = k; return n;
        }
        return decl(t);
    }
    u32 decl(int t) {       // node of a named / container type, created once per translation unit
        auto i = at.find(t); if (i != at.end()) return i->second;
        const Type &x = u.t[t]; u32 n = 0;
        switch (x.kind) {
        case K_TYPEDEF: { n = mk(_decl_typedef, x.name, x.props, 0); at[t] = n; attrs(n, x.attrs); u32 k = ref(x.target); P(n)->_link = k; break; }
        case K_SET: case K_ENUM: {
            n = mk(x.kind == K_SET ? _decl_set : _decl_enum, x.name, x.props, x.qty); at[t] = n; attrs(n, x.attrs); u32 last = 0;
            for (auto &c : x.consts) { u32 k = mk(_decl_constant, c.first, 0, c.second); P(k)->_link = x.base; if (last) P(last)->_next = k; else P(n)->_link = k; last = k; }
            break; }
        case K_STRUCT: case K_UNION: case K_FUNC: {
            n = mk(x.kind == K_STRUCT ? _decl_struct : x.kind == K_UNION ? _decl_union : _decl_function, x.name, x.props, x.qty); at[t] = n; attrs(n, x.attrs);
            u32 last = 0; auto app = [&](u32 k) { if (last) P(last)->_next = k; else P(n)->_link = k; last = k; };
            for (auto &f : x.f) {
                if (f.anon >= 0) app(fresh_nested(f.anon));
                u32 k = mk(x.kind == K_FUNC ? _decl_param : _decl_field, f.name, f.props, f.width); app(k); attrs(k, f.attrs);
                u32 ty = f.anon >= 0 ? nested_at : ref(f.type); P(k)->_link = ty;
            }
            break; }
        default: n = ref(t); break;
        }
        return n;
    }
    u32 nested_at = 0;
    u32 fresh_nested(int t) {
        const Type &x = u.t[t]; u32 n = mk(x.kind == K_STRUCT ? _decl_struct : _decl_union, x.name, x.props, 0); u32 last = 0;
        for (auto &f : x.f) { u32 k = mk(_decl_field, f.name, f.props, f.width); if (last) P(last)->_next = k; else P(n)->_link = k; last = k; u32 ty = ref(f.type); P(k)->_link = ty; }
        nested_at = n; return n;
    }
    // top-level list: the chosen declarations plus everything they pulled in
    // listed: 0 in the order of creation, otherwise a seed for another order of the list
    void source(const std::string &name, const std::vector<int> &order, U listed = 0) {
        u32 root = mk(_decl_source, name, 0, 0); db->root_element = root;
        for (int t : order) { if (u.t[t].kind != K_ARRAY && u.t[t].kind != K_POINTER && u.t[t].kind != K_QUAL && u.t[t].kind != K_INTRINSIC && !u.t[t].nested) decl(t); }
        std::vector<int> all = order; for (auto &e : at) if (std::find(all.begin(), all.end(), e.first) == all.end()) all.push_back(e.first);
        if (listed == 1) std::reverse(all.begin(), all.end()); else if (listed) { Rng r(listed); for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below(i)]); }
        u32 last = 0; std::set<int> done;
        for (int t : all) { auto i = at.find(t); if (i == at.end() || done.count(t)) continue; done.insert(t); if (last) P(last)->_next = i->second; else P(root)->_link = i->second; last = i->second; }
    }
};

// ---- structural comparison that looks through alias nodes -----------------------------
static inline bool container(u32 t) { return t == _decl_archive || t == _decl_source || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_function; }
struct Cmp {
    const Snap &a, &b; std::set<std::pair<u32, u32>> seen; std::string why; U aliases = 0;
    Cmp(const Snap &x, const Snap &y) : a(x), b(y) { }
    static bool resolve(const Snap &s, u32 &i) { int g = 0; while (i && i < s.n.size() && s.n[i].tag == _decl_alias) { i = s.n[i].link; if (++g > 1000) return false; } return i < s.n.size(); }
    bool fail(const char *m, u32 i, u32 j) {
        char t[300]; const Node &x = a.n[i < a.n.size() ? i : 0], &y = b.n[j < b.n.size() ? j : 0];
        snprintf(t, sizeof t, "%s at %u (tag %u '%.30s') vs %u (tag %u '%.30s')", m, i, x.tag, x.name.c_str(), j, y.tag, y.name.c_str()); if (why.empty()) why = t; return false;
    }
    bool list(u32 i, u32 j, const char *what) {
        U g = 0;
        while (i || j) {
            if (!i || !j) return fail(what, i, j);
            if (i >= a.n.size() || j >= b.n.size() || ++g > 200000) return fail("list broken", i, j);
            u32 ri = i, rj = j;
            if (b.n[j].tag == _decl_alias) { aliases++; }
            if (!resolve(a, ri) || !resolve(b, rj)) return fail("alias broken", i, j);
            if (a.n[i].name != b.n[j].name) return fail("list entry name", i, j);
            if (!same(ri, rj)) return false;
            i = a.n[i].next; j = b.n[j].next;
        }
        return true;
    }
    bool same(u32 i, u32 j) {
        if (!resolve(a, i) || !resolve(b, j)) return fail("alias broken", i, j);
        if (!i || !j) return i == j ? true : fail("missing", i, j);
        if (!seen.insert({ i, j }).second) return true;
        const Node &x = a.n[i], &y = b.n[j];
        if (x.tag == _decl_intrinsic || y.tag == _decl_intrinsic) { if (x.tag != y.tag || x.name != y.name || x.props != y.props || x.qty != y.qty) return fail("intrinsic", i, j); return true; }
        if (x.tag != y.tag) return fail("tag", i, j);
        if (x.name != y.name) return fail("name", i, j);
        if (x.props != y.props) return fail("props", i, j);
        if (x.qty != y.qty) return fail("quantity", i, j);
        if (!list(x.attr, y.attr, "attribute list")) return false;
        if (container(x.tag)) return list(x.link, y.link, "children");
        if (x.tag == _decl_attribute) return list(x.link, y.link, "attribute values");
        return same(x.link, y.link);
    }
};
static inline std::vector<u32> children(const Snap &s, u32 i) { std::vector<u32> v; U g = 0; for (u32 c = s.n[i].link; c && c < s.n.size() && g < 1000000; c = s.n[c].next, g++) v.push_back(c); return v; }
// ---- an edit of a database in place, and the same edit of its snapshot: call inside a task -------
static inline U edit_in_place(decl_db *db, Snap &s, U seed, U count, bool rename) {
    Rng r(seed); U done = 0; size_t lo = s.builtin; if (s.n.size() <= lo) return 0;
    auto P = [&](u32 i) { return crefl_decl_ptr(crefl_lookup(db, i)); };
    auto fresh = [&](u32 tag, const char *nm, u64 qty, u32 props) -> u32 {
        u32 i = crefl_decl_idx(crefl_decl_new(db, tag)); if (!i) return 0; u32 id = crefl_name_new(db, nm); P(i)->_name = id; P(i)->_quantity = qty; P(i)->_props = props;
        Node m; m.tag = tag; m.name = nm; m.qty = qty; m.props = props; s.n.push_back(m); return i; };
    for (U g = 0; g < count * 8 && done < count; g++) {
        u32 i = lo + r.below(s.n.size() - lo); u32 t = s.n[i].tag; U k = r.below(9), before = done;
        bool type_user = t == _decl_field || t == _decl_param || t == _decl_typedef || t == _decl_pointer || t == _decl_array || t == _decl_qualifier;
        bool rec = t == _decl_struct || t == _decl_union;
        if (k == 0 && rename && (rec || t == _decl_enum || t == _decl_field || t == _decl_constant || t == _decl_typedef)) { std::string nm = "nm" + std::to_string(r.below(4)); u32 id = crefl_name_new(db, nm.c_str()); P(i)->_name = id; s.n[i].name = nm; done++; }
        else if (k == 1 && (t == _decl_constant || t == _decl_value || t == _decl_array)) { u64 q = t == _decl_array ? 1 + r.below(20) : r.next(); P(i)->_quantity = s.n[i].qty = q; done++; }
        else if (k == 2 && t == _decl_field && (s.n[i].props & _decl_bitfield)) { P(i)->_quantity = s.n[i].qty = 1 + r.below(31); done++; }
        else if (k == 3 && rec) { P(i)->_props = s.n[i].props = s.n[i].props ^ _decl_static; done++; }
        else if (k >= 4 && k < 6 && type_user) { P(i)->_link = s.n[i].link = 1 + r.below(lo - 1); done++; }
        else if (k == 6 && rec) { u32 f = fresh(_decl_field, "added", 0, 0); if (!f) return done; P(f)->_link = s.n[f].link = 1 + r.below(lo - 1); u32 last = 0; U gg = 0; for (u32 c = s.n[i].link; c && gg < 100000; c = s.n[c].next, gg++) last = c; if (last) P(last)->_next = s.n[last].next = f; else P(i)->_link = s.n[i].link = f; done++; }
        else if (k == 7 && (rec || t == _decl_field || t == _decl_enum || t == _decl_function)) { u32 a = fresh(_decl_attribute, "annotate", 0, 0); u32 v = fresh(_decl_value, "edited", r.below(9), 0); if (!a || !v) return done; P(a)->_link = s.n[a].link = v; P(a)->_next = s.n[a].next = s.n[i].attr; P(i)->_attr = s.n[i].attr = a; done++; }
        else if (k == 8 && (rec || t == _decl_enum || t == _decl_set || t == _decl_source)) { u32 c = s.n[i].link; if (c && s.n[c].next) { P(c)->_next = s.n[c].next = s.n[s.n[c].next].next; done++; } }
        (void)before;
    }
    return done;
}
// ---- reference layout, from the stored nodes alone; unknown for bit-fields, packing and recursion by value --
struct Layout {
    struct L { u64 align = 1, width = 0; bool known = true; };
    const Snap &s; std::map<u32, L> memo; std::set<u32> busy;
    Layout(const Snap &x) : s(x) { }
    static u64 up(u64 v, u64 a) { return (v + a - 1) / a * a; }
    static L natural(u64 w) { L l; if (!w) return l; while (l.align * 2 <= w && l.align < 128) l.align *= 2; l.width = up(w, l.align); return l; }
    bool special(u32 i) { if (s.n[i].tag == _decl_field && (s.n[i].props & _decl_bitfield)) return true; U g = 0; for (u32 a = s.n[i].attr; a && a < s.n.size() && g < 1000; a = s.n[a].next, g++) if (s.n[a].name == "packed" || s.n[a].name == "aligned") return true; return false; }
    L get(u32 i) {
        L bad; bad.known = false; if (i >= s.n.size()) return bad;
        auto f = memo.find(i); if (f != memo.end()) return f->second;
        if (busy.size() > 500 || !busy.insert(i).second) return bad;
        const Node &n = s.n[i]; L l;
        switch (n.tag) {
        case _decl_intrinsic: if (n.props & _decl_pad_byte) { l.align = 8; l.width = up(n.qty, 8); } else if (n.props & _decl_pad_pow2) { l = natural(n.qty); if (n.props & _decl_complex && l.align > 1) { L h = natural(n.qty / 2); l.align = h.align; l.width = up(n.qty, h.align); } if (!n.qty) l.known = false; } else l.width = n.qty; break;
        case _decl_pointer: case _decl_enum: case _decl_set: l = natural(n.qty); if (!n.qty) l.known = false; break;
        case _decl_typedef: case _decl_qualifier: case _decl_field: if (n.link) l = get(n.link); break;
        case _decl_array: if (n.link) l = get(n.link); l.width *= n.qty; break;
        case _decl_struct: for (u32 c : children(s, i)) if (s.n[c].tag == _decl_field) { L m = s.n[c].link ? get(s.n[c].link) : L(); if (!m.known || special(c)) l.known = false; l.align = std::max(l.align, m.align); l.width = up(l.width, m.align) + m.width; } l.width = up(l.width, l.align); break;
        case _decl_union: for (u32 c : children(s, i)) if (s.n[c].tag == _decl_field) { L m = s.n[c].link ? get(s.n[c].link) : L(); if (!m.known || special(c)) l.known = false; l.align = std::max(l.align, m.align); l.width = std::max(l.width, m.width); } l.width = up(l.width, l.align); break;
        case _decl_alias: l.known = false; break;
        default: break;
        }
        if (special(i)) l.known = false;
        busy.erase(i); return memo[i] = l;
    }
    std::vector<std::pair<u32, u64>> offsets(u32 i) { std::vector<std::pair<u32, u64>> v; u64 o = 0; for (u32 c : children(s, i)) if (s.n[c].tag == _decl_field) { L m = s.n[c].link ? get(s.n[c].link) : L(); o = up(o, m.align); v.push_back({ c, o }); o += m.width; } return v; }
};
// the builtin types every database starts with, as documented
static inline std::string builtin_table_error(const Snap &s) {
    struct B { const char *name; u64 width; u32 props; };
    static const B t[] = { { "void", 0, 0 }, { "bool", 1, _decl_sint }, { "bit", 1, _decl_uint }, { "sign", 1, _decl_sint }, { "ubyte", 8, _decl_uint }, { "byte", 8, _decl_sint }, { "ushort", 16, _decl_uint }, { "short", 16, _decl_sint }, { "uint", 32, _decl_uint }, { "int", 32, _decl_sint }, { "ulong", 64, _decl_uint }, { "long", 64, _decl_sint }, { "ucent", 128, _decl_uint }, { "cent", 128, _decl_sint },
        { "half", 16, _decl_float }, { "float", 32, _decl_float }, { "double", 64, _decl_float }, { "quad", 128, _decl_float }, { "chalf", 32, _decl_cfloat }, { "cfloat", 64, _decl_cfloat }, { "cdouble", 128, _decl_cfloat }, { "cquad", 256, _decl_cfloat } };
    for (auto &b : t) { U hits = 0; for (u32 i = 1; i < s.builtin; i++) if (s.n[i].tag == _decl_intrinsic && s.n[i].name == b.name && s.n[i].qty == b.width && (s.n[i].props & 0x3f) == b.props) hits++; if (hits != 1) return std::string("the builtin type '") + b.name + "' is there " + std::to_string(hits) + " times"; }
    return "";
}
// ---- every type query of one declaration, as text ------------------------------------
static inline std::string query(decl_db *db, u32 i) {
    decl_ref d = crefl_lookup(db, i); char t[160]; std::string o; decl_tag tag = crefl_decl_tag(d);
    snprintf(t, sizeof t, "tag=%s width=%zu ", crefl_tag_name(tag), crefl_type_width(d)); o += t;
    auto one = [&](decl_ref f) { o += crefl_decl_name(f); snprintf(t, sizeof t, ":%s:%zu:%u:%llu ", crefl_tag_name(crefl_decl_tag(f)), crefl_type_width(crefl_is_field(f) ? crefl_field_type(f) : crefl_is_param(f) ? crefl_param_type(f) : crefl_is_constant(f) ? crefl_constant_type(f) : f), crefl_decl_props(f), (unsigned long long)crefl_decl_qty(f)); o += t; };
    auto list = [&](int (*fn)(decl_ref, decl_ref *, size_t *)) { size_t n = 0; if (fn(d, nullptr, &n)) return; std::vector<decl_ref> v(n); if (n) fn(d, v.data(), &n); o += "["; for (auto f : v) one(f); o += "]"; };
    switch (tag) {
    case _decl_struct: { list(crefl_struct_fields); size_t n = 0; crefl_struct_fields_offsets(d, nullptr, nullptr, &n); std::vector<decl_ref> r(n); std::vector<size_t> of(n); if (n) crefl_struct_fields_offsets(d, r.data(), of.data(), &n); for (size_t k = 0; k < n; k++) { snprintf(t, sizeof t, "@%zu ", of[k]); o += t; } break; }
    case _decl_union: list(crefl_union_fields); break;
    case _decl_enum: list(crefl_enum_constants); break;
    case _decl_set: list(crefl_set_constants); break;
    case _decl_function: list(crefl_function_params); snprintf(t, sizeof t, "addr=%llx", (unsigned long long)(size_t)crefl_function_addr(d)); o += t; break;
    case _decl_constant: snprintf(t, sizeof t, "value=%llu", (unsigned long long)crefl_constant_value(d).ux); o += t; break;
    case _decl_array: snprintf(t, sizeof t, "count=%zu elem=%zu", crefl_array_count(d), crefl_type_width(crefl_array_type(d))); o += t; break;
    case _decl_typedef: snprintf(t, sizeof t, "to=%zu", crefl_type_width(crefl_typedef_type(d))); o += t; break;
    default: break;
    }
    // attributes, in order
    o += " attrs("; U g = 0; for (decl_ref a = crefl_decl_attr(d); crefl_decl_idx(a) && g < 1000; a = crefl_decl_next(a), g++) { o += crefl_decl_name(a); if (crefl_decl_idx(crefl_decl_link(a))) { snprintf(t, sizeof t, "=%s/%llu", crefl_decl_name(crefl_decl_link(a)), (unsigned long long)crefl_decl_qty(crefl_decl_link(a))); o += t; } o += " "; } o += ")";
    return o;
}
}
