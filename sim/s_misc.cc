// Digests (C13), the hash table (C14), listings (C15), independent threads (C20), memory exhaustion (C21).
#include "dbm.h"
#include <sys/mman.h>
#include "simw.h"
#include "maps.h"
#include <cmath>
#include <crefl/asn1.h>
#include <crefl/sha256.h>
using namespace sim; using namespace dbm;

// ======================================================================== digests
namespace {
// FIPS 180-4 written down independently: constants derived from primes, whole message padded first
struct RefSha {
    uint32_t k[64]; uint32_t h256[8];
    RefSha() {
        int p = 2; auto prime = [](int n) { for (int d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; };
        for (int i = 0; i < 64; i++, p++) { while (!prime(p)) p++; long double c = cbrtl((long double)p); k[i] = (uint32_t)(U)floorl((c - floorl(c)) * 4294967296.0L); if (i < 8) { long double s = sqrtl((long double)p); h256[i] = (uint32_t)(U)floorl((s - floorl(s)) * 4294967296.0L); } }
    }
    static uint32_t rr(uint32_t x, int n) { return x >> n | x << (32 - n); }
    void block(uint32_t *h, const uint8_t *b) const {
        uint32_t w[64]; for (int t = 0; t < 16; t++) w[t] = (uint32_t)b[4 * t] << 24 | (uint32_t)b[4 * t + 1] << 16 | (uint32_t)b[4 * t + 2] << 8 | b[4 * t + 3];
        for (int t = 16; t < 64; t++) w[t] = (rr(w[t - 2], 17) ^ rr(w[t - 2], 19) ^ w[t - 2] >> 10) + w[t - 7] + (rr(w[t - 15], 7) ^ rr(w[t - 15], 18) ^ w[t - 15] >> 3) + w[t - 16];
        uint32_t v[8]; memcpy(v, h, 32);
        for (int t = 0; t < 64; t++) {
            uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[t] + w[t];
            uint32_t t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            memmove(v + 1, v, 28); v[4] += t1; v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) h[i] += v[i];
    }
    void init(bool is224, uint32_t *h) const {
        // initial values of SHA-224: second 32 bits of the square roots of the 9th to 16th primes (FIPS 180-4 5.3.2)
        static const uint32_t h224[8] = { 0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4 };
        memcpy(h, is224 ? h224 : h256, 32);
    }
    std::string finish(bool is224, uint32_t *h, const uint8_t *tail, size_t nt, U total) const {
        Bytes m(tail, tail + nt); m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); for (int i = 7; i >= 0; i--) m.push_back((total * 8) >> (8 * i));
        for (size_t i = 0; i < m.size(); i += 64) block(h, &m[i]);
        std::string o; char t[12]; for (int i = 0; i < (is224 ? 7 : 8); i++) { snprintf(t, sizeof t, "%08x", h[i]); o += t; } return o;
    }
    std::string operator()(bool is224, const Bytes &msg) const {
        uint32_t h[8]; init(is224, h); size_t i = 0; for (; i + 64 <= msg.size(); i += 64) block(h, &msg[i]);
        return finish(is224, h, msg.data() + i, msg.size() - i, msg.size());
    }
};
const RefSha &refsha() { static RefSha r; return r; }
size_t gen_msglen(Rng &r) { switch (r.below(6)) { case 0: return r.below(4); case 1: return 54 + r.below(12); case 2: return 64 * r.below(6) + 54 + r.below(12); case 3: return 64 * r.below(20); case 4: return r.below(300); default: return r.pow2ish(6000); } }
size_t gen_piece(Rng &r, size_t left, size_t fill) {
    switch (r.below(7)) { case 0: return 0; case 1: return 1; case 2: return std::min(left, 64 - fill % 64); case 3: return std::min<size_t>(left, 63 - (fill % 64 == 63) - fill % 64 % 63); case 4: return std::min<size_t>(left, 64 * (1 + r.below(3))); case 5: return left; default: return r.below(left + 1); }
}
// one message, digested in pieces: state memory holds garbage before, pieces sit at odd addresses
struct Digest {
    bool is224 = false; Bytes msg; size_t at = 0; sha256_ctx *ctx = nullptr; Rng r{0}; bool started = false, done = false; std::string got; U pieces = 0; bool shared = false;
    void setup(U seed, uint8_t fill) { r = Rng(seed); is224 = r.below(2); msg.resize(gen_msglen(r)); U pat = r.below(4); for (auto &c : msg) c = pat == 0 ? 0 : pat == 1 ? 0xff : r.next(); if (!ctx) { ctx = (sha256_ctx *)malloc(sizeof *ctx); } memset(ctx, fill, sizeof *ctx); }
    void step() {
        if (!started) { if (is224) sha224_init(ctx); else sha256_init(ctx); started = true; return; }
        if (at < msg.size() || (pieces == 0 && r.chance(1, 2))) {
            size_t n = gen_piece(r, msg.size() - at, at); if (n > msg.size() - at) n = msg.size() - at; if (!n && r.chance(1, 3)) n = msg.size() - at;
            size_t off = r.below(8); uint8_t *p = (uint8_t *)malloc(n + off + 1); memcpy(p + off, msg.data() + at, n);       // an exact copy that dies right after
            sha256_update(ctx, p + off, n); memset(p, 0xEE, n + off + 1); free(p); at += n; pieces++; return;
        }
        unsigned char out[32 + 16]; memset(out, 0x77, sizeof out); unsigned char *o = out + r.below(8);
        if (is224) sha224_final(ctx, o); else sha256_final(ctx, o);
        size_t n = is224 ? 28 : 32; got = hex(o, n); for (unsigned char *q = out; q < out + sizeof out; q++) if ((q < o || q >= o + n) && *q != 0x77) violation("overrun", "finishing a digest wrote outside its %zu bytes", n);
        done = true;
    }
    void check(const char *how) { std::string want = refsha()(is224, msg); REQUIRE(got == want, "digest", "SHA-%s of %zu bytes in %llu pieces (%s) is %s, not %s", is224 ? "224" : "256", msg.size(), (unsigned long long)pieces, how, got.c_str(), want.c_str()); mixlog(got.data(), got.size()); op_done(); }
    ~Digest() { free(ctx); }
};
}
extern "C" { void fast_sha256_init(sha256_ctx *) __attribute__((weak)); void fast_sha256_update(sha256_ctx *, const void *, size_t) __attribute__((weak)); void fast_sha256_final(sha256_ctx *, unsigned char *) __attribute__((weak)); }
namespace {
// digests on record hold for their messages only: a shortened plan is judged by the reference
std::string on_record(U bytes, U s, const std::string &sha) {
    static const struct { U bytes, s; const char *sha; } known[] = { { 536870975, 7, "be0b8fd70f254c4256acb1e613055d872d2004b03435ed5112a63c338ef4ea41" }, { 4294967407, ~0ull, "90e24719b7e33e4dec98adcd86c364de4c4d416cdc1979f9ec6a09da21fc6875" } };
    for (auto &k : known) if (k.bytes == bytes && k.s == s && sha == k.sha) return sha;
    return "";
}
void run_c13(const Plan &p) {
    Host w; w.boot();
    for (auto &l : p.lines) {
        if (l.verb == "mix") {            // several digests advanced in turn in one thread; contexts reused for a second message
            Rng r(l.num("s")); U n = 1 + l.num("n"); std::vector<std::unique_ptr<Digest>> d; for (U i = 0; i < n; i++) { d.emplace_back(new Digest); d[i]->setup(r.next(), r.next()); }
            U again = l.num("again");
            w.sut("digesting", [&] { U live = n; std::vector<char> dead(n, 0); while (live) { U i = r.below(n); if (dead[i]) continue; d[i]->step(); if (d[i]->done) { d[i]->check("taking turns"); if (again) { again--; sha256_ctx *keep = d[i]->ctx; d[i]->ctx = nullptr; std::unique_ptr<Digest> nd(new Digest); nd->ctx = keep; uint8_t *raw = (uint8_t *)keep; Bytes old(raw, raw + sizeof *keep); nd->setup(r.next(), 0); memcpy(keep, old.data(), old.size()); d[i] = std::move(nd); } else { dead[i] = 1; live--; } } } });
            probe("digests taking turns", n);
        } else if (l.verb == "par") {     // preempted threads, each with its own states
            Rng r(l.num("s")); U T = 2 + l.num("t") % 3; std::vector<std::vector<std::unique_ptr<Digest>>> d(T); std::vector<TaskSpec> ts;
            for (U t = 0; t < T; t++) { for (U i = 0; i < 1 + l.num("n"); i++) { d[t].emplace_back(new Digest); d[t][i]->setup(r.next(), r.next()); } auto *v = &d[t]; ts.push_back({ [v] { for (auto &x : *v) while (!x->done) x->step(); }, w.proc }); }
            auto o = run_tasks(ts); for (auto &x : o) REQUIRE(x.st == T_DONE, "crash", "digesting crashed: %s", x.why.c_str());
            for (auto &v : d) for (auto &x : v) x->check("preempted by other threads"); probe("digests in preempted threads", T);
        } else if (l.verb == "whole" && fast_sha256_init) {  // zeros, almost all handed over in one call; the digest on record is from sha256sum
            U total = l.num("bytes"), first = l.num("first"); void *z = mmap(nullptr, total, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) { probe("very long messages not possible here"); continue; }
            sha256_ctx c; unsigned char out[32]; fast_sha256_init(&c); fast_sha256_update(&c, z, first); fast_sha256_update(&c, (char *)z + first, total - first); fast_sha256_final(&c, out); munmap(z, total); std::string want = on_record(total, ~0ull, l.str("sha")); if (want.empty()) { if (total > 64 << 20) continue; Bytes zb(total); uint32_t h[8]; refsha().init(false, h); size_t i = 0; for (; i + 64 <= total; i += 64) refsha().block(h, &zb[i]); want = refsha().finish(false, h, zb.data() + i, total - i, total); }
            event("whole %s", hex(out, 32).c_str()); REQUIRE(hex(out, 32) == want, "digest", "SHA-256 of a message of %llu zero bytes is %s, not %s", (unsigned long long)total, hex(out, 32).c_str(), want.c_str()); op_done(); probe("very long messages");
        } else if (l.verb == "bulk" && fast_sha256_init) {   // message whose bit count does not fit 32 bits; same source file compiled without instrumentation
            U total = l.num("bytes"); Bytes chunk(1 << 20); Rng r(l.num("s")); for (auto &c : chunk) c = r.next();
            sha256_ctx c; fast_sha256_init(&c); uint32_t h[8]; refsha().init(false, h); U left = total; unsigned char out[32]; std::string want = on_record(total, l.num("s"), l.str("sha")); bool known = !want.empty();     // a digest on record saves computing it again
            if (!total) want = refsha().finish(false, h, chunk.data(), 0, 0);
            while (left) { size_t n = std::min<U>(left, chunk.size()); fast_sha256_update(&c, chunk.data(), n); left -= n; size_t i = 0; if (known) continue; for (; i + 64 <= n; i += 64) refsha().block(h, &chunk[i]); if (!left) want = refsha().finish(false, h, &chunk[i], n - i, total); }
            fast_sha256_final(&c, out); event("bulk %s", hex(out, 32).c_str()); REQUIRE(hex(out, 32) == want, "digest", "SHA-256 of a message of %llu bytes is %s, not %s", (unsigned long long)total, hex(out, 32).c_str(), want.c_str()); op_done(); probe("very long messages");
        }
    }
}
void gen_c13(Rng &r, Plan &p, bool th) {
    gen_mem(r, p); U n = 1 + r.below(th ? 10 : 5), grp = 0;
    for (U i = 0; i < n; i++) if (r.chance(1, 2)) p.add("mix").set("s", r.next() >> 1).set("n", r.below(5)).set("again", r.below(4)); else { p.add("par").set("s", r.next() >> 1).set("t", r.below(3)).set("n", r.below(4)); gen_switches(r, p, 1 + r.below(60), 200 + r.pow2ish(30000), grp++); }
}
Register r13("C13", gen_c13, run_c13);

// ======================================================================== hash table
struct Slot { IMap *m = nullptr; std::map<U, U> ref; bool moved = false; };
void pair_cb(void *p, U k, U v) { ((std::vector<std::pair<U, U>> *)p)->push_back({ k, v }); }
std::vector<std::pair<U, U>> listed(IMap *m, int form) { std::vector<std::pair<U, U>> v; v.reserve(m->size() * 2 + 64); m->each(form, pair_cb, &v); return v; }
void check_map(Slot &s, int form, const char *when) {
    REQUIRE(s.m->size() == s.ref.size(), "size", "%s: size is %llu, %zu entries were put in", when, (unsigned long long)s.m->size(), s.ref.size());
    auto v = listed(s.m, form); U raw = v.size(); std::sort(v.begin(), v.end()); std::vector<std::pair<U, U>> want(s.ref.begin(), s.ref.end());
    REQUIRE(v == want, "entries", "%s: iteration visited %llu entries, not exactly the %zu entries of the map", when, (unsigned long long)raw, want.size());
    REQUIRE(s.m->empty_range() == s.ref.empty(), "entries", "%s: begin() == end() is %d for a map of %zu entries", when, s.m->empty_range(), s.ref.size());
}
void run_c14(const Plan &p) {
    Host w; std::vector<Slot> s(4); int type = 0; U K = 64;
    w.on_boot = [&] { for (auto &x : s) x = Slot(); leak_track(true); }; w.boot();
    U kmask = ~0ull, vmask = ~0ull; auto key = [&](U k) { if (type == 5) return k & 0xffffff; if (type == 6) return k & 0xffffffff; return k; }; auto val = [&](U v) { return type == 5 ? v & 0xffffffff : v; }; (void)kmask; (void)vmask;
    auto keyof = [&](Rng &r) { U k; switch (r.below(8)) { case 0: k = r.next(); break; case 1: k = r.below(8) << 60 | r.below(4); break; default: k = r.below(K); } return key(k); };
    for (auto &l : p.lines) {
        if (l.verb == "conf") { type = l.num("type") % MAP_TYPES; K = 1 + l.num("keys", 64); continue; }
        if (l.verb != "op") continue;
        Rng r(l.num("s")); Slot &a = s[l.num("a") % 4], &b = s[l.num("b") % 4]; U k = l.num("k");
        if (!a.m) { U sz = l.num("sz") % 8; sz = sz == 0 ? 0 : 1ull << (sz - 1); IMap *m = nullptr; if (!w.sut("creating a map", [&] { m = shim_map_new(type, sz); })) continue; a = Slot(); a.m = m; probe(sz == 1 ? "maps of initial size 1" : "maps created"); }
        if (a.moved && k != 8 && k != 9 && k != 10) { IMap *m = a.m; if (w.sut("destroying a map", [&] { delete m; })) a = Slot(); continue; }
        bool ok = true; auto S = [&](const char *what, std::function<void()> f) { ok = w.sut(what, f); return ok; };
        op_done();
        switch (k) {
        case 0: case 1: case 2: { U n = 1 + l.num("n"); IMap *m = a.m; S("inserting", [&] { for (U i = 0; i < n; i++) { U x = keyof(r), v = val(r.next()), rk = 0, rv = 0; m->insert(r.below(3), x, v, &rk, &rv); a.ref[x] = v; REQUIRE(rk == x && rv == v, "inserted", "insert(%llu, %llu) returned the entry (%llu, %llu)", (unsigned long long)x, (unsigned long long)v, (unsigned long long)rk, (unsigned long long)rv); } }); break; }
        case 3: { U n = 1 + l.num("n"); IMap *m = a.m; S("operator[]", [&] { for (U i = 0; i < n; i++) { U x = keyof(r), v = val(r.next()); if (r.chance(1, 5)) { U was = a.ref.count(x) ? a.ref[x] : 0; if (m->chain(x, v)) { a.ref[x] = was; a.ref[was] = v; probe("an entry's own value used as a key"); } } else if (r.chance(1, 2)) { m->set(x, v); a.ref[x] = v; } else { U g = m->get(x), want = a.ref.count(x) ? a.ref[x] : 0; REQUIRE(g == want, "value", "m[%llu] is %llu, not %llu", (unsigned long long)x, (unsigned long long)g, (unsigned long long)want); a.ref[x] = want; } } }); break; }
        case 4: { U n = 1 + l.num("n"); IMap *m = a.m; S("finding", [&] { for (U i = 0; i < n; i++) { U x = keyof(r), fk = 0, fv = 0; bool poke = r.chance(1, 6); U v = val(r.next()); bool f = poke ? m->poke(x, v) : m->find(x, &fk, &fv); REQUIRE(f == (a.ref.count(x) != 0), "found", "find(%llu) %s", (unsigned long long)x, f ? "found an entry that is not there" : "missed the entry"); if (f && poke) a.ref[x] = v; else if (f) REQUIRE(fk == x && fv == a.ref[x], "value", "find(%llu) gives (%llu, %llu), not value %llu", (unsigned long long)x, (unsigned long long)fk, (unsigned long long)fv, (unsigned long long)a.ref[x]); } }); break; }
        case 5: { U n = 1 + l.num("n"); IMap *m = a.m; S("erasing", [&] { for (U i = 0; i < n; i++) { U x = keyof(r); if (!a.ref.empty() && r.chance(1, 2)) { auto it = a.ref.lower_bound(x); x = it == a.ref.end() ? a.ref.begin()->first : it->first; } m->erase(x); a.ref.erase(x); } }); break; }
        case 6: { IMap *m = a.m; if (l.num("n") % 4 == 0 && S("clearing", [&] { m->clear(); })) a.ref.clear(); break; }
        case 7: if (&a != &b && !b.m) { IMap *m = a.m, *c = nullptr; if (S("copying", [&] { c = m->copy(); })) { b = Slot(); b.m = c; b.ref = a.ref; probe("maps copied"); } } break;
        case 8: if (b.m && !b.moved) { IMap *m = a.m, *c = b.m; if (S("copy assignment", [&] { m->assign(c); })) { a.ref = b.ref; a.moved = false; probe(&a == &b ? "self assignments" : "maps assigned"); } } break;
        case 9: if (b.m && !b.moved && (&a != &b || !a.moved)) { IMap *m = a.m, *c = b.m; if (S("move assignment", [&] { m->move_assign(c); })) { a.ref = b.ref; a.moved = false; if (&a != &b) b.moved = true; probe(&a == &b ? "self moves" : "maps moved"); } } break;
        case 10: if (&a != &b && !b.m && !a.moved) { IMap *m = a.m, *c = nullptr; if (S("moving", [&] { c = m->moved(); })) { b = Slot(); b.m = c; b.ref = a.ref; a.moved = true; probe("maps moved"); } } break;
        case 11: if (b.m && !b.moved) { bool e = false, d = false; IMap *m = a.m, *c = b.m; if (!S("comparing", [&] { e = m->equal(c); d = m->differs(c); })) break; REQUIRE(e == (a.ref == b.ref) && d == !e, "equal", "comparing maps of %zu and %zu entries gives == %d, != %d", a.ref.size(), b.ref.size(), e, d); } break;
        case 12: { IMap *m = a.m; if (S("destroying a map", [&] { delete m; })) a = Slot(); break; }
        // a table filled on its own in another order, the same or off by one entry, key or value
        case 14: { IMap *m = a.m; int ty = type; std::vector<std::pair<U, U>> v(a.ref.begin(), a.ref.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); int kind = r.below(4); U at = v.empty() ? 0 : r.below(v.size()), extra = keyof(r), dup = v.empty() ? 0 : r.below(v.size()); if (v.empty()) kind = kind == 1 ? 3 : 0;
            if (kind == 3) { if (a.ref.count(extra)) kind = 0; else v.push_back({ extra, val(r.next()) }); } U was = v.empty() ? 0 : v[at].second; if (kind == 1) v[at].second = val(was ^ 1ull << r.below(32)); if (kind == 2) v.erase(v.begin() + at);
            bool same = kind == 0, e = false, d = false, e2 = false, d2 = false; U sz = r.below(3) ? 0 : 1ull << r.below(7); bool churn = r.chance(1, 3);
            if (!S("comparing", [&] { IMap *c = shim_map_new(ty, sz); for (auto &x : v) { U rk, rv; c->insert(0, x.first, x.second, &rk, &rv); if (churn) { c->erase(x.first); c->set(x.first, x.second); } } e = m->equal(c); d = m->differs(c); e2 = c->equal(m); d2 = c->differs(m); delete c; })) break;
            REQUIRE(e == same && e2 == same && d == !same && d2 == !same, "equal", "comparing a map of %zu entries with one built on its own that %s gives == %d/%d, != %d/%d", a.ref.size(), kind == 0 ? "holds the same" : kind == 1 ? "has one other value" : kind == 2 ? "lacks one entry" : "has one more entry", e, e2, d, d2); probe("comparisons with a table of its own"); break; }
        default: S("iterating", [&] { check_map(a, r.below(3), "during the history"); });
        }
        if (!ok) continue;
        // copies are independent: every other map still holds its own entries
        if (r.chance(1, 4)) for (auto &x : s) if (x.m && !x.moved && !w.sut("iterating", [&] { check_map(x, r.below(3), "after an operation"); })) break;
        for (auto &x : s) if (x.m && !x.moved) { mixlog(x.ref.size()); }
    }
    for (auto &x : s) if (x.m && !x.moved) if (!w.sut("iterating", [&] { for (int f = 0; f < 3; f++) check_map(x, f, "at the end"); for (auto &e : x.ref) { U fk, fv; bool f = x.m->find(e.first, &fk, &fv); REQUIRE(f && fv == e.second, "found", "at the end: entry %llu is missing or wrong", (unsigned long long)e.first); } })) break;
    bool gone = true; for (auto &x : s) if (x.m) { IMap *m = x.m; x = Slot(); if (!w.sut("destroying a map", [&] { delete m; })) { gone = false; break; } }
    if (gone) { mixlog(leak_blocks()); REQUIRE(leak_blocks() == 0, "memory-leak", "with every table destroyed, %llu blocks (%llu bytes) are still allocated", (unsigned long long)leak_blocks(), (unsigned long long)leak_bytes()); probe("histories whose memory was all given back"); }
    leak_track(false);
}
void gen_c14(Rng &r, Plan &p, bool th) {
    gen_mem(r, p); p.add("conf").set("type", r.below(MAP_TYPES)).set("keys", r.chance(1, 2) ? 2 + r.below(12) : r.pow2ish(th ? 5000 : 600));
    if (r.chance(1, 600)) { p.lines.back().set("type", r.chance(1, 2) ? 3 : 6).set("keys", 66000 + r.below(100000)); p.add("op").set("k", (U)0).set("a", (U)0).set("b", (U)1).set("s", r.next() >> 1).set("n", 60000 + r.below(60000)).set("sz", (U)0); U m = 2 + r.below(5); for (U i = 0; i < m; i++) p.add("op").set("k", i % 2 ? 4 : r.below(15)).set("a", r.below(2)).set("b", r.below(2)).set("s", r.next() >> 1).set("n", r.pow2ish(30000)).set("sz", (U)0); return; }
    U n = 4 + r.below(th ? 120 : 40), maps = 1 + r.below(4), style = r.below(3);
    for (U i = 0; i < n; i++) {
        U k = r.below(15); if (style == 1 && r.chance(1, 2)) k = r.chance(1, 2) ? 0 : 5; if (style == 2 && r.chance(1, 2)) k = 3;
        p.add("op").set("k", k).set("a", r.below(maps)).set("b", r.below(4)).set("s", r.next() >> 1).set("n", r.chance(1, 8) ? r.below(200) : r.below(12)).set("sz", r.chance(1, 2) ? 0 : r.below(8));
    }
    if (r.chance(1, 10)) { gen_fault(r, p, -1, F_ALLOC); p.lines.back().set("n", r.below(40)); }
}
Register r14("C14", gen_c14, run_c14);

// ======================================================================== listings
struct LFn { const char *name; int (*fn)(decl_ref, decl_ref *, size_t *); u32 of; std::vector<u32> member; };
const std::vector<LFn> &lfns() {
    static const std::vector<u32> types = { _decl_typedef, _decl_intrinsic, _decl_set, _decl_enum, _decl_struct, _decl_union, _decl_array, _decl_pointer, _decl_qualifier };
    static const std::vector<LFn> v = {
        { "enum constants", crefl_enum_constants, _decl_enum, { _decl_constant } }, { "set constants", crefl_set_constants, _decl_set, { _decl_constant } }, { "struct fields", crefl_struct_fields, _decl_struct, { _decl_field } },
        { "union fields", crefl_union_fields, _decl_union, { _decl_field } }, { "function params", crefl_function_params, _decl_function, { _decl_param } }, { "source decls", crefl_source_decls, _decl_source, {} },
        { "source types", crefl_source_types, _decl_source, types }, { "source fields", crefl_source_fields, _decl_source, { _decl_field } }, { "source functions", crefl_source_functions, _decl_source, { _decl_function } }, { "archive sources", crefl_archive_sources, _decl_archive, { _decl_source } } };
    return v;
}
std::vector<u32> expected(const Snap &s, u32 i, const std::vector<u32> &member) { std::vector<u32> v; for (u32 c : children(s, i)) if (member.empty() || std::count(member.begin(), member.end(), s.n[c].tag)) v.push_back(c); return v; }
struct LDb { decl_db *db = nullptr; Snap s; };
void ask(LDb &d, u32 i, const LFn &f, U cap, const char *when) {
    bool kind = d.s.n[i].tag == f.of; auto want = kind ? expected(d.s, i, f.member) : std::vector<u32>();
    size_t n = cap; std::vector<decl_ref> room(cap + 2, decl_ref{ (decl_db *)0x5151, 777 }); decl_ref *arr = (decl_ref *)malloc(cap * sizeof(decl_ref) + !cap); for (U k = 0; k < cap; k++) arr[k] = room[0];
    int r = f.fn(crefl_lookup(d.db, i), arr, &n);
    if (!kind) REQUIRE(r != 0, "kind", "%s of a declaration of kind %u was not refused", f.name, d.s.n[i].tag);
    else {
        REQUIRE(r == 0, "refused", "%s of declaration %u was refused (%d) %s", f.name, i, r, when);
        REQUIRE(n == want.size(), "count", "%s of declaration %u with room for %llu: %zu reported, %zu there (%s)", f.name, i, (unsigned long long)cap, n, want.size(), when);
        for (U k = 0; k < cap; k++) if (k < want.size()) REQUIRE(arr[k].db == d.db && arr[k].decl_idx == want[k], "elements", "%s of declaration %u: element %llu is %zu, not %u (%s)", f.name, i, (unsigned long long)k, arr[k].decl_idx, want[k], when);
            else REQUIRE(arr[k].decl_idx == 777, "overrun", "%s of declaration %u wrote element %llu of %zu", f.name, i, (unsigned long long)k, want.size());
        probe(cap < want.size() ? "arrays too small" : cap == want.size() ? "arrays that fit" : "arrays too big"); if (cap < want.size()) mixlog(cap);
    }
    free(arr);
}
void ask_count(LDb &d, u32 i, const LFn &f, U garbage, const char *when) {
    bool kind = d.s.n[i].tag == f.of; size_t n = garbage; int r = f.fn(crefl_lookup(d.db, i), nullptr, &n);
    if (!kind) { REQUIRE(r != 0, "kind", "the number of %s of a declaration of kind %u was not refused", f.name, d.s.n[i].tag); return; }
    auto want = expected(d.s, i, f.member); REQUIRE(r == 0 && n == want.size(), "count", "the number of %s of declaration %u is reported as %zu (%d), there are %zu (%s)", f.name, i, n, r, want.size(), when);
}
void ask_offsets(LDb &d, u32 i, U cap, U which, const char *when) {
    bool kind = d.s.n[i].tag == _decl_struct; size_t n = 12345; decl_ref x = crefl_lookup(d.db, i);
    int r = crefl_struct_fields_offsets(x, nullptr, nullptr, &n);
    if (!kind) { REQUIRE(r != 0, "kind", "field offsets of a declaration of kind %u were not refused", d.s.n[i].tag); return; }
    auto want = expected(d.s, i, { _decl_field }); size_t full = want.empty() ? 0 : want.size() + 1;
    REQUIRE(r == 0 && n == full, "count", "field offsets of declaration %u: %zu reported (%d), %zu fields (%s)", i, n, r, want.size(), when);
    std::vector<size_t> all(full + 1, 0); n = full; crefl_struct_fields_offsets(x, nullptr, all.data(), &n);
    decl_ref *ra = (decl_ref *)malloc(cap * sizeof(decl_ref) + !cap); size_t *oa = (size_t *)malloc(cap * sizeof(size_t) + !cap); for (U k = 0; k < cap; k++) { ra[k] = decl_ref{ nullptr, 777 }; oa[k] = ~(size_t)0; }
    n = cap; r = crefl_struct_fields_offsets(x, which & 1 ? nullptr : ra, which & 2 ? nullptr : oa, &n);
    REQUIRE(r == 0 && n == full, "count", "field offsets of declaration %u with room for %llu: %zu reported, %zu expected (%s)", i, (unsigned long long)cap, n, full, when);
    for (U k = 0; k < cap && k < full; k++) {
        if (!(which & 1)) REQUIRE(ra[k].db == d.db && ra[k].decl_idx == (k < want.size() ? want[k] : 0), "elements", "field offsets of declaration %u: element %llu is %zu (%s)", i, (unsigned long long)k, ra[k].decl_idx, when);
        if (!(which & 2)) { REQUIRE(oa[k] == all[k], "elements", "field offset %llu of declaration %u is %zu with room for %llu and %zu with enough room", (unsigned long long)k, i, oa[k], (unsigned long long)cap, all[k]); if (k) REQUIRE(oa[k] >= oa[k - 1], "elements", "field offsets of declaration %u go backwards", i); }
    }
    for (U k = full ? full : 1; k < cap; k++) REQUIRE(ra[k].decl_idx == 777 && oa[k] == ~(size_t)0, "overrun", "field offsets of declaration %u wrote element %llu of %zu", i, (unsigned long long)k, full);
    free(ra); free(oa);
}
// nested structures by value make the layout of a type cost its expanded size
bool affordable(const Snap &s, u32 i, U &left, int depth = 0) {
    if (!left || depth > 60) return false; left--;
    const Node &n = s.n[i]; if (n.tag == _decl_pointer) return true;
    if (n.tag == _decl_struct || n.tag == _decl_union) { for (u32 c : children(s, i)) if (s.n[c].tag == _decl_field && !affordable(s, s.n[c].link, left, depth + 1)) return false; return true; }
    if (n.link && n.link < s.n.size() && (n.tag == _decl_array || n.tag == _decl_typedef || n.tag == _decl_qualifier || n.tag == _decl_alias)) return affordable(s, n.link, left, depth + 1);
    return true;
}
void run_c15(const Plan &p) {
    Host w; std::vector<LDb> dbs; Universe u; w.on_boot = [&] { dbs.clear(); }; w.boot(); U idx = 0;
    for (auto &l : p.lines) {
        if (l.verb == "types") { if (l.num("big")) set_budget(800000000); if (l.num("ring")) set_budget(3000000000); Rng r(l.num("s")); u = gen_universe(r, l.num("n"), l.num("cyc"), true, 22, l.num("big")); if (l.num("ring")) rings(u, l.num("ring")); if (l.num("deep")) deep_refs(u, l.num("deep")); continue; }
        if (l.verb != "op" || u.t.empty()) continue;
        Rng r(l.num("s")); U k = l.num("k"); LDb *d = dbs.empty() ? nullptr : &dbs[l.num("a") % dbs.size()]; op_done();
        if (k == 0 || !d) {       // a translation unit
            std::vector<int> order; U pct = 20 + r.below(80); for (size_t i = 0; i < u.t.size(); i++) if (!u.t[i].nested && r.below(100) < pct) order.push_back(i);
            decl_db *x = nullptr; std::string nm = "unit" + std::to_string(idx++) + ".c"; if (!w.sut("building", [&] { x = crefl_db_new(); crefl_db_defaults(x); Emitter e(x, u); e.source(nm, order); })) continue;
            dbs.push_back({ x, snap(x) });
        } else if (k == 1) {      // saved and loaded copy
            decl_db *x = d->db, *y = nullptr; int rc = -1; Snap old = d->s; if (!w.sut("reloading", [&] { Bytes b(crefl_db_size(x)); rc = crefl_db_write_mem(x, b.data(), b.size()); y = crefl_db_new(); if (!rc) rc = crefl_db_read_mem(y, b.data(), b.size()); })) continue;
            if (rc == 0) dbs.push_back({ y, snap(y) });
        } else if (k == 2) {      // merged
            std::vector<decl_db *> in; U nodes = 0; for (U i = 0; i < 1 + l.num("n") % 4; i++) { LDb &e = dbs[r.below(dbs.size())]; if (nodes + e.s.n.size() > 30000) break; nodes += e.s.n.size(); in.push_back(e.db); }
            decl_db *y = nullptr; int rc = -1; if (in.empty() || !w.sut("merging", [&] { y = crefl_db_new(); rc = crefl_link_merge(y, "/x/lib.refl", in.data(), in.size()); })) continue;
            if (rc == 0) dbs.push_back({ y, snap(y) });
        } else if (k == 3) {      // a listing in two calls while the database grows in between
            u32 i = 1 + r.below(d->s.n.size() - 1); for (int g = 0; g < 40 && children(d->s, i).empty(); g++) i = 1 + r.below(d->s.n.size() - 1);
            for (auto &f : lfns()) if (f.of == d->s.n[i].tag) {
                decl_db *x = d->db; size_t n = r.next(); int rc = -1; if (!w.sut("listing", [&] { rc = f.fn(crefl_lookup(x, i), nullptr, &n); })) break;
                auto before = expected(d->s, i, f.member); REQUIRE(rc == 0 && n == before.size(), "count", "the number of %s of declaration %u is reported as %zu, there are %zu", f.name, i, n, before.size());
                U add = 1 + r.below(300); bool link_in = r.chance(1, 2) && !before.empty(); u32 last = 0; for (u32 c : children(d->s, i)) last = c; u32 tag = f.member.empty() ? (u32)_decl_struct : f.member[0];
                if (!w.sut("growing", [&] { u32 prev = last; for (U q = 0; q < add; q++) { crefl_name_new(x, ("grown" + std::to_string(q)).c_str()); decl_ref nd = crefl_decl_new(x, tag); if (tag != _decl_struct && tag != _decl_function && tag != _decl_source) crefl_decl_ptr(nd)->_link = 1; u32 id = crefl_decl_idx(nd); if (link_in && q % 3 == 0) { crefl_decl_ptr(crefl_lookup(x, prev))->_next = id; prev = id; } } })) break;
                d->s = snap(x); if (!w.sut("listing", [&] { ask(*d, i, f, n, "after growing between the two calls"); })) break; probe("growth between the two calls");
            }
        } else {                  // ask everything of a range of declarations, with any room
            U from = 1 + r.below(d->s.n.size() - 1), cnt = 1 + l.num("n") * 4; std::vector<u32> at; for (U i = 0; i < cnt; i++) at.push_back(i % 3 == 0 ? 1 + r.below(d->s.n.size() - 1) : 1 + (from + i) % (d->s.n.size() - 1)); at.push_back(d->s.root ? d->s.root : 1);
            for (u32 i : at) if (!w.sut("listing", [&] { for (auto &f : lfns()) { if (f.of != d->s.n[i].tag && !r.chance(1, 4)) continue; U full = expected(d->s, i, f.member).size(); ask_count(*d, i, f, r.below(3) ? r.next() : 0, "count"); U caps[] = { 0, 1, full ? full - 1 : 0, full, full + 1, full + 2, r.below(full + 4) }; for (U c : caps) ask(*d, i, f, c, "fetch"); }
                    U left = 3000; if (d->s.n[i].tag != _decl_struct ? r.chance(1, 8) : affordable(d->s, i, left)) { U full = d->s.n[i].tag == _decl_struct ? expected(d->s, i, { _decl_field }).size() + 1 : 0; U caps[] = { 0, 1, full ? full - 1 : 0, full, full + 1, full + 2, r.below(full + 4) }; for (U c : caps) ask_offsets(*d, i, c, r.below(3), "fetch"); } })) break;
            std::string e = d->db ? diff(d->s, snap(d->db)) : ""; REQUIRE(e.empty(), "changed", "listing changed the database: %s", e.c_str());
        }
        while (dbs.size() > 8) { decl_db *x = dbs[0].db; dbs.erase(dbs.begin()); w.sut("destroying", [&] { crefl_db_destroy(x); }); }
    }
    for (auto &d : dbs) { decl_db *x = d.db; w.sut("destroying", [&] { crefl_db_destroy(x); }); }
}
void gen_c15(Rng &r, Plan &p, bool th) {
    gen_mem(r, p); p.add("types").set("s", r.next() >> 1).set("n", 3 + r.below(th ? 40 : 20)).set("cyc", r.below(2)); if (r.chance(1, 10)) p.lines.back().set("big", 1 + r.below(1 << 30)); if (r.chance(1, 16)) p.lines.back().set("ring", 1 + r.below(1 << 30)); if (r.chance(1, 8)) p.lines.back().set("deep", 1 + r.below(1 << 30));
    U n = 4 + r.below(th ? 24 : 12); for (U i = 0; i < n; i++) { U k = i ? r.below(9) : 0; p.add("op").set("k", k).set("a", r.below(16)).set("s", r.next() >> 1).set("n", r.below(10)); }
}
Register r15("C15", gen_c15, run_c15);

// ======================================================================== programs over private objects
struct Failed { };                                  // an operation said that it failed
struct Session {
    std::string dir; std::vector<decl_db *> dbs; Universe u; sha256_ctx ctx; U units = 0; Proc *proc = nullptr;
    decl_db *pick(U k) { return dbs.empty() ? nullptr : dbs[k % dbs.size()]; }
};
enum { O_BUILD, O_MEM, O_FILE, O_LOADFILE, O_SCAN, O_MERGE, O_QUERY, O_CODEC, O_SHA, O_MAP, O_OID, O_LIST, O_DROP, O_GROW, O_BADLOAD, O_INTR, O_MAXSHARED, O_DUMP = O_MAXSHARED, O_STATS, O_MAXALL };
const char *oname[] = { "building", "saving to memory and loading", "saving to a file", "loading a file", "hashing", "merging", "querying", "encoding and decoding", "digesting", "hash table work", "object identifier text", "listing", "destroying", "growing", "loading damaged data", "finding builtin types", "dumping", "printing statistics" };
std::string H(U v) { char t[20]; snprintf(t, sizeof t, "%llx", (unsigned long long)v); return t; }
U hashb(const void *p, size_t n) { U h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ull; } return h; }
template <class T> T *need(T *p) { if (!p) throw Failed(); return p; }
std::string codec_work(U seed) {
    Rng r(seed); size_t room = 40 + r.below(400); crefl_buf *b = need(crefl_buf_new(room)); std::string o; U n = 3 + r.below(14); std::vector<int> ks; std::vector<int> rets;
    for (U i = 0; i < n; i++) {
        int k = r.below(11), rc = 0; U v = r.next() >> r.below(64); double f = r.chance(1, 3) ? (double)(int64_t)(v & 4095) / 16 : (double)v * 1.5; float g = (float)(v & 0xffff) / 8;
        switch (k) {
        case 0: { u64 x = v; rc = crefl_asn1_der_integer_u64_write(b, asn1_tag_integer, &x); break; } case 1: { s64 x = (s64)v; rc = crefl_asn1_der_integer_s64_write(b, asn1_tag_integer, &x); break; } case 2: { u64 x = v >> 8; rc = crefl_leb_u64_write(b, &x); break; }
        case 3: { u64 x = v >> 8; rc = crefl_vlu_u64_write(b, &x); break; } case 4: rc = crefl_vf_f64_write(b, &f); break; case 5: rc = crefl_vf_f32_write(b, &g); break; case 6: rc = crefl_asn1_der_real_f64_write(b, asn1_tag_real, &f); break;
        case 7: { asn1_oid x; memset(&x, 0, sizeof x); x.count = 2 + r.below(8); x.oid[0] = 1; x.oid[1] = r.below(40); for (U q = 2; q < x.count; q++) x.oid[q] = r.pow2ish(1 << 20); rc = crefl_asn1_der_oid_write(b, asn1_tag_object_identifier, &x); break; }
        case 8: { std::string s(r.below(30), 'a' + r.below(20)); asn1_string x; x.count = s.size(); x.str = (u8 *)s.data(); rc = crefl_asn1_der_octets_write(b, asn1_tag_octet_string, &x); break; } case 9: { bool x = v & 1; rc = crefl_asn1_der_boolean_write(b, asn1_tag_boolean, &x); break; }
        default: { asn1_id x; memset(&x, 0, sizeof x); x._identifier = v >> 10; x._class = v & 3; rc = crefl_asn1_ber_ident_write(b, x); }
        }
        ks.push_back(k); rets.push_back(rc); o += std::to_string(rc) + "/"; if (rc < 0) { ks.pop_back(); break; }
    }
    size_t end = crefl_buf_offset(b); o += hex((uint8_t *)b->data, end); b->data_offset = 0;
    for (int k : ks) {
        int rc = 0; std::string t;
        switch (k) {
        case 0: { u64 x = 0; rc = crefl_asn1_der_integer_u64_read(b, asn1_tag_integer, &x); t = H(x); break; } case 1: { s64 x = 0; rc = crefl_asn1_der_integer_s64_read(b, asn1_tag_integer, &x); t = H(x); break; } case 2: { u64 x = 0; rc = crefl_leb_u64_read(b, &x); t = H(x); break; }
        case 3: { u64 x = 0; rc = crefl_vlu_u64_read(b, &x); t = H(x); break; } case 4: { double x = 0; rc = crefl_vf_f64_read(b, &x); t = H(hashb(&x, 8)); break; } case 5: { float x = 0; rc = crefl_vf_f32_read(b, &x); t = H(hashb(&x, 4)); break; } case 6: { double x = 0; rc = crefl_asn1_der_real_f64_read(b, asn1_tag_real, &x); t = H(hashb(&x, 8)); break; }
        case 7: { asn1_oid x; memset(&x, 0, sizeof x); rc = crefl_asn1_der_oid_read(b, asn1_tag_object_identifier, &x); for (U q = 0; q < x.count && q < 15; q++) t += H(x.oid[q]) + "."; break; }
        case 8: { u8 s[64]; memset(s, 0, sizeof s); asn1_string x; x.count = sizeof s; x.str = s; rc = crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &x); t = H(x.count) + H(hashb(s, 64)); break; } case 9: { bool x = false; rc = crefl_asn1_der_boolean_read(b, asn1_tag_boolean, &x); t = x ? "T" : "F"; break; }
        default: { asn1_id x; memset(&x, 0, sizeof x); rc = crefl_asn1_ber_ident_read(b, &x); t = H(x._identifier) + "c" + H(x._class); }
        }
        o += " " + t + ":" + std::to_string(rc);
    }
    crefl_buf_destroy(b); return o;
}

std::string map_work(U seed) {
    Rng r(seed); int type = r.below(MAP_TYPES); IMap *m = need(shim_map_new(type, r.chance(1, 2) ? 0 : 1ull << r.below(6))), *c = nullptr; std::string o; U n = 5 + r.below(120), K = 2 + r.below(90);
    for (U i = 0; i < n; i++) {
        U k = r.below(K), v = r.next() & 0xffffff, a = 0, b = 0;
        switch (r.below(6)) { case 0: case 1: m->insert(r.below(3), k, v, &a, &b); o += H(a) + H(b); break; case 2: m->set(k, v); break; case 3: m->erase(k); break; case 4: o += m->find(k, &a, &b) ? H(b) : "-"; break; default: if (!c && r.chance(1, 6)) c = m->copy(); else o += H(m->get(k)); }
    }
    auto v = listed(m, r.below(3)); std::sort(v.begin(), v.end()); for (auto &e : v) o += " " + H(e.first) + "=" + H(e.second); o += " #" + std::to_string(m->size());
    if (c) { o += c->equal(m) ? "eq" : "ne"; c->assign(m); o += c->equal(m) ? "eq" : "ne"; delete c; } delete m; return o;
}
std::string sha_work(U seed) { Digest d; Rng r(seed); d.setup(r.next(), 0x3c); while (!d.done) d.step(); return d.got; }
std::string oid_work(U seed) {
    Rng r(seed); std::string o;
    for (int i = 0; i < 4; i++) { asn1_oid x; memset(&x, 0, sizeof x); x.count = 2 + r.below(12); for (U q = 0; q < x.count; q++) x.oid[q] = q ? r.pow2ish(1 << 30) : r.below(3); char t[256]; size_t n = r.chance(1, 4) ? 1 + r.below(30) : sizeof t; memset(t, 0, sizeof t); int rc = crefl_asn1_oid_to_string(t, &n, &x); t[255] = 0; asn1_oid y; memset(&y, 0, sizeof y); std::string s = t; int rc2 = crefl_asn1_oid_from_string(&y, s.c_str(), s.size()); o += std::to_string(rc) + t + "/" + std::to_string(rc2); for (U q = 0; q < y.count && q < 15; q++) o += "." + H(y.oid[q]); o += " "; }
    return o;
}
// One operation on the session's own objects; its result as text. `written`: the file it was asked to write.
std::string perform(Session &S, int k, U seed, U n, std::string &written) {
    Rng r(seed); std::string o; decl_db *d = S.pick(r.next());
    if (!d && k != O_CODEC && k != O_SHA && k != O_MAP && k != O_OID && k != O_BADLOAD) k = O_BUILD;
    auto small = [&](decl_db *x) { return x->decl_offset < 6000; };
    switch (k) {
    case O_BUILD: {
        std::vector<int> order; for (size_t i = 0; i < S.u.t.size(); i++) if (!S.u.t[i].nested && r.below(100) < 40 + n * 5) order.push_back(i);
        decl_db *x = need(crefl_db_new()); crefl_db_defaults(x); Emitter e(x, S.u); try { e.source("unit" + std::to_string(S.units++) + ".c", order); } catch (Emitter::OutOfMemory &) { throw Failed(); } S.dbs.push_back(x); o = H(snap_hash(snap(x))); break; }
    case O_MEM: {
        Bytes b(crefl_db_size(d)); if (crefl_db_write_mem(d, b.data(), b.size())) throw Failed(); decl_db *x = need(crefl_db_new()); int rc = crefl_db_read_mem(x, b.data(), b.size()); if (rc) { crefl_db_destroy(x); throw Failed(); } o = H(hashb(b.data(), b.size())) + H(snap_hash(snap(x))); S.dbs.push_back(x); break; }
    case O_FILE: { std::string f = S.dir + std::to_string(r.below(3)); written = f; if (crefl_db_write_file(d, f.c_str())) throw Failed(); Bytes b = vfs_get(f); o = H(b.size()) + H(hashb(b.data(), b.size())); break; }
    case O_LOADFILE: { std::string f = S.dir + std::to_string(r.below(3)); bool there = vfs_exists(f); decl_db *x = need(crefl_db_new()); int rc = crefl_db_read_file(x, f.c_str()); if (rc) { crefl_db_destroy(x); if (there) throw Failed(); return "no such file"; } o = H(snap_hash(snap(x))); S.dbs.push_back(x); break; }
    case O_SCAN: {
        decl_index *ix = need(crefl_index_new()); if (r.chance(1, 2)) crefl_index_scan(ix, d); U h = 7; for (size_t i = 1; i < d->decl_offset; i++) { decl_tag t = crefl_decl_tag(crefl_lookup(d, i)); if (t == _decl_none) continue; decl_entry_ref e = crefl_entry_ref(ix, crefl_lookup(d, i)); decl_entry *p = crefl_entry_ptr(e); const char *q = crefl_entry_fqn(e); h = h * 31 + hashb(p->hash.sum, sizeof p->hash.sum) + (q ? hashb(q, strlen(q)) : 1); } crefl_index_destroy(ix); o = H(h); break; }
    case O_MERGE: { std::vector<decl_db *> in; for (U i = 0; i < 1 + n % 4; i++) { decl_db *x = S.pick(r.next()); if (small(x)) in.push_back(x); } if (in.empty()) return "-"; decl_db *x = need(crefl_db_new()); int rc = crefl_link_merge(x, "/x/lib.refl", in.data(), in.size()); if (rc) { crefl_db_destroy(x); throw Failed(); } o = H(snap_hash(snap(x))); S.dbs.push_back(x); break; }
    case O_QUERY: { U h = 3; Snap s = snap(d); for (int g = 0; g < 60; g++) { u32 i = 1 + r.below(s.n.size() - 1); U left = 2000; if (s.n[i].tag == _decl_none || !affordable(s, i, left)) continue; bool fit = true; for (u32 c : children(s, i)) { U l2 = 2000; if ((s.n[i].tag == _decl_function || s.n[i].tag == _decl_source) && s.n[c].link && !affordable(s, s.n[c].link, l2)) fit = false; } if (!fit) continue; std::string q = query(d, i); h = h * 31 + hashb(q.data(), q.size()); } o = H(h); break; }
    case O_CODEC: o = codec_work(seed); break;
    case O_SHA: o = sha_work(seed); break;
    case O_MAP: o = map_work(seed); break;
    case O_OID: o = oid_work(seed); break;
    case O_LIST: { U h = 5; for (int g = 0; g < 30; g++) { decl_ref x = crefl_lookup(d, 1 + r.below(d->decl_offset - 1)); for (auto &f : lfns()) { size_t c = 0; if (f.fn(x, nullptr, &c)) continue; std::vector<decl_ref> v(c); size_t c2 = c; f.fn(x, v.data(), &c2); for (auto &e : v) h = h * 31 + e.decl_idx; h = h * 31 + c2; } } o = H(h); break; }
    case O_DROP: { size_t i = r.below(S.dbs.size()); decl_db *x = S.dbs[i]; S.dbs.erase(S.dbs.begin() + i); crefl_db_destroy(x); o = "gone"; break; }
    case O_GROW: { if (!small(d)) return "-"; for (U i = 0; i < 20 + n * 20; i++) { std::string nm = "g" + std::to_string(r.below(500)); u32 id = crefl_name_new(d, nm.c_str()); if (!id) throw Failed(); decl_ref x = crefl_decl_new(d, _decl_struct); if (!crefl_decl_idx(x)) throw Failed(); crefl_decl_ptr(x)->_name = id; } o = H(snap_hash(snap(d))); break; }
    case O_BADLOAD: { Bytes b; if (d) { b.resize(crefl_db_size(d)); if (crefl_db_write_mem(d, b.data(), b.size())) throw Failed(); b.resize(r.below(b.size())); } else b.resize(r.below(60), 'x'); decl_db *x = need(crefl_db_new()); int rc = crefl_db_read_mem(x, b.data(), b.size()); o = rc ? "refused" : "loaded"; crefl_db_destroy(x); break; }
    case O_INTR: { U h = 9; for (U g = 0; g < 12; g++) { decl_ref x = crefl_lookup(d, 1 + r.below(std::min<size_t>(d->decl_builtin, d->decl_offset) - 1)); decl_node *q = crefl_decl_ptr(x); bool hit = q->_tag == _decl_intrinsic && r.below(6); decl_ref y = crefl_intrinsic(d, hit ? q->_props : (decl_set)r.below(64), hit ? q->_width : r.below(130)); h = h * 31 + (crefl_decl_idx(y) ? crefl_decl_idx(y) * 2 + (y.db == d) : 1); } o = H(h); break; }
    case O_DUMP: case O_STATS: { if (!small(d)) return "-"; proc_flush_stdout(S.proc); proc_stdout_clear(S.proc); if (k == O_DUMP) { crefl_db_set_dump_fmt((crefl_db_dump_fmt)r.below(8)); crefl_db_dump(d); } else crefl_db_dump_stats(d); fflush(stdout); std::string t = proc_stdout(S.proc); proc_stdout_clear(S.proc); o = H(t.size()) + H(hashb(t.data(), t.size())); break; }
    }
    return std::string(oname[k]) + " " + o;
}
struct Step { int k; U s, n; };
void start(Session &S, U useed, U un, const std::string &dir) { Rng r(useed); U cyc = r.chance(1, 2), big = r.chance(1, 24) ? 1 + r.below(1 << 30) : 0; if (big) set_budget(1500000000); S.u = gen_universe(r, un, cyc, true, 22, big); if (r.chance(1, 16)) { rings(S.u, r.next()); set_budget(3000000000); } if (r.chance(1, 10)) deep_refs(S.u, r.next()); S.dir = dir; }

// ---- C20 ------------------------------------------------------------------------------
void run_c20(const Plan &p) {
    U T = 2; std::vector<std::vector<Step>> prog(4); U useed[4] = {}, un[4] = {}; U nrun = 0, hotseed = 1;
    auto go = [&]() {
        std::vector<std::vector<std::string>> alone(T), together(T); hot_watch(1);
        for (U t = 0; t < T; t++) {
            Session S; start(S, useed[t], un[t], "/sim/t" + std::to_string(t) + "-"); Proc *pr = proc_new(); S.proc = pr;
            Outcome o = call([&] { for (auto &s : prog[t]) { std::string wr; std::string x; try { x = perform(S, s.k, s.s, s.n, wr); } catch (Failed &) { x = "failed"; } alone[t].push_back(x); } for (auto d : S.dbs) crefl_db_destroy(d); }, pr);
            REQUIRE(o.st == T_DONE, "crash", "a thread running alone crashed: %s", o.why.c_str()); REQUIRE(proc_open_fds(pr) == 0, "handle-leak", "file handles left open");
        }
        std::map<std::string, Bytes> want; for (auto &f : vfs_list()) { want[f] = vfs_get(f); vfs_remove(f); }
        hot_watch(2, hotseed, 1 + hotseed % 90); if (hot_pages()) probe("runs with shared static data");
        Proc *pr = proc_new(); std::vector<Session> S(T); std::vector<TaskSpec> ts;
        for (U t = 0; t < T; t++) { start(S[t], useed[t], un[t], "/sim/t" + std::to_string(t) + "-"); S[t].proc = pr; ts.push_back({ [&, t] { for (auto &s : prog[t]) { std::string wr, x; try { x = perform(S[t], s.k, s.s, s.n, wr); } catch (Failed &) { x = "failed"; } together[t].push_back(x); size_t i = together[t].size() - 1; REQUIRE(x == alone[t][i], "interference", "thread %llu of %llu, step %zu: '%.200s' with other threads, '%.200s' alone", (unsigned long long)t, (unsigned long long)T, i, x.c_str(), alone[t][i].c_str()); op_done(); } for (auto d : S[t].dbs) crefl_db_destroy(d); }, pr }); }
        auto o = run_tasks(ts); hot_watch(0); for (U t = 0; t < T; t++) REQUIRE(o[t].st == T_DONE, "crash", "thread %llu crashed: %s", (unsigned long long)t, o[t].why.c_str());
        REQUIRE(proc_open_fds(pr) == 0, "handle-leak", "file handles left open by threads");
        std::map<std::string, Bytes> got; for (auto &f : vfs_list()) { got[f] = vfs_get(f); vfs_remove(f); } REQUIRE(got == want, "interference", "the files written by %llu threads together differ from those written alone", (unsigned long long)T);
        for (auto &t : together) for (auto &x : t) mixlog(x.data(), x.size()); probe("threads compared with running alone", T); nrun++;
    };
    for (auto &l : p.lines) {
        if (l.verb == "threads") { T = 2 + l.num("n") % 3; hotseed = l.num("hot", 1); }
        else if (l.verb == "types") { U t = l.num("t") % 4; useed[t] = l.num("s"); un[t] = l.num("n"); prog[t].clear(); }
        else if (l.verb == "op") prog[l.num("t") % 4].push_back({ (int)(l.num("k") % O_MAXSHARED), l.num("s"), l.num("n") });
        else if (l.verb == "go") { go(); for (auto &x : prog) x.clear(); }
    }
}
void gen_c20(Rng &r, Plan &p, bool th) {
    gen_mem(r, p); U rounds = 1 + r.below(2), grp = 0;
    for (U g = 0; g < rounds; g++) {
        U T = 2 + r.below(3); p.add("threads").set("n", T - 2).set("hot", 1 + r.below(1 << 20)); int focus = r.chance(1, 2) ? (int)r.below(O_MAXSHARED) : -1; bool same = r.chance(1, 3); U us = r.next() >> 1;
        for (U t = 0; t < T; t++) {
            p.add("types").set("t", t).set("s", same ? us : r.next() >> 1).set("n", 2 + r.below(th ? 24 : 10)); U n = 1 + r.below(th ? 10 : 5);
            for (U i = 0; i < n; i++) p.add("op").set("t", t).set("k", focus >= 0 && r.chance(2, 3) ? focus : (int)r.below(O_MAXSHARED)).set("s", r.next() >> 1).set("n", r.below(10));
        }
        p.add("go"); U cnt = 1 + r.below(th ? 400 : 120); gen_switches(r, p, cnt, cnt * (4 + r.pow2ish(3000)), grp++);
    }
    if (r.chance(1, 4)) for (U i = 0; i < 1 + r.below(3); i++) gen_fault(r, p, -1, F_SHORT);
}
Register r20("C20", gen_c20, run_c20);

// ---- C21 ------------------------------------------------------------------------------
void run_c21(const Plan &p) {
    std::vector<Step> prog; U useed = 0, un = 5; Proc *ref = nullptr, *vic = proc_default(); U boots = 0;
    auto go = [&]() {
        if (!ref) ref = proc_calm(proc_new());
        struct Rec { std::string text; bool failed; std::map<std::string, Bytes> files; }; std::vector<Rec> want; auto files = [&] { std::map<std::string, Bytes> m; for (auto &f : vfs_list()) m[f] = vfs_get(f); return m; };
        { Session S; start(S, useed, un, "/sim/f"); S.proc = ref; for (auto &s : prog) { std::string x, wr; bool fl = false; Outcome o = call([&] { try { x = perform(S, s.k, s.s, s.n, wr); } catch (Failed &) { fl = true; } }, ref); REQUIRE(o.st == T_DONE, "crash", "%s crashed: %s", oname[s.k], o.why.c_str()); want.push_back({ x, fl, files() }); } call([&] { for (auto d : S.dbs) crefl_db_destroy(d); }, ref); }
        for (auto &f : vfs_list()) vfs_remove(f);
        Session S; start(S, useed, un, "/sim/f"); S.proc = vic; bool ended = false; std::set<std::string> left;
        for (size_t i = 0; i < prog.size() && !ended; i++) {
            auto &s = prog[i]; std::string x, wr; bool fl = false; auto before = files(); size_t fds = proc_open_fds(vic); U nf = proc_fault_count(vic);
            std::vector<std::pair<decl_db *, U>> held; for (auto d : S.dbs) held.push_back({ d, 0 });
            Outcome o = call([&] { try { x = perform(S, s.k, s.s, s.n, wr); } catch (Failed &) { fl = true; } }, vic); op_done();
            auto after = files(); bool alloc_failed = proc_fault_count(vic) > nf;
            // files the step was not asked to write are as before, whatever happened
            if (alloc_failed || o.st != T_DONE) for (auto &f : after) if (f.first != wr && !before.count(f.first)) left.insert(f.first);
            for (auto &f : before) if (f.first != wr && !left.count(f.first)) REQUIRE(after.count(f.first) && after[f.first] == f.second, "file-changed", "%s changed the file %s it was not writing", oname[s.k], f.first.c_str());
            for (auto &f : after) if (f.first != wr && !left.count(f.first)) REQUIRE(before.count(f.first), "file-created", "%s created %s", oname[s.k], f.first.c_str());
            if (o.st == T_CRASHED) { REQUIRE(o.injected, "crash", "%s crashed: %s", oname[s.k], o.why.c_str()); probe("processes ended by memory exhaustion"); vic = proc_new(); boots++; ended = true; break; }
            REQUIRE(o.st == T_DONE, "exit", "%s ended the process with code %d", oname[s.k], o.code);
            REQUIRE(proc_open_fds(vic) == fds, "handle-leak", "%s left a file handle open", oname[s.k]);
            if (fl && !want[i].failed) { REQUIRE(alloc_failed || true, "refused", "-"); REQUIRE(alloc_failed, "refused", "%s failed although no allocation failed in it", oname[s.k]); probe("failures reported"); ended = true; break; }
            REQUIRE(!want[i].failed || fl, "wrong-success", "%s succeeded where it fails with enough memory", oname[s.k]);
            REQUIRE(x == want[i].text, "wrong-result", "%s succeeded with a wrong result after an allocation failure: '%.200s', not '%.200s'", oname[s.k], x.c_str(), want[i].text.c_str());
            auto seen = after; for (auto &f : left) if (!want[i].files.count(f)) seen.erase(f); REQUIRE(seen == want[i].files, "wrong-file", "%s succeeded and left other files than with enough memory", oname[s.k]);
            if (alloc_failed) probe("allocation failures survived with the right result");
            mixlog(x.data(), x.size());
        }
        if (!ended || vic == S.proc) { auto v = S.dbs; call([&] { for (auto d : v) crefl_db_destroy(d); }, vic); }
        for (auto &f : vfs_list()) vfs_remove(f);
    };
    for (auto &l : p.lines) {
        if (l.verb == "types") { useed = l.num("s"); un = l.num("n"); }
        else if (l.verb == "op") prog.push_back({ (int)(l.num("k") % O_MAXALL), l.num("s"), l.num("n") });
        else if (l.verb == "go") { go(); prog.clear(); }
    }
}
void gen_c21(Rng &r, Plan &p, bool th) {
    gen_mem(r, p); U rounds = 1 + r.below(th ? 8 : 5);
    for (U g = 0; g < rounds; g++) { p.add("types").set("s", r.next() >> 1).set("n", 2 + r.below(th ? 24 : 12)); U n = 1 + r.below(6); for (U i = 0; i < n; i++) p.add("op").set("k", r.below(O_MAXALL)).set("s", r.next() >> 1).set("n", r.below(10)); p.add("go"); }
    U nf = 1 + r.below(4); for (U i = 0; i < nf; i++) { Line l; l.verb = "fault"; U q = r.below(4); l.set("proc", i == 0 ? 0 : r.chance(1, 2) ? 0 : 2 + r.below(3)).set("call", std::string("alloc")).set("act", std::string("fail")).set("n", q == 0 ? r.below(20) : r.pow2ish(q == 1 ? 300 : 6000)).set("rep", r.chance(1, 2) ? 1 : r.chance(1, 2) ? 1 + r.below(5) : 100000); p.lines.push_back(l); }
}
Register r21("C21", gen_c21, run_c21);

// ---- C25 ------------------------------------------------------------------------------
// The same work over and over in one process: an undisturbed round, disturbed ones, an
// undisturbed one. What is left allocated after the last must be what was left after the first.
void run_c25(const Plan &p) {
    std::vector<Step> prog; U useed = 0, un = 5, rounds = 2; Proc *pr = proc_default();
    auto go = [&]() {
        leak_track(true); U blocks = 0, bytes = 0;
        for (U g = 0; g <= rounds; g++) {
            bool calm = g == 0 || g == rounds; faults_enable(!calm, pr); Session S; start(S, useed, un, "/sim/f"); S.proc = pr;
            for (auto &s : prog) {
                std::string x, wr; bool fl = false; U nf = proc_fault_count(pr); size_t fds = proc_open_fds(pr);
                Outcome o = call([&] { try { x = perform(S, s.k, s.s, s.n, wr); } catch (Failed &) { fl = true; } }, pr); op_done();
                REQUIRE(o.st == T_DONE, "crash", "%s crashed: %s", oname[s.k], o.why.c_str());
                REQUIRE(!fl || proc_fault_count(pr) > nf || !calm, "refused", "%s failed undisturbed", oname[s.k]);
                REQUIRE(proc_open_fds(pr) == fds, "handle-leak", "%s left a file handle open", oname[s.k]);
                mixlog(fl);
            }
            Outcome o = call([&] { for (auto d : S.dbs) crefl_db_destroy(d); }, pr); REQUIRE(o.st == T_DONE, "crash", "destroying crashed: %s", o.why.c_str()); S.dbs.clear();
            for (auto &f : vfs_list()) vfs_remove(f);
            if (g == 0) { blocks = leak_blocks(); bytes = leak_bytes(); }
            mixlog(leak_blocks());
        }
        REQUIRE(leak_blocks() <= blocks && leak_bytes() <= bytes, "memory-leak", "after %llu rounds of the same work, with everything destroyed, %llu blocks (%llu bytes) are still allocated; %llu (%llu bytes) after the first round", (unsigned long long)rounds + 1, (unsigned long long)leak_blocks(), (unsigned long long)leak_bytes(), (unsigned long long)blocks, (unsigned long long)bytes);
        probe("rounds of work accounted for", rounds + 1); leak_track(false);
    };
    for (auto &l : p.lines) {
        if (l.verb == "types") { useed = l.num("s"); un = l.num("n"); }
        else if (l.verb == "op") prog.push_back({ (int)(l.num("k") % O_MAXALL), l.num("s"), l.num("n") });
        else if (l.verb == "go") { rounds = 1 + l.num("n") % 4; go(); prog.clear(); }
    }
}
void gen_c25(Rng &r, Plan &p, bool th) {
    gen_mem(r, p); U rounds = 1 + r.below(3);
    for (U g = 0; g < rounds; g++) {
        p.add("types").set("s", r.next() >> 1).set("n", 2 + r.below(th ? 24 : 12)); U n = 1 + r.below(8);
        for (U i = 0; i < n; i++) p.add("op").set("k", r.chance(1, 3) ? (r.chance(1, 2) ? (U)O_FILE : (U)O_LOADFILE) : r.below(O_MAXALL)).set("s", r.next() >> 1).set("n", r.below(10));
        p.add("go").set("n", r.below(4));
    }
    U nf = r.below(4); for (U i = 0; i < nf; i++) gen_fault(r, p, -1, F_OPEN | F_READ | F_WRITE | F_CLOSE | F_STAT | F_SHORT); if (nf && r.chance(1, 4)) { gen_fault(r, p, -1, F_META); p.lines.back().set("act", "fail"); }
}
Register r25("C25", gen_c25, run_c25);
}
