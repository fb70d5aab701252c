// Streams of encoded values: round trips (C09) and damaged input (C10).
#include "simw.h"
#include <cmath>
#include <cstdlib>
#include <cerrno>
#include <crefl/model.h>
#include <crefl/asn1.h>
#include <sanitizer/asan_interface.h>
using namespace sim;
extern "C" {
size_t shim_write(crefl_buf *, int, long long, const char *, size_t); size_t shim_read(crefl_buf *, int, long long *, char *, size_t);
void shim_seek(crefl_buf *, size_t); size_t shim_offset(crefl_buf *); void shim_reset(crefl_buf *); size_t shim_remaining(crefl_buf *, void **);
}
namespace {
enum Kind { K_TAG, K_IDENT, K_LENGTH, K_BOOL, K_DBOOL, K_U64, K_DU64, K_S64, K_DS64, K_LEU, K_LES, K_REAL, K_DREAL, K_VF64, K_VF32, K_LEB, K_VLU, K_OID, K_DOID, K_OCT, K_DOCT, K_NULL, K_DNULL, K_I8, K_I16, K_I32, K_I64, K_BYTES, K_MAX };
const char *kname[] = { "tag", "identifier", "length", "boolean", "tagged boolean", "u64", "tagged u64", "s64", "tagged s64", "LE u64", "LE s64", "real", "tagged real", "vf64", "vf32", "leb", "vlu", "oid", "tagged oid", "octets", "tagged octets", "null", "tagged null", "i8", "i16", "i32", "i64", "bytes" };
bool is_der(int k) { return k == K_DBOOL || k == K_DU64 || k == K_DS64 || k == K_DREAL || k == K_DOID || k == K_DOCT || k == K_DNULL; }
bool has_val(int k) { return k == K_U64 || k == K_DU64 || k == K_S64 || k == K_DS64 || k == K_LEU || k == K_LES || k == K_REAL || k == K_DREAL || k == K_VF64 || k == K_VF32 || k == K_LEB || k == K_VLU; }
struct Val { int kind = 0; U u = 0; U id = 0; unsigned cls = 0, cons = 0; double f = 0; float g = 0; std::vector<U> oid; std::string s; U tag = 0; size_t len = 0; };   // len: content length used with BER writers
U bits(double d) { U u; memcpy(&u, &d, 8); return u; }
uint32_t bits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
double fromd(U u) { double d; memcpy(&d, &u, 8); return d; }
float fromf(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }

U gen_u64(Rng &r) {
    switch (r.below(6)) { case 0: return r.below(300); case 1: { U k = r.below(64); return (1ull << k) - r.below(2); } case 2: return r.next(); case 3: return ~r.below(300); case 4: { U k = 1 + r.below(63); return r.next() >> k; } default: return (1ull << r.below(64)) + r.below(3); }
}
U gen_u56(Rng &r, bool over) { U v = gen_u64(r); return over && r.chance(1, 12) ? v : v & ((1ull << 56) - 1); }
double gen_f64(Rng &r) {
    switch (r.below(9)) {
    case 0: return fromd(r.next()); case 1: return (double)(int64_t)r.below(2000) - 1000; case 2: return ((double)r.below(4000) - 2000) / 64.0;
    case 3: { static const U sp[] = { 0, 1ull << 63, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff8000000000001ull, 0x7ff0000000000001ull, 1, 2, 0x000fffffffffffffull, 0x0010000000000000ull, 0x7fefffffffffffffull, 0x3ff0000000000000ull, 0x8000000000000001ull, 0x0008000000000000ull }; return fromd(sp[r.below(sizeof sp / sizeof *sp)]); }
    case 4: return fromd(r.next() >> (12 + r.below(52)));                                    // subnormals
    case 5: return std::ldexp(1.0 + r.below(16) / 16.0, (int)r.below(12) - 8) * (r.chance(1, 2) ? 1 : -1);
    case 6: return std::ldexp((double)(1 + r.below(1 << r.below(20))), (int)r.below(2100) - 1060);
    case 7: return fromd((r.next() & ~0x7ff0000000000000ull) | ((U)(1015 + r.below(12)) << 52));
    default: { int keep = r.below(53); U m = r.next() & ((1ull << 52) - 1); m &= ~((1ull << (52 - keep)) - 1); return fromd((r.next() & (1ull << 63)) | ((U)r.below(2047) << 52) | m); } }
}
float gen_f32(Rng &r) {
    switch (r.below(6)) {
    case 0: return fromf(r.next()); case 1: return (float)((int)r.below(4000) - 2000) / 64; 
    case 2: { static const uint32_t sp[] = { 0, 1u << 31, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f800001u, 1, 0x007fffffu, 0x00800000u, 0x7f7fffffu, 0x80000001u, 0x3f800000u }; return fromf(sp[r.below(12)]); }
    case 3: return fromf((uint32_t)r.next() >> (9 + r.below(23)));
    case 4: return fromf(((uint32_t)r.next() & 0x807fffffu) | ((uint32_t)(118 + r.below(12)) << 23));
    default: { int keep = r.below(24); uint32_t m = r.next() & 0x7fffff; m &= ~((1u << (23 - keep)) - 1); return fromf(((uint32_t)r.next() & 0x80000000u) | ((uint32_t)r.below(255) << 23) | m); } }
}
std::vector<U> gen_oid(Rng &r) {
    std::vector<U> o; U first = r.below(3); o.push_back(first); const U lim = (1ull << 56) - 1;
    o.push_back(first < 2 ? r.below(40) : r.chance(1, 2) ? r.below(200) : r.pow2ish(lim - 80));
    U n = r.below(14); for (U i = 0; i < n; i++) o.push_back(r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.below(200) : r.pow2ish(lim));
    return o;
}
Val gen_val(int kind, U seed, bool over) {
    Rng r(seed); Val v; v.kind = kind; v.tag = r.below(3) ? 1 + r.below(30) : 1 + r.below(1000);
    if (!is_der(kind)) v.tag = 0;
    switch (kind) {
    case K_TAG: case K_LEB: case K_VLU: v.u = gen_u56(r, over); break;
    case K_IDENT: v.id = gen_u56(r, false); v.cls = r.below(4); v.cons = r.below(2); break;
    case K_BOOL: case K_DBOOL: v.u = r.below(2); break;
    case K_REAL: case K_DREAL: case K_VF64: v.f = gen_f64(r); break;
    case K_VF32: v.g = gen_f32(r); break;
    case K_OID: case K_DOID: v.oid = gen_oid(r); break;
    case K_OCT: case K_DOCT: case K_BYTES: { U n = r.chance(1, 50) ? r.pow2ish(140000) : r.chance(1, 6) ? r.below(600) : r.below(40); v.s.resize(n); for (U i = 0; i < n; i++) v.s[i] = (char)r.below(256); break; }
    case K_I8: v.u = (U)(int64_t)(int8_t)r.next(); break; case K_I16: v.u = (U)(int64_t)(int16_t)r.next(); break; case K_I32: v.u = (U)(int64_t)(int32_t)r.next(); break;
    default: v.u = gen_u64(r);
    }
    v.len = r.below(3);      // extra content bytes for writers that take a length
    return v;
}
// ---- independent length arithmetic -----------------------------------------------
size_t groups7(U v) { size_t n = 1; while (v >>= 7) n++; return n; }
size_t bytes_u(U v) { size_t n = 1; while (v >>= 8) n++; return n; }
size_t bytes_s(int64_t v) { size_t n = 1; while (n < 8 && (v < -(1ll << (8 * n - 1)) || v > (1ll << (8 * n - 1)) - 1)) n++; return n; }
size_t len_ident(U id) { return 1 + (id >= 31 ? groups7(id) : 0); }
size_t len_length(U n) { return 1 + (n >= 128 ? bytes_u(n) : 0); }

struct asn1_oidx { asn1_oid o; };
void fill(const Val &v, asn1_oid &o) { memset(&o, 0, sizeof o); o.count = v.oid.size(); for (size_t i = 0; i < v.oid.size() && i < 15; i++) o.oid[i] = v.oid[i]; }
// content length as the library announces it
size_t content_len(const Val &v, bool byval) {
    double f = v.f; s64 s = v.u; u64 u = v.u; bool b = v.u;
    switch (v.kind) {
    case K_BOOL: case K_DBOOL: return crefl_asn1_ber_boolean_length(&b);
    case K_U64: case K_DU64: return byval ? crefl_asn1_ber_integer_u64_length_byval(u) : crefl_asn1_ber_integer_u64_length(&u);
    case K_S64: case K_DS64: return byval ? crefl_asn1_ber_integer_s64_length_byval(s) : crefl_asn1_ber_integer_s64_length(&s);
    case K_LEU: return byval ? crefl_le_ber_integer_u64_length_byval(u) : crefl_le_ber_integer_u64_length(&u);
    case K_LES: return crefl_le_ber_integer_s64_length(&s);
    case K_REAL: case K_DREAL: return byval ? crefl_asn1_ber_real_f64_length_byval(f) : crefl_asn1_ber_real_f64_length(&f);
    case K_OID: case K_DOID: { asn1_oid o; fill(v, o); return crefl_asn1_ber_oid_length(&o); }
    case K_OCT: case K_DOCT: { asn1_string s; s.count = v.s.size(); s.str = (u8 *)v.s.data(); return crefl_asn1_ber_octets_length(&s); }
    case K_NULL: case K_DNULL: return crefl_asn1_ber_null_length();
    default: return 0;
    }
}
bool out_of_range(const Val &v) { return (v.kind == K_TAG || v.kind == K_LEB || v.kind == K_VLU) && v.u >= (1ull << 56); }
int do_write(crefl_buf *b, const Val &v, bool byval, size_t len) {
    double f = v.f; float g = v.g; s64 s = v.u; u64 u = v.u; bool bo = v.u; asn1_tag t = (asn1_tag)v.tag;
    switch (v.kind) {
    case K_TAG: return crefl_asn1_ber_tag_write(b, u);
    case K_IDENT: { asn1_id i; memset(&i, 0, sizeof i); i._identifier = v.id; i._class = v.cls; i._constructed = v.cons; return crefl_asn1_ber_ident_write(b, i); }
    case K_LENGTH: return crefl_asn1_ber_length_write(b, u);
    case K_BOOL: return crefl_asn1_ber_boolean_write(b, len, &bo); case K_DBOOL: return crefl_asn1_der_boolean_write(b, t, &bo);
    case K_U64: return byval ? crefl_asn1_ber_integer_u64_write_byval(b, len, u) : crefl_asn1_ber_integer_u64_write(b, len, &u);
    case K_DU64: return byval ? crefl_asn1_der_integer_u64_write_byval(b, t, u) : crefl_asn1_der_integer_u64_write(b, t, &u);
    case K_S64: return byval ? crefl_asn1_ber_integer_s64_write_byval(b, len, s) : crefl_asn1_ber_integer_s64_write(b, len, &s);
    case K_DS64: return byval ? crefl_asn1_der_integer_s64_write_byval(b, t, s) : crefl_asn1_der_integer_s64_write(b, t, &s);
    case K_LEU: return byval ? crefl_le_ber_integer_u64_write_byval(b, len, u) : crefl_le_ber_integer_u64_write(b, len, &u);
    case K_LES: return byval ? crefl_le_ber_integer_s64_write_byval(b, len, s) : crefl_le_ber_integer_s64_write(b, len, &s);
    case K_REAL: return byval ? crefl_asn1_ber_real_f64_write_byval(b, len, f) : crefl_asn1_ber_real_f64_write(b, len, &f);
    case K_DREAL: return byval ? crefl_asn1_der_real_f64_write_byval(b, t, f) : crefl_asn1_der_real_f64_write(b, t, &f);
    case K_VF64: return byval ? crefl_vf_f64_write_byval(b, f) : crefl_vf_f64_write(b, &f);
    case K_VF32: return byval ? crefl_vf_f32_write_byval(b, g) : crefl_vf_f32_write(b, &g);
    case K_LEB: return byval ? crefl_leb_u64_write_byval(b, u) : crefl_leb_u64_write(b, &u);
    case K_VLU: return byval ? crefl_vlu_u64_write_byval(b, u) : crefl_vlu_u64_write(b, &u);
    case K_OID: case K_DOID: { asn1_oid o; fill(v, o); return v.kind == K_OID ? crefl_asn1_ber_oid_write(b, len, &o) : crefl_asn1_der_oid_write(b, t, &o); }
    case K_OCT: case K_DOCT: {          // the string lives in its own heap block, so that reading past it is seen
        asn1_string x; x.count = v.s.size(); x.str = (u8 *)malloc(v.s.size() + !v.s.size()); memcpy(x.str, v.s.data(), v.s.size()); int ret = v.kind == K_OCT ? crefl_asn1_ber_octets_write(b, len, &x) : crefl_asn1_der_octets_write(b, t, &x); free(x.str); return ret; }
    case K_NULL: return crefl_asn1_ber_null_write(b, len); case K_DNULL: return crefl_asn1_der_null_write(b, t);
    default: { int k = v.kind - K_I8; size_t n = k == 4 ? v.s.size() : 1u << k; size_t w = shim_write(b, k, (long long)v.u, v.s.data(), v.s.size()); if (n == 0) return 0; if (w != 0 && w != n) violation("write-size", "writing %zu raw bytes reported %zu", n, w); return w == n ? 0 : -1; }
    }
}
// result of a read: verdict and the value in one comparable form
struct Got { int ret = 0; Val v; };
const size_t DST_MAX = 4096;
Got do_read(crefl_buf *b, int kind, bool byval, size_t len, U tag, size_t dst) {
    Got g; g.v.kind = kind; asn1_tag t = (asn1_tag)tag;
    // what is read into held something else before
    U was = (b->data_offset * 31 + len * 7 + kind) * 0x9E3779B97F4A7C15ull; was ^= was >> 29; if (was % 5 == 0) was = 0; u64 u = was; s64 s = was; double f = (double)was; float ff = (float)was; bool bo = was & 1;

    auto ru = [&](u64_result x) { g.ret = x.error; g.v.u = x.value; }; auto rs = [&](s64_result x) { g.ret = x.error; g.v.u = x.value; }; auto rf = [&](f64_result x) { g.ret = x.error; g.v.f = x.value; };
    switch (kind) {
    case K_TAG: g.ret = crefl_asn1_ber_tag_read(b, &u); g.v.u = u; break;
    case K_IDENT: { asn1_id i; memset(&i, (int)was, sizeof i); g.ret = crefl_asn1_ber_ident_read(b, &i); g.v.id = i._identifier; g.v.cls = i._class; g.v.cons = i._constructed; break; }
    case K_LENGTH: g.ret = crefl_asn1_ber_length_read(b, &u); g.v.u = u; break;
    case K_BOOL: g.ret = crefl_asn1_ber_boolean_read(b, len, &bo); g.v.u = bo; break; case K_DBOOL: g.ret = crefl_asn1_der_boolean_read(b, t, &bo); g.v.u = bo; break;
    case K_U64: if (byval) ru(crefl_asn1_ber_integer_u64_read_byval(b, len)); else { g.ret = crefl_asn1_ber_integer_u64_read(b, len, &u); g.v.u = u; } break;
    case K_DU64: if (byval) ru(crefl_asn1_der_integer_u64_read_byval(b, t)); else { g.ret = crefl_asn1_der_integer_u64_read(b, t, &u); g.v.u = u; } break;
    case K_S64: if (byval) rs(crefl_asn1_ber_integer_s64_read_byval(b, len)); else { g.ret = crefl_asn1_ber_integer_s64_read(b, len, &s); g.v.u = s; } break;
    case K_DS64: if (byval) rs(crefl_asn1_der_integer_s64_read_byval(b, t)); else { g.ret = crefl_asn1_der_integer_s64_read(b, t, &s); g.v.u = s; } break;
    case K_LEU: if (byval) ru(crefl_le_ber_integer_u64_read_byval(b, len)); else { g.ret = crefl_le_ber_integer_u64_read(b, len, &u); g.v.u = u; } break;
    case K_LES: if (byval) rs(crefl_le_ber_integer_s64_read_byval(b, len)); else { g.ret = crefl_le_ber_integer_s64_read(b, len, &s); g.v.u = s; } break;
    case K_REAL: if (byval) rf(crefl_asn1_ber_real_f64_read_byval(b, len)); else { g.ret = crefl_asn1_ber_real_f64_read(b, len, &f); g.v.f = f; } break;
    case K_DREAL: if (byval) rf(crefl_asn1_der_real_f64_read_byval(b, t)); else { g.ret = crefl_asn1_der_real_f64_read(b, t, &f); g.v.f = f; } break;
    case K_VF64: if (byval) rf(crefl_vf_f64_read_byval(b)); else { g.ret = crefl_vf_f64_read(b, &f); g.v.f = f; } break;
    case K_VF32: if (byval) { f32_result x = crefl_vf_f32_read_byval(b); g.ret = x.error; g.v.g = x.value; } else { g.ret = crefl_vf_f32_read(b, &ff); g.v.g = ff; } break;
    case K_LEB: if (byval) ru(crefl_leb_u64_read_byval(b)); else { g.ret = crefl_leb_u64_read(b, &u); g.v.u = u; } break;
    case K_VLU: if (byval) ru(crefl_vlu_u64_read_byval(b)); else { g.ret = crefl_vlu_u64_read(b, &u); g.v.u = u; } break;
    case K_OID: case K_DOID: {
        // the object identifier lives in its own heap block, so that overruns are seen
        asn1_oid *o = (asn1_oid *)malloc(sizeof *o); memset(o, (int)was & 0xff, sizeof *o);
        g.ret = kind == K_OID ? crefl_asn1_ber_oid_read(b, len, o) : crefl_asn1_der_oid_read(b, t, o);
        g.v.u = o->count; for (size_t i = 0; i < o->count && i < 15; i++) g.v.oid.push_back(o->oid[i]); free(o); break; }
    case K_OCT: case K_DOCT: {
        u8 *d = dst == ~(size_t)0 ? nullptr : (u8 *)malloc(dst ? dst : 1); if (d) memset(d, 0xEE, dst ? dst : 1); 
        if (d && dst == 0) ASAN_POISON_MEMORY_REGION(d, 1);
        asn1_string x; x.count = dst == ~(size_t)0 ? 0 : dst; x.str = d;
        g.ret = kind == K_OCT ? crefl_asn1_ber_octets_read(b, len, &x) : crefl_asn1_der_octets_read(b, t, &x);
        if (d && dst == 0) ASAN_UNPOISON_MEMORY_REGION(d, 1);
        g.v.u = x.count; if (g.ret == 0 && d) g.v.s.assign((char *)d, std::min<size_t>(x.count, dst)); free(d); break; }
    case K_NULL: g.ret = crefl_asn1_ber_null_read(b, len); break; case K_DNULL: g.ret = crefl_asn1_der_null_read(b, t); break;
    default: { int k = kind - K_I8; if (k == 4) { char *d = (char *)malloc(len && len <= (1u << 20) ? len : 1); size_t w = shim_read(b, 4, nullptr, d, len); if (len == 0) g.ret = 0; else { if (w != 0 && w != len) violation("read-size", "reading %zu raw bytes reported %zu", len, w); g.ret = w == len ? 0 : -1; if (g.ret == 0) g.v.s.assign(d, len); } free(d); }
               else { long long x = 0; size_t w = shim_read(b, k, &x, nullptr, 0); if (w != 0 && w != (1u << k)) violation("read-size", "reading %u raw bytes reported %zu", 1u << k, w); g.ret = w ? 0 : -1; g.v.u = x; } }
    }
    return g;
}
bool same(const Val &a, const Val &b) {
    switch (a.kind) {
    case K_IDENT: return a.id == b.id && a.cls == b.cls && a.cons == b.cons;
    case K_REAL: case K_DREAL: case K_VF64: return (std::isnan(a.f) && std::isnan(b.f)) || bits(a.f) == bits(b.f);
    case K_VF32: return (std::isnan(a.g) && std::isnan(b.g)) || bits(a.g) == bits(b.g);
    case K_OID: case K_DOID: return a.oid == b.oid;
    case K_OCT: case K_DOCT: case K_BYTES: return a.s == b.s;
    case K_NULL: case K_DNULL: return true;
    default: return a.u == b.u;
    }
}
std::string show(const Val &v) {
    char t[100]; switch (v.kind) {
    case K_IDENT: snprintf(t, sizeof t, "id %llu class %u constructed %u", (unsigned long long)v.id, v.cls, v.cons); return t;
    case K_REAL: case K_DREAL: case K_VF64: snprintf(t, sizeof t, "%a (%016llx)", v.f, (unsigned long long)bits(v.f)); return t;
    case K_VF32: snprintf(t, sizeof t, "%a (%08x)", v.g, bits(v.g)); return t;
    case K_OID: case K_DOID: { std::string s; for (U x : v.oid) s += (s.empty() ? "" : ".") + std::to_string(x); return s; }
    case K_OCT: case K_DOCT: case K_BYTES: return std::to_string(v.s.size()) + " bytes";
    default: snprintf(t, sizeof t, "%llu", (unsigned long long)v.u); return t; }
}
// ---- independent decoder of header fields (for C10) --------------------------------
bool ref_header(const Bytes &d, size_t at, U &id, U &len, size_t &next) {
    size_t i = at; if (i >= d.size()) return false; id = d[i++] & 31;
    if (id == 31) { id = 0; size_t n = 0; for (;;) { if (i >= d.size() || n++ == 8) return false; uint8_t b = d[i++]; id = id << 7 | (b & 127); if (!(b & 128)) break; } }
    if (i >= d.size()) return false; uint8_t b = d[i++];
    if (b < 128) len = b; else { size_t n = b & 127; if (n == 0 || n > 8) return false; len = 0; while (n--) { if (i >= d.size()) return false; len = len << 8 | d[i++]; } }
    next = i; return true;
}
// ---- independent decoder of contents: what the bytes denote ---------------------------
bool ref_groups(const Bytes &d, size_t &i, bool le, U &v) { v = 0; for (int n = 0; n < 8; n++) { if (i >= d.size()) return false; uint8_t b = d[i++]; if (le) v |= (U)(b & 127) << (7 * n); else v = v << 7 | (b & 127); if (!(b & 128)) return true; } return false; }
bool ref_has(int k) { return k != K_VF64 && k != K_VF32; }
bool ref_decode(const Bytes &d, size_t at, int kind, U len, Val &o, size_t &end) {
    o = Val(); o.kind = kind; size_t i = at; int k = kind;
    if (is_der(kind)) { U id; size_t nx; if (!ref_header(d, at, id, len, nx)) return false; i = nx; k = kind == K_DBOOL ? K_BOOL : kind == K_DU64 ? K_U64 : kind == K_DS64 ? K_S64 : kind == K_DREAL ? K_REAL : kind == K_DOID ? K_OID : kind == K_DOCT ? K_OCT : K_NULL; }
    auto room = [&](U n) { return n <= d.size() - i; };
    switch (k) {
    case K_TAG: if (!ref_groups(d, i, false, o.u)) return false; break;
    case K_LEB: if (!ref_groups(d, i, true, o.u)) return false; break;
    case K_VLU: { if (!room(1)) return false; int n = 1; while (n <= 8 && (d[i] >> (n - 1) & 1)) n++; if (n > 8 || !room(n)) return false; U v = 0; for (int j = n - 1; j >= 0; j--) v = v << 8 | d[i + j]; o.u = n == 8 ? (v >> 8) : (v >> n); i += n; break; }
    case K_IDENT: { if (!room(1)) return false; uint8_t b = d[i++]; o.cls = b >> 6; o.cons = b >> 5 & 1; o.id = b & 31; if (o.id == 31 && !ref_groups(d, i, false, o.id)) return false; break; }
    case K_LENGTH: { if (!room(1)) return false; uint8_t b = d[i++]; if (b < 128) o.u = b; else { U n = b & 127; if (n == 0 || n > 8 || !room(n)) return false; while (n--) o.u = o.u << 8 | d[i++]; } break; }
    case K_BOOL: if (len != 1 || !room(1)) return false; o.u = d[i++] != 0; break;
    case K_U64: case K_S64: case K_LEU: case K_LES: { if (len > 8 || !room(len)) return false; bool le = k == K_LEU || k == K_LES; for (U j = 0; j < len; j++) o.u = o.u << 8 | d[i + (le ? len - 1 - j : j)]; if ((k == K_S64 || k == K_LES) && len && len < 8 && (o.u >> (8 * len - 1) & 1)) o.u |= ~0ull << (8 * len); i += len; break; }
    case K_REAL: { if (len < 1 || !room(len)) return false; uint8_t b = d[i];
        if ((b >> 6) == 1) { if (len != 1) return false; switch (b) { case 0x40: o.f = INFINITY; break; case 0x41: o.f = -INFINITY; break; case 0x42: o.f = NAN; break; case 0x43: o.f = -0.0; break; default: return false; } }
        else { if (!(b & 128)) return false; static const int lg[] = { 1, 3, 4, 0 }; int base = lg[b >> 4 & 3]; U el = (b & 3) + 1; if (!base || el > 3 || len < 1 + el || len - 1 - el > 8) return false;
            int64_t e = (int8_t)d[i + 1]; for (U j = 1; j < el; j++) e = e * 256 + d[i + 1 + j]; U m = 0; for (U j = 1 + el; j < len; j++) m = m << 8 | d[i + j];
            int drop = 0; while (m >> 53) { m >>= 1; drop++; } o.f = std::ldexp((double)m, (int)std::max<int64_t>(-5000, std::min<int64_t>(5000, e * base + (b >> 2 & 3) + drop))); if (b & 64) o.f = -o.f; if (std::isinf(o.f)) return false; }
        i += len; break; }
    case K_OID: { if (!room(len)) return false; size_t stop = i + len; while (i < stop) { U c; if (!ref_groups(d, i, false, c)) return false; if (o.oid.empty()) { U f = c < 40 ? 0 : c < 80 ? 1 : 2; o.oid.push_back(f); o.oid.push_back(c - 40 * f); } else o.oid.push_back(c); } if (i != stop) return false; o.u = o.oid.size(); if (o.oid.size() > 15) o.oid.resize(15); break; }
    case K_OCT: case K_BYTES: if (!room(len)) return false; o.s.assign((const char *)&d[0] + i, len); o.u = len; i += len; break;
    case K_NULL: if (len) return false; break;
    default: { static const int n[] = { 1, 2, 4, 8 }; int w = n[k - K_I8]; if (!room(w)) return false; for (int j = w - 1; j >= 0; j--) o.u = o.u << 8 | d[i + j]; if (w < 8 && (o.u >> (8 * w - 1) & 1)) o.u |= ~0ull << (8 * w); i += w; }
    }
    end = i; return true;
}
struct Rec { Val v; Bytes enc; size_t at, end, content; };
struct Buf { crefl_buf *b = nullptr; size_t size = 0; size_t wr = 0; size_t rd = 0; std::vector<Rec> recs; Bytes img; };
struct World : Host {
    std::map<U, Buf> bufs; bool c10 = false;
    Bytes bytes(const Buf &b) { return Bytes(b.b->data, b.b->data + b.size); }
};
void mk(World &w, U i, size_t size) {
    Buf &b = w.bufs[i]; if (b.b) { crefl_buf *x = b.b; w.sut("destroying a buffer", [&] { crefl_buf_destroy(x); }); }
    w.bufs[i] = Buf(); crefl_buf *n = nullptr; if (!w.sut("creating a buffer", [&] { n = crefl_buf_new(size); })) return;
    Buf &c = w.bufs[i]; c.b = n; c.size = size; c.img.assign(n->data, n->data + size);
    REQUIRE(n->data_size == size && n->data_offset == 0, "buffer", "a new buffer has the wrong size or position");
}
size_t expected_len(const Val &v, size_t content) {
    switch (v.kind) {
    case K_TAG: case K_LEB: case K_VLU: return groups7(v.u);
    case K_IDENT: return len_ident(v.id); case K_LENGTH: return len_length(v.u);
    case K_I8: return 1; case K_I16: return 2; case K_I32: return 4; case K_I64: return 8; case K_BYTES: return v.s.size();
    case K_VF64: case K_VF32: return 0;    // not announced
    default: return is_der(v.kind) ? len_ident(v.tag) + len_length(content) + content : content;
    }
}
size_t announced(const Val &v, bool byval) {
    size_t a = 0; switch (v.kind) {
    case K_TAG: return crefl_asn1_ber_tag_length(v.u);
    case K_IDENT: { asn1_id i; memset(&i, 0, sizeof i); i._identifier = v.id; i._class = v.cls; i._constructed = v.cons; return crefl_asn1_ber_ident_length(i); }
    case K_LENGTH: return crefl_asn1_ber_length_length(v.u);
    default: a = content_len(v, byval);
        if (is_der(v.kind)) { asn1_id i; memset(&i, 0, sizeof i); i._identifier = v.tag; return crefl_asn1_ber_ident_length(i) + crefl_asn1_ber_length_length(a) + a; }
        return a; }
}
bool has_announced(int k) { return k < K_VF64 || (k >= K_OID && k <= K_DNULL); }
bool put(World &w, Buf &b, const Val &v0, bool byval) {
    Val v = v0; size_t room = b.size - b.wr; int ret = 0; size_t off = 0, ann = 0, content = 0;
    // twin: the other form, or the same form again, into a roomy scratch buffer
    size_t tl = 0; Bytes tb; int tret = 0; bool bad = out_of_range(v);
    if (!w.sut("encoding", [&] {
        if (!bad) { content = content_len(v, byval); size_t c2 = content_len(v, !byval && has_val(v.kind)); if (content != c2) violation("length-forms", "%s %s: the by-value form announces another length (%zu, %zu)", kname[v.kind], show(v).c_str(), content, c2); }
        if ((v.kind == K_U64 || v.kind == K_S64 || v.kind == K_LEU || v.kind == K_LES) && v.len) content = std::min<size_t>(8, content + v.len);
        if (!bad && has_announced(v.kind)) { ann = announced(v, byval); if (!is_der(v.kind) && v.kind > K_LENGTH) ann = content; }
        crefl_buf *t = crefl_buf_new(1200 + v.s.size()); tret = do_write(t, v, has_val(v.kind) ? !byval : byval, content); tl = shim_offset(t); tb.assign(t->data, t->data + tl); crefl_buf_destroy(t);
    })) return false;
    if (bad) REQUIRE(tret != 0, "range", "%s accepted %llu, which it cannot represent", kname[v.kind], (unsigned long long)v.u);
    else REQUIRE(tret == 0, "refused", "%s refused %s with plenty of room", kname[v.kind], show(v).c_str());
    if (!bad && has_announced(v.kind)) REQUIRE(tl == ann, "length", "%s %s announced %zu bytes and wrote %zu", kname[v.kind], show(v).c_str(), ann, tl);
    size_t exp = expected_len(v, content); if (!bad && exp) REQUIRE(tl == exp, "length", "%s %s took %zu bytes, not %zu", kname[v.kind], show(v).c_str(), tl, exp);
    size_t need = tl;
    if (!w.sut("encoding", [&] { shim_seek(b.b, b.wr); ret = do_write(b.b, v, byval, content); off = shim_offset(b.b); })) return false;
    op_done(); Bytes now = w.bytes(b); REQUIRE(off <= b.size, "cursor", "writing left the position at %zu of %zu", off, b.size);
    REQUIRE(b.b->data_size == b.size, "buffer", "writing changed the buffer's size");
    bool fits = !bad && need <= room; event("put %s %s -> %d at %zu..%zu", kname[v.kind], show(v).c_str(), ret, b.wr, off); mixlog(now.data(), now.size());
    for (size_t i = 0; i < b.size; i++) if ((i < b.wr || i >= b.wr + need) && now[i] != b.img[i] && !(bad == false && !fits && i >= b.wr)) violation("stray-write", "writing %s at %zu..%zu changed byte %zu", kname[v.kind], b.wr, b.wr + need, i);
    if (!fits) { REQUIRE(ret != 0, bad ? "range" : "overfull", "%s %s reported success %s", kname[v.kind], show(v).c_str(), bad ? "outside its range" : "without enough room"); probe(bad ? "out-of-range values refused" : "full buffers refused"); b.img = now; return true; }
    REQUIRE(ret == 0, "refused", "%s %s refused although %zu bytes fit in %zu", kname[v.kind], show(v).c_str(), need, room);
    REQUIRE(off == b.wr + need, "length", "%s %s moved the position by %zu, not %zu", kname[v.kind], show(v).c_str(), off - b.wr, need);
    REQUIRE(std::equal(tb.begin(), tb.end(), now.begin() + b.wr), "forms", "%s %s: by-pointer and by-value writers give different bytes", kname[v.kind], show(v).c_str());
    if (ref_has(v.kind)) { Val o; size_t end = 0; bool okd = ref_decode(now, b.wr, v.kind, v.kind == K_BYTES ? v.s.size() : content, o, end); REQUIRE(okd && end == off && same(v, o), "encoding", "%s %s is encoded as %s, which denotes %s", kname[v.kind], show(v).c_str(), hex(&now[b.wr], std::min<size_t>(off - b.wr, 30)).c_str(), okd ? show(o).c_str() : "nothing"); }
    b.recs.push_back({ v, Bytes(now.begin() + b.wr, now.begin() + off), b.wr, off, content }); b.wr = off; b.img = now; return true;
}
void get_one(World &w, Buf &b, const Rec &r, crefl_buf *src, size_t base, bool byval) {
    Got g, h; size_t off = 0, off2 = 0, dst = r.v.s.size(); U mix = 7 + r.at; for (size_t i = 0; i < r.enc.size() && i < 64; i++) mix = mix * 1099511628211ull + r.enc[i]; mix >>= 5; if (mix % 3 == 0) dst += mix / 3 % (mix % 2 ? 40 : 70000);      // a destination larger than the value
    if (!w.sut("decoding", [&] {
        shim_seek(src, r.at - base); g = do_read(src, r.v.kind, byval, r.v.kind == K_BYTES ? r.v.s.size() : r.content, r.v.tag, dst); off = shim_offset(src) + base;
        if (has_val(r.v.kind)) { shim_seek(src, r.at - base); h = do_read(src, r.v.kind, !byval, r.content, r.v.tag, dst); off2 = shim_offset(src) + base; } else { h = g; off2 = off; }
    })) return;
    op_done(); event("get %s -> %d %s", kname[r.v.kind], g.ret, show(g.v).c_str());
    REQUIRE(g.ret == 0, "unreadable", "%s %s cannot be read back", kname[r.v.kind], show(r.v).c_str());
    REQUIRE(same(r.v, g.v), "value", "%s: wrote %s, read %s", kname[r.v.kind], show(r.v).c_str(), show(g.v).c_str());
    if (r.v.kind == K_OCT || r.v.kind == K_DOCT) REQUIRE(g.v.u == r.v.s.size(), "value", "%s: %zu bytes written, %llu reported as read into %zu", kname[r.v.kind], r.v.s.size(), (unsigned long long)g.v.u, dst);
    REQUIRE(h.ret == 0 && same(r.v, h.v), "value", "%s (other form): wrote %s, read %s", kname[r.v.kind], show(r.v).c_str(), show(h.v).c_str());
    REQUIRE(off == r.end && off2 == r.end, "cursor", "reading %s %s ended at %zu/%zu, not %zu", kname[r.v.kind], show(r.v).c_str(), off, off2, r.end);
}
// octets written under an announced length that is not the string's own: the stream advances
// by the announced length and carries as much of the string as fits in it
void octw(World &w, Buf &b, U seed) {
    Rng r(seed); size_t room = b.size - b.wr, cnt = r.chance(1, 10) ? 0 : r.chance(1, 20) ? r.below(70000) : r.below(60), len = r.chance(1, 3) ? cnt + r.below(4) : r.chance(1, 8) ? room + r.below(4) : r.below(120);
    std::string str(cnt, 0); for (auto &c : str) c = (char)r.below(256); size_t off = 0, off2 = 0, n = std::min(cnt, len); int ret = 0, back = 0; asn1_string q{}; std::string got; Bytes before = w.bytes(b);
    if (!w.sut("encoding", [&] {
        asn1_string x; x.count = cnt; x.str = (u8 *)malloc(cnt + !cnt); memcpy(x.str, str.data(), cnt); shim_seek(b.b, b.wr); ret = crefl_asn1_ber_octets_write(b.b, len, &x); off = shim_offset(b.b); free(x.str);
        if (ret == 0 && off <= b.size) { size_t cap = r.chance(1, 2) ? len : r.below(len + 20); q.count = cap; q.str = (u8 *)malloc(cap + !cap); shim_seek(b.b, b.wr); back = crefl_asn1_ber_octets_read(b.b, len, &q); off2 = shim_offset(b.b); got.assign((char *)q.str, std::min(cap, len)); free(q.str); }
    })) return;
    op_done(); Bytes now = w.bytes(b); event("octets %zu as %zu -> %d at %zu..%zu", cnt, len, ret, b.wr, off); probe("octets under another length");
    if (len > room) { REQUIRE(ret != 0, "overfull", "octets announced as %zu bytes reported success with room for %zu", len, room); REQUIRE(now == before, "stray-write", "refusing octets changed the buffer"); return; }
    REQUIRE(ret == 0, "refused", "octets announced as %zu bytes refused although %zu bytes are free", len, room);
    REQUIRE(off == b.wr + len, "length", "octets announced as %zu bytes moved the position by %zu", len, off - b.wr);
    REQUIRE(std::equal(str.begin(), str.begin() + n, now.begin() + b.wr, [](char c, uint8_t d) { return (uint8_t)c == d; }), "encoding", "%zu octets announced as %zu bytes are not in the stream", cnt, len);
    for (size_t i = 0; i < b.size; i++) if ((i < b.wr || i >= b.wr + len) && now[i] != before[i]) violation("stray-write", "octets at %zu..%zu changed byte %zu", b.wr, b.wr + len, i);
    REQUIRE(back == 0 && off2 == off && q.count == len, "value", "octets announced as %zu bytes read back as %d, %zu bytes up to %zu", len, back, (size_t)q.count, off2);
    REQUIRE(got.substr(0, n) == str.substr(0, std::min(n, got.size())), "value", "octets announced as %zu bytes read back differently", len);
    b.img = now; b.wr = off;
}
void text(World &w, U seed) {
    Val v = gen_val(K_OID, seed, false); Rng r(seed ^ 5); if (r.chance(1, 3)) v.oid[0] = r.pow2ish((1ull << 56) - 1); asn1_oid *o = (asn1_oid *)malloc(sizeof(asn1_oid)); fill(v, *o);
    std::string ref = show(v); size_t cap = r.chance(1, 2) ? ref.size() + 1 + r.below(4) : r.below(ref.size() + 2); std::string got; size_t need = 0, need0 = 0; bool nul = false; asn1_oid *q = (asn1_oid *)malloc(sizeof(asn1_oid)); memset(q, 0, sizeof *q); int ret = 0, fr = 0;
    bool ok = w.sut("oid text", [&] {
        crefl_asn1_oid_to_string(nullptr, &need0, o);
        if (cap) { char *s = (char *)malloc(cap); memset(s, 1, cap); need = cap; ret = crefl_asn1_oid_to_string(s, &need, o); nul = memchr(s, 0, cap) != nullptr; if (nul) got = s; free(s); } else { need = 0; ret = crefl_asn1_oid_to_string(nullptr, &need, o); }
        char *e = (char *)malloc(ref.size()); memcpy(e, ref.data(), ref.size()); fr = crefl_asn1_oid_from_string(q, e, ref.size()); free(e);
    });
    if (ok) {
        op_done(); event("text %s cap %zu", ref.c_str(), cap);
        REQUIRE(ret == 0 && need == ref.size() && need0 == ref.size(), "text-length", "text of %s is announced as %zu/%zu bytes", ref.c_str(), need0, need);
        if (cap) REQUIRE(nul && got == ref.substr(0, cap - 1), "text", "text of %s in %zu bytes is '%s'", ref.c_str(), cap, got.c_str());
        REQUIRE(fr == 0, "text-refused", "the text %s is refused", ref.c_str());
        bool eq = q->count == v.oid.size(); for (size_t i = 0; eq && i < v.oid.size(); i++) eq = q->oid[i] == v.oid[i];
        REQUIRE(eq, "text", "the text %s reads as another identifier", ref.c_str());
    }
    free(o); free(q);
}
// ---- C10 ---------------------------------------------------------------------------
void probe_read(World &w, Buf &b, size_t at, int kind, size_t len, size_t dst) {
    Got g, h; size_t off = 0, off2 = 0; Bytes before = w.bytes(b);
    if (!w.sut("decoding", [&] { shim_seek(b.b, at); g = do_read(b.b, kind, false, len, 0, dst); off = shim_offset(b.b); if (has_val(kind)) { shim_seek(b.b, at); h = do_read(b.b, kind, true, len, 0, dst); off2 = shim_offset(b.b); } else { h = g; off2 = off; } })) return;
    op_done(); event("read %s at %zu len %zu -> %d %s to %zu", kname[kind], at, len, g.ret, g.ret ? "" : show(g.v).c_str(), off);
    REQUIRE(off <= b.size && off >= at, "cursor", "reading %s at %zu of %zu left the position at %zu", kname[kind], at, b.size, off);
    REQUIRE(off2 <= b.size && off2 >= at, "cursor", "reading %s by value at %zu of %zu left the position at %zu", kname[kind], at, b.size, off2);
    REQUIRE((g.ret == 0) == (h.ret == 0), "forms", "%s at %zu: by-pointer says %d, by-value says %d", kname[kind], at, g.ret, h.ret);
    if (g.ret == 0) { REQUIRE(same(g.v, h.v) && off == off2, "forms", "%s at %zu: by-pointer and by-value readers disagree: %s, %s", kname[kind], at, show(g.v).c_str(), show(h.v).c_str()); probe("damaged reads accepted"); } else probe("damaged reads refused");
    REQUIRE(before == w.bytes(b), "stray-write", "reading changed the buffer");
    if (is_der(kind) && g.ret == 0) {
        U id, n; size_t next; bool ok = ref_header(before, at, id, n, next);
        REQUIRE(ok, "header", "%s accepted a malformed header at %zu", kname[kind], at);
        REQUIRE(n <= b.size - next && off == next + n, "contents", "%s at %zu announces contents %zu..+%llu (buffer of %zu) but the read ended at %zu", kname[kind], at, next, (unsigned long long)n, b.size, off);
    }
    if (ref_has(kind) && g.ret == 0) {
        Val o; size_t end = 0; bool okd = ref_decode(before, at, kind, len, o, end); if (okd && (kind == K_OCT || kind == K_DOCT)) { o.s.resize(dst == ~(size_t)0 ? 0 : std::min<size_t>(dst, o.s.size())); }
        REQUIRE(okd, "malformed", "%s at %zu (length %zu) accepted %s as %s", kname[kind], at, len, hex(&before[at], std::min<size_t>(b.size - at, 24)).c_str(), show(g.v).c_str());
        REQUIRE(same(g.v, o) && off == end, "meaning", "%s at %zu (length %zu) read %s up to %zu; the bytes %s denote %s up to %zu", kname[kind], at, len, show(g.v).c_str(), off, hex(&before[at], std::min<size_t>(b.size - at, 24)).c_str(), show(o).c_str(), end);
    }
    if ((kind == K_OCT || kind == K_BYTES) && g.ret == 0) REQUIRE(off == at + len, "contents", "%s of %zu bytes ended at %zu", kname[kind], len, off);
    if ((kind == K_OID || kind == K_DOID) && g.ret == 0) {         // what was decoded can be used
        asn1_oid *o = (asn1_oid *)malloc(sizeof *o); memset(o, 0, sizeof *o); o->count = g.v.u; for (size_t i = 0; i < g.v.oid.size(); i++) o->oid[i] = g.v.oid[i];
        w.sut("using a decoded oid", [&] { size_t n = 0; crefl_asn1_oid_to_string(nullptr, &n, o); size_t cap = n + 1; char *s = (char *)malloc(cap); crefl_asn1_oid_to_string(s, &cap, o); free(s); crefl_buf *t = crefl_buf_new(400); size_t l = crefl_asn1_ber_oid_length(o); crefl_asn1_ber_oid_write(t, l, o); crefl_buf_destroy(t); });
        free(o);
    }
}
// a position behind the end, as left by skipping over an element by its announced length
void beyond(World &w, Buf &b, size_t at, int kind, U k, bool byval, size_t len, bool write) {
    Got g; size_t off = 0; int ret = 0; Bytes before = w.bytes(b); Val v; if (write) { v = gen_val(kind, k, true); if (out_of_range(v)) return; }
    if (!w.sut(write ? "encoding" : "decoding", [&] {
        if (write) { size_t c = content_len(v, byval); shim_seek(b.b, at); ret = do_write(b.b, v, byval, c); }
        else { shim_seek(b.b, at); g = do_read(b.b, kind, byval, kind == K_BYTES ? std::min<size_t>(len, 4096) : len, 0, 300); ret = g.ret; }
        off = shim_offset(b.b); shim_seek(b.b, b.wr); })) return;
    op_done(); event("%s %s behind the end, at %zu of %zu -> %d", write ? "put" : "read", kname[kind], at, b.size, ret); probe("positions behind the end");
    bool none = write ? !expected_len(v, content_len(v, byval)) && v.kind != K_VF64 && v.kind != K_VF32 : off == at;
    REQUIRE(ret != 0 || none, "behind-end", "%s %s at position %zu of a buffer of %zu bytes succeeded", write ? "writing" : "reading", kname[kind], at, b.size);
    REQUIRE(before == w.bytes(b), "stray-write", "%s behind the end changed the buffer", write ? "writing" : "reading");
}
void shortened(World &w, Buf &b, const Rec &r, size_t keep) {
    if (r.end - r.at < 1) return; keep = keep % (r.end - r.at); crefl_buf *s = nullptr; Got g, h; size_t off = 0;
    if (!w.sut("decoding", [&] {
        s = crefl_buf_new(keep); if (keep) memcpy(s->data, r.enc.data(), keep); g = do_read(s, r.v.kind, false, r.v.kind == K_BYTES ? r.v.s.size() : r.content, r.v.tag, r.v.s.size()); off = shim_offset(s);
        if (has_val(r.v.kind)) { shim_seek(s, 0); h = do_read(s, r.v.kind, true, r.content, r.v.tag, r.v.s.size()); } else h = g; crefl_buf_destroy(s); })) return;
    op_done(); event("shortened %s %zu of %zu -> %d", kname[r.v.kind], keep, r.end - r.at, g.ret); probe("shortened encodings tried");
    REQUIRE(g.ret != 0, "short-accepted", "%s %s cut to %zu of %zu bytes was accepted as %s", kname[r.v.kind], show(r.v).c_str(), keep, r.end - r.at, show(g.v).c_str());
    REQUIRE(h.ret != 0, "short-accepted", "%s %s (by value) cut to %zu of %zu bytes was accepted", kname[r.v.kind], show(r.v).c_str(), keep, r.end - r.at);
    REQUIRE(off <= keep, "cursor", "reading a shortened %s left the position at %zu of %zu", kname[r.v.kind], off, keep);
}
void run(const Plan &p) {
    World w; w.c10 = p.check == "C10"; w.on_boot = [&] { w.bufs.clear(); }; w.boot();
    for (auto &l : p.lines) {
        if (l.verb == "buf") mk(w, l.num("b"), std::min<U>(l.num("size"), 1 << 19));
        else if (l.verb == "text") text(w, l.num("k"));
        else {
            auto it = w.bufs.find(l.num("b")); if (it == w.bufs.end() || !it->second.b) continue; Buf &b = it->second;
            if (l.verb == "octw") { if (b.size) octw(w, b, l.num("k")); }
            else if (l.verb == "put") { if (b.size) put(w, b, gen_val(l.num("kind") % K_MAX, l.num("k"), true), l.num("byval")); }
            else if (l.verb == "get") { if (b.recs.empty()) continue; size_t i = l.num("seq") ? b.rd++ % b.recs.size() : l.num("i") % b.recs.size(); get_one(w, b, b.recs[i], b.b, 0, l.num("byval")); }
            else if (l.verb == "rewind") { w.sut("reset", [&] { shim_reset(b.b); }); b.wr = 0; b.rd = 0; b.recs.clear(); }
            else if (l.verb == "ship") {            // the stream arrives elsewhere, in a buffer of exactly its size
                crefl_buf *n = nullptr; if (!w.sut("shipping", [&] { n = crefl_buf_new(b.wr); memcpy(n->data, b.b->data, b.wr); })) continue;
                for (auto &r : b.recs) if (w.bufs.count(l.num("b"))) get_one(w, b, r, n, 0, l.num("byval"));
                w.sut("destroying a buffer", [&] { crefl_buf_destroy(n); });
            }
            else if (l.verb == "damage") { Rng r(l.num("k")); U n = 1 + l.num("n") % 64; if (!b.size) continue; for (U i = 0; i < n; i++) { size_t a = r.below(b.wr && r.chance(3, 4) ? b.wr : b.size); switch (r.below(4)) { case 0: b.b->data[a] ^= 1 << r.below(8); break; case 1: b.b->data[a] = r.below(256); break; case 2: b.b->data[a] = 0xff; break; default: b.b->data[a] = (char)(0x80 | r.below(16)); } } b.img = w.bytes(b); event("damaged %llu bytes", (unsigned long long)n); probe("bytes damaged", n); }
            else if (l.verb == "noise") { Rng r(l.num("k")); for (size_t i = 0; i < b.size; i++) b.b->data[i] = r.chance(1, 2) ? r.below(256) : 0x80 | r.below(128); b.img = w.bytes(b); probe("random buffers"); }
            else if (l.verb == "read") { size_t at = l.num("at") % (b.size + 1); if (l.num("rec") && !b.recs.empty()) at = b.recs[l.num("at") % b.recs.size()].at; if (at > b.size) at = 0; int kind = l.num("kind") % K_MAX; size_t len = l.num("len"); if (kind == K_BYTES && len > 4096 && len < ~0ull - 70000) len = 4096; if (kind == K_BYTES && len > 4096 && b.size - at >= len) len = 10; probe_read(w, b, at, kind, len, l.num("dst") == 9999 ? ~(size_t)0 : l.num("dst") % 600); }
            else if (l.verb == "beyond") { U x = l.num("at"); size_t at = l.num("top") ? ~(size_t)0 - x : b.size + 1 + x; beyond(w, b, at, l.num("kind") % K_MAX, l.num("k"), l.num("byval"), l.num("len"), l.num("write")); }
            else if (l.verb == "short") { if (!b.recs.empty()) shortened(w, b, b.recs[l.num("i") % b.recs.size()], l.num("keep")); }
        }
    }
}
void gen(Rng &r, Plan &p, bool th) {
    U nb = 1 + r.below(3), n = 8 + r.below(th ? 120 : 50); bool c10 = p.check == "C10";
    static const U favs[] = { K_VF64, K_VF32, K_REAL, K_DREAL, K_S64, K_OID, K_DOID };
    U focus = r.chance(1, 3) ? (r.chance(1, 2) ? favs[r.below(7)] : r.below(K_MAX)) : K_MAX;
    for (U i = 0; i < nb; i++) p.add("buf").set("b", i).set("size", r.chance(1, 30) ? r.pow2ish(400000) : r.chance(1, 3) ? r.below(64) : r.below(1500));
    for (U i = 0; i < n; i++) {
        U b = r.below(nb), kind = focus < K_MAX && r.chance(3, 4) ? focus : r.below(K_MAX), x = r.below(100);
        if (!c10) {
            if (x < 60) p.add("put").set("b", b).set("kind", kind).set("k", r.next() >> 16).set("byval", r.below(2));
            else if (x < 84) p.add("get").set("b", b).set("i", r.below(100)).set("seq", r.below(2)).set("byval", r.below(2));
            else if (x < 90) p.add("ship").set("b", b).set("byval", r.below(2));
            else if (x < 92) p.add("rewind").set("b", b);
            else if (x < 95) p.add("buf").set("b", b).set("size", r.chance(1, 2) ? r.below(64) : r.below(2000));
            else if (x < 97) p.add("octw").set("b", b).set("k", r.next() >> 16);
            else p.add("text").set("k", r.next() >> 16);
        } else {
            if (x < 30) p.add("put").set("b", b).set("kind", kind).set("k", r.next() >> 16).set("byval", r.below(2));
            else if (x < 42) p.add("short").set("b", b).set("i", r.below(100)).set("keep", r.below(1000));
            else if (x < 52) p.add("damage").set("b", b).set("k", r.next() >> 16).set("n", r.below(r.chance(1, 3) ? 40 : 4));
            else if (x < 56) p.add("noise").set("b", b).set("k", r.next() >> 16);
            else if (x < 60 && r.chance(1, 2)) p.add("beyond").set("b", b).set("at", r.chance(1, 8) ? r.pow2ish(1ull << 40) : r.below(18)).set("top", r.below(2)).set("kind", r.below(K_MAX)).set("k", r.next() >> 16).set("byval", r.below(2)).set("len", r.below(12)).set("write", r.below(2));
            else if (x < 58) p.add("buf").set("b", b).set("size", r.below(64));
            else { U len = r.chance(1, 3) ? r.below(12) : r.chance(1, 8) ? ~r.below(66000) : r.chance(1, 8) ? r.next() : r.below(700); p.add("read").set("b", b).set("at", r.chance(1, 6) ? 0 : r.below(2000)).set("rec", r.below(2)).set("kind", kind).set("len", len).set("dst", r.chance(1, 6) ? 9999 : r.below(600)); }
        }
    }
    if (!c10) { for (U i = 0; i < nb; i++) p.add("ship").set("b", i).set("byval", r.below(2)); }
    if (r.chance(1, 8)) gen_fault(r, p, 0, F_ALLOC);
}
Register r9("C09", gen, run), r10("C10", gen, run);
}
