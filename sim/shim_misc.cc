// The header-only hash table, instantiated and instrumented like the rest of the library.
#include "maps.h"
#include <crefl/hashmap.h>
typedef uint64_t U;
namespace {
struct HId { size_t operator()(U k) const { return k; } };
struct HFew { size_t operator()(U k) const { return k & 3; } };
struct HOne { size_t operator()(U) const { return 42; } };
struct HMix { size_t operator()(U k) const { return k * 0x9E3779B97F4A7C15ull ^ (k >> 13); } };
struct HHigh { size_t operator()(U k) const { return k << 4; } };           // neighbours never share a slot start, low bits all zero
// the way the linker keys its tables: a small plain struct
struct Key3 { uint32_t a, b; unsigned char c; Key3(int x = 0) : a(x), b(0), c(0) { } Key3(U k) : a(k), b(k >> 7), c(k >> 3) { } };
struct HKey3 { size_t operator()(const Key3 &k) const { return (k.a * 31 + k.b) % 67; } };
struct EKey3 { bool operator()(const Key3 &x, const Key3 &y) const { return x.a == y.a && x.b == y.b && x.c == y.c; } };
template <class K> K mk(U k) { return (K)k; }
template <> Key3 mk<Key3>(U k) { return Key3((U)(uint32_t)k); }
U un(U k) { return k; } U un(uint32_t k) { return k; } U un(uint8_t k) { return k; } U un(const Key3 &k) { return k.a; }

template <class K, class V, class H, class E> struct M : IMap {
    typedef hashmap<K, V, H, E> T; T m;
    M() { } M(size_t n) : m(n) { } M(const M &o) : m(o.m) { } M(M &&o) : m(std::move(o.m)) { }
    U size() override { return m.size(); }
    U capacity() override { return m.capacity(); }
    void insert(int form, U k, U v, U *rk, U *rv) override {
        typename T::iterator i = form == 0 ? m.insert(mk<K>(k), (V)v) : form == 1 ? m.insert(typename T::value_type(mk<K>(k), (V)v)) : m.insert(m.begin(), typename T::value_type(mk<K>(k), (V)v));
        *rk = un(i->first); *rv = (U)i->second;
    }
    U get(U k) override { return (U)m[mk<K>(k)]; }
    void set(U k, U v) override { m[mk<K>(k)] = (V)v; }
    bool chain(U k, U v) override { if constexpr (std::is_same<K, V>::value) { m[m[mk<K>(k)]] = (V)v; return true; } return false; }
    bool find(U k, U *fk, U *fv) override { auto i = m.find(mk<K>(k)); if (i == m.end()) return false; *fk = un((*i).first); *fv = (U)i->second; return true; }
    bool poke(U k, U v) override { auto i = m.find(mk<K>(k)); if (i == m.end()) return false; i->second = (V)v; return true; }
    void erase(U k) override { m.erase(mk<K>(k)); }
    void clear() override { m.clear(); }
    void each(int form, Visit f, void *p) override {
        if (form == 0) { for (auto &e : m) f(p, un(e.first), (U)e.second); }
        else if (form == 1) { for (auto i = m.begin(); i != m.end(); ++i) f(p, un(i->first), (U)i->second); }
        else { auto i = m.begin(); while (!(i == m.end())) { auto j = i++; f(p, un(j->first), (U)j->second); } }
    }
    bool empty_range() override { return m.begin() == m.end(); }
    IMap *copy() override { return new M(*this); }
    IMap *moved() override { return new M(std::move(*this)); }
    void assign(IMap *o) override { m = static_cast<M *>(o)->m; }
    void move_assign(IMap *o) override { m = std::move(static_cast<M *>(o)->m); }
    bool equal(IMap *o) override { return m == static_cast<M *>(o)->m; }
    bool differs(IMap *o) override { return m != static_cast<M *>(o)->m; }
};
template <class K, class V, class H, class E = std::equal_to<K>> IMap *mkmap(U n) { return n ? new M<K, V, H, E>(n) : new M<K, V, H, E>(); }
}
extern "C" IMap *shim_map_new(int type, U n) {
    switch (type) {
    case 0: return mkmap<U, U, HId>(n); case 1: return mkmap<U, U, HFew>(n); case 2: return mkmap<U, U, HOne>(n); case 3: return mkmap<U, U, HMix>(n);
    case 4: return mkmap<U, U, HHigh>(n); case 5: return mkmap<Key3, uint32_t, HKey3, EKey3>(n); default: return mkmap<uint32_t, U, std::hash<uint32_t>>(n);
    }
}
