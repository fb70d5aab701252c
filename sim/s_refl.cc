// The compiler plug-in: generated C sources are compiled by the real front end with the
// real plug-in inside the simulator; what it writes is compared with what was declared.
#include "dbm.h"
#include "simw.h"
#include "clang_host.h"
using namespace sim; using namespace dbm;

namespace {
// ---------------------------------------------------------------- a generated source and its description
enum { Q_C = 1, Q_V = 2, Q_R = 4 };
struct Ty { char k; int a = 0; U n = 0; unsigned q = 0; std::vector<int> par; std::string mod, iq; };   // b(asic) g(tag) t(ypedef) p(ointer) a(rray) f(unction pointer)
struct Item { std::string kind, name, type, attrs, extra; int tag = -1; std::vector<Item> kids; };
struct TagI { char kind; std::string name; bool done = false; bool flex = false; double size = 8, leaf = 1; };
struct TdI { std::string name; int ty; };
static const struct { const char *c, *d; int bits; bool integer; } basics[] = {
    { "char", "s8", 8, 1 }, { "signed char", "s8", 8, 1 }, { "unsigned char", "u8", 8, 1 }, { "short", "s16", 16, 1 }, { "unsigned short", "u16", 16, 1 }, { "int", "s32", 32, 1 }, { "unsigned", "u32", 32, 1 },
    { "long", "s64", 64, 1 }, { "unsigned long", "u64", 64, 1 }, { "long long", "s64", 64, 1 }, { "unsigned long long", "u64", 64, 1 }, { "_Bool", "s1", 8, 1 }, { "__int128", "s128", 128, 0 }, { "unsigned __int128", "u128", 128, 0 },
    { "float", "f32", 32, 0 }, { "double", "f64", 64, 0 }, { "long double", "f128", 128, 0 }, { "float _Complex", "c64", 64, 0 }, { "double _Complex", "c128", 128, 0 }, { "long double _Complex", "c256", 256, 0 }, { "void", "void", 0, 0 } };
static const int NBASIC = 20, VOID = 20;
std::string qtext(unsigned q) { return std::string(q & Q_C ? "const " : "") + (q & Q_V ? "volatile " : "") + (q & Q_R ? "restrict " : ""); }

struct Gen {
    Rng r; bool special = true; bool wide = false; U nest = 0; U depth = 3; std::vector<Ty> ty; std::vector<TagI> tags; std::vector<TdI> tds; std::string text; std::vector<Item> top; U cnt = 0; std::string pfx; bool mainfn = false;
    double msz = 0, mlf = 0; U force = 0;
    Gen(U seed) : r(seed) {}
    // an upper bound of the size in bytes: every type stays below 2^56 bytes, so that widths in bits fit in 64 bits
    double leaf(int t) { Ty &x = ty[t]; return x.k == 'g' ? tags[x.a].leaf : x.k == 't' ? leaf(tds[x.a].ty) : x.k == 'a' ? leaf(x.a) : 1; }   // members a width query has to visit
    void sized(int t) { msz += size(t) + 256; mlf += leaf(t); }
    double size(int t) { Ty &x = ty[t]; switch (x.k) { case 'b': return 32; case 'g': return tags[x.a].size; case 't': return size(tds[x.a].ty); case 'a': return x.n == ~0ull ? 8 : size(x.a) * (double)x.n; default: return 8; } }
    std::string name(const char *p) { std::string s = p + pfx + std::to_string(cnt++); if (r.chance(1, 60)) s += "_" + std::string(1 + r.pow2ish(3000), 'a' + r.below(26)); if (r.chance(1, 60)) s += "\xc3\xa9"; return s; }
    int add(Ty t) { ty.push_back(t); return ty.size() - 1; }
    bool complete(int t) { Ty &x = ty[t]; switch (x.k) { case 'b': return x.a != VOID; case 'g': return tags[x.a].done; case 't': return complete(tds[x.a].ty); case 'a': return x.n != ~0ull && complete(x.a); default: return true; } }
    bool flex(int t) { Ty &x = ty[t]; return x.k == 'g' ? tags[x.a].flex : x.k == 't' ? flex(tds[x.a].ty) : x.k == 'a' ? x.n == ~0ull : false; }
    char under(int t) { return ty[t].k == 't' ? under(tds[ty[t].a].ty) : ty[t].k; }
    unsigned quals() { return r.chance(1, 4) ? 1 + r.below(3) : 0; }
    int obj(int d) { int t; for (int i = 0; i < 8; i++) { t = any(d); if (complete(t) && !flex(t)) return t; } return add({ 'b', (int)r.below(NBASIC) }); }
    int any(int d) {
        U k = r.below(d > 0 ? 12 : 7); Ty t{ 'b' };
        if (k < 4) { t.a = r.chance(1, 12) ? VOID : r.below(NBASIC); t.q = quals(); }
        else if (k < 6 && !tags.empty()) { t.k = 'g'; for (int i = 0; i < 6; i++) { t.a = r.chance(1, 2) ? tags.size() - 1 - r.below(std::min<size_t>(tags.size(), 6)) : r.below(tags.size()); if (!tags[t.a].name.empty()) break; } if (tags[t.a].name.empty() || tags[t.a].leaf > 3000) t = Ty{ 'b', 5 }; t.q = quals(); }
        else if (k < 7 && !tds.empty()) { t.k = 't'; t.a = r.below(tds.size()); t.q = quals(); }
        else if (k < 10 && d > 0) { t.k = 'p'; t.a = any(d - 1); t.q = quals() | (r.chance(1, 12) && complete(t.a) ? Q_R : 0); }
        else if (k < 11 && d > 0) { t.k = 'a'; t.a = obj(d - 1); t.n = r.chance(1, 10) ? r.pow2ish(70000) : 1 + r.below(9); if (t.n > 64 && r.chance(3, 4)) t.n = 7; if (wide && r.chance(1, 3)) { static const U big[] = { 1ull << 16, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 3, 5000000000ull, 1ull << 33, 65536 }; t.n = big[r.below(8)]; } if (size(t.a) * (double)t.n > 72057594037927936.0) t.n = 1 + r.below(3); }
        else if (d > 0) { t.k = 'f'; t.a = r.chance(1, 2) ? add({ 'b', VOID }) : ret(d - 1); U n = r.below(4); for (U i = 0; i < n; i++) t.par.push_back(obj(d - 1)); t.q = quals(); }
        else t.a = 5;
        return add(t);
    }
    int ret(int d) { for (int i = 0; i < 6; i++) { int t = obj(d); if (under(t) != 'a') { return t; } } return add({ 'b', 5 }); }
    std::string decl(int t, const std::string &in) {
        Ty &x = ty[t]; auto sp = [&](const std::string &s) { return in.empty() ? s : s + " " + in; };
        switch (x.k) {
        case 'b': return sp(qtext(x.q) + basics[x.a].c);
        case 'g': return sp(qtext(x.q) + (tags[x.a].kind == 's' ? "struct " : tags[x.a].kind == 'u' ? "union " : "enum ") + tags[x.a].name);
        case 't': return sp(qtext(x.q) + tds[x.a].name);
        case 'p': { std::string i = "*" + qtext(x.q) + in; if (ty[x.a].k == 'a') i = "(" + i + ")"; return decl(x.a, i); }
        case 'a': return decl(x.a, in + "[" + x.mod + x.iq + (x.n == ~0ull ? "" : std::to_string(x.n)) + "]");
        default: { std::string p; for (int a : x.par) p += (p.empty() ? "" : ", ") + decl(a, ""); return decl(x.a, "(*" + qtext(x.q) + in + ")(" + (p.empty() ? "void" : p) + ")"); }
        }
    }
    // what the description must say: aliases resolved, qualifiers of arrays on their elements
    std::string canon(int t, unsigned q = 0) {
        Ty &x = ty[t]; q |= x.q; if (x.k == 't') return canon(tds[x.a].ty, q); std::string qs = qtext(q);
        switch (x.k) {
        case 'b': return qs + basics[x.a].d;
        case 'g': return qs + "<" + std::to_string(x.a) + ">";
        case 'p': return qs + "*" + canon(x.a);
        case 'a': return "[" + x.mod + (x.n == ~0ull || !x.n ? "" : std::to_string(x.n)) + "]" + canon(x.a, q);
        default: return qs + "*void";
        }
    }
    // attribute lists: text and description
    std::string attrs(const char *set, Item &it, bool al = true) {
        std::string s; U n = r.chance(1, 4) ? 1 + r.below(4) : 0; std::set<std::string> used;
        for (U i = 0; i < n; i++) {
            char c = set[r.below(strlen(set))]; if (!special && (c == 'P' || c == 'A')) continue; std::string a, d; if (c != 'n' && !used.insert(std::string(1, c)).second) continue;
            switch (c) {
            case 'd': a = r.chance(1, 3) ? "deprecated(\"old\")" : "deprecated"; d = "deprecated"; break;
            case 'u': a = d = "unused"; break;
            case 'U': a = d = "used"; break;
            case 'p': a = d = "pure"; break;
            case 'P': a = d = "packed"; break;
            case 'w': a = d = "warn_unused_result"; break;
            case 'i': a = d = "always_inline"; break;
            case 'A': { U v = 1ull << r.below(8); a = "aligned(" + std::to_string(v) + ")"; d = "aligned=" + std::to_string(v * 8); break; }
            case 'n': { std::string v; U l = r.chance(1, 20) ? r.pow2ish(4000) : r.below(12); for (U j = 0; j < l; j++) v += r.chance(1, 20) ? ' ' : "abcdefghijklmnopqrstuvwxyz0123456789.:/=_-,;()[]{}<>%$#@!?*&^~|"[r.below(63)]; a = "annotate(\"" + v + "\")"; d = "annotate=" + v; break; }
            case 'l': a = "alias(\"target_fn\")"; d = "alias=target_fn"; break;
            default: continue;
            }
            if (r.chance(1, 4)) a = "__attribute__((" + a + "))", s += (s.empty() ? "" : " ") + a; else s += (s.empty() ? "" : " ") + ("__attribute__((" + a + "))");
            it.attrs += (it.attrs.empty() ? "" : ", ") + d;
        }
        return s;
    }
    static std::string sp(const std::string &a, const std::string &b) { return a.empty() ? b : b.empty() ? a : a + " " + b; }
    // "struct attrs name { ... }"; the tag is complete afterwards
    std::string tagdef(char kind, int tag, int d, Item &it) {
        it.kind = kind == 's' ? "struct" : kind == 'u' ? "union" : "enum"; it.name = tags[tag].name; it.tag = tag;
        std::string a = attrs(kind == 'e' ? "dnP" : "dPAn", it), body; bool packed = it.attrs.find("packed") == 0 || it.attrs.find(", packed") != std::string::npos;
        if (kind == 'e') {
            U n = r.chance(1, 20) ? 1 + r.below(300) : 1 + r.below(6), style = r.below(6); U v = 0; bool neg = false; U maxp = 0; U minn = 0;
            struct C { std::string n, a; long long v; Item it; }; 
            for (U i = 0; i < n; i++) {
                Item c; c.kind = "constant"; c.name = name("C"); std::string at = attrs("dn", c); std::string t = sp(c.name, at);
                if (r.chance(1, 3)) {
                    long long x = style == 0 ? r.below(100) : style == 1 ? -(long long)r.below(1000) : style == 2 ? r.below(0x7ffffff0) : style == 3 ? 0x80000000ll + r.below(0x70000000) : style == 4 ? (long long)(r.next() >> 2) : -(long long)(r.next() >> 2);
                    v = x; t += " = " + std::to_string(x) + (x > 0x7fffffff || x < -0x7fffffffll ? "ll" : "");
                }
                long long sv = (long long)v; if (sv < 0) { neg = true; minn = std::max(minn, (U)(-(sv + 1))); } else maxp = std::max(maxp, v);
                c.extra = "=" + std::to_string(v); it.kids.push_back(c); body += (body.empty() ? " " : ", ") + t; v++;
            }
            auto bits = [](U x) { int b = 0; while (x) { b++; x >>= 1; } return b; }; int pb = bits(maxp), nb = neg ? bits(minn) + 1 : 0; int w;
            if (neg) { int need = std::max(nb, pb + 1); w = packed && need <= 8 ? 8 : packed && need <= 16 ? 16 : need <= 32 ? 32 : 64; } else w = packed && pb <= 8 ? 8 : packed && pb <= 16 ? 16 : pb <= 32 ? 32 : 64;
            it.extra = "width=" + std::to_string(w); for (auto &c : it.kids) c.type = (neg ? "s" : "u") + std::to_string(w);
            body += " ";
        } else {
            U n = r.chance(1, 24) ? r.below(120) : r.below(7); if (d < 2) n = std::min<U>(n, 4); if (force && !n) n = 1; double outer = msz, outerl = mlf; msz = mlf = 0;
            for (U i = 0; i < n; i++) member(kind, d, body, it, kind == 's' && i + 1 == n && i);
            if (kind == 's' && !it.kids.empty() && ty.size() && flexlast) { tags[tag].flex = true; } flexlast = false;
            tags[tag].size = msz + 256; tags[tag].leaf = mlf + 1; msz = outer; mlf = outerl;
        }
        tags[tag].done = true;
        return sp(sp(it.kind, a), tags[tag].name) + " {" + body + "}";
    }
    bool flexlast = false;
    int newtag(char k, bool named) { TagI t; t.kind = k; if (named) t.name = name(k == 's' ? "S" : k == 'u' ? "U" : "E"); tags.push_back(t); return tags.size() - 1; }
    void field(std::string &body, Item &parent, const std::string &base, int t) {     // one declarator; base empty: type written out
        Item f; f.kind = "field"; f.name = name("f"); std::string at = attrs("dunAP", f); sized(t);
        f.type = canon(t); body += (base.empty() ? sp(decl(t, f.name), at) : sp(base, at)) + "; "; parent.kids.push_back(f);
    }
    // a tag first mentioned in a declarator: declared there, and perhaps completed later
    int fresh(std::vector<Item> &at) { int tg = newtag(r.chance(1, 3) ? 'u' : 's', true); fwd.insert(tg); Item it; it.kind = tags[tg].kind == 's' ? "struct" : "union"; it.name = tags[tg].name; at.push_back(it); return tg; }
    void member(char kind, int d, std::string &body, Item &it, bool last) {
        U k = r.below(20); if (body.empty()) body = " "; bool forced = force != 0; if (forced) force--, k = 10 + r.below(6);
        if (!forced && (k < 10 || d <= 0)) {
            msz += 256;
            if (special && r.chance(1, 8)) {      // bit-field
                static const int bt[] = { 5, 6, 7, 8, 3, 4, 2, 11 }; int b = bt[r.below(8)]; Item f; f.kind = "field"; U w = basics[b].bits == 8 && b == 11 ? 1 : r.below(basics[b].bits + 1); if (w) f.name = name("f"); unsigned q = quals();
                std::string at = w ? attrs("dn", f) : ""; f.type = qtext(q) + basics[b].d; f.extra = "bits=" + std::to_string(w); body += sp(qtext(q) + basics[b].c + " " + f.name + " : " + std::to_string(w), at) + "; "; it.kids.push_back(f); return;
            }
            bool some = false; for (auto &k : it.kids) some |= k.kind == "field" && !k.name.empty();
            if (last && some && r.chance(1, 8)) { Ty t{ 'a' }; t.a = obj(1); t.n = ~0ull; int x = add(t); Item f; f.kind = "field"; f.name = name("f"); f.type = canon(x); body += decl(x, f.name) + "; "; it.kids.push_back(f); flexlast = true; return; }
            if (r.chance(1, 20)) { int tg = fresh(it.kids); int t = add({ 'p', add({ 'g', tg, 0, quals() }) }); field(body, it, "", t); return; }
            int n = r.chance(1, 6) ? 2 + r.below(3) : 1; int t = obj(depth);
            for (int i = 0; i < n; i++) field(body, it, "", t);
            return;
        }
        char tk = k < 13 ? 's' : k < 16 ? 'u' : 'e'; bool anon_member = tk != 'e' && r.chance(1, 3), named = !anon_member && r.chance(1, 2);
        int tg = newtag(tk, named); Item ti; bool fl = flexlast; std::string def = tagdef(tk, tg, d - 1, ti); flexlast = fl; if (tags[tg].flex) { /* only as last member; keep it out of the way */ }
        it.kids.push_back(ti); int t = add({ 'g', tg });
        if (anon_member) { sized(t); Item f; f.kind = "field"; f.type = canon(t); body += def + "; "; it.kids.push_back(f); return; }
        U nd = tk == 'e' && r.chance(1, 3) ? 0 : 1 + r.below(named ? 2 : 3); if (tags[tg].leaf > 3000 && nd > 1) nd = 1; unsigned q = quals(); if (q) { ty[t].q = q; def = qtext(q) + def; }
        if (!nd) { body += def + "; "; return; }
        std::string ds;                        // several declarators share the definition
        for (U i = 0; i < nd; i++) {
            Item f; f.kind = "field"; f.name = name("f"); int x = t; std::string dn = f.name; U w = r.below(5);
            if (w == 0) { x = add({ 'p', t, 0, 0 }); dn = "*" + dn; } else if (w == 1) { Ty a{ 'a' }; a.a = t; a.n = 1 + r.below(5); x = add(a); dn += "[" + std::to_string(a.n) + "]"; }
            sized(x); f.type = canon(x); ds += (i ? ", " : "") + dn; it.kids.push_back(f);
        }
        body += def + " " + ds + "; ";
    }
    void function() {
        Item f; f.kind = "function"; f.name = !mainfn && pfx == "_" && r.chance(1, 20) ? mainfn = true, "main" : name("fn"); std::string at = attrs(r.chance(1, 6) ? "dunl" : "dunUpwi", f), spec; bool st = r.chance(1, 3), in = r.chance(1, 4), nr = r.chance(1, 10), def = r.chance(1, 3);
        bool inl = f.attrs.find("always_inline") != std::string::npos; if (inl) in = st = true; if (in && (inl || !r.chance(1, 3))) st = true; if (f.attrs.find("alias") != std::string::npos) { def = false; st = in = false; }
        if (f.attrs.find("used") == 0 || f.attrs.find(", used") != std::string::npos) def = true;
        int rt = r.chance(1, 4) ? add({ 'b', VOID }) : ret(2); if (f.attrs.find("warn_unused_result") != std::string::npos && ty[rt].k == 'b' && ty[rt].a == VOID) rt = add({ 'b', 5 });
        if (ty[rt].k != 't') ty[rt].q = 0; else if (under(rt) != 'p' && under(rt) != 'b' && under(rt) != 'g') rt = add({ 'b', 5 });
        if (canon(rt).find("const ") == 0 || canon(rt).find("volatile ") == 0 || canon(rt).find("restrict ") == 0) rt = add({ 'b', 5 });   // qualifiers of a result mean nothing
        std::string ps; U n = r.chance(1, 60) ? r.below(300) : r.chance(1, 20) ? r.below(40) : r.below(5); bool vla = false; std::vector<Item> pars;
        Item rp; rp.kind = "param"; rp.extra = "out"; rp.type = canon(rt); pars.push_back(rp);
        for (U i = 0; i < n; i++) {
            Item p; p.kind = "param"; bool unnamed = !def && r.chance(1, 4); std::string pn = unnamed ? "" : name("p"); p.name = pn; int t = obj(2);
            if (under(t) != 'a' && r.chance(1, 5)) { Ty a{ 'a' }; a.a = t; a.n = 1 + r.below(20); if (r.chance(1, 4)) a.mod = "static "; else if (r.chance(1, 4)) a.n = ~0ull; if (r.chance(1, 4)) a.iq = qtext(1 + r.below(7)); if (!complete(t)) a.a = add({ 'b', 5 }); t = add(a); }
            if (i == 0 && r.chance(1, 8) && !unnamed) { t = add({ 'b', 5 }); vla = true; }
            p.type = canon(t); std::string tx = decl(t, pn);
            if (vla && i == 1) { int e = add({ 'b', (int)r.below(12) }); U w = r.below(4); std::string cn = canon(e), in = unnamed ? "" : pn, len = !def && r.chance(1, 3) ? "*" : pars[1].name; 
                if (w == 0) tx = decl(e, in + "[3][" + len + "]"), p.type = "[*][*]" + cn; else if (w == 1) tx = decl(e, "(*" + in + ")[" + len + "]"), p.type = "*[*]" + cn; else if (w == 2) tx = decl(e, in + "[" + len + "][2]"), p.type = "[*][2]" + cn; else tx = decl(e, in + "[" + len + "]"), p.type = "[*]" + cn; }
            ps += (i ? ", " : "") + tx; pars.push_back(p);
        }
        if (n && r.chance(1, 10)) ps += ", ...";
        f.extra = sp(sp(st ? "static" : "global extern", in ? "inline" : ""), nr ? "noreturn" : ""); f.kids = pars;
        std::string s = sp(sp(nr ? (r.chance(1, 2) ? "__attribute__((noreturn))" : "_Noreturn") : "", at), sp(st ? "static" : "", in ? "inline" : "")); s = sp(s, decl(rt, f.name + "(" + (n ? ps : r.chance(1, 2) ? "void" : def ? "" : "void") + ")"));
        top.push_back(f); bool plain = f.attrs.empty() && !nr && !in && !vla;
        if (plain && r.chance(1, 6)) { text += s + ";\n"; top.push_back(f); }      // declared more than once: described each time
        if (!def) text += s + ";\n"; else text += s + " {" + locals() + (nr ? " for (;;) {} " : " __builtin_trap(); ") + "}\n";
    }
    std::string locals() {
        std::string s; U n = r.below(3);
        for (U i = 0; i < n; i++) { std::string l = "loc_" + name("x"); switch (r.below(6)) {
            case 0: s += " struct " + l + " { int a; struct loc_i" + l + " { char b; } c; } " + "v" + l + ";"; break;
            case 1: s += " enum " + l + " { loc_a" + l + ", loc_b" + l + " }; "; break;
            case 2: s += " typedef int " + l + "; " + l + " v" + l + " = 0;"; break;
            case 3: { std::string v = name("lv"); s += " static int " + v + "; extern int lx" + v + "; { static struct loc_s" + v + " { int a; } ly" + v + "; } static _Thread_local long lz" + v + "; auto int la" + v + "; register int lr" + v + "; const char lc" + v + "[] = \"x\";"; break; }
            case 4: s += " { extern int " + l + "(int); union loc_u" + l + " { int a; float b; } *q = 0; }"; break;
            default: s += " for (int i = 0; i < 3; i++) { struct " + l + " { long a[3]; }; (void)sizeof(struct " + l + "); }"; } }
        return s;
    }
    void variable() {
        Item v; v.kind = "field"; v.name = name("v"); std::string at = attrs("duAn", v), st = r.chance(1, 3) ? "static" : r.chance(1, 3) ? "extern" : ""; int t = obj(depth); bool tls = r.chance(1, 8);
        if (st == "extern" && r.chance(1, 4) && under(t) != 'a') { Ty a{ 'a' }; a.a = t; a.n = ~0ull; t = add(a); }
        if (v.attrs.empty() && st != "extern" && special && under(t) == 'b' && r.chance(1, 4)) { U al = 16u << r.below(9); st = sp("_Alignas(" + std::to_string(al) + ")", st); v.attrs = "aligned=" + std::to_string(al * 8); }
        v.extra = sp(tls ? "" : "static", st.size() >= 6 && st.compare(st.size() - 6, 6, "static") == 0 ? "" : "extern"); v.type = canon(t); std::string init; if (st.find("extern") == std::string::npos && under(t) != 'a' && complete(t) && r.chance(1, 4)) init = under(t) == 'g' ? " = { 0 }" : " = 0";
        text += sp(sp(sp(st, tls ? r.chance(1, 2) ? "_Thread_local" : "__thread" : ""), decl(t, v.name)), at) + init + ";\n"; top.push_back(v);
        if (st == "extern" && v.attrs.empty() && r.chance(1, 4)) { text += sp(sp(st, tls ? r.chance(1, 2) ? "_Thread_local" : "__thread" : ""), decl(t, v.name)) + ";\n"; top.push_back(v); }
    }
    void tdef() {
        Item d; d.kind = "typedef"; d.name = name("T"); std::string at = attrs("duAn", d); int t = r.chance(1, 12) ? add({ 'g', fresh(top) }) : any(depth); if (ty[t].k == 'g' && r.chance(1, 2)) t = add({ 'p', t });
        
        d.type = canon(t); text += sp("typedef " + decl(t, d.name), at) + ";\n"; tds.push_back({ d.name, t }); top.push_back(d);
        if (d.attrs.empty() && r.chance(1, 8)) { text += "typedef " + decl(t, d.name) + ";\n"; top.push_back(d); }     // declared once more
    }
    void tag() {
        char k = r.chance(1, 4) ? 'u' : r.chance(1, 3) ? 'e' : 's'; bool reuse = false; int tg = -1;
        if (r.chance(1, 2)) for (size_t i = 0; i < tags.size(); i++) if (!tags[i].done && !tags[i].name.empty() && fwd.count(i)) { tg = i; reuse = true; k = tags[i].kind; }
        U form = r.below(6); bool named = reuse || form != 0;
        if (!reuse) tg = newtag(k, named);
        if (k != 'e' && !reuse && named && r.chance(1, 4)) { forward(tg); if (r.chance(1, 2)) return; }
        Item it; if (nest && k != 'e') { force = r.below(nest); nest = 0; } std::string def = tagdef(k, tg, 2, it); force = 0; top.push_back(it); int t = add({ 'g', tg });
        if (!named && k == 'e' && r.chance(1, 3)) { text += def + ";\n"; return; }             // constants only
        if ((!named || form == 3) && !tags[tg].flex && r.chance(1, 3)) {                        // several declarators behind one definition
            U n = 1 + r.below(4), kind = r.below(3); unsigned q = kind ? 0 : quals(); if (q) ty[t].q = q; std::string ds, cls = kind == 0 ? (r.chance(1, 2) ? "static " : "extern ") : kind == 1 ? "" : "typedef ";
            for (U i = 0; i < n; i++) { Item d; d.kind = kind == 2 ? "typedef" : "field"; d.name = name(kind == 2 ? "T" : "v"); int x = t; U w = r.below(4); if (w == 1) x = add({ 'p', t }); else if (w == 2) { Ty a{ 'a' }; a.a = t; a.n = 1 + r.below(5); x = add(a); }
                d.type = canon(x); if (kind == 2) tds.push_back({ d.name, x }); else d.extra = cls == "static " ? "static" : "static extern"; ds += (i ? ", " : "") + std::string(w == 1 ? "*" : "") + d.name + (w == 2 ? "[" + std::to_string(ty[x].n) + "]" : ""); top.push_back(d); }
            text += cls + qtext(q) + def + " " + ds + ";\n"; return; }
        if (!named || form == 1) { Item d; d.kind = "typedef"; d.name = name("T"); d.type = canon(t); text += "typedef " + def + " " + d.name + ";\n"; tds.push_back({ d.name, t }); top.push_back(d); return; }
        if (form == 2 && !tags[tg].flex) { Item v; v.kind = "field"; v.name = name("v"); v.type = canon(t); Item w; w.kind = "field"; w.name = name("v"); w.type = "*" + canon(t); v.extra = w.extra = "static extern"; text += "extern " + def + " " + v.name + ", *" + w.name + ";\n"; top.push_back(v); top.push_back(w); return; }
        text += def + ";\n";
    }
    std::set<int> fwd;
    void forward(int tg) { fwd.insert(tg); Item it; it.kind = tags[tg].kind == 's' ? "struct" : "union"; it.name = tags[tg].name; text += it.kind + " " + it.name + ";\n"; top.push_back(it); if (r.chance(1, 3)) { Item d; d.kind = "typedef"; d.name = name("T"); int t = add({ 'g', tg }); d.type = canon(t); text += "typedef " + decl(t, d.name) + ";\n"; tds.push_back({ d.name, t }); top.push_back(d); } }
    int va = -1;                              // the structure behind va_list: known to the compiler, declared nowhere
    Item plainfn(const std::string &n, int rt) { Item f; f.kind = "function"; f.name = n; f.extra = "global extern"; Item rp; rp.kind = "param"; rp.extra = "out"; rp.type = canon(rt); f.kids.push_back(rp); return f; }
    void rarer() {
        auto par = [&](Item &f, int t, const std::string &n) { Item p; p.kind = "param"; p.name = n; p.type = canon(t); f.kids.push_back(p); };
        auto scalar = [&] { int t = r.chance(1, 3) ? add({ 'p', any(1) }) : add({ 'b', (int)r.below(NBASIC) }); return t; };
        switch (r.below(5)) {
        case 0: {                             // a tag defined in the result type of a function
            char k = r.chance(1, 3) ? 'u' : r.chance(1, 3) ? 'e' : 's'; int tg = newtag(k, r.chance(2, 3)); Item it; std::string def = tagdef(k, tg, 1, it); top.push_back(it); if (tags[tg].flex) { Item d; d.kind = "typedef"; d.name = name("T"); d.type = canon(add({ 'g', tg })); text += "typedef " + def + " " + d.name + ";\n"; top.push_back(d); return; }
            int t = add({ 'g', tg }); bool ptr = r.chance(1, 2); if (ptr) t = add({ 'p', t }); Item f = plainfn(name("fn"), t); text += def + (ptr ? " *" : " ") + f.name + "(void);\n"; top.push_back(f); break; }
        case 1: {                             // a function type with a name, functions declared through it and pointers to it
            Item d; d.kind = "typedef"; d.name = name("F"); d.type = "void"; int rt = scalar(); std::string ps; Item f = plainfn(name("fn"), rt); U n = r.below(4); for (U i = 0; i < n; i++) { int t = scalar(); ps += (i ? ", " : "") + decl(t, r.chance(1, 2) ? name("p") : ""); par(f, t, ""); }
            text += "typedef " + decl(rt, d.name + "(" + (n ? ps : "void") + ")") + ";\n" + d.name + " " + f.name + ";\n"; top.push_back(d); top.push_back(f);
            if (r.chance(1, 2)) { Item v; v.kind = "field"; v.name = name("v"); v.extra = "static extern"; v.type = "*void"; text += "extern " + d.name + " *" + v.name + ";\n"; top.push_back(v); } break; }
        case 2: {                             // the older form of a definition
            int rt = add({ 'b', 5 }); Item f = plainfn(name("fn"), rt); std::string ids, ds; U n = 1 + r.below(4); for (U i = 0; i < n; i++) { int t = scalar(); std::string pn = name("p"); ids += (i ? ", " : "") + pn; ds += decl(t, pn) + "; "; par(f, t, pn); }
            text += "int " + f.name + "(" + ids + ") " + ds + "{" + locals() + " return 0; }\n"; top.push_back(f); break; }
        case 3: {                             // a tag defined in the size of an array
            Item it; it.kind = "struct"; int tg = newtag('s', true); it.name = tags[tg].name; it.tag = tg; tags[tg].done = true; U n = 1 + r.below(5); std::string b; for (U i = 0; i < n; i++) { Item f; f.kind = "field"; f.name = name("f"); f.type = "s64"; b += "long " + f.name + "; "; it.kids.push_back(f); }
            top.push_back(it); Item v; v.kind = "field"; v.name = name("v"); v.extra = "static extern"; v.type = "[" + std::to_string(8 * n) + "]s8"; text += "extern char " + v.name + "[sizeof(struct " + it.name + " { " + b + "})];\n"; top.push_back(v); break; }
        default: {                            // variable argument lists
            if (va < 0) { TagI t; t.kind = 's'; t.done = true; t.size = 24; t.leaf = 4; tags.push_back(t); va = tags.size() - 1; }
            Ty a{ 'a', add({ 'g', va }), 1 }; int t = add(a); Item d; d.kind = "typedef"; d.name = name("T"); d.type = canon(t); text += "typedef __builtin_va_list " + d.name + ";\n"; tds.push_back({ d.name, t }); top.push_back(d); break; }
        }
    }
    void some(U n) {
        for (U i = 0; i < n; i++) { U k = r.below(15); if (k == 14) { rarer(); continue; } if (k < 6) tag(); else if (k < 8) tdef(); else if (k < 11) function(); else if (k < 13) variable(); else switch (r.below(4)) { case 0: text += ";\n"; break; case 1: text += "_Static_assert(sizeof(int) == 4, \"x\");\n"; break; case 2: text += "#pragma pack()\n/* comment */\n"; break; default: forward(newtag(r.chance(1, 2) ? 's' : 'u', true)); } }
    }
    void finish() { for (size_t i = 0; i < tags.size(); i++) if (fwd.count(i) && !tags[i].done && r.chance(2, 3)) { Item it; std::string d = tagdef(tags[i].kind, i, 2, it); text += d + ";\n"; top.push_back(it); } }
};
// descriptions as lines of text: "path kind name extra : type [attributes]"
void labels(const std::vector<Item> &v, const std::string &p, std::map<int, std::string> &m) { for (size_t i = 0; i < v.size(); i++) { std::string q = p + std::to_string(i); if (v[i].tag >= 0) m[v[i].tag] = q; labels(v[i].kids, q + ".", m); } }
std::string resolve(const std::string &t, const std::map<int, std::string> &m) { size_t a = t.find('<'); if (a == std::string::npos) return t; size_t b = t.find('>', a); auto i = m.find(atoi(t.c_str() + a + 1)); return t.substr(0, a) + (i == m.end() ? "void" : "{" + i->second + "}") + t.substr(b + 1); }
void lines(const std::vector<Item> &v, const std::string &p, const std::map<int, std::string> &m, std::vector<std::string> &out) {
    for (size_t i = 0; i < v.size(); i++) { std::string q = p + std::to_string(i); auto &x = v[i]; out.push_back(q + " " + x.kind + " '" + x.name + "' " + x.extra + (x.type.empty() ? "" : " : " + resolve(x.type, m)) + " [" + x.attrs + "]"); lines(x.kids, q + ".", m, out); }
}
// the same lines from an image
struct Read {
    const Snap &s; std::map<u32, std::string> label; std::vector<std::string> out; bool raw = false;
    Read(const Snap &s) : s(s) {}
    const Node &at(u32 i) { static Node none; return i < s.n.size() ? s.n[i] : none; }
    std::vector<u32> list(u32 i) { std::vector<u32> v; for (; i && i < s.n.size() && v.size() <= s.n.size(); i = s.n[i].next) v.push_back(i); return v; }
    bool local(const Node &n) { return n.name.compare(0, 4, "loc_") == 0; }
    bool holds(const Node &n) { return n.tag == _decl_struct || n.tag == _decl_union || n.tag == _decl_enum || n.tag == _decl_set || n.tag == _decl_function; }
    void mark(u32 first, const std::string &p) { U k = 0; for (u32 i : list(first)) { const Node &n = at(i); if (local(n)) continue; std::string q = p + std::to_string(k++); if (n.tag == _decl_struct || n.tag == _decl_union || n.tag == _decl_enum) { if (label.count(i)) continue; label[i] = q; mark(n.link, q + "."); } } }
    std::string type(u32 i, unsigned q = 0, int d = 0) {
        const Node &n = at(i); if (!i || d > 200) return "nothing"; unsigned nq = q;
        switch (n.tag) {
        case _decl_qualifier: if (!(n.props & (_decl_const | _decl_volatile | _decl_restrict))) return "(qualified by nothing) " + type(n.link, q, d + 1); nq |= (n.props & _decl_const ? Q_C : 0) | (n.props & _decl_volatile ? Q_V : 0) | (n.props & _decl_restrict ? Q_R : 0); return type(n.link, nq, d + 1);
        case _decl_typedef: return type(n.link, q, d + 1);
        case _decl_pointer: return qtext(q) + (n.qty == 64 ? "*" : "*(" + std::to_string(n.qty) + ")") + type(n.link, 0, d + 1);
        case _decl_array: return std::string("[") + (n.props & _decl_static ? "static " : "") + (n.props & _decl_vla ? "*" : n.qty ? std::to_string(n.qty) : "") + "]" + type(n.link, q, d + 1);
        case _decl_intrinsic: { u32 k = n.props & 63; std::string w = std::to_string(n.qty); if (n.name == "void") return qtext(q) + "void"; return qtext(q) + (k == _decl_sint ? "s" : k == _decl_uint ? "u" : k == _decl_float ? "f" : k == _decl_cfloat ? "c" : "?") + w; }
        case _decl_alias: return type(n.link, q, d + 1);
        case _decl_struct: case _decl_union: case _decl_enum: { if (raw) return qtext(q) + "<" + std::to_string(i) + ">"; auto l = label.find(i); return qtext(q) + (l == label.end() ? "{unlisted " + n.name + "}" : "{" + l->second + "}"); }
        default: return std::string("?") + crefl_tag_name(n.tag);
        }
    }
    std::string attrs(u32 a) { std::string o; for (u32 i : list(a)) { const Node &n = at(i); o += o.empty() ? "" : ", "; if (n.tag != _decl_attribute) { o += "?"; continue; } o += n.name; if (n.link) { const Node &v = at(n.link); o += v.tag != _decl_value ? "?" : "=" + (n.name == "aligned" ? std::to_string(v.qty) : v.name); } } return o; }
    struct Head { std::string text, ty; bool kids = false; };
    Head head(u32 i) {
            const Node &n = at(i); std::string ex, ty; bool kids = false;
            switch (n.tag) {
            case _decl_struct: case _decl_union: kids = true; break;
            case _decl_enum: ex = "width=" + std::to_string(n.qty); kids = true; break;
            case _decl_constant: ex = "=" + std::to_string(n.qty); ty = type(n.link); break;
            case _decl_field: ex = n.props & _decl_bitfield ? "bits=" + std::to_string(n.qty) : Gen::sp(n.props & _decl_static ? "static" : "", n.props & _decl_extern_c ? "extern" : ""); ty = type(n.link); break;
            case _decl_typedef: ty = type(n.link); break;
            case _decl_function: ex = Gen::sp(Gen::sp(Gen::sp(Gen::sp(n.props & _decl_static ? "static" : "", n.props & _decl_global ? "global" : ""), n.props & _decl_extern_c ? "extern" : ""), n.props & _decl_inline ? "inline" : ""), n.props & _decl_noreturn ? "noreturn" : ""); kids = true; break;
            case _decl_param: ex = n.props & _decl_out ? "out" : ""; ty = type(n.link); break;
            }
            return { std::string(crefl_tag_name(n.tag)) + " '" + n.name + "' " + ex, ty, kids };
    }
    void walk(u32 first, const std::string &p, int d = 0) {
        U k = 0; for (u32 i : list(first)) {
            const Node &n = at(i); if (local(n)) continue; std::string q = p + std::to_string(k++); Head h = head(i);
            out.push_back(q + " " + h.text + (h.ty.empty() ? "" : " : " + h.ty) + " [" + attrs(n.attr) + "]");
            if (h.kids && d < 100 && out.size() < 1000000) walk(n.link, q + ".", d + 1);
        }
    }
    std::vector<std::string> all(u32 source) { u32 f = at(source).link; mark(f, ""); walk(f, ""); return out; }
};

// an image whose lists may share entries (an archive) against the declarations
struct Match {
    Read r; const Snap &s; std::map<int, const Item *> tags; std::set<std::pair<u32, int>> seen; std::vector<std::pair<u32, int>> todo; std::string why;
    Match(const Snap &s, const std::vector<Item> &top) : r(s), s(s) { r.raw = true; index(top); }
    void index(const std::vector<Item> &v) { for (auto &x : v) { if (x.tag >= 0) tags[x.tag] = &x; index(x.kids); } }
    u32 real(u32 i) { for (int k = 0; k < 100 && r.at(i).tag == _decl_alias; k++) i = r.at(i).link; return i; }
    bool type(const std::string &g, std::string w, const std::string &where) {
        size_t a = w.find('<'); if (a != std::string::npos) { int t = atoi(w.c_str() + a + 1); if (!tags.count(t)) w = w.substr(0, a) + "void" + w.substr(w.find('>', a) + 1), a = std::string::npos;
            else { size_t c = g.find('<'); if (c == a && g.substr(0, a) == w.substr(0, a) && g.substr(g.find('>', c)) == w.substr(w.find('>', a))) { std::pair<u32, int> k{ (u32)atoi(g.c_str() + c + 1), t }; if (seen.insert(k).second) todo.push_back(k); return true; } } }
        if (g != w) { why = where + " has type " + g + ", declared " + w; return false; } return true;
    }
    bool item(u32 i, const Item &x, const std::string &path) {
        i = real(i); const Node &n = r.at(i); Read::Head h = r.head(i); std::string here = path + "." + x.name, g = h.text + " [" + r.attrs(n.attr) + "]", w = x.kind + " '" + x.name + "' " + x.extra + " [" + x.attrs + "]";
        if (g != w) { why = "in " + path + ": " + g + ", declared " + w; return false; }
        if (x.tag >= 0) seen.insert({ i, x.tag });
        return type(h.ty, x.type, here) && list(n.link, h.kids, x.kids, here);
    }
    bool list(u32 first, bool kids, const std::vector<Item> &v, const std::string &path) {
        std::vector<u32> l; if (kids) for (u32 i : r.list(first)) if (!r.local(r.at(i))) l.push_back(i);
        for (size_t k = 0; k < std::max(l.size(), v.size()); k++) { if (k >= l.size() || k >= v.size()) { why = path + ": " + std::to_string(l.size()) + " entries, declared " + std::to_string(v.size()); return false; } if (!item(l[k], v[k], path)) return false; }
        return true;
    }
    bool source(u32 i, const std::vector<Item> &v) { if (!list(r.at(i).link, true, v, "")) return false; while (!todo.empty()) { auto k = todo.back(); todo.pop_back(); if (!item(k.first, *tags[k.second], "type")) return false; } return true; }
};

// ---------------------------------------------------------------- the simulated compiles
struct Tu { std::string name, text; std::vector<std::string> want; std::vector<Item> top; std::vector<HostDecl> host; Bytes ref; bool have_ref = false, usable = false; U n = 0; int va = -1; };
struct Rw : Host {
    Snap builtins; size_t bnames = 0; Proc *ref = nullptr; std::vector<Tu> tu; char mode;
    bool complete(const Bytes &b, Snap &s) { std::string e; return decode(b, builtins, bnames, s, e) && s.n.size() > s.builtin; }
};
struct Job { Tu *tu; std::vector<std::string> args; std::string out; bool usage = false, dump = false; };
Outcome compile(Rw &w, Proc *p, const Job &j, std::string &text) {
    int rc = 0; Outcome o = call([&] { rc = host_compile("/src/" + j.tu->name, j.tu->text, j.args); }, p);
    if (o.st == T_DONE) { o.st = T_EXITED; o.code = rc; } else host_abandon();
    text = o.st == T_CRASHED ? "" : proc_flush_stdout(p);
    event("compile p%d st=%d code=%d faults=%llu out=%zu", proc_id(p), o.st, o.code, (unsigned long long)proc_fault_count(p), text.size()); mixlog(text.data(), text.size());
    return o;
}
// widths and offsets of everything the image declares, against the compiler's own
void layout(Rw &w, decl_db *db, decl_ref src, const Tu &t, const char *when) {
    struct L { decl_ref d; const std::vector<HostDecl> *h; };
    std::function<void(decl_ref, const std::vector<HostDecl> &, const std::string &)> go = [&](decl_ref first, const std::vector<HostDecl> &h, const std::string &path) {
        size_t k = 0; decl_ref d = first;
        for (; crefl_decl_idx(d); d = crefl_decl_next(d)) {
            const char *nm = crefl_decl_name(d); if (!strncmp(nm, "loc_", 4)) continue; decl_ref entry = d; struct Restore { decl_ref &d, e; ~Restore() { d = e; } } restore{ d, entry };
            for (int i = 0; i < 100 && crefl_decl_tag(d) == _decl_alias; i++) d = crefl_decl_link(d);
            if (k >= h.size()) violation("listing", "%s: %s: more declarations at %s than the compiler knows", when, t.name.c_str(), path.c_str());
            const HostDecl &x = h[k++]; std::string here = path + " " + x.name; decl_tag tg = crefl_decl_tag(d);
            char kc = tg == _decl_struct ? 's' : tg == _decl_union ? 'u' : tg == _decl_enum ? 'e' : tg == _decl_field ? 'f' : tg == _decl_typedef ? 't' : tg == _decl_function ? 'p' : '?';
            if (kc != x.kind || x.name != (crefl_decl_has_name(d) ? nm : "")) violation("listing", "%s: %s: %s '%s' where the compiler declares %c '%s'", when, t.name.c_str(), crefl_tag_name(tg), nm, x.kind, x.name.c_str());
            if (x.plain) { size_t v = crefl_type_width(d); if (v != x.width) violation("width", "%s: %s: %s%s has width %zu, the compiler gives it %llu", when, t.name.c_str(), crefl_tag_name(tg), here.c_str(), v, (unsigned long long)x.width); probe("widths compared"); }
            if ((kc == 's' || kc == 'u') && x.defined) {
                if (kc == 's' && x.plain) {
                    size_t n = 0; crefl_struct_fields_offsets(d, nullptr, nullptr, &n); decl_ref *r = (decl_ref *)malloc((n + 1) * sizeof(decl_ref)); size_t *o = (size_t *)malloc((n + 1) * sizeof(size_t)); size_t m = n; crefl_struct_fields_offsets(d, r, o, &m);
                    size_t i = 0; for (auto &f : x.members) if (f.kind == 'f') { if (i >= m || o[i] != f.offset) violation("offset", "%s: %s: field %s of %s is at bit %zu, the compiler puts it at %llu", when, t.name.c_str(), f.name.c_str(), here.c_str(), i < m ? o[i] : (size_t)-1, (unsigned long long)f.offset); probe("offsets compared"); i++; }
                    if (i != (n ? n - 1 : 0)) violation("offset", "%s: %s: %s lists %zu fields, the compiler has %zu", when, t.name.c_str(), here.c_str(), n ? n - 1 : 0, i);
                    if (n && (m != n || o[n - 1] != x.width)) violation("offset", "%s: %s: %s ends at bit %zu, the compiler ends it at %llu", when, t.name.c_str(), here.c_str(), o[n - 1], (unsigned long long)x.width);
                    free(r); free(o);
                }
                if (x.plain) { size_t v = kc == 's' ? crefl_struct_width(d) : crefl_union_width(d); if (v != x.width) violation("width", "%s: %s: %s width %zu, compiler %llu", when, t.name.c_str(), here.c_str(), v, (unsigned long long)x.width); }
                go(crefl_lookup(db, crefl_decl_ptr(d)->_link), x.members, here);
            }
        }
        if (k != h.size()) violation("listing", "%s: %s: %zu declarations at %s, the compiler knows %zu", when, t.name.c_str(), k, path.c_str(), h.size());
    };
    go(crefl_lookup(db, crefl_decl_ptr(src)->_link), t.host, "");
}
void describe(Rw &w, const Bytes &img, u32 want_root, const Tu &t, const Snap *pre, u32 src, const char *when) {
    Snap own; const Snap *s = pre; if (!s) { REQUIRE(w.complete(img, own), "incomplete", "%s: the file is not a complete image", when); s = &own; src = own.root; }
    REQUIRE(src < s->n.size() && s->n[src].tag == _decl_source, "root", "%s: the root is not a source", when);
    REQUIRE(s->n[src].name == t.name, "root", "%s: the source is called '%s', not '%s'", when, s->n[src].name.c_str(), t.name.c_str());
    Item val; if (t.va >= 0) { val.kind = "struct"; val.name = "__va_list_tag"; val.tag = t.va; static const char *fn[] = { "gp_offset", "fp_offset", "overflow_arg_area", "reg_save_area" }; for (int i = 0; i < 4; i++) { Item f; f.kind = "field"; f.name = fn[i]; f.type = i < 2 ? "u32" : "*void"; val.kids.push_back(f); } }
    if (pre) { Match m(*s, t.top); if (t.va >= 0) m.tags[t.va] = &val; bool ok = m.source(src, t.top); REQUIRE(ok, "description", "%s: %s: %.400s", when, t.name.c_str(), m.why.c_str()); probe("declarations compared", t.want.size()); return; }
    Read r(*s); auto got = r.all(src); probe("declarations compared", t.want.size());
    for (size_t i = 0; i < std::max(got.size(), t.want.size()); i++) { std::string a = i < got.size() ? got[i] : "(nothing)", b = i < t.want.size() ? t.want[i] : "(nothing)"; if (a != b) vlog(("GOT  " + a + "\nWANT " + b + "\n").c_str()); if (a != b) violation("description", "%s: %s is described as: %.300s -- but declares: %.300s", when, t.name.c_str(), a.c_str(), b.c_str()); }
}
void judge(Rw &w, const Job &j, Proc *p, const Outcome &o, U faults, const std::string &text, bool again) {
    char what[200]; snprintf(what, sizeof what, "compiling %s%s", j.tu->name.c_str(), again ? " again" : ""); op_done();
    if (o.st == T_CRASHED) { REQUIRE(o.injected, "crash", "%s crashed: %s", what, o.why.c_str()); probe("compiles killed"); return; }
    if (j.usage) { REQUIRE(o.code != 0, "false-success", "wrong plug-in arguments are accepted"); probe("wrong arguments refused"); return; }
    if (o.code != 0) { REQUIRE(faults, "spurious-failure", "%s failed (exit %d) although nothing went wrong", what, o.code); probe("compiles failed under fault"); return; }
    probe(faults ? "compiles succeeded despite a fault" : "compiles succeeded");
    Bytes got = j.tu->ref;
    if (!j.out.empty()) {
        REQUIRE(vfs_exists(j.out), "missing-output", "%s reported success but left no output", what);
        got = vfs_get(j.out); mixlog(got.data(), got.size());
        REQUIRE(got == j.tu->ref, "wrong-output", "%s reported success but wrote %zu bytes that an undisturbed run does not write (%zu)", what, got.size(), j.tu->ref.size());
        if (w.mode == 'F') { Snap s; REQUIRE(w.complete(got, s), "incomplete", "%s reported success but the file is not a complete image", what); }
        if (w.mode == 'D') describe(w, got, 0, *j.tu, nullptr, 0, what);
    }
    if (j.dump) { std::string want; proc_flush_stdout(w.ref); proc_stdout_clear(w.ref); Outcome x = call([&] { decl_db *d = crefl_db_new(); crefl_db_read_mem(d, got.data(), got.size()); crefl_db_dump(d); crefl_db_destroy(d); }, w.ref); want = proc_flush_stdout(w.ref); REQUIRE(x.st == T_DONE && want == text, "listing", "%s with -dump printed %zu bytes; the listing of its metadata has %zu", what, text.size(), want.size()); }
}
void run_refl(const Plan &p) {
    Rw w; w.mode = p.check == "C27" ? 'F' : p.check == "C31" ? 'L' : 'D'; w.boot(); w.ref = proc_calm(proc_new()); set_budget(400000000);
    call([&] { decl_db *d = crefl_db_new(); crefl_db_defaults(d); w.builtins = snap(d); w.bnames = d->name_builtin; crefl_db_destroy(d); }, w.ref);
    for (auto &l : p.lines) if (l.verb == "tu") {
        Tu t; t.name = "unit" + std::to_string(w.tu.size()) + ".c"; if (U nl = l.num("name")) { Rng nr(nl); std::string x = nr.chance(1, 3) ? "a.b" : nr.chance(1, 3) ? "with space" : ""; x += std::string(nr.pow2ish(210), 'a' + nr.below(26)); t.name = x + t.name; } Gen g(l.num("hseed")); g.special = l.num("special", 1); g.depth = l.num("depth", 3); g.wide = l.num("wide");  g.pfx = "h"; g.text = "void target_fn(void) {}\n"; { Item f; f.kind = "function"; f.name = "target_fn"; f.extra = "global extern"; Item rp; rp.kind = "param"; rp.extra = "out"; rp.type = "void"; f.kids.push_back(rp); g.top.push_back(f); }
        g.some(l.num("hn")); g.r = Rng(l.num("seed")); g.pfx = "_"; g.nest = l.num("nest"); g.some(l.num("n")); g.finish(); t.text = g.text; t.n = g.top.size();
        std::map<int, std::string> m; labels(g.top, "", m); t.va = g.va; if (g.va >= 0) m[g.va] = "unlisted __va_list_tag"; lines(g.top, "", m, t.want); t.top = g.top;
        std::string err; t.usable = host_layout("/src/" + t.name, t.text, t.host, err); if (!t.usable) { probe("generated sources the compiler refuses"); vlog(("REFUSED " + err + "\n").c_str()); }
        vlog(("---- " + t.name + "\n" + t.text + "----\n").c_str());
        w.tu.push_back(t);
    }
    if (w.tu.empty()) return;
    auto refbytes = [&](Tu &t) { if (t.have_ref) return; Job j{ &t, { "-o", "/sim/ref.refl" }, "/sim/ref.refl" }; std::string tx; faults_enable(false, w.ref); Outcome o = compile(w, w.ref, j, tx); REQUIRE(o.st == T_EXITED, "crash", "compiling %s crashed: %s", t.name.c_str(), o.why.c_str()); REQUIRE(o.code == 0 && vfs_exists("/sim/ref.refl"), "spurious-failure", "compiling %s failed (exit %d) although nothing went wrong", t.name.c_str(), o.code); t.ref = vfs_get("/sim/ref.refl"); vfs_remove("/sim/ref.refl"); faults_enable(true, w.ref); t.have_ref = true; };
    for (auto &t : w.tu) if (t.usable) refbytes(t);
    Proc *last = nullptr; bool mute = false; std::map<std::string, Tu *> made; std::set<std::string> left;
    for (auto &l : p.lines) {
        if (l.verb == "room") { U used = 0; for (auto &f : vfs_list()) used += vfs_get(f).size(); vfs_capacity(l.num("bytes") ? used + l.num("bytes") - 1 : ~0ull); }
        if (l.verb == "cc") {
            Tu &t = w.tu[l.num("tu") % w.tu.size()]; if (!t.usable) continue; 
            Job j{ &t }; U a = l.num("args"); std::string o = "/sim/o" + std::to_string(l.num("out") % 3) + ".refl";
            switch (a % 12) {
            case 0: j.args = { "-o" }; j.usage = true; break;
            case 1: j.args = { "-o", o, "-unknown" }; j.usage = true; break;
            case 2: j.args = { "-out", o }; j.usage = true; break;
            case 3: j.args = {}; j.usage = true; break;
            case 4: j.args = { "-dump" }; j.dump = true; break;
            case 5: j.args = { "-dump", "-o", o }; j.out = o; j.dump = true; break;
            case 6: j.args = { "-debug", "-o", o }; j.out = o; break;
            case 7: j.args = { "-debug", "-dump", "-o", o }; j.out = o; break;
            case 8: j.args = { "-o", o, "-dump" }; j.out = o; j.dump = true; break;
            default: j.args = { "-o", o }; j.out = o; }
            if (!j.out.empty()) made.erase(j.out); std::map<std::string, Bytes> before; for (auto &f : vfs_list()) before[f] = vfs_get(f);
            if (!last || !l.num("same") || mute) { last = proc_new(); mute = false; }
            proc_flush_stdout(last); proc_stdout_clear(last); U f0 = proc_fault_count(last); std::string text; Outcome oc = compile(w, last, j, text); U nf = proc_fault_count(last) - f0; if (nf || oc.st == T_CRASHED || oc.code) mute = true;
            judge(w, j, last, oc, nf, text, false);
            bool dist = nf || oc.st == T_CRASHED;      // an interrupted compile may leave a temporary file
            for (auto &f : vfs_list()) if (dist && f != j.out && !before.count(f)) left.insert(f);
            for (auto &e : before) if (e.first != j.out && !left.count(e.first)) REQUIRE(vfs_exists(e.first) && vfs_get(e.first) == e.second, "stray-write", "a compile touched %s, which is not its output", e.first.c_str());
            for (auto &f : vfs_list()) if (f != j.out && !left.count(f)) REQUIRE(before.count(f), "stray-write", "a compile created %s, which is not its output", f.c_str());
            bool ok = oc.st == T_EXITED && oc.code == 0;
            if (!ok && !j.usage) { vfs_capacity(~0ull); Proc *q = proc_new(); faults_enable(false, q); Outcome o2 = compile(w, q, j, text); judge(w, j, q, o2, 0, text, true); if (o2.st == T_CRASHED) for (auto &f : vfs_list()) if (f != j.out && !before.count(f)) left.insert(f); proc_end(q); ok = o2.st == T_EXITED && o2.code == 0; probe("interrupted compiles repeated"); faults_enable(true, q); }
            if (ok && !j.out.empty()) made[j.out] = &t;
        }
        if (l.verb == "look" && !made.empty()) {      // a later process uses the files: alone and merged
            vfs_capacity(~0ull); std::vector<std::pair<std::string, Tu *>> in(made.begin(), made.end()); U want = l.num("merge"); Proc *q = proc_new(); faults_enable(false, q); Bytes lib; bool merged = false; std::string err;
            Outcome o = call([&] {
                std::vector<decl_db *> v; for (auto &e : in) { decl_db *d = crefl_db_new(); int x = crefl_db_read_file(d, e.first.c_str()); if (x != 0) violation("unreadable", "%s cannot be loaded", e.first.c_str()); if (w.mode == 'L') layout(w, d, crefl_root(d), *e.second, "loaded"); v.push_back(d); }
                if (want) { decl_db *out = crefl_db_new(); int x = crefl_link_merge(out, "lib", v.data(), v.size()); if (x < 0) violation("merge", "merging compiled sources failed"); lib.resize(crefl_db_size(out)); crefl_db_write_mem(out, lib.data(), lib.size()); merged = true;
                    if (w.mode == 'L') { size_t n = 0; crefl_archive_sources(crefl_root(out), nullptr, &n); decl_ref *r = (decl_ref *)malloc((n + 1) * sizeof(decl_ref)); crefl_archive_sources(crefl_root(out), r, &n); if (n != in.size()) violation("merge", "%zu sources in the archive, %zu were merged", n, in.size()); for (size_t i = 0; i < n; i++) layout(w, out, r[i], *in[i].second, "merged"); free(r); }
                    crefl_db_destroy(out); }
                for (auto d : v) crefl_db_destroy(d);
            }, q);
            if (o.st == T_CRASHED && o.injected) { proc_end(q); continue; }
            REQUIRE(o.st == T_DONE, "crash", "using compiled files crashed: %s", o.why.c_str()); op_done();
            if (merged && w.mode == 'D') { Snap s; REQUIRE(w.complete(lib, s), "merge", "the merged archive is not complete"); auto ch = children(s, s.root); REQUIRE(ch.size() == in.size(), "merge", "%zu sources in the archive, %zu were merged", ch.size(), in.size()); for (size_t i = 0; i < in.size(); i++) describe(w, lib, 0, *in[i].second, &s, ch[i], "merged"); }
            if (merged) probe("merges of compiled sources"); proc_end(q); faults_enable(true, q);
        }
    }
}
void gen_refl(Rng &r, Plan &p, bool th) {
    gen_mem(r, p); char mode = p.check == "C27" ? 'F' : p.check == "C31" ? 'L' : 'D'; U nt = 1 + r.below(3), hs = r.next();
    for (U i = 0; i < nt; i++) p.add("tu").set("hseed", hs).set("seed", r.next()).set("hn", r.below(5)).set("n", r.chance(1, 40) ? r.below(th ? 400 : 150) : r.below(mode == 'F' ? 6 : 9)).set("depth", 1 + r.below(4)).set("special", mode == 'L' ? r.chance(1, 4) : 1), r.chance(1, 6) ? (void)p.lines.back().set("name", 1 + r.below(100000)) : (void)0, r.chance(1, 4) ? (void)p.lines.back().set("wide", 1) : (void)0, r.chance(1, 8) ? (void)p.lines.back().set("nest", 2 + r.below(45)) : (void)0;
    if (r.chance(1, 2)) { U h = p.lines[1].num("hn"); for (auto &l : p.lines) if (l.verb == "tu") l.set("hn", h); }
    U nc = 1 + r.below(4); bool bad = mode == 'F' ? r.chance(4, 5) : r.chance(1, 6);
    for (U i = 0; i < nc; i++) {
        if (bad && r.chance(1, 6)) p.add("room").set("bytes", 1 + r.pow2ish(6000));
        p.add("cc").set("tu", r.below(nt)).set("out", r.below(3)).set("same", r.chance(1, 2)).set("args", mode == 'F' ? r.below(r.chance(1, 3) ? 7 : 24) : 5 + r.below(12));
        if (r.chance(1, 5)) p.add("room").set("bytes", (U)0);
        if (mode != 'F' ? r.chance(1, 2) : r.chance(1, 5)) p.add("look").set("merge", r.chance(1, 2));
    }
    if (mode != 'F') p.add("look").set("merge", r.chance(2, 3));
    if (bad) { U nf = 1 + r.below(3); for (U i = 0; i < nf; i++) gen_fault(r, p, 2 + r.below(nc), F_OPEN | F_WRITE | F_CLOSE | F_CRASH | F_SHORT | F_WRITE); if (r.chance(1, 3)) gen_fault(r, p, 2 + r.below(nc), F_META); if (r.chance(1, 4)) p.add("kill").set("at", r.pow2ish(60000)).set("proc", 2 + r.below(nc)); }
    if (mode == 'F' && r.chance(1, 5)) gen_fault(r, p, 2 + r.below(nc), F_CONS);
}
Register r27("C27", gen_refl, run_refl), r30("C30", gen_refl, run_refl), r31("C31", gen_refl, run_refl);
}
