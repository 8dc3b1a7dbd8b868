/* C22: hashmap against std::map, over operation sequences with colliding hashes */
#include "vp.h"
#include <crefl/hashmap.h>
#include <memory>
using namespace vp;
typedef unsigned long long ull;

static int g_mode;
struct Hash { size_t operator()(uint64_t k) const { switch (g_mode) { case 0: return (size_t)mix(k); case 1: return k; case 2: return k & 3; case 3: return 7; case 4: return k << 4; default: return ~(size_t)k; } } };
struct Hash32 { size_t operator()(uint32_t k) const { return Hash()(k); } };
struct Key16 { uint64_t v[2]; Key16() {} Key16(uint64_t a) { v[0] = a; v[1] = ~a; } bool operator==(const Key16 &o) const { return v[0] == o.v[0] && v[1] == o.v[1]; } bool operator<(const Key16 &o) const { return v[0] < o.v[0]; } };
struct Hash16 { size_t operator()(const Key16 &k) const { return Hash()(k.v[0]); } };

/* keys and values like those of the linker: a digest, and a reference of two words */
struct Digest { uint8_t b[28]; Digest() {} Digest(uint64_t a) { for (size_t i = 0; i < sizeof b; i++) b[i] = (uint8_t)(i < 8 ? a >> (8 * i) : a * 7 + i); } bool operator==(const Digest &o) const { return !memcmp(b, o.b, sizeof b); } bool operator<(const Digest &o) const { return memcmp(b, o.b, sizeof b) < 0; } };
struct HashD { size_t operator()(const Digest &k) const { uint64_t v; memcpy(&v, k.b, 8); return Hash()(v); } };
struct Ref { void *p; size_t i; Ref() : p(nullptr), i(0) {} Ref(uint64_t a) : p((void *)(a ? ~a : 0)), i(a) {} bool operator==(const Ref &o) const { return p == o.p && i == o.i; } bool operator!=(const Ref &o) const { return !(*this == o); } explicit operator ull() const { return i; } Ref operator+(int k) const { return Ref(i + k); } };
/* keys of which eight at a time are equal */
struct Hash8 { size_t operator()(uint64_t k) const { return Hash()(k >> 3); } };
struct Eq8 { bool operator()(uint64_t a, uint64_t b) const { return a >> 3 == b >> 3; } };
struct Less8 { bool operator()(uint64_t a, uint64_t b) const { return a >> 3 < b >> 3; } };

template <typename K, typename V, typename H, typename P = std::equal_to<K>, typename C = std::less<K>> struct Run
{
    typedef hashmap<K, V, H, P> M; typedef std::map<K, V, C> R;
    static ull kn(const K &k) { ull u = 0; memcpy(&u, &k, sizeof k < 8 ? sizeof k : 8); return u; }

    static void check(Case &c, M &m, const R &r, const char *after, bool full)
    {
        VP_CHECK(m.size() == r.size(), "after %s: size %zu, expected %zu", after, (size_t)m.size(), r.size());
        VP_CHECK(m.capacity() >= r.size(), "after %s: capacity below size", after);
        if (!full) return;
        std::set<K, C> seen; size_t n = 0;
        for (auto it = m.begin(); it != m.end(); ++it) {
            VP_CHECK(++n <= r.size(), "after %s: iteration visits more than the %zu entries", after, r.size());
            K k = it->first; auto j = r.find(k);
            VP_CHECK(j != r.end(), "after %s: iteration visits key %llu, which is not in the map", after, kn(k));
            VP_CHECK(seen.insert(k).second, "after %s: iteration visits key %llu twice", after, kn(k));
            VP_CHECK((*it).second == j->second, "after %s: iteration gives key %llu the value %llu, expected %llu", after, kn(k), (ull)it->second, (ull)j->second);
        }
        VP_CHECK(n == r.size(), "after %s: iteration visits %zu of %zu entries", after, n, r.size());
        for (auto &e : r) { auto it = m.find(e.first); VP_CHECK(it != m.end() && P()(it->first, e.first) && it->second == e.second, "after %s: key %llu not found or with the wrong value", after, kn(e.first)); }
        VP_CHECK((m.begin() == m.end()) == r.empty(), "after %s: begin() == end() is %d with %zu entries", after, (int)(m.begin() == m.end()), r.size());
    }
    static void go(Case &c)
    {
        g_mode = (int)c.draw(5);
        size_t nk = 1 + c.size(400), ops = 1 + c.size(300), maps = 1 + c.draw(2);
        std::vector<std::unique_ptr<M>> m; std::vector<R> r(maps);
        size_t init = 1ull << c.draw(7); bool def = c.flip();
        for (size_t i = 0; i < maps; i++) m.emplace_back(def ? new M() : new M(init));
        uint64_t fp = mix(g_mode * 1000 + nk); size_t era = 0, maxsz = 0; bool grew = false; std::string log;
        unsigned wi = 1 + c.draw(5), we = c.draw(5);                       /* insertion and erasure weight */
        auto key = [&]() -> K { uint64_t k = c.draw(nk - 1); if (c.chance(1, 20)) k = c.interesting() & 0xffffffff; return K(k); };
        for (size_t o = 0; o < ops; o++) {
            size_t a = c.draw(maps - 1); M &h = *m[a]; R &f = r[a]; char what[128]; bool full = c.chance(1, 4) || o + 1 == ops;
            unsigned op = c.draw(wi + we + 5); uint64_t v = 0;
            if (op < wi) {
                K k = key(); v = 1 + c.draw(1000000); size_t cap = h.capacity(); typename M::iterator it = h.end();
                switch (c.draw(3)) {
                case 0: it = h.insert(k, (V)v); break;
                case 1: it = h.insert(typename M::value_type(k, (V)v)); break;
                case 2: it = h.insert(h.begin(), typename M::value_type(k, (V)v)); break;
                default: { h[k] = (V)v; it = h.find(k); }
                }
                f[k] = (V)v; snprintf(what, sizeof what, "map %zu insert %llu", a, kn(k)); grew |= h.capacity() != cap;
                VP_CHECK(it != h.end() && P()(it->first, k) && it->second == (V)v, "%s: the iterator returned points at another entry", what); fp = mix(fp ^ kn(k));
            } else if (op < wi + we) {
                K k = key(); if (f.count(k)) era++; h.erase(k); f.erase(k); snprintf(what, sizeof what, "map %zu erase %llu", a, kn(k)); VP_CHECK(h.find(k) == h.end(), "%s: the key is still found", what); fp = mix(fp ^ ~kn(k));
            } else switch (op - wi - we) {
            case 0: { K k = key(); auto it = h.find(k); auto j = f.find(k); snprintf(what, sizeof what, "map %zu find %llu", a, kn(k)); VP_CHECK((it == h.end()) == (j == f.end()), "%s: found %d, expected %d", what, (int)(it != h.end()), (int)(j != f.end())); if (j != f.end()) VP_CHECK(it->second == j->second, "%s: value %llu, expected %llu", what, (ull)it->second, (ull)j->second); break; }
            case 1: { K k = key(); size_t cap = h.capacity(); V &x = h[k]; grew |= h.capacity() != cap; V y = f[k]; snprintf(what, sizeof what, "map %zu [%llu]", a, kn(k)); VP_CHECK(x == y, "%s: value %llu, expected %llu", what, (ull)x, (ull)y); x = (V)(y + 1); f[k] = (V)(y + 1); break; }
            case 2: if (!c.chance(1, 6)) { snprintf(what, sizeof what, "nothing"); break; } h.clear(); f.clear(); snprintf(what, sizeof what, "map %zu clear", a); full = true; break;
            case 3: { size_t b = c.draw(maps - 1); snprintf(what, sizeof what, "map %zu = map %zu", a, b); M &s = *m[b]; h = s; f = R(r[b]); full = true; break; }
            case 4: { size_t b = c.draw(maps - 1); full = true;
                if (c.flip()) { snprintf(what, sizeof what, "map %zu copied", a); std::unique_ptr<M> n(new M(h)); check(c, h, f, what, true); m[a].swap(n); if (c.flip()) { K k = key(); n->erase(k); (*n)[K(nk + 5)] = 3; } }
                else if (a != b) { snprintf(what, sizeof what, "map %zu = move(map %zu)", a, b); h = std::move(*m[b]); f = r[b]; r[b].clear(); if (c.flip()) { m[b].reset(new M(init)); } else check(c, *m[b], r[b], "being moved from", true); }
                else if (c.flip()) { snprintf(what, sizeof what, "map %zu swapped with a copy of one", a); std::unique_ptr<M> n(new M(8)); (*n)[K(1)] = V(5); n->swap(h); m[a]->swap(*n); check(c, h, f, what, true); R one; one[K(1)] = V(5); check(c, *n, one, what, true); }
                else { snprintf(what, sizeof what, "map %zu moved", a); std::unique_ptr<M> n(new M(std::move(h))); m[a].swap(n); n.reset(); }
                break; }
            default: { size_t b = c.draw(maps - 1); snprintf(what, sizeof what, "map %zu == map %zu", a, b); bool e = h == *m[b], n = h != *m[b], x = f.size() == r[b].size(); for (auto &y : f) { auto z = r[b].find(y.first); x = x && z != r[b].end() && z->second == y.second; } VP_CHECK(e == x && n == !x, "%s: equality %d, expected %d", what, (int)e, (int)x); break; }
            }
            if (c.verbose) { log += what; log += "; "; if (log.size() > 1500) log.erase(0, 500); }
            maxsz = std::max(maxsz, f.size());
            check(c, *m[a], r[a], what, full);
        }
        for (size_t i = 0; i < maps; i++) check(c, *m[i], r[i], "the last operation", true);
        c.note("%zu maps, hash %d, initial size %zu, %zu keys: %s", maps, g_mode, def ? 16 : init, nk, log.c_str());
        if (ops > 3 && (era || maxsz > 1)) c.nontrivial(fp);
        if (era) c.label("with erasures"); if (grew) c.label("with growth"); if (era && grew) c.label("erasures and growth"); if (g_mode == 2 || g_mode == 3) c.label("colliding hashes");
    }
};
VP_PROP(u64_map, 40000, 1200000) { Run<uint64_t, uint64_t, Hash>::go(c); }
VP_PROP(u32_map, 25000, 800000) { Run<uint32_t, uint32_t, Hash32>::go(c); }
VP_PROP(wide_key_map, 25000, 800000) { Run<Key16, uint64_t, Hash16>::go(c); }
VP_PROP(digest_map, 25000, 800000) { Run<Digest, Ref, HashD>::go(c); }
VP_PROP(byte_map, 15000, 500000) { Run<uint8_t, uint8_t, Hash32>::go(c); }
VP_PROP(own_equality_map, 25000, 800000) { Run<uint64_t, uint32_t, Hash8, Eq8, Less8>::go(c); }
