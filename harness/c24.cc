/* C24: OID descriptions against data/oids.txt, the list the table was made from */
#include "codec.h"
#include <crefl/oid.h>
using namespace vp;

static std::map<std::string, std::set<std::string>> table;
static std::vector<std::string> keys;
static void load()
{
    if (!table.empty()) return;
    FILE *f = fopen("/repo/data/oids.txt", "r");
    if (!f) { fprintf(stderr, "no OID list\n"); abort(); }
    char l[4096];
    while (fgets(l, sizeof l, f)) {
        char *eq = strchr(l, '='); if (!eq || strncmp(l, "OBJ_", 4)) continue;
        std::string name(l + 4, eq), oid;
        for (char *p = eq; (p = strstr(p, "\\x")); p += 2) oid += (char)strtoul(std::string(p + 2, 2).c_str(), nullptr, 16);
        table[oid].insert(name);
    }
    fclose(f);
    for (auto &e : table) keys.push_back(e.first);
    if (keys.size() < 500) abort();
}
static void probe(const std::string &o)
{
    char *p = (char *)malloc(o.size()); memcpy(p, o.data(), o.size());
    const char *r = crefl_asn1_oid_desc(p, o.size());
    std::string d = r ? r : "(null)"; bool mod = memcmp(p, o.data(), o.size()) != 0;
    free(p);
    std::string d2 = r ? r : "(null)";
    VP_CHECK(!mod, "input octets changed");
    VP_CHECK(d == d2, "description depends on the caller's octets after the call");
    auto it = table.find(o);
    if (it == table.end()) VP_CHECK(d.empty(), "%s is not in the list but has description \"%s\"", hex(o.data(), o.size()).c_str(), d.c_str());
    else VP_CHECK(it->second.count(d), "%s is \"%s\" in the list but has description \"%s\"", hex(o.data(), o.size()).c_str(), it->second.begin()->c_str(), d.c_str());
}

/* every listed OID, each of its prefixes, one-octet extensions and single bit neighbours */
VP_PROP(all_entries, 1, 1)
{
    load();
    probe("");
    for (int b = 0; b < 256; b++) { probe(std::string(1, (char)b)); for (int k = 0; k < 256; k++) { std::string s(2, (char)b); s[1] = (char)k; probe(s); } }
    for (auto &k : keys) probe(k);
    for (auto &k : keys) {
        for (size_t n = 0; n <= k.size(); n++) probe(k.substr(0, n));
        for (int b = 0; b < 256; b++) probe(k + (char)b);
        for (size_t i = 0; i < k.size() * 8; i++) { std::string s = k; s[i / 8] ^= 1 << (i % 8); probe(s); }
        std::string s = k; while (s.size() < 24) { s += '\0'; probe(s); }
    }
    c.note("%zu listed OIDs with prefixes, extensions and bit neighbours", keys.size());
    c.nontrivial();
}
static std::string gen(Case &c)
{
    std::string o;
    switch (c.below(8)) {
    case 0: { Bytes b = c.bytes(c.size(24)); o.assign(b.begin(), b.end()); break; }
    default: o = c.pick(keys);
    }
    unsigned n = c.below(4);
    for (unsigned i = 0; i < n; i++) switch (c.below(8)) {
    case 0: o += (char)c.byte(); break;
    case 1: if (!o.empty()) o.pop_back(); break;
    case 2: if (!o.empty()) o[c.below(o.size())] = (char)c.byte(); break;
    case 3: o.insert(o.begin() + c.below(o.size() + 1), (char)c.byte()); break;
    case 4: if (!o.empty()) o.erase(o.begin() + c.below(o.size())); break;
    case 5: o += std::string(1 + c.below(20), '\0'); break;
    case 6: o += c.pick(keys).substr(0, c.below(13)); break;
    default: if (!o.empty()) o[o.size() - 1] = (char)c.draw(255); break;
    }
    return o;
}
/* sequences of lookups: a description does not depend on earlier ones */
VP_PROP(lookups, 60000, 2000000)
{
    load();
    unsigned n = 1 + c.below(6); uint64_t f = 1;
    for (unsigned i = 0; i < n; i++) {
        std::string o = gen(c); c.note(" %s", hex(o.data(), o.size()).c_str());
        if (table.count(o)) c.label("listed"); else c.label("not listed");
        if (o.size() >= 1) c.nontrivial(f = hash_str(o, f));
        probe(o);
    }
}
