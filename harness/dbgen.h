/* generated reflection databases, and an independent view of a database's content */
#pragma once
#include "vp.h"
#include <crefl/model.h>
#include <crefl/db.h>
#include <crefl/link.h>
#include <tuple>
#include <climits>
#include <memory>
using namespace vp;
typedef unsigned long long ull;
typedef std::vector<uint8_t> Bytes;

static_assert(sizeof(decl_node) == 32, "decl_node layout");

enum { NTAGS = 19 };
static const char *const tag_names[NTAGS] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param",
    "qualifier", "attribute", "value", "archive", "source", "alias" };
static const char *tag_str(unsigned t) { return t < NTAGS ? tag_names[t] : "<unknown>"; }
static bool is_list(unsigned t)
{
    return t == _decl_archive || t == _decl_source || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_function;
}
static bool is_shared(unsigned t) { return t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_function; }

/* a database as a value: references are -1 (none), 0.. (this model's nodes) or BUILTIN + index of a built-in intrinsic */
enum { BUILTIN = 1000000 };
struct MNode { unsigned tag = 0, props = 0; std::string name; int next = -1, link = -1, attr = -1; uint64_t qty = 0; std::vector<int> alts; /* other records it may refer to */ };
struct Model { std::vector<MNode> n; int add(unsigned tag, const std::string &name = "") { MNode m; m.tag = tag; m.name = name; n.push_back(m); return (int)n.size() - 1; } };

struct Db
{
    decl_db *db; bool own = true;
    Db() { db = crefl_db_new(); }
    explicit Db(decl_db *d) : db(d) {}
    ~Db() { if (db && own) crefl_db_destroy(db); }
    Db(const Db &) = delete; Db &operator=(const Db &) = delete;
    Db(Db &&o) : db(o.db) { o.db = nullptr; }
};
struct Idx { decl_index *ix; Idx() { ix = crefl_index_new(); } ~Idx() { crefl_index_destroy(ix); } Idx(const Idx &) = delete; };

static unsigned nbuiltin()
{
    static thread_local unsigned n = 0; if (!n) { Db d; crefl_db_defaults(d.db); n = (unsigned)d.db->decl_offset - 1; } return n;
}
static uint32_t at(int ref, const std::vector<uint32_t> &place) { return ref < 0 ? 0 : ref >= BUILTIN ? (uint32_t)(ref - BUILTIN) : place[ref]; }

/*
 * builds the model through the API. order: storage order of the nodes (root first: a restriction the reader documents);
 * place[i] is the database index of model node i afterwards.
 */
static decl_db *build_db(const Model &m, const std::vector<int> &order, std::vector<uint32_t> &place, unsigned style = 0)
{
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    place.assign(m.n.size(), 0);
    for (int i : order) {
        decl_ref r = crefl_decl_new(db, m.n[i].tag); place[i] = crefl_decl_idx(r);
        if (style & 1) crefl_decl_ptr(r)->_name = crefl_name_new(db, m.n[i].name.c_str());
    }
    for (size_t k = 0; k < m.n.size(); k++) {
        size_t i = style & 2 ? m.n.size() - 1 - k : k; decl_ref r = crefl_lookup(db, place[i]); const MNode &x = m.n[i];
        if (!(style & 1)) { decl_id id = crefl_name_new(db, x.name.c_str()); crefl_decl_ptr(r)->_name = id; }
        decl_node *d = crefl_decl_ptr(r);
        d->_props = x.props; d->_quantity = x.qty; d->_next = at(x.next, place); d->_link = at(x.link, place); d->_attr = at(x.attr, place);
    }
    if (!order.empty()) db->root_element = place[order[0]];
    return db;
}
static std::vector<int> plain_order(const Model &m) { std::vector<int> o; for (size_t i = 0; i < m.n.size(); i++) o.push_back((int)i); return o; }
/* a random storage order with the root first */
static std::vector<int> any_order(Case &c, const Model &m)
{
    std::vector<int> o = plain_order(m);
    if (c.chance(1, 3)) return o;
    if (c.chance(1, 3)) { std::reverse(o.begin() + (o.empty() ? 0 : 1), o.end()); return o; }
    for (size_t i = o.size(); i > 2; i--) std::swap(o[i - 1], o[1 + c.below(i - 1)]);
    return o;
}
static Bytes image(decl_db *db)
{
    Bytes b(crefl_db_size(db)); VP_CHECK(crefl_db_write_mem(db, b.data(), b.size()) == 0, "write to a buffer of the reported size failed"); return b;
}

/* raw comparison of two databases: nodes, names and root */
static std::string db_diff(decl_db *a, decl_db *b)
{
    if (a->decl_offset != b->decl_offset) return strf("%zu and %zu declarations", a->decl_offset, b->decl_offset);
    if (a->root_element != b->root_element) return strf("roots %u and %u", a->root_element, b->root_element);
    for (size_t i = 0; i < a->decl_offset; i++) {
        decl_node *x = a->decl + i, *y = b->decl + i;
        if (x->_tag != y->_tag || x->_props != y->_props || x->_next != y->_next || x->_link != y->_link || x->_attr != y->_attr || x->_quantity != y->_quantity)
            return strf("declaration %zu: tag %u props %x next %u link %u attr %u quantity %llx and tag %u props %x next %u link %u attr %u quantity %llx", i, x->_tag, x->_props, x->_next, x->_link, x->_attr, (ull)x->_quantity,
                        y->_tag, y->_props, y->_next, y->_link, y->_attr, (ull)y->_quantity);
        if (strcmp(a->name + x->_name, b->name + y->_name)) return strf("declaration %zu: names %.60s and %.60s", i, a->name + x->_name, b->name + y->_name);
    }
    return "";
}

/*
 * content of declarations, independent of their position: two closed declarations have the same term exactly if they have
 * the same content. A reference to a type that is being built (a pointer back to the struct it is in) counts by kind and
 * name; a declaration containing such a reference to something outside itself is open and has no content of its own.
 */
struct Terms { std::map<std::string, int> ids; int of(const std::string &s) { auto it = ids.find(s); if (it != ids.end()) return it->second; int k = (int)ids.size(); ids[s] = k; return k; } };
struct TermCalc
{
    Terms &t; decl_db *db;
    std::vector<int> term; std::vector<int> low;   /* low: shallowest stack depth referred to, INT_MAX if none */
    std::vector<int> depth_of; int depth = 0;
    TermCalc(Terms &t, decl_db *db) : t(t), db(db), term(db->decl_offset, -1), low(db->decl_offset, INT_MAX), depth_of(db->decl_offset, -1) {}
    int calc(size_t i, int &lw)
    {
        if (i == 0) return -1;
        decl_node *d = db->decl + i;
        if (d->_tag == _decl_alias && d->_link) return calc(d->_link, lw);
        if (depth_of[i] >= 0) { lw = std::min(lw, depth_of[i]); return t.of(strf("back %u ", d->_tag) + (db->name + d->_name)); }
        if (term[i] >= 0 && low[i] == INT_MAX) return term[i];
        int mylow = INT_MAX; depth_of[i] = depth++;
        std::string s = strf("%u %x %llx ", d->_tag, d->_props, (ull)d->_quantity); s += (db->name + d->_name); s += '\n';
        for (size_t a = d->_attr; a; a = db->decl[a]._next) s += strf("A%d ", calc(a, mylow));
        if (d->_link) {
            if (is_list(d->_tag)) for (size_t k = d->_link; k; k = db->decl[k]._next) s += strf("X%d ", calc(k, mylow));
            else s += strf("L%d", calc(d->_link, mylow));
        }
        depth--; int self = depth_of[i]; depth_of[i] = -1;
        term[i] = t.of(s); low[i] = mylow >= self ? INT_MAX : mylow;
        lw = std::min(lw, low[i]);
        return term[i];
    }
    /* all declarations reachable from the root in the order a scan reaches them; open ones are left out by closed() */
    int root() { int l = INT_MAX; return calc(db->root_element, l); }
    bool closed(size_t i) const { return term[i] >= 0 && low[i] == INT_MAX; }
};

/* names: identifiers, sometimes long or odd (never NUL; semicolons too, which occur in annotations and separate the parts of what is hashed) */
static std::string gen_name(Case &c, bool plain = false)
{
    static const std::vector<std::string> pool = { "a", "b", "x", "y", "foo", "bar", "A", "B", "list", "next", "foo_t", "value", "ab", "s" };
    switch (c.below(plain ? 6 : 10)) {
    case 0: case 1: case 2: case 3: return c.pick(pool);
    case 4: return c.pick(pool) + std::to_string(c.draw(30));
    case 5: return "n" + std::to_string(c.draw(100000));
    case 6: return "";
    case 7: { std::string s; size_t n = 1 + c.size(40); for (size_t i = 0; i < n; i++) { s += (char)(c.chance(1, 25) ? ';' : 1 + c.draw(254)); } return s; }
    case 8: return std::string(1 + c.draw(300), c.pick({ 'q', 'z' }));
    default: return c.pick(pool) + "::" + c.pick(pool);
    }
}

/* ---- well-formed sources, as the compiler plug-in makes them ---- */
struct SrcGen
{
    Case &c; Model m; bool plain; bool recursion = true; bool attrs = true;
    bool enclosing = false;         /* nested records may refer to the ones around them (and are then not used anywhere else) */
    std::vector<int> around; size_t escapes = 0;
    std::vector<int> types;         /* complete named types usable by reference */
    int root = -1; unsigned budget;
    SrcGen(Case &c, unsigned budget, bool plain = false) : c(c), plain(plain), budget(budget) {}
    int builtin() { return BUILTIN + 1 + (int)c.below(nbuiltin()); }
    std::string name() { return gen_name(c, plain); }
    void append(int parent, int child)
    {
        MNode &p = m.n[parent];
        if (p.link < 0) { p.link = child; return; }
        int k = p.link; while (m.n[k].next >= 0) k = m.n[k].next;
        m.n[k].next = child;
    }
    void attributes(int node)
    {
        if (!attrs || !c.chance(1, 4)) return;
        unsigned k = 1 + c.below(3); int last = -1;
        for (unsigned i = 0; i < k; i++) {
            int a = m.add(_decl_attribute, c.pick<const char *>({ "annotate", "packed", "aligned", "used", "deprecated", "alias" }));
            if (c.flip()) { int v = m.add(_decl_value, c.flip() ? name() : ""); m.n[v].qty = c.flip() ? c.interesting() : 0; m.n[a].link = v; }
            if (last < 0) m.n[node].attr = a; else m.n[last].next = a;
            last = a;
        }
    }
    int type(unsigned depth = 0)
    {
        unsigned k = depth > 5 ? c.below(5) : c.below(10);
        if (k < 3) return builtin();
        if (k < 5) return types.empty() ? builtin() : c.pick(types);
        if (budget) budget--;
        if (c.chance(1, 25)) { int t = m.add(_decl_intrinsic, name()); m.n[t].qty = c.pick<uint64_t>({ 24, 48, 80, 8, 32 }); m.n[t].props = c.pick<unsigned>({ _decl_sint, _decl_uint, _decl_float }) | _decl_pad_pow2; return t; }   /* not a built-in one */
        if (k < 7) { int t = type(depth + 1); int p = m.add(_decl_pointer, name()); m.n[p].qty = 64; m.n[p].link = c.chance(1, 20) ? -1 : t; return p; }
        if (k < 8) { int t = type(depth + 1); int p = m.add(_decl_array, name()); m.n[p].qty = c.draw(20); m.n[p].link = t; if (c.chance(1, 6)) m.n[p].props = _decl_vla; return p; }
        int t = type(depth + 1); int p = m.add(_decl_qualifier, name()); m.n[p].props = (_decl_const * c.flip()) | (_decl_volatile * c.flip()) | (_decl_restrict * c.flip()); m.n[p].link = t; return p;
    }
    int enumeration()
    {
        int e = m.add(c.flip() ? _decl_enum : _decl_set, name()); m.n[e].qty = c.pick<uint64_t>({ 8, 16, 32, 64 }); attributes(e);
        unsigned k = c.below(6); uint64_t v = c.chance(1, 3) ? c.interesting() : 0;
        for (unsigned i = 0; i < k; i++) { int q = m.add(_decl_constant, name()); m.n[q].qty = v; v += c.chance(1, 3) ? c.interesting() : 1; m.n[q].link = builtin(); append(e, q); attributes(q); }
        types.push_back(e); return e;
    }
    void fields(int s, unsigned depth)
    {
        unsigned k = c.below(6);
        for (unsigned i = 0; i < k; i++) {
            int t;
            if (depth < 3 && budget && c.chance(1, enclosing ? 3 : 6)) { budget--; t = record(depth + 1); append(s, t); }   /* nested declaration, then its field */
            else if (recursion && c.chance(1, enclosing ? 3 : 8)) {        /* pointer to the struct itself, as a node of its own */
                size_t to = enclosing && c.flip() ? c.below(around.size()) : around.size() - 1; escapes = std::min(escapes, to);
                t = m.add(_decl_pointer, name()); m.n[t].qty = 64; m.n[t].link = around[to];
                if (enclosing) m.n[t].alts.assign(around.begin() + to, around.end());
                if (c.flip()) { int q = m.add(c.flip() ? _decl_pointer : _decl_array, name()); m.n[q].qty = 64; m.n[q].link = t; t = q; }
            } else t = type();
            int f = m.add(_decl_field, name()); m.n[f].link = t;
            if (c.chance(1, 6)) { m.n[f].props |= _decl_bitfield; m.n[f].qty = c.draw(32); }
            append(s, f); attributes(f);
        }
    }
    int record(unsigned depth = 0)
    {
        int s = m.add(c.flip() ? _decl_struct : _decl_union, name()); attributes(s);
        size_t before = escapes; escapes = SIZE_MAX; around.push_back(s); fields(s, depth); around.pop_back();
        if (escapes >= around.size()) types.push_back(s);
        escapes = std::min(escapes, before); return s;
    }
    int tydef() { int t = type(); int d = m.add(_decl_typedef, name()); m.n[d].link = t; attributes(d); types.push_back(d); return d; }
    int var() { int t = type(); int d = m.add(_decl_field, name()); m.n[d].link = t; m.n[d].props = (_decl_static * c.flip()) | (_decl_extern_c * c.flip()); attributes(d); return d; }
    int function()
    {
        int f = m.add(_decl_function, name()); m.n[f].props = (_decl_global * c.flip()) | (_decl_static * c.flip()) | (_decl_inline * c.flip()) | (_decl_noreturn * c.flip()); attributes(f);
        if (c.chance(1, 4)) m.n[f].qty = c.interesting();
        unsigned k = 1 + c.below(4);
        for (unsigned i = 0; i < k; i++) { int t = type(); int p = m.add(_decl_param, i ? name() : ""); m.n[p].link = t; m.n[p].props = i ? (_decl_in * c.flip()) : _decl_out; append(f, p); }
        return f;
    }
    int decl()
    {
        switch (c.below(8)) { case 0: return enumeration(); case 1: case 2: case 3: return record(); case 4: return tydef(); case 5: return var(); default: return function(); }
    }
    void start() { root = m.add(_decl_source, name()); }
    void decls(unsigned k) { for (unsigned i = 0; i < k && budget; i++) { budget--; append(root, decl()); } }
};
/* deep copy of a declaration with everything it is built from; next is not followed for the node itself */
static int clone(Model &dst, const Model &src, int ref, std::map<int, int> &memo)
{
    if (ref < 0 || ref >= BUILTIN) return ref;
    auto it = memo.find(ref); if (it != memo.end()) return it->second;
    const MNode x = src.n[ref]; int k = dst.add(x.tag, x.name); memo[ref] = k;
    dst.n[k].props = x.props; dst.n[k].qty = x.qty;
    auto list = [&](int first) {
        int head = -1, last = -1;
        for (int q = first; q >= 0 && q < BUILTIN; q = src.n[q].next) { int z = clone(dst, src, q, memo); if (last < 0) head = z; else dst.n[last].next = z; last = z; }
        return head;
    };
    int a = list(x.attr); dst.n[k].attr = a;
    int l = is_list(x.tag) ? list(x.link) : clone(dst, src, x.link, memo); dst.n[k].link = l;
    return k;
}
/* changes one identifying part of one node, in place; false if this kind of change does not apply */
static bool tweak(Case &c, Model &m, int i, std::string &what)
{
    MNode &x = m.n[i];
    switch (c.below(7)) {
    case 0: x.name += c.flip() ? "_" : "1"; what = "name"; return true;
    case 1: x.qty ^= 1ull << c.draw(63); what = "quantity"; return true;
    case 2: x.props ^= 1u << c.draw(24); what = "properties"; return true;
    case 3: {  /* swap two list members / attributes */
        bool at = x.attr >= 0 && c.flip(); if (!at && !is_list(x.tag)) return false;
        std::vector<int> l; for (int k = at ? x.attr : x.link; k >= 0; k = m.n[k].next) l.push_back(k);
        if (l.size() < 2) return false;
        size_t a = c.below(l.size() - 1); std::swap(l[a], l[a + 1]);
        (at ? x.attr : x.link) = l[0]; for (size_t k = 0; k < l.size(); k++) m.n[l[k]].next = k + 1 < l.size() ? l[k + 1] : -1;
        what = at ? "attribute order" : "member order"; return true;
    }
    case 4: {  /* drop the last member / attribute */
        bool at = x.attr >= 0 && c.flip(); int *p = at ? &x.attr : &x.link; if (!at && !is_list(x.tag)) return false;
        if (*p < 0) return false;
        while (m.n[*p].next >= 0) p = &m.n[*p].next;
        *p = -1; what = at ? "attribute dropped" : "member dropped"; return true;
    }
    case 5: if (x.alts.size() > 1 && c.flip()) { int to = c.pick(x.alts); bool other = to != x.link; x.link = to; what = "enclosing record referred to"; return other; }
        if (x.tag == _decl_field || x.tag == _decl_param || x.tag == _decl_typedef || x.tag == _decl_pointer || x.tag == _decl_array || x.tag == _decl_qualifier || x.tag == _decl_constant) {
            x.link = x.link >= BUILTIN ? (x.link == BUILTIN + 9 ? BUILTIN + 10 : BUILTIN + 9) : BUILTIN + 9; what = "type"; return true; }
        return false;
    default: { static const std::vector<std::pair<int, int>> sw = { { _decl_struct, _decl_union }, { _decl_enum, _decl_set }, { _decl_pointer, _decl_qualifier }, { _decl_typedef, _decl_qualifier }, { _decl_field, _decl_typedef } };
        for (auto &s : sw) { if ((int)x.tag == s.first) { x.tag = s.second; what = "kind"; return true; } if ((int)x.tag == s.second) { x.tag = s.first; what = "kind"; return true; } } return false; }
    }
}

/* ---- arbitrary graphs: any tags, links anywhere, next chains forward (acyclic) ---- */
static Model any_graph(Case &c, size_t maxn)
{
    Model m; size_t n = 1 + c.size(maxn - 1);
    for (size_t i = 0; i < n; i++) {
        int k = m.add(c.chance(1, 20) ? (unsigned)c.draw(40) : (unsigned)c.draw(NTAGS - 1), gen_name(c)); MNode &x = m.n[k];
        x.props = (unsigned)c.interesting(); x.qty = c.flip() ? c.draw(200) : c.interesting();
        auto ref = [&]() -> int { switch (c.below(4)) { case 0: return -1; case 1: return BUILTIN + 1 + (int)c.below(nbuiltin()); default: return (int)c.below(n); } };
        x.link = ref(); x.attr = c.flip() ? -1 : ref();
        x.next = i + 1 < n && c.below(4) ? (int)(i + 1 + (c.chance(1, 4) ? c.below(n - i - 1) : 0)) : -1;
    }
    return m;
}
static void describe(Case &c, const Model &m)
{
    if (!c.verbose) return;
    for (size_t i = 0; i < m.n.size() && i < 40; i++) { const MNode &x = m.n[i]; c.note("\n #%zu %s '%.30s' props %x qty %llx next %d link %d attr %d", i, tag_str(x.tag), x.name.c_str(), x.props, (ull)x.qty, x.next, x.link, x.attr); }
    if (m.n.size() > 40) c.note("\n ... %zu nodes", m.n.size());
}

/* ---- hashes ---- */
static std::string hash_of(decl_index *ix, decl_db *db, size_t i) { return std::string((const char *)crefl_entry_ptr(crefl_entry_ref(ix, crefl_lookup(db, i)))->hash.sum, sizeof(decl_hash)); }
static bool is_valid(decl_index *ix, decl_db *db, size_t i) { return crefl_entry_is_valid(crefl_entry_ref(ix, crefl_lookup(db, i))); }
/* terms and hashes of every closed declaration reached so far, in any database, must correspond one to one */
struct Bijection
{
    Terms terms; std::map<int, std::string> by_term; std::map<std::string, int> by_hash; std::map<int, std::string> where;
    size_t nodes = 0, shared = 0;
    void add(decl_db *db, const char *which)
    {
        Idx ix; crefl_index_scan(ix.ix, db); TermCalc t(terms, db); t.root();
        for (size_t i = 1; i < db->decl_offset; i++) {
            if (!t.closed(i)) continue;
            VP_CHECK(is_valid(ix.ix, db, i), "%s: declaration %zu (%s '%.40s') is reachable and has no hash", which, i, tag_str(db->decl[i]._tag), db->name + db->decl[i]._name);
            std::string h = hash_of(ix.ix, db, i), me = strf("%s declaration %zu (%s '%.40s')", which, i, tag_str(db->decl[i]._tag), db->name + db->decl[i]._name); nodes++;
            auto a = by_term.find(t.term[i]);
            if (a == by_term.end()) {
                auto b = by_hash.find(h);
                VP_CHECK(b == by_hash.end(), "different declarations have the same hash: %s and %s", b == by_hash.end() ? "" : where[b->second].c_str(), me.c_str());
                by_term[t.term[i]] = h; by_hash[h] = t.term[i]; where[t.term[i]] = me;
            } else { shared++; VP_CHECK(a->second == h, "the same declaration has different hashes: %s and %s", where[t.term[i]].c_str(), me.c_str()); }
        }
        for (size_t i = 1; i < db->decl_offset; i++) {   /* an alias is the declaration it leads to */
            if (db->decl[i]._tag != _decl_alias || !is_valid(ix.ix, db, i)) continue;
            size_t k = i; int n = 0; while (db->decl[k]._tag == _decl_alias && db->decl[k]._link && n++ < 100) k = db->decl[k]._link;
            if (db->decl[k]._tag != _decl_alias && t.closed(k)) VP_CHECK(hash_of(ix.ix, db, i) == hash_of(ix.ix, db, k), "%s: alias %zu of declaration %zu has another hash", which, i, k);
        }
    }
};

/* ---- qualified names ---- */
/* reference: declarations in the order they are met (attributes before members), each named at its first visit */
struct NameRef
{
    decl_db *db; std::vector<int> state; std::vector<std::string> fqn; bool ambiguous = false;      /* 0 unseen, 1 being named, 2 named */
    explicit NameRef(decl_db *db) : db(db), state(db->decl_offset, 0), fqn(db->decl_offset) { if (db->root_element) visit(db->root_element, 0, ""); }
    std::string name(size_t d, size_t p, const std::string &prefix)
    {
        unsigned pt = db->decl[p]._tag, t = db->decl[d]._tag; std::string own = db->name + db->decl[d]._name;
        if (pt == _decl_source || pt == _decl_archive) return own;
        if (t == _decl_array || t == _decl_pointer || own.empty()) return prefix;
        return prefix.empty() ? own : prefix + "::" + own;
    }
    void visit(size_t d, size_t p, const std::string &prefix)
    {
        /* a record met again inside itself as a member (not as a type): which of its names counts is not defined */
        if (state[d] == 1 && is_list(db->decl[p]._tag)) ambiguous = true;
        if (state[d]) return;
        decl_node *n = db->decl + d; std::string me = name(d, p, prefix); state[d] = 1;
        if (n->_tag == _decl_alias && n->_link) { visit(n->_link, p, prefix); }
        else {
            for (size_t a = n->_attr; a; a = db->decl[a]._next) visit(a, d, me);
            if (n->_link && is_list(n->_tag)) for (size_t k = n->_link; k; k = db->decl[k]._next) visit(k, d, me);
            else if (n->_link) visit(n->_link, d, me);
        }
        fqn[d] = me; state[d] = 2;
    }
};
