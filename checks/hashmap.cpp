// C12: the hash map against an ideal map. Explicit-state exploration: every state reachable by insertions
// (two values and two equal key objects per key) and removals is visited once and every operation is
// tried in it, on the real code (states are re-reached by replaying their history).
#include "mc.hpp"
extern "C" {
#include <passgen/container/hashmap.h>
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
}
#include <deque>
#include <unordered_set>
using namespace mc;

// keys of a context under the explorer's control: the hash values are part of the key
struct HKey { uint64_t id, h1, h2; };
static uint64_t h_hash(const passgen_hashmap *, const void *k, bool first) { return first ? ((const HKey *) k)->h1 : ((const HKey *) k)->h2; }
static bool h_equal(const passgen_hashmap *, const void *a, const void *b) { return ((const HKey *) a)->id == ((const HKey *) b)->id; }
static void h_init(passgen_hashmap *) {}
static void h_fini(passgen_hashmap *) {}
static const passgen_hashmap_context h_context = {h_hash, h_equal, h_init, h_fini};

struct Keys {
    const passgen_hashmap_context *context;
    bool null_context = false;
    // two equal objects per key, at different addresses
    std::vector<std::vector<uint8_t>> store;
    size_t count() const { return store.size() / 2; }
    const void *key(size_t k, int copy) const { return store[2 * k + copy].data(); }
};
// operations: k*5 + {0: insert (object 0, value 1), 1: insert (object 1, value 2), 2: remove (object 0), 3: remove (object 1)}
struct Model { std::map<int, std::pair<const void *, void *>> m; };
static void *val(int k, int v) { return (void *) (uintptr_t) (0x1000 + k * 16 + v * 4); }

struct Fe { std::vector<passgen_hashmap_entry> got; size_t stop; };
static int fe_cb(void *u, passgen_hashmap_entry *e) {
    Fe *f = (Fe *) u;
    f->got.push_back(*e);
    return f->got.size() == f->stop ? 17 : 0;
}
// applies one operation to the map and the model, compares results; returns an error text
static std::string apply(passgen_hashmap *map, Model &mo, const Keys &K, int op) {
    int k = op / 4, what = op % 4;
    const void *key = K.key(k, what & 1);
    auto it = mo.m.find(k);
    if(what < 2) {
        passgen_hashmap_entry e = passgen_hashmap_insert(map, key, val(k, what + 1));
        const void *wk = it == mo.m.end() ? NULL : it->second.first;
        void *wv = it == mo.m.end() ? NULL : it->second.second;
        if(e.key != wk || e.value != wv) return fmt("insertion of key %d returns (%p,%p), expected the replaced entry (%p,%p)", k, e.key, e.value, wk, wv);
        mo.m[k] = {key, val(k, what + 1)};
    } else {
        passgen_hashmap_entry e = passgen_hashmap_remove(map, key);
        const void *wk = it == mo.m.end() ? NULL : it->second.first;
        void *wv = it == mo.m.end() ? NULL : it->second.second;
        if(e.key != wk || e.value != wv) return fmt("removal of key %d returns (%p,%p), expected (%p,%p)", k, e.key, e.value, wk, wv);
        mo.m.erase(k);
    }
    return "";
}
static std::string compare(passgen_hashmap *map, const Model &mo, const Keys &K, bool stops = true) {
    if(map->len != mo.m.size()) return fmt("the map counts %zu entries, expected %zu", map->len, mo.m.size());
    for(size_t k = 0; k < K.count(); k++)
        for(int c = 0; c < 2; c++) {
            passgen_hashmap_entry *e = passgen_hashmap_lookup(map, K.key(k, c));
            auto it = mo.m.find(k);
            if((e != NULL) != (it != mo.m.end())) return fmt("key %zu is %s", k, e ? "found but was not stored" : "stored but not found");
            if(e && (e->key != it->second.first || e->value != it->second.second)) return fmt("lookup of key %zu yields value %p under key object %p, expected %p under %p", k, e->value, e->key, it->second.second, it->second.first);
        }
    Fe all = {{}, 0};
    if(passgen_hashmap_foreach(map, &all, fe_cb)) return "iteration was stopped although nobody asked for it";
    if(all.got.size() != mo.m.size()) return fmt("iteration visits %zu entries, expected %zu", all.got.size(), mo.m.size());
    std::set<const void *> seen;
    for(auto &e: all.got) {
        bool found = false;
        for(auto &x: mo.m) if(x.second.first == e.key && x.second.second == e.value) found = true;
        if(!found || !seen.insert(e.key).second) return "iteration visits an entry twice or one that is not stored";
    }
    for(size_t s = 1; stops && s <= all.got.size(); s++) {
        Fe f = {{}, s};
        int r = passgen_hashmap_foreach(map, &f, fe_cb);
        if(r != 17 || f.got.size() != s) return fmt("iteration asked to stop after %zu entries visits %zu and returns %d", s, f.got.size(), r);
    }
    return "";
}
static uint64_t state_key(const passgen_hashmap *map, const Keys &K) {
    uint64_t h = hash_bytes(&map->capacity, sizeof map->capacity);
    for(size_t i = 0; i < map->capacity; i++)
        if(map->data[i].key) {
            for(size_t k = 0; k < K.store.size(); k++) if(map->data[i].key == K.store[k].data()) h = hash_bytes(&k, sizeof k, h + i * 31);
            h = hash_bytes(&map->data[i].value, sizeof(void *), h);
        }
    return h;
}
static std::string history(const std::vector<uint8_t> &h) {
    static const char *names[] = {"insert", "insert'", "remove", "remove'"};
    std::string s;
    for(uint8_t op: h) s += fmt("%s(%d) ", names[op % 4], op / 4);
    return s;
}
// all reachable states
static void explore(Ctx &ctx, const std::string &c, const Keys &K, size_t limit) {
    std::unordered_set<uint64_t> known;
    std::deque<std::vector<uint8_t>> todo;
    todo.push_back({});
    known.insert(0);
    size_t states = 0, nops = K.count() * 4;
    uint64_t ch = hash_str(c);
    size_t base = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    (void) base;
    while(!todo.empty()) {
        std::vector<uint8_t> h = todo.front();
        todo.pop_front();
        if(++states > limit) { ctx.skipped(); break; }
        for(size_t op = 0; op < nops; op++) {
            passgen_hashmap map;
            memset(&map, 0x5a, sizeof map);
            passgen_hashmap_init(&map, K.null_context ? NULL : K.context);
            Model mo;
            std::string why;
            for(uint8_t o: h) { why = apply(&map, mo, K, o); if(!why.empty()) break; }
            if(why.empty() && op == 0) why = compare(&map, mo, K);
            if(why.empty()) why = apply(&map, mo, K, op);
            if(why.empty()) why = compare(&map, mo, K, false);
            uint64_t key = why.empty() ? state_key(&map, K) : 0;
            passgen_hashmap_free(&map);
            ctx.transitions(1);
            if(!why.empty()) {
                std::vector<uint8_t> hh = h;
                hh.push_back(op);
                ctx.fail("map " + c, fmt("keys %s, history %s: %s", c.substr(0, 300).c_str(), history(hh).c_str(), why.c_str()));
                return;
            }
            if(known.insert(key).second) {
                ctx.state(key ^ ch);
                std::vector<uint8_t> hh = h;
                hh.push_back(op);
                todo.push_back(hh);
            }
        }
        if((states & 63) == 0) ctx.beat();
    }
    ctx.trace(states * nops);
}

// ---- keys with chosen hash values: case "m <mode> <r1r2> <r1r2> .." residues modulo 3
static uint64_t crt(int a3, int a7, int a17, int spread) {
    for(uint64_t h = 0; h < 357; h++) if(h % 3 == (uint64_t) a3 && h % 7 == (uint64_t) a7 && h % 17 == (uint64_t) a17) return h + 357ull * spread;
    return 0;
}
static void check_chosen(Ctx &ctx, const std::string &c) {
    int mode = c[0] - '0';
    Keys K;
    K.context = &h_context;
    std::vector<HKey> ks;
    for(size_t i = 2; i + 1 < c.size(); i += 3) {
        int a = c[i] - '0', b = c[i + 1] - '0', n = ks.size();
        HKey k;
        k.id = n;
        // mode 0: all capacities beyond 3 separate the keys; 1: capacity 7 collides in the same way; 2: 7 and 17 do
        int a7 = mode >= 1 ? a : (2 * n) % 7, b7 = mode >= 1 ? b : (2 * n + 1) % 7;
        int a17 = mode >= 2 ? a : 2 * n, b17 = mode >= 2 ? b : 2 * n + 1;
        k.h1 = crt(a, a7, a17, 2 * n + 1);
        k.h2 = crt(b, b7, b17, 2 * n + 2);
        if(mode == 3) { k.h1 += 0xFFFFFFFF00000000ull / 357 * 357; k.h2 += 0x8000000000000000ull / 357 * 357; }
        ks.push_back(k);
    }
    for(auto &k: ks) for(int copy = 0; copy < 2; copy++) { std::vector<uint8_t> v(sizeof(HKey)); memcpy(v.data(), &k, sizeof k); K.store.push_back(v); }
    explore(ctx, c, K, 200000);
}
static void gen_chosen(Ctx &ctx) {
    std::vector<std::string> pairs;
    for(int a = 0; a < 3; a++) for(int b = 0; b < 3; b++) pairs.push_back(fmt("%d%d ", a, b));
    int maxk = ctx.thorough ? 5 : 4;
    for(int mode = 0; mode < 4; mode++)
        all_strings(pairs, maxk, [&](const std::string &s, size_t n) {
            if(n && (n < 5 || mode == 1)) {
                // with five keys up to renaming only: sorted
                if(n == 5 || n == 4 && mode != 1) { for(size_t i = 3; i < s.size(); i += 3) if(s.compare(i, 2, s, i - 3, 2) < 0) return !ctx.stopped(); }
                ctx.emit(fmt("%d ", mode) + s);
            }
            return !ctx.stopped();
        });
}
// ---- real string keys, chosen so that they collide at small capacities. case: keys separated by blanks, "8 a b c" or "32 .."
static std::vector<uint8_t> u8key(const std::string &s) { std::vector<uint8_t> v(s.begin(), s.end()); v.push_back(0); return v; }
static std::vector<uint8_t> u32key(const std::string &s) {
    std::vector<uint8_t> v;
    for(size_t i = 0; i <= s.size(); i++) { uint32_t c = i < s.size() ? (uint8_t) s[i] : 0; if(c >= 0x80) c = 0x1f400 + c; for(int b = 0; b < 4; b++) v.push_back(c >> 8 * b); }
    return v;
}
static Keys string_keys(const std::string &c) {
    Keys K;
    bool wide = c[0] == '3';
    K.context = wide ? &passgen_hashmap_context_utf32 : &passgen_hashmap_context_utf8;
    K.null_context = c[0] == '0';
    size_t p = 2;
    for(;;) {
        size_t e = c.find('|', p);
        std::string k = c.substr(p, e == std::string::npos ? e : e - p);
        for(int i = 0; i < 2; i++) K.store.push_back(wide ? u32key(k) : u8key(k));
        if(e == std::string::npos) break;
        p = e + 1;
    }
    return K;
}
static void check_strings(Ctx &ctx, const std::string &c) { explore(ctx, c, string_keys(c), 200000); }
static void gen_strings(Ctx &ctx) {
    for(int wide = 0; wide < 2; wide++) {
        const passgen_hashmap_context *context = wide ? &passgen_hashmap_context_utf32 : &passgen_hashmap_context_utf8;
        passgen_hashmap m;
        passgen_hashmap_init(&m, context);
        // candidates by their positions in tables of 3 and 7 slots
        std::vector<std::string> cand;
        if(!wide) { cand.push_back(""); for(char a = 'a'; a <= 'z'; a++) { cand.push_back(std::string(1, a)); for(char b = 'a'; b <= 'z'; b++) cand.push_back(std::string(1, a) + b); } cand.push_back("a\xc3\xa9"); cand.push_back("longer-keys-of-more-than-sixteen-bytes"); }
        else { cand.push_back(""); for(int a = 1; a < 256; a++) if(a != '|') cand.push_back(std::string(1, (char) a)); for(char b = 'a'; b <= 'e'; b++) { cand.push_back(std::string(2, b)); cand.push_back(std::string(5, b)); cand.push_back(std::string(9, b)); cand.push_back(std::string(17, b)); } cand.push_back("ab"); }
        std::map<uint32_t, std::vector<std::string>> cls;
        for(auto &s: cand) {
            std::vector<uint8_t> k = wide ? u32key(s) : u8key(s);
            uint64_t h1 = context->hash(&m, k.data(), true), h2 = context->hash(&m, k.data(), false);
            cls[h1 % 3 * 3 + h2 % 3].push_back(s);
        }
        passgen_hashmap_free(&m);
        int w = wide ? 3 : 8;
        // sets of 3 and 4 keys within one class and across two classes
        for(auto &a: cls) {
            auto &v = a.second;
            for(size_t i = 0; i < v.size() && i < (ctx.thorough ? 40 : 7); i++)
                for(size_t j = i + 1; j < v.size() && j < i + (ctx.thorough ? 4 : 3); j++)
                    for(auto &b: cls) {
                        auto &u = b.second;
                        size_t x = (i * 7 + j) % u.size(), y = (i * 3 + j + 1) % u.size();
                        std::set<std::string> s = {v[i], v[j], u[x], u[y]};
                        std::string c;
                        for(auto &k: s) c += "|" + k;
                        ctx.emit(fmt("%d ", w == 8 && (i + j) % 5 == 0 ? 0 : w) + c.substr(1));
                    }
        }
        ctx.emit(fmt("%d a", w));
        ctx.emit(fmt("%d a|b", w));
        if(wide) for(auto s: {"ab|ac", "ab|ac|b", "ab|ac|ba|bb", "a|b|c|d", "aaaaa|aaaab|aaaac|b"}) if(strcmp(s, "aaaaa|aaaab|aaaac|b")) ctx.emit(fmt("3 %s", s));
    }
}
// ---- long keys: pairs of keys by their lengths and the position of their difference. case "<w> <length> <length> <position>"
static void check_long(Ctx &ctx, const std::string &c) {
    int w;
    long a, b, pos;
    sscanf(c.c_str(), "%d %ld %ld %ld", &w, &a, &b, &pos);
    Keys K;
    K.context = w == 3 ? &passgen_hashmap_context_utf32 : &passgen_hashmap_context_utf8;
    K.null_context = w == 0;
    std::string x(a, 'x'), y(b, 'x');
    if(pos >= 0 && pos < b) y[pos] = 'y';
    for(auto &k: {x, y}) for(int i = 0; i < 2; i++) K.store.push_back(w == 3 ? u32key(k) : u8key(k));
    explore(ctx, c, K, 200000);
}
static void gen_long(Ctx &ctx) {
    std::vector<long> len = {0, 1, 2, 3, 4, 8, 127, 128, 255, 256, 257, 258, 260, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 65540, 65792};
    if(ctx.thorough) for(long l: {16383L, 16384L, 98304L, 131073L, 262144L, 262148L, 1048576L, 1048577L, 16777216L, 16777220L}) len.push_back(l);
    for(int w: {0, 3, 8})
        for(long a: len) {
            if(w == 0 && !ctx.thorough && a % 7 != 3) continue;
            for(long b: len) if(b > a) ctx.emit(fmt("%d %ld %ld -1", w, a, b));
            for(long p: {0L, a / 4 - 1, a / 4, a / 2, a - 1}) if(p >= 0 && p < a) ctx.emit(fmt("%d %ld %ld %ld", w, a, a, p));
            for(long p: {255L, 256L, 65534L, 65535L, 65536L}) if(p < a) ctx.emit(fmt("%d %ld %ld %ld", w, a, a, p));
        }
}
// ---- many keys: growth through the capacity table. case "<kind> <count> <pattern>"
static void check_many(Ctx &ctx, const std::string &c) {
    int kind, n, pat;
    sscanf(c.c_str(), "%d %d %d", &kind, &n, &pat);
    Keys K;
    K.context = kind == 0 ? &passgen_hashmap_context_utf8 : kind == 1 ? &passgen_hashmap_context_utf32 : &h_context;
    uint64_t x = 88172645463325252ull + pat;
    for(int i = 0; i < n; i++)
        for(int copy = 0; copy < 2; copy++) {
            if(kind == 0) K.store.push_back(u8key(fmt("%s%d", pat % 2 ? "key" : "", i)));
            else if(kind == 1) { // one code point each: unique hashes
                std::vector<uint8_t> v(8 + 4 * 4);
                uint32_t cps[6] = {(uint32_t) (0x100 + i), 'x', 'y', 'z', 0};
                v.assign((uint8_t *) cps, (uint8_t *) (cps + 5));
                K.store.push_back(v);
            } else {
                if(copy == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; }
                HKey k = {(uint64_t) i, x, x * 0x9E3779B97F4A7C15ull + i};
                if(kind == 3) { k.h1 = i; k.h2 = n + i; }
                if(kind == 4) { k.h1 = i * 3; k.h2 = i * 3 + 1; }
                std::vector<uint8_t> v(sizeof k);
                memcpy(v.data(), &k, sizeof k);
                K.store.push_back(v);
            }
        }
    passgen_hashmap map;
    passgen_hashmap_init(&map, K.context);
    Model mo;
    std::string why;
    std::vector<int> ops;
    for(int i = 0; i < n; i++) {
        ops.push_back(4 * i);
        if(pat % 3 == 1 && i % 2) ops.push_back(4 * (i / 2) + 3);
        if(pat % 3 == 2 && i % 3 == 0) ops.push_back(4 * (i / 2) + 1);
    }
    for(int i = 0; i < n; i++) ops.push_back(4 * (pat % 2 ? i : n - 1 - i) + (i % 2 ? 1 : 2));
    for(int i = 0; i < n; i++) ops.push_back(4 * i + (i % 3 ? 0 : 3));
    for(int i = 0; i < n; i++) ops.push_back(4 * i + 2);
    ops.push_back(0);
    size_t step = 0, check = ops.size() / 12 + 1;
    for(int op: ops) {
        why = apply(&map, mo, K, op);
        step++;
        if(why.empty() && (map.len != mo.m.size())) why = fmt("the map counts %zu entries, expected %zu", map.len, mo.m.size());
        if(why.empty() && (step % check == 0 || n < 40)) why = n < 400 ? compare(&map, mo, K, false) : "";
        if(why.empty() && step % check == 0) {
            for(auto &e: mo.m) { passgen_hashmap_entry *p = passgen_hashmap_lookup(&map, K.key(e.first, 1)); if(!p || p->key != e.second.first || p->value != e.second.second) { why = fmt("key %d is not found with its value", e.first); break; } }
            ctx.beat();
        }
        if(!why.empty()) { why = fmt("operation %zu: ", step) + why; break; }
    }
    ctx.transitions(ops.size());
    passgen_hashmap_free(&map);
    if(!why.empty()) ctx.fail("many " + c, "keys and pattern " + c + ": " + why);
    ctx.state(hash_str(c));
    ctx.trace(1);
}
static void gen_many(Ctx &ctx) {
    for(int kind = 0; kind < 5; kind++)
        for(int pat = 0; pat < 6; pat++)
            for(int n: {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 17, 18, 25, 36, 37, 38, 60, 80, 160, 165, 330, 700, 1400, 3000}) ctx.emit(fmt("%d %d %d", kind, n, pat));
    if(ctx.thorough) for(int n: {6000, 12000, 30000, 100000}) for(int pat = 0; pat < 6; pat++) ctx.emit(fmt("0 %d %d", n, pat));
}
// ---- growth forced through all capacities: three keys that collide at whatever the capacity is. case "<largest capacity> <pattern>"
static void check_forced(Ctx &ctx, const std::string &c) {
    size_t limit;
    int pat;
    sscanf(c.c_str(), "%zu %d", &limit, &pat);
    Keys K;
    K.context = &h_context;
    passgen_hashmap map;
    passgen_hashmap_init(&map, K.context);
    Model mo;
    std::string why;
    std::vector<size_t> caps;
    uint64_t offset[] = {0, 1, 2, 0xFFFF, 0x10000, 0x80000001};
    for(int round = 0; round < 400 && why.empty() && map.capacity < limit; round++) {
        uint64_t cap = map.capacity ? map.capacity : 3, r = pat % 2 ? cap - 1 - offset[pat / 2 % 6] % cap : offset[pat / 2 % 6];
        size_t first = K.count();
        // all on the last, first or some slot; in pattern 2k+1 on different ones of a pair
        for(int i = 0; i < 5; i++)
            for(int copy = 0; copy < 2; copy++) {
                HKey k = {(uint64_t) K.count(), r + cap * i, (pat % 3 == 1 ? (r + 1) % cap : r) + cap * (i + 7)};
                k.id = K.store.size() / 2;
                std::vector<uint8_t> v(sizeof k);
                memcpy(v.data(), &k, sizeof k);
                K.store.push_back(v);
            }
        for(size_t k = first; k < K.count() && why.empty(); k++) {
            why = apply(&map, mo, K, 4 * k + k % 2);
            // somebody leaves in between
            if(why.empty() && pat % 4 == 3 && k > 7 && k % 3 == 0) why = apply(&map, mo, K, 4 * (k - 7) + 2);
        }
        if(why.empty()) why = compare(&map, mo, K, false);
        if(caps.empty() || caps.back() != map.capacity) caps.push_back(map.capacity);
        ctx.beat();
        ctx.transitions(5);
        ctx.state(hash_str(fmt("%d %zu %zu", pat, map.capacity, map.len)));
        if(!why.empty()) why = fmt("capacity %zu, then %zu: ", (size_t) cap, map.capacity) + why;
    }
    if(why.empty() && map.capacity >= limit) {
        for(size_t k = 0; k < K.count() && why.empty(); k++) why = apply(&map, mo, K, 4 * k + 2 + k % 2);
        if(why.empty()) why = compare(&map, mo, K, false);
    }
    passgen_hashmap_free(&map);
    if(!why.empty()) ctx.fail("forced " + c, "keys that always collide, pattern " + c + ": " + why);
    ctx.trace(1);
}
static void gen_forced(Ctx &ctx) {
    for(int pat = 0; pat < 12; pat++) ctx.emit(fmt("%d %d", ctx.thorough ? 200000000 : 2500000, pat));
}
// empty maps, entries released through the iteration helper
static int free_cb(void *u, passgen_hashmap_entry *e) { return passgen_hashmap_entry_free(u, e); }
static void check_empty(Ctx &ctx, const std::string &c) {
    passgen_hashmap m;
    memset(&m, 0x5a, sizeof m);
    passgen_hashmap_init(&m, c[0] == 'n' ? NULL : c[0] == '8' ? &passgen_hashmap_context_utf8 : &passgen_hashmap_context_utf32);
    std::vector<uint8_t> k = c[0] == '3' ? u32key("ab") : u8key("ab");
    std::string why;
    Fe f = {{}, 1};
    for(int round = 0; round < 2; round++) {
        for(char op: c.substr(1)) {
            passgen_hashmap_entry e = {NULL, NULL};
            if(op == 'r') { e = passgen_hashmap_remove(&m, k.data()); if(e.key || e.value) why = "removal from an empty map yields an entry"; }
            if(op == 'l' && passgen_hashmap_lookup(&m, k.data())) why = "lookup in an empty map finds something";
            if(op == 'f' && (passgen_hashmap_foreach(&m, &f, fe_cb) || f.got.size())) why = "iterating an empty map visits something";
            if(m.len) why = "an empty map counts entries";
        }
        if(round == 0) { // once filled and emptied again
            passgen_hashmap_insert(&m, k.data(), &m);
            passgen_hashmap_entry e = passgen_hashmap_remove(&m, k.data());
            if(e.key != k.data() || e.value != &m) why = "removal does not yield the entry";
        }
    }
    passgen_hashmap_free(&m);
    // release
    size_t before = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    passgen_hashmap_init(&m, NULL);
    for(int i = 0; i < 50; i++) {
        char *key = (char *) malloc(16);
        snprintf(key, 16, "k%d", i);
        passgen_hashmap_insert(&m, key, malloc(i + 1));
    }
    passgen_hashmap_foreach(&m, NULL, free_cb);
    passgen_hashmap_free(&m);
    size_t after = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    if(before != after) why = fmt("%zu bytes remain allocated after releasing all entries and the map", after - before);
    if(!why.empty()) ctx.fail("empty " + c, c + ": " + why);
    ctx.transitions(c.size() * 2);
    ctx.state(hash_str(c));
    ctx.trace(1);
}
// ---- limited memory: three keys with one hash (see known_findings.txt)
static void check_total(Ctx &ctx, const std::string &c) {
    struct rlimit rl = {1ull << 30, 1ull << 30};
    pid_t pid = fork();
    if(pid == 0) {
        setrlimit(RLIMIT_AS, &rl);
        Keys K = string_keys(c);
        passgen_hashmap map;
        passgen_hashmap_init(&map, K.context);
        Model mo;
        for(size_t k = 0; k < K.count(); k++) if(!apply(&map, mo, K, 4 * k).empty()) _exit(1);
        _exit(compare(&map, mo, K).empty() ? 0 : 1);
    }
    int st;
    waitpid(pid, &st, 0);
    if(st) ctx.fail("total " + c, fmt("keys '%s': inserting them does not succeed (status %x): the table grows without end", c.c_str(), st));
    ctx.transitions(3);
    ctx.trace(1);
}

int main(int argc, char **argv) {
    bool limited = false;
    for(int i = 1; i < argc; i++) if(!strcmp(argv[i], "--limited")) limited = true;
    if(limited) {
        add({"total-collision", "keys whose hashes are completely equal, in a child with limited memory", [](Ctx &c) { c.emit("3 ab|ac"); c.emit("3 ab|ac|ad"); c.emit("8 ab|ac|ad|ae|af"); }, check_total, 60});
        return main_(argc, argv);
    }
    add({"chosen-hashes", "all assignments of slot pairs (modulo 3) to 1..4 (5) keys, colliding also at 7 or at 7 and 17 slots; all reachable states, every operation in each", gen_chosen, check_chosen});
    add({"string-keys", "sets of UTF-8 and UTF-32 keys that collide at small capacities; all reachable states", gen_strings, check_strings});
    add({"long-keys", "pairs of keys of up to 65792 (16777220) characters that differ in length or at one position; all reachable states", gen_long, check_long});
    add({"many", "insert/replace/remove patterns over up to 3000 (100000) keys of 5 kinds", gen_many, check_many});
    add({"forced", "colliding keys that force the table through all its capacities up to 2500000 (200000000) slots", gen_forced, check_forced, 120});
    add({"empty", "all operations on empty and emptied maps; release of entries", [](Ctx &c) { for(auto k: {"n", "8", "3"}) all_strings({"r", "l", "f"}, 3, [&](const std::string &s, size_t) { c.emit(k + s); return true; }); }, check_empty});
    return main_(argc, argv);
}
