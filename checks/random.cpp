// C05 C06 C07: the random byte pipeline.
#include "mc.hpp"
#include "ref_stream.hpp"
extern "C" {
#include <passgen/random.h>
}
#include <sys/syscall.h>
#include <algorithm>
#include <thread>
using namespace mc;
static char P;

// ------------------------------------------------------------------ C05
// The source delivers byte k of the position of each of its bytes; three runs of the same history
// identify, for every delivered byte, which byte of the source it was.
struct Cookie { uint64_t pos; int k; size_t most; };
static ssize_t ck_read(void *c, char *b, size_t n) {
    Cookie *k = (Cookie *) c;
    if(k->most && n > k->most) n = k->most;
    for(size_t i = 0; i < n; i++) b[i] = (char) (k->pos + i >> 8 * k->k);
    k->pos += n;
    return n;
}
static int ck_close(void *) { return 0; }
static passgen_random *open_cookie(Cookie *c) {
    cookie_io_functions_t f = {ck_read, NULL, NULL, ck_close};
    FILE *fp = fopencookie(c, "r", f);
    setvbuf(fp, NULL, _IONBF, 0);
    return passgen_random_file_open(NULL, fp);
}
// ops: r<n> read n bytes, t<w> typed draw of w bytes, b boolean; "@<k>" repeats everything before it k times in all
struct Op { char kind; size_t n; };
static std::vector<Op> parse_ops(const std::string &c) {
    std::vector<Op> o;
    const char *p = c.c_str();
    while(*p) {
        char k = *p++;
        char *e;
        size_t n = strtoull(p, &e, 10);
        p = e;
        if(*p == ' ') p++;
        if(k == '@') {
            std::vector<Op> once = o;
            for(size_t i = 1; i < n; i++) o.insert(o.end(), once.begin(), once.end());
            continue;
        }
        o.push_back({k, n});
    }
    return o;
}
static void check_hist(Ctx &ctx, const std::string &c) {
    std::vector<Op> ops = parse_ops(c);
    static std::vector<std::vector<uint32_t>> got;
    got.assign(ops.size(), {});
    static std::vector<bool> flag[3];
    static std::vector<uint8_t> buf;
    for(int k = 0; k < 3; k++) {
        flag[k].assign(ops.size(), false);
        Cookie ck = {0, k, 0};
        passgen_random *r = open_cookie(&ck);
        for(size_t i = 0; i < ops.size(); i++) {
            size_t n = ops[i].kind == 'b' ? 1 : ops[i].n;
            buf.assign(n + 32, 0xA5);
            uint8_t *d = buf.data() + 16;
            if(ops[i].kind == 'r') passgen_random_read(r, d, n);
            else if(ops[i].kind == 't') {
                uint64_t v = n == 1 ? passgen_random_u8(r) : n == 2 ? passgen_random_u16(r) : n == 4 ? passgen_random_u32(r) : passgen_random_u64(r);
                for(size_t b = 0; b < n; b++) d[b] = (uint8_t) (v >> 8 * b);
            } else flag[k][i] = passgen_random_bool(r);
            for(int g = 0; g < 16; g++)
                if(buf[g] != 0xA5 || buf[16 + n + g] != 0xA5) { ctx.fail("overrun " + c, fmt("history %s: request %zu wrote outside its %zu bytes", c.substr(0, 300).c_str(), i, n)); return; }
            if(k == 0) got[i].assign(n, 0);
            if(ops[i].kind != 'b') for(size_t b = 0; b < n; b++) got[i][b] |= (uint32_t) d[b] << 8 * k;
        }
        passgen_random_free(r);
    }
    // judge: without large requests consecutive; large requests contiguous and fresh
    uint64_t next = 0;             // in-order cursor of the buffered stream
    bool large = false;
    std::set<uint32_t> used;       // only needed once a large request occurred
    uint64_t maxseen = 0;          // highest delivered position + 1
    std::vector<std::pair<uint64_t, uint64_t>> runs;
    for(size_t i = 0; i < ops.size(); i++) {
        auto &g = got[i];
        if(ops[i].kind == 'b') {
            // which byte it used is not observable from one bit; it must have used exactly one
            if(!large) { next++; }
            else next = ~0ull;
            continue;
        }
        if(g.empty()) continue;
        if(!large && g.size() <= 1024) {
            for(size_t b = 0; b < g.size(); b++)
                if(g[b] != next + b) {
                    ctx.fail("order " + c.substr(0, 100), fmt("history %s: byte %zu of request %zu is source byte %u, expected %llu", c.substr(0, 300).c_str(), b, i, g[b], (unsigned long long) (next + b)));
                    return;
                }
            next += g.size();
            for(uint32_t x: g) used.insert(x);
            continue;
        }
        large = true;
        if(g.size() > 1024)
            for(size_t b = 1; b < g.size(); b++)
                if(g[b] != g[0] + b) { ctx.fail("large " + c.substr(0, 100), fmt("history %s: large request %zu is not one contiguous run (byte %zu is source byte %u after %u)", c.substr(0, 300).c_str(), i, b, g[b], g[b - 1])); return; }
        for(uint32_t x: g)
            if(!used.insert(x).second) { ctx.fail("twice " + c.substr(0, 100), fmt("history %s: request %zu delivers source byte %u a second time", c.substr(0, 300).c_str(), i, x)); return; }
    }
    ctx.state(hash_str(c));
    ctx.transitions(ops.size());
    ctx.trace(3);
}
static void gen_positions(Ctx &ctx) {
    // every buffer position x every request size, followed by two further requests
    std::vector<size_t> sizes;
    for(size_t n = 0; n <= 1024; n++) sizes.push_back(n);
    for(size_t n: {1025, 1026, 1031, 1032, 1033, 1500, 2047, 2048, 2049, 3000, 4096, 5001}) sizes.push_back(n);
    size_t step = ctx.thorough ? 1 : 1;
    for(size_t p = 0; p < 1024; p += step)
        for(size_t n: sizes) {
            bool edge = p < 20 || p > 1000 || n < 20 || n > 1000 || p + n > 1014 && p + n < 1034;
            if(!ctx.thorough && !edge && (p * 31 + n) % 16) continue;
            ctx.emit(fmt("r%zu r%zu r8 r1024", p, n));
        }
    for(size_t p = 0; p < 1024; p++)
        for(auto t: {"t1", "t2", "t4", "t8", "b"}) { ctx.emit(fmt("r%zu %s r9", p, t)); ctx.emit(fmt("r%zu %s %s %s r1023 %s r5", p, t, t, t, t)); }
}
// volumes: case "<most bytes per read of the source> : ops".  The order of the bytes while no request was large, and no byte twice
// after one, over up to 2^24 bytes of the source.
static void check_volume(Ctx &ctx, const std::string &c) {
    size_t colon = c.find(" : ");
    size_t most = strtoull(c.c_str(), NULL, 10);
    std::vector<Op> ops = parse_ops(c.substr(colon + 3));
    size_t total = 0;
    for(auto &o: ops) total += o.kind == 'b' ? 1 : o.n;
    std::vector<uint32_t> got(total, 0);
    for(int k = 0; k < 3; k++) {
        Cookie ck = {0, k, most};
        passgen_random *r = open_cookie(&ck);
        std::vector<uint8_t> buf(total + 16);
        size_t at = 0;
        for(auto &o: ops) {
            size_t n = o.kind == 'b' ? 1 : o.n;
            uint8_t *d = buf.data() + at;
            if(o.kind == 'r') passgen_random_read(r, d, n);
            else if(o.kind == 't') {
                uint64_t v = n == 1 ? passgen_random_u8(r) : n == 2 ? passgen_random_u16(r) : n == 4 ? passgen_random_u32(r) : passgen_random_u64(r);
                for(size_t b = 0; b < n; b++) d[b] = (uint8_t) (v >> 8 * b);
            } else passgen_random_bool(r);
            at += n;
        }
        for(size_t i = 0; i < total; i++) got[i] |= (uint32_t) buf[i] << 8 * k;
        passgen_random_free(r);
    }
    std::vector<bool> used(1 << 24, false);
    size_t at = 0, i = 0;
    bool large = false;
    for(auto &o: ops) {
        size_t n = o.kind == 'b' ? 1 : o.n;
        if(n > 1024) {
            large = true;
            for(size_t b = 1; b < n; b++)
                if(got[at + b] != got[at] + b) { ctx.fail("large " + c.substr(0, 100), fmt("%s: large request %zu is not one contiguous run (byte %zu is source byte %u after %u)", c.c_str(), i, b, got[at + b], got[at + b - 1])); return; }
        }
        if(o.kind != 'b')
            for(size_t b = 0; b < n; b++) {
                if(!large && got[at + b] != at + b) { ctx.fail("order " + c.substr(0, 100), fmt("%s: byte %zu of request %zu is source byte %u, expected %zu", c.c_str(), b, i, got[at + b], at + b)); return; }
                if(used[got[at + b]]) { ctx.fail("twice " + c.substr(0, 100), fmt("%s: request %zu delivers source byte %u a second time", c.c_str(), i, got[at + b])); return; }
                used[got[at + b]] = true;
            }
        at += n;
        i++;
    }
    ctx.state(hash_str(c));
    ctx.transitions(ops.size());
    ctx.trace(3);
}
static void gen_volume(Ctx &ctx) {
    size_t volume = ctx.thorough ? (1 << 24) - 200000 : 1200000;
    auto each = [&](int most, const std::string &ops, size_t per, size_t v) { ctx.emit(fmt("%d : %s @%zu", most, ops.c_str(), v / per)); };
    for(auto t: {"t1", "t2", "t4", "t8", "r1", "r2", "r3", "r5", "r7", "r8", "r9", "r16", "r31", "r32", "r64", "r100", "r255", "r256", "r257", "r333", "r511", "r512", "r513", "r1000", "r1022", "r1023", "r1024"}) {
        size_t n = atoi(t + 1);
        for(int most: {0, 1, 7, 1000}) {
            if(most == 1 && !ctx.thorough) each(most, t, n, 100000);
            else each(most, t, n, volume);
        }
    }
    for(int a: {1, 2, 3, 7, 8, 100, 1000, 1023, 1024}) for(auto t: {"b", "t1", "t2", "t4", "t8", "r1"}) each(0, fmt("r%d %s", a, t), a + 8, volume);
    // large requests of every order of magnitude, alone, repeated, and among small ones
    for(int b = 11; b < 24; b++)
        for(int d: {-1, 0, 1, 1023, 1024})
            for(int most: {0, 7, 1000, 65536}) {
                size_t n = (1 << b) + d;
                if(!ctx.thorough && b > 20 && most != 0) continue;
                ctx.emit(fmt("%d : r%zu", most, n));
                if(n < 7000000) ctx.emit(fmt("%d : r5 r%zu t8 r%zu r1000 r1024", most, n, n));
            }
    for(int n: {1025, 1100, 2048, 3000, 4096, 10000, 65536}) { each(0, fmt("r%d", n), n, volume); each(0, fmt("r%d r1", n), n + 1025, volume); each(0, fmt("r%d t8 r1024 b", n), n + 2049, volume); }
}
static void gen_seq(Ctx &ctx) {
    std::vector<std::string> al = {"r0", "r1", "r7", "r512", "r1023", "r1024", "r1025", "r2048", "t1", "t2", "t4", "t8", "b"};
    int depth = ctx.thorough ? 5 : 4;
    for(auto start: {"", "r512 ", "r1015 ", "r1016 ", "r1017 ", "r1022 ", "r1023 "}) {
        std::function<void(std::string, int)> rec = [&](std::string s, int d) {
            if(ctx.stopped()) return;
            if(d) ctx.emit(s + "r3 r1021");
            if(d < depth) for(auto &a: al) rec(s + a + " ", d + 1);
        };
        rec(start, 0);
    }
    // long histories of one kind: the position cycles through its whole orbit
    for(auto t: {"t1", "t2", "t4", "t8", "r3", "r5", "r7", "r100", "r333", "r1000", "r1023", "b"}) {
        for(auto off: {"", "r1 ", "r2 ", "r3 "}) {
            std::string s = off;
            int n = atoi(t + 1) > 50 ? 60 : 1200;
            for(int i = 0; i < n; i++) s += std::string(t) + " ";
            ctx.emit(s);
        }
    }
    for(int a = 1; a <= 9; a++) for(int b = 1; b <= 9; b++) { std::string s; for(int i = 0; i < 400; i++) s += fmt("r%d r%d ", a, b); ctx.emit(s); }
}

// ------------------------------------------------------------------ C06
// a source that delivers consecutive 16-bit (8, 32) words of a given sequence
struct WordSrc { uint64_t next, left; int width; uint64_t *list; size_t nlist; };
static size_t ws_read(void *c, void *d, size_t n) {
    WordSrc *w = (WordSrc *) c;
    uint8_t *p = (uint8_t *) d;
    for(size_t i = 0; i < n; i += w->width) {
        uint64_t v = w->list ? w->list[w->next < w->nlist ? w->next : w->nlist - 1] : w->next;
        memcpy(p + i, &v, w->width);
        w->next++;
    }
    return n;
}
static void ws_close(void *) {}
static void ws_open(passgen_random *r, WordSrc *w) {
    memset(r, 0, sizeof *r);
    r->context = w;
    r->read = ws_read;
    r->close = ws_close;
    passgen_random_reload(r);
}
static uint64_t draw_max(passgen_random *r, int width, uint64_t max) {
    return width == 1 ? passgen_random_u8_max(r, max) : width == 2 ? passgen_random_u16_max(r, max) : width == 4 ? passgen_random_u32_max(r, max) : passgen_random_u64_max(r, max);
}
// all words of the width, in order, through one bound: the counts of all values must be equal
static void check_full(Ctx &ctx, const std::string &c) {
    int width;
    unsigned long long m0, m1;
    sscanf(c.c_str(), "u%d %llu-%llu", &width, &m0, &m1);
    uint64_t words = 1ull << 8 * width;
    static passgen_random r;
    std::vector<uint32_t> count;
    for(uint64_t max = m0; max <= m1; max++) {
        WordSrc w = {0, 0, width, NULL, 0};
        ws_open(&r, &w);
        count.assign(max, 0);
        uint64_t accepted = 0, tr = 0;
        uint64_t fetched_words = 0;
        uint64_t last = 0; // index of the word used by the previous draw + 1
        for(;;) {
            uint64_t v = draw_max(&r, width, max);
            // words consumed so far: fetched minus unread
            uint64_t used = w.next - (sizeof(r.buffer) - r.pos) / width;
            if(used > words) break; // the accepted word lies beyond one full cycle
            if(v >= max) { ctx.fail(fmt("bound u%d max=%llu", 8 * width, max), fmt("u%d_max(%llu) returned %llu", 8 * width, (unsigned long long) max, (unsigned long long) v)); return; }
            if(used <= last) { ctx.fail(fmt("fresh u%d max=%llu", 8 * width, max), fmt("u%d_max(%llu) returned %llu without consuming fresh bytes", 8 * width, (unsigned long long) max, (unsigned long long) v)); return; }
            last = used;
            count[v]++;
            accepted++;
            if(used == words) break;
            if((++tr & 0xfffff) == 0) ctx.beat();
        }
        ctx.transitions(words);
        ctx.trace(accepted);
        ctx.state(hash_bytes(&max, 8, width));
        uint32_t want = count[0];
        for(uint64_t v = 0; v < max; v++)
            if(count[v] != want || !count[v]) {
                ctx.fail(fmt("uniform u%d max=%llu", 8 * width, max), fmt("u%d_max(%llu): over all %llu words, value %llu is produced %u times and value 0 %u times", 8 * width, (unsigned long long) max,
                         (unsigned long long) words, (unsigned long long) v, count[v], want));
                return;
            }
        ctx.beat();
    }
}
// larger widths: on boundary words, the draw must conform to one of the known exactly uniform maps
static int model_map(int m, int width, uint64_t w, uint64_t max, uint64_t *v) {
    uint64_t all = width == 8 ? ~0ull : (1ull << 8 * width) - 1;
    if(m == 0) { // mask, reject
        uint64_t mask = max;
        for(int s = 1; s < 64; s *= 2) mask |= mask >> s;
        *v = w & mask;
        return *v < max;
    }
    if(m == 1) { // smallest mask (of max - 1), reject
        uint64_t mask = max - 1;
        for(int s = 1; s < 64; s *= 2) mask |= mask >> s;
        *v = w & mask;
        return *v < max;
    }
    if(m == 2) { // reject the incomplete last block, modulo
        unsigned __int128 n = (unsigned __int128) all + 1, lim = n - n % max;
        *v = w % max;
        return w < lim;
    }
    if(m == 3) { // reject the first block, modulo
        unsigned __int128 n = (unsigned __int128) all + 1;
        *v = w % max;
        return w >= (uint64_t) (n % max);
    }
    // multiply and reject on the low half
    unsigned __int128 n = (unsigned __int128) all + 1, p = (unsigned __int128) w * max;
    *v = (uint64_t) (p >> 8 * width);
    return (uint64_t) (p & all) >= (uint64_t) (n % max);
}
static void check_wide(Ctx &ctx, const std::string &c) {
    int width;
    uint64_t max;
    sscanf(c.c_str(), "u%d %lu", &width, &max);
    uint64_t all = width == 8 ? ~0ull : (1ull << 8 * width) - 1;
    std::set<uint64_t> ws;
    uint64_t mask = max;
    for(int s = 1; s < 64; s *= 2) mask |= mask >> s;
    for(uint64_t b: {(uint64_t) 0, (uint64_t) max, mask, all, max * 2, max / 2, all - max, (uint64_t) (((unsigned __int128) all + 1) % max), (uint64_t) (all - ((unsigned __int128) all + 1) % max), all / max * max, all / 3, all / 2})
        for(int64_t d = -3; d <= 3; d++) ws.insert((b + d) & all);
    for(int bit = 0; bit < 8 * width; bit++)
        for(uint64_t b: {(uint64_t) 0, (uint64_t) max - 1, (uint64_t) max, mask}) { ws.insert((b ^ 1ull << bit) & all); ws.insert((b | all << bit) & all); ws.insert((b + (1ull << bit)) & all); }
    std::vector<uint64_t> words(ws.begin(), ws.end());
    // each word is followed by a word that every model accepts; with 0, 1, 2, 15, 40, 300 or 5000 rejected words before it
    static passgen_random r;
    uint64_t accept_all = 0;
    bool have = false;
    for(uint64_t cand: {all / 2, all / 3, (uint64_t) 1, all / 5, all / 7, all / 11 * 3})
        for(uint64_t x: {cand, cand & ~mask, (cand & ~mask) | 1}) {
            bool ok = true;
            uint64_t v;
            for(int m = 0; m < 5; m++) ok &= model_map(m, width, x, max, &v);
            if(ok && !have) { accept_all = x; have = true; }
        }
    int alive = 31;
    std::string why;
    std::vector<uint64_t> rej;
    {
        uint64_t v;
        for(uint64_t w: words) { bool any = true; for(int m = 0; m < 2; m++) any &= !model_map(m, width, w, max, &v); if(any) rej.push_back(w); }
    }
    for(size_t i = 0; i < words.size() && alive; i++)
        for(int before: {0, 1, 2, 5}) {
            if(before && rej.empty()) continue;
            std::vector<uint64_t> list;
            for(int k = 0; k < before; k++) list.push_back(rej[(i + k) % rej.size()]);
            list.push_back(words[i]);
            for(int k = 0; k < 600; k++) list.push_back(have ? accept_all : (uint64_t) k);
            WordSrc w = {0, 0, width, list.data(), list.size()};
            ws_open(&r, &w);
            uint64_t v = draw_max(&r, width, max);
            uint64_t used = w.next - (sizeof(r.buffer) - r.pos) / width;
            ctx.transitions(used);
            if(v >= max) { ctx.fail(fmt("bound u%d max=%llu", 8 * width, max), fmt("u%d_max(%llu) returned %llu", 8 * width, max, (unsigned long long) v)); return; }
            for(int m = 0; m < 5; m++) {
                if(!(alive >> m & 1)) continue;
                uint64_t mv = 0;
                size_t k = 0;
                while(k < list.size() && !model_map(m, width, list[k], max, &mv)) k++;
                if(k + 1 != used || mv != v) {
                    alive &= ~(1 << m);
                    if(m == 0) why = fmt("word %llx (after %d rejected ones): value %llu after %llu words, expected %llu after %zu", (unsigned long long) words[i], before, (unsigned long long) v, (unsigned long long) used, (unsigned long long) mv, k + 1);
                }
            }
            if(!alive) break;
        }
    // long runs of rejections
    if(alive && !rej.empty())
        for(int n: {15, 16, 17, 31, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 70000}) {
            std::vector<uint64_t> list(n);
            int m = __builtin_ctz(alive);
            uint64_t mv, rw = rej[0];
            bool found = false;
            for(uint64_t x: rej) if(!model_map(m, width, x, max, &mv)) { rw = x; found = true; break; }
            if(!found) break;
            for(auto &x: list) x = rw;
            uint64_t acc = 0;
            for(uint64_t x: words) if(model_map(m, width, x, max, &mv)) { acc = x; break; }
            model_map(m, width, acc, max, &mv);
            list.push_back(acc);
            WordSrc w = {0, 0, width, list.data(), list.size()};
            ws_open(&r, &w);
            uint64_t v = draw_max(&r, width, max);
            uint64_t used = w.next - (sizeof(r.buffer) - r.pos) / width;
            ctx.transitions(used);
            if(v != mv || used != (uint64_t) n + 1) {
                ctx.fail(fmt("retry u%d max=%llu n=%d", 8 * width, max, n), fmt("u%d_max(%llu): after %d rejected words the draw returned %llu having used %llu words, expected %llu after %d", 8 * width, max, n,
                         (unsigned long long) v, (unsigned long long) used, (unsigned long long) mv, n + 1));
                return;
            }
        }
    if(!alive) ctx.fail(fmt("map u%d max=%llu", 8 * width, max), fmt("u%d_max(%llu) does not implement any exactly uniform map; compared with masking: %s", 8 * width, max, why.c_str()));
    ctx.state(hash_str(c));
    ctx.trace(words.size() * 4);
}
static void gen_wide(Ctx &ctx) {
    for(int width: {1, 2, 4, 8}) {
        uint64_t all = width == 8 ? ~0ull : (1ull << 8 * width) - 1;
        std::set<uint64_t> ms;
        for(uint64_t m = 1; m <= (ctx.thorough ? 20000 : 2000); m++) if(m <= all) ms.insert(m);
        for(int b = 0; b < 8 * width; b++)
            for(int64_t d = -3; d <= 3; d++)
                for(uint64_t k: {1, 3, 5, 7}) { uint64_t m = k * (1ull << b) + d; if(m >= 1 && m <= all) ms.insert(m); }
        for(uint64_t m = all; m > all - 40; m--) ms.insert(m);
        for(uint64_t m = 10; m < all / 10; m *= 10) ms.insert(m), ms.insert(m * 9), ms.insert(m + 1);
        for(uint64_t m: ms) ctx.emit(fmt("u%d %llu", width, (unsigned long long) m));
    }
}
static void gen_full(Ctx &ctx) {
    ctx.emit("u1 1-255");
    for(uint64_t m = 1; m <= 65535; m += 64) ctx.emit(fmt("u2 %llu-%llu", (unsigned long long) m, (unsigned long long) std::min<uint64_t>(m + 63, 65535)));
}
// 32-bit: every one of the 2^32 words for selected bounds
static void gen_full32(Ctx &ctx) {
    std::vector<uint64_t> ms = {3, 10, 26, 36, 62, 94, 257, 65537};
    if(ctx.thorough) for(uint64_t m: {1, 2, 5, 6, 7, 9, 16, 52, 64, 95, 100, 128, 255, 256, 1000, 1023, 1025, 65535, 65536, 100000, 1000003, 0x110000}) ms.push_back(m);
    for(uint64_t m: ms) ctx.emit(fmt("u4 %llu-%llu", (unsigned long long) m, (unsigned long long) m));
}
static void check_plain(Ctx &ctx, const std::string &c) {
    static passgen_random r;
    if(c == "bool") {
        int yes = 0;
        for(int b = 0; b < 256; b++) {
            std::vector<uint64_t> l(1, b);
            WordSrc w = {0, 0, 1, l.data(), 1};
            ws_open(&r, &w);
            bool v = passgen_random_bool(&r);
            if(v) yes++;
            if(r.pos != 1) ctx.fail("bool-bytes", fmt("the boolean draw used %zu bytes", r.pos));
        }
        if(yes != 128) ctx.fail("bool", fmt("the boolean draw is true for %d of 256 byte values", yes));
        ctx.transitions(256);
        return;
    }
    // little-endian value of exactly the width: every byte position and value
    int width = atoi(c.c_str() + 1);
    for(int pos = 0; pos < width; pos++)
        for(int v = 0; v < 256; v++) {
            std::vector<uint64_t> l(8 + width, 0xEE);
            for(int i = 0; i < width; i++) l[i] = 0x10 + i;
            l[pos] = v;
            WordSrc w = {0, 0, 1, l.data(), l.size()};
            ws_open(&r, &w);
            uint64_t got = width == 1 ? passgen_random_u8(&r) : width == 2 ? passgen_random_u16(&r) : width == 4 ? passgen_random_u32(&r) : passgen_random_u64(&r);
            uint64_t want = 0;
            for(int i = 0; i < width; i++) want |= l[i] << 8 * i;
            if(got != want || r.pos != (size_t) width)
                ctx.fail("value " + c, fmt("u%d draw returned %llx using %zu bytes, expected %llx", 8 * width, (unsigned long long) got, r.pos, (unsigned long long) want));
            ctx.transitions(1);
        }
    ctx.state(hash_str(c));
    ctx.trace(256 * width);
}

// ------------------------------------------------------------------ C07
static FILE *mem_file(const std::string &s) {
    int fd = syscall(SYS_memfd_create, "w", 0);
    FILE *f = fdopen(fd, "w+");
    fwrite(s.data(), 1, s.size(), f);
    fflush(f);
    fseek(f, 0, SEEK_SET);
    return f;
}
// case: "<source> : ops"; the ops as above, and s<n> to seek a ChaCha20 source
static void chacha_id(const std::string &id, uint8_t key[32], uint8_t nonce[8]) {
    memset(key, 0, 32);
    memset(nonce, 0, 8);
    unsigned n = 0, m = 0;
    if(sscanf(id.c_str(), "k%u", &n) == 1 && id[0] == 'k') key[n / 8] = 1 << n % 8;
    else if(id[0] == 'n') { n = atoi(id.c_str() + 1); nonce[n / 8] = 1 << n % 8; }
    else if(id[0] == 'f') { memset(key, 0xff, 32); memset(nonce, 0xff, 8); }
    else if(id[0] == 'm') {
        n = atoi(id.c_str() + 1);
        for(int i = 0; i < 32; i++) key[i] = (uint8_t) (i * 7 + n * 13 + (i ^ n));
        for(int i = 0; i < 8; i++) nonce[i] = (uint8_t) (i * 29 + n * 3);
    }
}
static const std::string &file_data(bool big = false) {
    static std::string d[2];
    if(d[big].empty()) { uint32_t x = 12345; for(int i = 0; i < (big ? 1 << 24 : 1 << 16); i++) { x = x * 1664525 + 1013904223; d[big] += (char) (x >> 24); } }
    return d[big];
}
static void check_stream(Ctx &ctx, const std::string &c) {
    size_t colon = c.find(" : ");
    std::string src = c.substr(0, colon);
    std::vector<Op> ops = parse_ops(c.substr(colon + 3));
    ref::Stream st = ref::Stream::zero();
    size_t total = 0;
    for(auto &o: ops) if(o.kind != 's') total += o.kind == 'b' ? 1 : o.n;
    bool big = total > 60000;
    static passgen_random object;
    memset(&object, 0x5c, sizeof object);
    passgen_random *r = NULL, *into = src.size() % 2 ? &object : NULL;
    FILE *mf = NULL;
    uint64_t round = 1;
    char kind = src[0];
    if(kind == 'x' || kind == 'X') {
        uint64_t seed = strtoull(src.c_str() + 1, NULL, 16);
        st = ref::Stream::xorshift(seed);
        r = kind == 'x' ? passgen_random_xorshift_open(into, seed) : passgen_random_open(into, fmt("xorshift:%llu", (unsigned long long) seed).c_str());
        round = 8;
    } else if(kind == 'z') r = passgen_random_zero_open(into);
    else if(kind == 'Z') r = passgen_random_open(into, "zero");
    else if(kind == 'f' || kind == 'p' || kind == 'P') {
        st = ref::Stream::bytes(file_data(big));
        mf = mem_file(file_data(big));
        if(kind == 'f') { r = passgen_random_file_open(into, mf); mf = NULL; }
        else {
            std::string path = fmt("/proc/self/fd/%d", fileno(mf));
            r = kind == 'p' ? passgen_random_path_open(into, path.c_str()) : passgen_random_open(into, ("file:" + path).c_str());
        }
    } else {
        uint8_t key[32], nonce[8];
        chacha_id(src.substr(1), key, nonce);
        st = ref::Stream::chacha(key, nonce);
        r = passgen_random_chacha20_open(into, key, nonce);
        memset(key, 0x77, 32);
        memset(nonce, 0x77, 8);
    }
    if(!r) { ctx.fail("open " + src, "source " + src + " could not be opened"); return; }
    ref::Buffered model;
    std::string key;
    for(size_t i = 0; i < ops.size(); i++) {
        size_t n = ops[i].kind == 'b' ? 1 : ops[i].n;
        if(ops[i].kind == 's') { passgen_random_chacha20_seek(r, n); model.seek(n); continue; }
        uint8_t *d = (uint8_t *) malloc(n ? n : 1);
        memset(d, 0xA5, n ? n : 1);
        if(ops[i].kind == 'r') passgen_random_read(r, d, n);
        else if(ops[i].kind == 't') {
            uint64_t v = n == 1 ? passgen_random_u8(r) : n == 2 ? passgen_random_u16(r) : n == 4 ? passgen_random_u32(r) : passgen_random_u64(r);
            for(size_t b = 0; b < n; b++) d[b] = (uint8_t) (v >> 8 * b);
        } else passgen_random_bool(r);
        std::set<ref::Buffered::St> next;
        std::vector<uint64_t> pos;
        std::string why;
        for(auto &s: model.st)
            for(int inorder = 0; inorder < (n > 1024 ? 2 : 1); inorder++) {
                std::vector<ref::Buffered::St> after;
                ref::Buffered::take(s, n, 1024, round, inorder, pos, after);
                size_t b = 0;
                if(ops[i].kind == 'b') b = n;
                while(b < n && d[b] == st.at(pos[b])) b++;
                if(b == n) next.insert(after.begin(), after.end());
                else if(why.empty()) why = fmt("byte %zu of the request is %02x, stream position %llu has %02x", b, d[b], (unsigned long long) pos[b], st.at(pos[b]));
            }
        free(d);
        ctx.transitions(1);
        if(next.empty()) {
            ctx.fail("stream " + c.substr(0, 200), fmt("%s: request %zu (%c%zu): %s", c.substr(0, 400).c_str(), i, ops[i].kind, n, why.c_str()));
            break;
        }
        model.st.assign(next.begin(), next.end());
    }
    if(into) passgen_random_close(r); else passgen_random_free(r);
    if(mf) fclose(mf);
    ctx.state(hash_str(c));
    ctx.trace(1);
}
static const char *SOURCES[] = {"x1", "x9E3779B97F4A7C15", "xFFFFFFFFFFFFFFFF", "X7FFFFFFFFFFFFFFF", "z", "Z", "f", "p", "P", "ck0", "cm1", "cm22", "cf"};
static void gen_partitions(Ctx &ctx) {
    std::vector<std::string> al = {"r1", "r3", "r8", "r63", "r64", "r65", "r512", "r1023", "r1024", "r1025", "r1500", "r2048", "r4101", "t1", "t2", "t4", "t8"};
    int depth = ctx.thorough ? 4 : 3;
    for(auto s: SOURCES) {
        std::function<void(std::string, int)> rec = [&](std::string o, int d) {
            if(ctx.stopped()) return;
            if(d) ctx.emit(std::string(s) + " : " + o + "r200 r1024");
            if(d < depth) for(auto &a: al) rec(o + a + " ", d + 1);
        };
        rec("", 0);
    }
}
static void gen_stream_positions(Ctx &ctx) {
    for(auto s: SOURCES)
        for(int p = 0; p <= 1030; p++)
            for(auto n: {"r1", "r7 r100", "t8 t2", "r64 r64", "r1023", "r1024", "r1025 r30"}) ctx.emit(fmt("%s : r%d %s r1000 r9", s, p, n));
    // long uniform partitions
    for(auto s: SOURCES)
        for(int n = 1; n <= 130; n++) { std::string o; for(int i = 0; i < 9000 / n; i++) o += fmt("r%d ", n); ctx.emit(std::string(s) + " : " + o); }
    for(auto s: SOURCES)
        for(int n = 1000; n <= 1160; n++) { std::string o; for(int i = 0; i < 20; i++) o += fmt("r%d ", n); ctx.emit(std::string(s) + " : " + o); }
}
static void gen_stream_volume(Ctx &ctx) {
    size_t volume = ctx.thorough ? 15000000 : 700000;
    for(auto s: SOURCES) {
        auto each = [&](const std::string &ops, size_t per) { ctx.emit(fmt("%s : %s @%zu", s, ops.c_str(), volume / per)); };
        for(auto t: {"t1", "t2", "t4", "t8", "r1", "r3", "r7", "r8", "r64", "r65", "r100", "r512", "r1000", "r1023", "r1024"}) {
            if(!ctx.thorough && atoi(t + 1) < 4) { ctx.emit(fmt("%s : %s @%d", s, t, 90000)); continue; }
            each(t, atoi(t + 1));
        }
        // (of the zero source, all bytes look alike, so that every placement of every large request would be followed)
        if(*s != 'z' && *s != 'Z') for(int n: {1025, 1088, 2000, 2048, 4096, 5000, 65536}) { each(fmt("r%d", n), n + 1024); each(fmt("r%d t1", n), n + 1025); }
        for(int b = 13; b <= (ctx.thorough ? 23 : 21); b++) for(int d: {-1, 0, 1}) ctx.emit(fmt("%s : r%d r100 r1024", s, (1 << b) + d));
    }
}
static void gen_seek(Ctx &ctx) {
    std::vector<uint64_t> pos;
    for(uint64_t p = 0; p <= (ctx.thorough ? 20000 : 5000); p++) pos.push_back(p);
    for(int b = 13; b < 64; b++)
        for(int64_t d = -130; d <= 130; d++) {
            bool edge = d > -3 && d < 3 || d > -67 && d < -61 || d < 67 && d > 61 || b == 38 || b == 32;
            if(edge || ctx.thorough) pos.push_back((1ull << b) + d);
        }
    for(auto pre: {"", "r1 ", "r1024 ", "r1500 ", "s77 r5 ", "r100 s1000 r1100 "})
        for(uint64_t p: pos) {
            if(p > ~0ull - 20000) continue;
            for(auto post: {"r1 r1100 r3", "r65 r1024 r5", "t8 t4 t2 t1 r2000"}) {
                if(*pre && *post != 'r') continue;
                ctx.emit(fmt("cm3 : %ss%llu %s", pre, (unsigned long long) p, post));
            }
        }
    // pairs of seeks
    for(int a: {0, 1, 63, 64, 65, 1023, 1024, 1025, 5000})
        for(int b: {0, 1, 63, 64, 65, 1023, 1024, 1025, 5000})
            for(auto m: {"", "r1 ", "r64 ", "r1024 ", "r3000 "}) ctx.emit(fmt("cm4 : s%d %ss%d r1030 r100", a, m, b));
}
static void gen_keys(Ctx &ctx) {
    for(int i = 0; i < 256; i++) ctx.emit(fmt("ck%d : r1000 r100 r3000 s70 r64", i));
    for(int i = 0; i < 64; i++) ctx.emit(fmt("cn%d : r1000 r100 r3000 s70 r64", i));
    for(int i = 0; i < (ctx.thorough ? 5000 : 500); i++) ctx.emit(fmt("cm%d : r1000 r100 r3000 s70 r64", i));
    for(int i = 0; i < 64; i++) { ctx.emit(fmt("x%llX : r1000 r100 r3000", 1ull << i)); if(i) ctx.emit(fmt("x%llX : r1000 r100 r3000", (1ull << i) - 1)); if(i < 63) ctx.emit(fmt("X%llX : r1000 r100 r3000", 1ull << i)); }
    for(uint64_t i = 1; i < (ctx.thorough ? 20000 : 2000); i++) ctx.emit(fmt("%c%llX : r1000 r100 r3000", i % 2 ? 'x' : 'X', (unsigned long long) (i % 3 ? i : i * 0x9E3779B97F4A7Bull)));
}

int main(int argc, char **argv) {
    std::string prop = "?";
    for(int i = 1; i + 1 < argc; i++) if(!strcmp(argv[i], "--prop")) prop = argv[i + 1];
    P = prop.size() > 2 ? prop[2] : '?';
    signal(SIGPIPE, SIG_IGN);
    // reference self-test: ChaCha20 keystream of the all-zero key and nonce
    uint8_t k[32] = {0}, n[8] = {0}, o[64];
    ref::chacha20_block(k, n, 0, o);
    static const uint8_t want[8] = {0x76, 0xb8, 0xe0, 0xad, 0xa0, 0xf1, 0x3d, 0x90};
    if(memcmp(o, want, 8)) { fprintf(stderr, "reference ChaCha20 is wrong\n"); return 2; }
    if(P == '5') {
        add({"positions", "every buffer position 0..1023 x request sizes 0..1024 and 12 larger ones (quick: all combinations within 20 of a boundary and 1/16 of the rest), each followed by two requests", gen_positions, check_hist});
        add({"sequences", "all request sequences up to length 4 (5) over 13 kinds, from 7 starting positions; long histories of one kind and of pairs", gen_seq, check_hist});
        add({"volume", "single requests and pairs of 27 sizes over 1.2 MB (16 MB), sources that deliver at most 1, 7, 1000 or all bytes at a time; large requests around every power of two up to 2^23", gen_volume, check_volume, 120});
    }
    if(P == '6') {
        add({"plain", "typed draws: every value of every byte; boolean: all 256 bytes", [](Ctx &c) { for(auto s: {"bool", "u1", "u2", "u4", "u8"}) c.emit(s); }, check_plain});
        add({"full", "all 256 words x all 255 bounds (8 bit), all 65536 words x all 65535 bounds (16 bit)", gen_full, check_full, 120});
        add({"full32", "all 2^32 words for selected 32-bit bounds", gen_full32, check_full, 120});
        add({"wide", "bounds around every power of two and its multiples, all small bounds, and the largest ones, in every width, on boundary words, with runs of 0 to 70000 rejected words", gen_wide, check_wide, 120});
    }
    if(P == '7') {
        add({"partitions", "13 sources x all request sequences up to length 3 (4) over 17 sizes and kinds", gen_partitions, check_stream});
        add({"positions", "13 sources x every position up to 1030 x 7 continuations; uniform partitions into pieces of 1..130 and 1000..1160 bytes", gen_stream_positions, check_stream});
        add({"volume", "13 sources x requests of 15 sizes over 0.7 MB (15 MB), large requests repeated and around every power of two up to 2^21 (2^23)", gen_stream_volume, check_stream, 120});
        add({"seek", "all seek targets up to 5000 (20000) and around every power of two, after 6 different histories, with 3 continuations; pairs of seeks", gen_seek, check_stream});
        add({"keys", "every single bit of key, nonce and seed, and dense ranges of them", gen_keys, check_stream});
    }
    return main_(argc, argv);
}
