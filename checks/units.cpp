// C09 (UTF-8), C10 (tokens), C13 (stack and array): small deterministic components, explored completely
// within bounds against executable references.
#include "mc.hpp"
#include "ref_utf8.hpp"
extern "C" {
#include <passgen/util/utf8.h>
#include <passgen/parser/token.h>
#include <passgen/container/stack.h>
#include <passgen/container/array.h>
size_t __sanitizer_get_current_allocated_bytes(void);
}
#include <algorithm>
using namespace mc;

// ------------------------------------------------------------------ C09
// input and output live at the very end of their allocations: one byte too far is a sanitizer report
struct Arena {
    std::vector<uint8_t> fence;
    enum { N = 192 };
    uint8_t *in[N];
    uint32_t *out[N];
    uint8_t *wid[N];
    Arena() {
        for(int i = 0; i < N; i++) { in[i] = (uint8_t *) malloc(i ? i : 1); out[i] = (uint32_t *) malloc(i ? 4 * i : 4); wid[i] = (uint8_t *) malloc(i ? i : 1); }
        in[0]++; // zero-sized: nothing may be touched
        out[0]++;
        wid[0]++;
    }
};
static Arena &arena() { static Arena a; return a; }

// decide one byte string: whole conversion, then every output limit with resumption
static bool utf8_case(Ctx &ctx, const uint8_t *s, size_t n, bool limits) {
    Arena &A = arena();
    std::string str((const char *) s, n);
    // reference: code points up to the first malformed position
    uint32_t cps[Arena::N];
    int ws[Arena::N];
    size_t k = 0, i = 0;
    bool ok = true;
    while(i < n) {
        uint32_t cp;
        int w = ref::utf8_one(s + i, n - i, &cp);
        if(w <= 0) { ok = false; break; }
        cps[k] = cp;
        ws[k++] = w;
        i += w;
    }
    memcpy(A.in[n], s, n);
    for(int withw = 0; withw < 2; withw++) {
        const uint8_t *in = A.in[n];
        uint32_t *out = A.out[n];
        for(size_t j = 0; j < n; j++) { A.out[n][j] = 0xDEADBEEF; A.wid[n][j] = 0x77; }
        int r = passgen_utf8_decode(&out, n, withw ? A.wid[n] : NULL, &in, n);
        ctx.transitions(1);
        if(!ok) {
            if(r >= 0) { ctx.fail("accept " + esc(str), fmt("malformed sequence '%s' is accepted (result %d)", esc(str).c_str(), r)); return false; }
            continue;
        }
        if(r != PASSGEN_UTF8_SUCCESS) { ctx.fail("refuse " + esc(str), fmt("well-formed sequence '%s' is refused (result %d)", esc(str).c_str(), r)); return false; }
        if(out != A.out[n] + k || in != A.in[n] + n) { ctx.fail("pos " + esc(str), fmt("'%s': %td code points written and %td bytes read, expected %zu and %zu", esc(str).c_str(), out - A.out[n], in - A.in[n], k, n)); return false; }
        for(size_t j = 0; j < k; j++)
            if(A.out[n][j] != cps[j] || withw && A.wid[n][j] != ws[j]) {
                ctx.fail("value " + esc(str), fmt("'%s': code point %zu is U+%04X (width %d), expected U+%04X (width %d)", esc(str).c_str(), j, A.out[n][j], A.wid[n][j], cps[j], ws[j]));
                return false;
            }
    }
    if(!limits) return true;
    // pieces of at most m code points each
    for(size_t m = 0; m <= k + 1 && m < Arena::N; m++) {
        const uint8_t *in = A.in[n];
        size_t left = n, done = 0;
        for(int step = 0; step < Arena::N; step++) {
            uint32_t *out = A.out[m];
            int r = passgen_utf8_decode(&out, m, A.wid[m], &in, left);
            ctx.transitions(1);
            // what this call may see: up to m code points
            size_t avail = std::min(m, k - done);
            bool bad = !ok && k - done < m; // the malformed part is reached before the output is full
            if(bad) {
                if(r >= 0) { ctx.fail("accept-part " + esc(str), fmt("'%s' in pieces of %zu: malformed sequence accepted after %zu code points", esc(str).c_str(), m, done)); return false; }
                break;
            }
            size_t bytes = 0;
            for(size_t j = 0; j < avail; j++) bytes += ws[done + j];
            // with a malformed tail right behind a full output both verdicts are justified
            if(r < 0) { if(!ok && done + avail == k) break; ctx.fail("refuse-part " + esc(str), fmt("'%s' in pieces of %zu: refused after %zu code points", esc(str).c_str(), m, done)); return false; }
            if(out != A.out[m] + avail) { ctx.fail("count-part " + esc(str), fmt("'%s' in pieces of %zu: %td code points converted, expected %zu", esc(str).c_str(), m, out - A.out[m], avail)); return false; }
            for(size_t j = 0; j < avail; j++)
                if(A.out[m][j] != cps[done + j] || A.wid[m][j] != ws[done + j]) { ctx.fail("value-part " + esc(str), fmt("'%s' in pieces of %zu: code point %zu is U+%04X width %d", esc(str).c_str(), m, done + j, A.out[m][j], A.wid[m][j])); return false; }
            left -= bytes;
            if(in != A.in[n] + (n - left)) { ctx.fail("pos-part " + esc(str), fmt("'%s' in pieces of %zu: stops at byte %td, expected %zu", esc(str).c_str(), m, in - A.in[n], n - left)); return false; }
            done += avail;
            int want = left ? PASSGEN_UTF8_OUTPUT_SIZE : PASSGEN_UTF8_SUCCESS;
            if(r != want) { ctx.fail("result-part " + esc(str), fmt("'%s' in pieces of %zu: result %d, expected %d", esc(str).c_str(), m, r, want)); return false; }
            if(!left || m == 0) break;
        }
    }
    return true;
}
static void check_bytes(Ctx &ctx, const std::string &c) {
    // case: "=<bytes>" one string, "+<prefix bytes>" all strings with this prefix plus up to k bytes
    if(c[0] == '=') { utf8_case(ctx, (const uint8_t *) c.data() + 1, c.size() - 1, true); return; }
    uint8_t b[8];
    size_t p = c.size() - 1;
    memcpy(b, c.data() + 1, p);
    for(int x = 0; x < 256; x++) {
        b[p] = x;
        if(!utf8_case(ctx, b, p + 1, true)) return;
        for(int y = 0; y < 256; y++) {
            b[p + 1] = y;
            if(!utf8_case(ctx, b, p + 2, x > 0x7f || y > 0x7f ? (y & 15) == 0 || ctx.thorough : false)) return;
        }
        ctx.beat();
    }
    ctx.state(hash_str(c));
    ctx.trace(256 * 257);
}
static void gen_bytes(Ctx &ctx) {
    for(int x = 0; x < 256; x++) ctx.emit(std::string("+") + (char) x);
    // four bytes: every combination behind the lead bytes where they matter
    for(int x: {0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff})
        for(int y = 0x70; y < 0xd0; y++)
            if(ctx.thorough || y < 0x72 || y > 0x7d && y < 0x92 || y > 0x9d && y < 0xa2 || y > 0xbd && y < 0xc2) ctx.emit(std::string("+") + (char) x + (char) y);
}
static const std::vector<uint8_t> REP = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xfe, 0xff};
static void check_rep(Ctx &ctx, const std::string &c) {
    if(c[0] == '=') { check_bytes(ctx, c); return; }
    // all strings over representatives of every byte class with this prefix
    uint8_t b[16];
    size_t p = c.size() - 1, max = ctx.thorough ? 6 : 5;
    memcpy(b, c.data() + 1, p);
    uint64_t n = 0;
    std::function<bool(size_t)> rec = [&](size_t d) {
        if(!utf8_case(ctx, b, d, d <= 4)) return false;
        if((++n & 1023) == 0) ctx.beat();
        if(d < max) for(uint8_t x: REP) { b[d] = x; if(!rec(d + 1)) return false; }
        return true;
    };
    rec(p);
    ctx.state(hash_str(c));
    ctx.trace(n);
}
static void gen_rep(Ctx &ctx) {
    ctx.emit("=");
    for(uint8_t x: REP) for(uint8_t y: REP) ctx.emit(std::string("+") + (char) x + (char) y);
    // mixtures of well-formed characters of all widths, long enough for several pieces
    std::vector<std::string> ch = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x92\xa9", "\x80", "\xf0\x9f"};
    all_strings(ch, 5, [&](const std::string &s, size_t) { if(s.size() < 15) ctx.emit("=" + s); return !ctx.stopped(); });
}
// runs of one character between two fragments that may belong together
static void gen_runs(Ctx &ctx) {
    const std::vector<std::string> head = {"", "a", "\xc3", "\xc3\xa9", "\xe2", "\xe2\x82", "\xe2\x82\xac", "\xf0", "\xf0\x9f", "\xf0\x9f\x92", "\xf0\x9f\x92\xa9", "\x80", "\xff", "a\xc3", "abc\xe2\x82", "abcdefg", "abcdefg\xf0\x9f", "\xc3\xa9\xe2"};
    const std::vector<std::string> tail = {"", "a", "\xa9", "\x82\xac", "\xac", "\x9f\x92\xa9", "\x92\xa9", "\xc3", "\xc3\xa9", "\xe2\x82", "\xe2\x82\xac", "\xf0\x9f\x92\xa9", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xa9" "abcdefgh"};
    const std::vector<std::string> mid = {"a", std::string(1, 0), "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x92\xa9"};
    for(auto &h: head) for(auto &t: tail) for(auto &m: mid)
        for(size_t n: {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 72, 96, 128, 160}) {
            std::string s = h;
            for(size_t i = 0; i < n; i++) s += m;
            s += t;
            if(s.size() < Arena::N) ctx.emit("=" + s);
        }
}
// every code point: encoded, compared, decoded again, in every function
static void check_cps(Ctx &ctx, const std::string &c) {
    uint64_t a, b;
    sscanf(c.c_str(), "%lx-%lx", &a, &b);
    uint8_t *out = (uint8_t *) malloc(4);
    uint8_t *lo = (uint8_t *) malloc(32);
    for(uint64_t v = a; v <= b; v++) {
        uint32_t cp = (uint32_t) v;
        memset(out, 0xA5, 4);
        int r = passgen_utf8_encode_codepoint(out, cp);
        ctx.transitions(2);
        memset(lo, 0xA5, 32);
        size_t op = 1, ip = 0;
        int r2 = passgen_utf8_encode(lo, 32, &op, &cp, 1, &ip);
        if(cp > 0x10ffff) {
            if(r > 0) { ctx.fail(fmt("enc %x", cp), fmt("the value %x above U+10FFFF is encoded (result %d)", cp, r)); break; }
            if(r2 >= 0 && ip == 1) { ctx.fail(fmt("enc-str %x", cp), fmt("the value %x above U+10FFFF is encoded in a string (result %d)", cp, r2)); break; }
            continue;
        }
        std::string want = ref::utf8_put(cp);
        if(r != (int) want.size() || memcmp(out, want.data(), want.size())) { ctx.fail(fmt("enc %x", cp), fmt("U+%04X is encoded as '%s' (result %d)", cp, esc(std::string((char *) out, 4)).c_str(), r)); break; }
        if(r2 != 0 || ip != 1 || op != 1 + want.size() || memcmp(lo + 1, want.data(), want.size()) || lo[0] != 0xA5) { ctx.fail(fmt("enc-str %x", cp), fmt("U+%04X is encoded in a string as '%s' (result %d, %zu bytes)", cp, esc(std::string((char *) lo + 1, 6)).c_str(), r2, op - 1)); break; }
        if(cp >= 0xd800 && cp <= 0xdfff) continue; // not a scalar value
        if(!utf8_case(ctx, out, want.size(), false)) break;
    }
    free(out);
    free(lo);
    ctx.trace(b - a + 1);
    ctx.state(hash_str(c));
}
static void gen_cps(Ctx &ctx) {
    for(uint64_t a = 0; a < 0x120000; a += 0x1000) ctx.emit(fmt("%lx-%lx", a, a + 0xfff));
    for(int bit = 20; bit < 32; bit++) ctx.emit(fmt("%lx-%lx", (1ul << bit) + (bit == 20 ? 0x10000 : 0), (1ul << bit) + (bit == 20 ? 0x10000 : 0) + 0x800));
    for(uint64_t a: {0x1fff00ul, 0x7fffff00ul, 0xfffff000ul}) ctx.emit(fmt("%lx-%lx", a, a + 0xff));
    if(ctx.thorough) for(uint64_t a = 0x120000; a < 0x100000000ul; a += 0x100000) ctx.emit(fmt("%lx-%lx", a, a + 0xfffff));
}
// encoding with limited space: case is a string of width digits, e.g. "1423"
static void check_encode(Ctx &ctx, const std::string &c) {
    static const uint32_t rep[5][3] = {{0, 0, 0}, {0x41, 0x7f, 0}, {0x80, 0x7ff, 0x130}, {0x800, 0xffff, 0x20ac}, {0x10000, 0x10ffff, 0x1f4a9}};
    for(int alt = 0; alt < 3; alt++) {
        std::vector<uint32_t> in;
        for(char w: c) in.push_back(w == 'X' ? 0x110000 + alt : rep[w - '0'][(in.size() + alt) % 3]);
        std::string want;
        bool bad = false;
        std::vector<size_t> ends = {0};
        for(uint32_t v: in) { if(v > 0x10ffff) { bad = true; break; } want += ref::utf8_put(v); ends.push_back(want.size()); }
        for(size_t start = 0; start <= 2; start++)
            for(size_t len = 0; len <= start + want.size() + 6; len++) {
                // convert in chunks of `len` bytes until done; a chunk too small for any progress ends the run
                uint8_t *out = (uint8_t *) malloc(len ? len : 1);
                std::string got;
                size_t ip = 0;
                std::vector<uint32_t> src(in);
                for(int step = 0; step < 40; step++) {
                    memset(out, 0xA5, len ? len : 1);
                    size_t op = start, before = ip;
                    int r = passgen_utf8_encode(out, len, &op, src.data(), src.size(), &ip);
                    ctx.transitions(1);
                    if(op < start || op > std::max(len, start)) { ctx.fail("encpos " + c, fmt("widths %s, space %zu from %zu: position %zu afterwards", c.c_str(), len, start, op)); free(out); return; }
                    for(size_t i = 0; i < std::min(start, len); i++) if(out[i] != 0xA5) { ctx.fail("encbefore " + c, fmt("widths %s, space %zu from %zu: wrote before the start", c.c_str(), len, start)); free(out); return; }
                    if(ip < before || ip > in.size()) { ctx.fail("encin " + c, fmt("widths %s: input position %zu", c.c_str(), ip)); free(out); return; }
                    std::string piece((char *) out + start, op - start);
                    got += piece;
                    if(got.size() > want.size() || want.compare(0, got.size(), got)) { ctx.fail("encbytes " + c, fmt("widths %s, space %zu from %zu: wrong bytes '%s'", c.c_str(), len, start, esc(got).c_str())); free(out); return; }
                    if(ip >= ends.size() || ends[ip] != got.size()) { ctx.fail("encboundary " + c, fmt("widths %s, space %zu from %zu: %zu code points reported for %zu bytes", c.c_str(), len, start, ip, got.size())); free(out); return; }
                    if(r < 0) {
                        if(!bad || ip != ends.size() - 1) { ctx.fail("encrefuse " + c, fmt("widths %s, space %zu: refused after %zu code points", c.c_str(), len, ip)); free(out); return; }
                        break;
                    }
                    if((r == PASSGEN_UTF8_SUCCESS) != (ip == in.size())) { ctx.fail("encresult " + c, fmt("widths %s, space %zu from %zu: result %d with %zu of %zu code points converted", c.c_str(), len, start, r, ip, in.size())); free(out); return; }
                    if(r == PASSGEN_UTF8_SUCCESS) break;
                    // room for the whole rest (and the terminator and one character of slack) must be enough
                    if(!bad && len >= start + (want.size() - ends[before]) + 5) { ctx.fail("encroom " + c, fmt("widths %s, space %zu from %zu: not finished although %zu bytes would do", c.c_str(), len, start, start + want.size() - ends[before])); free(out); return; }
                    if(ip == before) {
                        if(len >= start + 5) { ctx.fail("encstuck " + c, fmt("widths %s, space %zu from %zu: no progress", c.c_str(), len, start)); free(out); return; }
                        break;
                    }
                }
                free(out);
            }
    }
    ctx.state(hash_str(c));
    ctx.trace(1);
}
static void gen_encode(Ctx &ctx) {
    all_strings({"1", "2", "3", "4", "X"}, ctx.thorough ? 7 : 5, [&](const std::string &s, size_t) { ctx.emit(s); return !ctx.stopped() && (s.empty() || s.find('X') == std::string::npos); });
}

// long texts.  case: pattern of widths ':' number of characters ':' malformed tail or '-' ':' output limit relative to the number ('*' for many pieces)
static void check_long(Ctx &ctx, const std::string &c) {
    char pat[32], bad[32];
    size_t n;
    char rel[16];
    if(sscanf(c.c_str(), "%31[^:]:%zu:%31[^:]:%15s", pat, &n, bad, rel) != 4) abort();
    std::string in;
    std::vector<uint32_t> want;
    std::vector<uint8_t> wid;
    size_t pl = strlen(pat);
    static const uint32_t base[] = {0, 'a', 0xe9, 0x20ac, 0x1f600};
    for(size_t i = 0; i < n; i++) {
        int w = pat[i % pl] - '0';
        uint32_t cp = base[w] + i % 23;
        want.push_back(cp);
        wid.push_back(w);
        in += ref::utf8_put(cp);
    }
    size_t good = in.size();
    std::string tail = strcmp(bad, "-") ? bad : "";
    for(size_t i = 0; i + 1 < tail.size(); i += 2) in += (char) strtoul(tail.substr(i, 2).c_str(), NULL, 16);
    std::vector<uint8_t> heap(in.begin(), in.end());
    std::string what = fmt("%zu characters of widths %s%s", n, pat, tail.empty() ? "" : (" and " + tail).c_str());
    if(*rel == '*') {
        // in pieces of one size, with the positions carried over
        size_t piece = strtoul(rel + 1, NULL, 10);
        std::vector<uint32_t> out(piece);
        std::vector<uint8_t> w(piece);
        const uint8_t *pos = heap.data();
        size_t done = 0;
        while(true) {
            uint32_t *o = out.data();
            int r = passgen_utf8_decode(&o, piece, w.data(), &pos, heap.data() + heap.size() - pos);
            ctx.transitions(1);
            size_t k = o - out.data();
            if(r < 0) { ctx.fail("long " + c, what + fmt(": refused after %zu characters", done)); return; }
            if(done + k > n || memcmp(out.data(), &want[done], 4 * k) || memcmp(w.data(), &wid[done], k)) { ctx.fail("long " + c, what + fmt(": wrong characters or widths at %zu", done)); return; }
            done += k;
            if(r == PASSGEN_UTF8_SUCCESS) break;
            if(k != piece) { ctx.fail("long " + c, what + fmt(": %zu characters in a piece of %zu", k, piece)); return; }
        }
        if(done != n) ctx.fail("long " + c, what + fmt(": only %zu characters", done));
    } else {
        size_t room = n + atoi(rel);
        std::vector<uint32_t> out(room ? room : 1, 0xdeadbeef);
        std::vector<uint8_t> w(room ? room : 1, 0x77);
        uint32_t *o = out.data();
        const uint8_t *pos = heap.data();
        int r = passgen_utf8_decode(&o, room, w.data(), &pos, heap.size());
        ctx.transitions(1);
        bool all = room >= n;
        if(all && !tail.empty() && room > n) {
            if(r >= 0) ctx.fail("long " + c, what + ": malformed text is accepted");
        } else {
            size_t k = all ? n : room;
            int expect = all && tail.empty() ? PASSGEN_UTF8_SUCCESS : PASSGEN_UTF8_OUTPUT_SIZE;
            if(r < 0 || (r == PASSGEN_UTF8_SUCCESS) != (expect == PASSGEN_UTF8_SUCCESS)) { ctx.fail("long " + c, what + fmt(": result %d with room for %zu", r, room)); return; }
            if((size_t) (o - out.data()) != k || memcmp(out.data(), want.data(), 4 * k) || memcmp(w.data(), wid.data(), k)) { ctx.fail("long " + c, what + fmt(": %td characters in room for %zu, or wrong ones", o - out.data(), room)); return; }
        }
        if(tail.empty()) {
            // and back again
            std::vector<uint8_t> enc(good + 8, 0xa5);
            size_t op = 0, ip = 0;
            int e = passgen_utf8_encode(enc.data(), enc.size(), &op, want.data(), n, &ip);
            if(e != PASSGEN_UTF8_SUCCESS || op != good || ip != n || memcmp(enc.data(), in.data(), good)) ctx.fail("long " + c, what + fmt(": encoded as %zu bytes (result %d) instead of %zu", op, e, good));
        }
    }
    ctx.state(hash_str(c));
    ctx.trace();
}
static void gen_long(Ctx &ctx) {
    std::set<size_t> ns;
    for(size_t n = 6; n <= 300; n++) ns.insert(n);
    for(int b = 9; b <= (ctx.thorough ? 24 : 20); b++) for(int d = -2; d <= 2; d++) ns.insert((1u << b) + d);
    for(size_t x: {16384u, 21845u, 32768u, 65536u}) for(int m = 1; m < 5; m++) for(int d = -1; d <= 1; d++) ns.insert(x / m + d);
    for(auto pat: {"1", "2", "3", "4", "1234", "4321", "13", "112"})
        for(size_t n: ns) {
            for(auto bad: {"-", "80", "c3", "f09f98", "eda080", "f4908080", "c0af"})
                for(auto rel: {"0", "1", "-1", "5"}) if(n < 70000 || *bad == '-') ctx.emit(fmt("%s:%zu:%s:%s", pat, n, bad, rel));
            if(n > 200) for(int piece: {1, 2, 3, 7, 100, 255, 256, 257, 65535, 65536, 65537}) ctx.emit(fmt("%s:%zu:-:*%d", pat, n, piece));
        }
}

// ------------------------------------------------------------------ C10
// reference tokenizer
struct RefTok {
    int st = 0; // 0 init, 1 after backslash, 2 after \u, 3 in payload, -1 error
    size_t off = 0, boff = 0, so = 0, sb = 0, len = 0;
    uint32_t pay = 0;
    // returns 1 token, 0 more, -1 error
    int feed(uint32_t c, int width, uint32_t *cp) {
        if(st < 0) return -1;
        if(st == 0) { so = off; sb = boff; }
        off++;
        boff += width;
        switch(st) {
            case 0:
                if(c == '\\') { st = 1; return 0; }
                *cp = c;
                return 1;
            case 1:
                st = 0;
                switch(c) {
                    case 'a': *cp = 7; return 1;
                    case 'b': *cp = 8; return 1;
                    case 'e': *cp = 27; return 1;
                    case 'f': *cp = 12; return 1;
                    case 'n': *cp = 10; return 1;
                    case 'r': *cp = 13; return 1;
                    case 't': *cp = 9; return 1;
                    case 'v': *cp = 11; return 1;
                    case '\\': *cp = '\\'; return 1;
                    case 'u': st = 2; return 0;
                }
                *cp = c | 1u << 30;
                return 1;
            case 2:
                if(c != '{') { st = -1; return -1; }
                st = 3;
                len = 0;
                pay = 0;
                return 0;
            default:
                if(c == '}') {
                    if(pay > 0x10ffff) { st = -1; return -1; }
                    *cp = pay;
                    st = 0;
                    return 1;
                }
                int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
                if(d < 0 || ++len > 6) { st = -1; return -1; }
                pay = pay * 16 + d;
                return 0;
        }
    }
};
struct TokPair { passgen_token_parser p; passgen_token t; RefTok r; };
static std::string tok_text(const std::vector<std::pair<uint32_t, int>> &in) {
    std::string s;
    for(auto &x: in) s += fmt("%x/%d ", x.first, x.second);
    return s;
}
static bool tok_step(Ctx &ctx, TokPair &a, uint32_t c, int width, const std::function<std::string()> &text) {
    bool was_error = a.r.st < 0;
    uint32_t cp = 0;
    int want = a.r.feed(c, width, &cp);
    int got = passgen_token_parse(&a.p, &a.t, width, c);
    ctx.transitions(1);
    const char *what = NULL;
    if(want < 0 && got >= 0) what = was_error ? "leaves the error state" : "accepts a malformed sequence";
    else if(want == 0 && got <= 0) what = got < 0 ? "reports an error in a valid escape" : "finishes a token early";
    else if(want > 0 && got != 0) what = got < 0 ? "reports an error for a valid token" : "does not finish the token";
    else if(want > 0 && a.t.codepoint != cp) what = "yields the wrong code point";
    else if(want > 0 && (a.t.offset != a.r.so || a.t.byte_offset != a.r.sb)) what = "yields the wrong position";
    if(!what) return true;
    std::string t = text();
    ctx.fail("token " + t, fmt("code points (hex/width) %s: the last one %s (result %d, code point %x at %zu/%zu; expected result class %d, code point %x at %zu/%zu)", t.c_str(), what, got, a.t.codepoint, a.t.offset, a.t.byte_offset, want, cp, a.r.so, a.r.sb));
    return false;
}
static const std::vector<uint32_t> TALPHA = {'x', '\\', 'u', '{', '}', '0', '9', 'A', 'f', 'G', 'n', 'z', 0xe9, 0x15c, 0x175, 0x10ffff, 0};
// case: comma separated indices of the first symbols; all continuations up to the depth
static void check_tokens(Ctx &ctx, const std::string &c) {
    size_t depth = ctx.thorough ? 7 : 6;
    std::vector<std::pair<uint32_t, int>> in;
    uint64_t n = 0;
    auto text = [&]() { return tok_text(in); };
    std::function<bool(TokPair, size_t)> rec = [&](TokPair a, size_t d) {
        if(d == depth) return true;
        for(size_t s = 0; s < TALPHA.size(); s++) {
            TokPair b = a;
            int w = 1 + (s + d) % 4;
            in.push_back({TALPHA[s], w});
            if(!tok_step(ctx, b, TALPHA[s], w, text)) return false;
            if((++n & 4095) == 0) ctx.beat();
            // after an error two more symbols are enough to see that it stays
            bool go = b.r.st >= 0 || a.r.st >= 0;
            if(go && !rec(b, d + 1)) return false;
            in.pop_back();
        }
        return true;
    };
    TokPair a;
    memset(&a.p, 0x5a, sizeof a.p);
    memset(&a.t, 0x5a, sizeof a.t);
    passgen_token_parser_init(&a.p);
    int x = atoi(c.c_str()), y = atoi(c.c_str() + c.find(',') + 1);
    for(int s: {x, y}) {
        int w = 1 + (s + in.size()) % 4;
        in.push_back({TALPHA[s], w});
        if(!tok_step(ctx, a, TALPHA[s], w, text)) return;
    }
    rec(a, 2);
    ctx.state(hash_str(c));
    ctx.trace(n);
}
// every code point in every state of the automaton
static void check_tok_cps(Ctx &ctx, const std::string &c) {
    int pre;
    uint64_t a0, b0;
    sscanf(c.c_str(), "%d %lx-%lx", &pre, &a0, &b0);
    static const char *prefixes[] = {"", "\\", "\\u", "\\u{", "\\u{1", "\\u{12", "\\u{123", "\\u{1234", "\\u{01234", "\\u{012345", "\\u{10FFFF", "\\u{110000", "\\u{0123456", "\\ux", "x\\q", "\\u{0}\\n"};
    TokPair a;
    memset(&a.p, 0xc3, sizeof a.p);
    memset(&a.t, 0xc3, sizeof a.t);
    passgen_token_parser_init(&a.p);
    std::vector<std::pair<uint32_t, int>> in;
    auto text = [&]() { return tok_text(in); };
    for(const char *p = prefixes[pre]; *p; p++) {
        in.push_back({(uint32_t) *p, 2});
        if(!tok_step(ctx, a, *p, 2, text)) return;
    }
    for(uint64_t v = a0; v <= b0; v++) {
        TokPair b = a;
        in.push_back({(uint32_t) v, 3});
        if(!tok_step(ctx, b, (uint32_t) v, 3, text)) return;
        for(uint32_t nx: {(uint32_t) '}', (uint32_t) '{', (uint32_t) 'n'}) {
            TokPair d = b;
            in.push_back({nx, 1});
            if(!tok_step(ctx, d, nx, 1, text)) return;
            in.pop_back();
        }
        in.pop_back();
    }
    ctx.state(hash_str(c));
    ctx.trace(b0 - a0 + 1);
}
static void gen_tok_cps(Ctx &ctx) {
    for(int p = 0; p < 16; p++) {
        for(uint64_t a = 0; a < 0x110000; a += 0x4000) ctx.emit(fmt("%d %lx-%lx", p, a, a + 0x3fff));
    }
}
// every payload
static void check_payload(Ctx &ctx, const std::string &c) {
    int digits, upper, lead;
    uint64_t a0, b0;
    sscanf(c.c_str(), "%d %d %d %lx-%lx", &digits, &upper, &lead, &a0, &b0);
    TokPair start;
    memset(&start.p, 0xc3, sizeof start.p);
    memset(&start.t, 0xc3, sizeof start.t);
    passgen_token_parser_init(&start.p);
    std::vector<std::pair<uint32_t, int>> in;
    auto text = [&]() { return tok_text(in); };
    for(int i = 0; i < lead; i++) { in.push_back({0x20ac, 3}); if(!tok_step(ctx, start, 0x20ac, 3, text)) return; }
    size_t keep = in.size();
    for(uint64_t v = a0; v <= b0; v++) {
        TokPair a = start;
        char t[32];
        snprintf(t, sizeof t, upper == 1 ? "\\u{%0*lX}a\\}" : "\\u{%0*lx}a\\}", digits, v);
        if(upper == 2) for(char *q = t + 3; *q; q += 2) *q = toupper(*q);
        in.resize(keep);
        for(char *q = t; *q; q++) {
            in.push_back({(uint32_t) (uint8_t) *q, 1});
            if(!tok_step(ctx, a, (uint8_t) *q, 1, text)) return;
        }
        if((v & 1023) == 0) ctx.beat();
    }
    ctx.state(hash_str(c));
    ctx.trace(b0 - a0 + 1);
}
// long inputs.  case: kind ':' number of tokens before what is looked at
static void check_tok_long(Ctx &ctx, const std::string &c) {
    uint64_t n = strtoull(c.c_str() + 2, NULL, 10);
    char kind = c[0];
    TokPair a;
    passgen_token_parser_init(&a.p);
    memset(&a.t, 0, sizeof a.t);
    auto text = [&]() { return "(long) " + c; };
    auto feed = [&](const char *s, int w) { for(; *s; s++) if(!tok_step(ctx, a, (uint8_t) *s, w, text)) return false; return true; };
    for(uint64_t i = 0; i < n; i++) {
        bool ok = true;
        switch(kind) {
            case 'a': ok = feed("a", 1); break;
            case 'w': ok = tok_step(ctx, a, 0x1f600 + i % 50, 4, text); break;
            case 'e': ok = feed("\\n", 1); break;
            case 'u': ok = feed("\\u{20ac}", 1); break;
            case 'm': ok = i % 3 ? feed("\\(", 1) : tok_step(ctx, a, 0xe9, 2, text); break;
            case 'x': ok = i ? tok_step(ctx, a, "}u{0\\a\xe9"[i % 7], 1 + i % 4, text) : feed("\\u{g", 1); break; // behind an error
        }
        if(!ok) return;
        if((i & 65535) == 65535) ctx.beat();
    }
    if(kind != 'x') for(auto s: {"x", "\\t", "\\u{10ffff}", "\\]", "\\u{0}", "y", "\\u{110000}", "z"}) if(!feed(s, 1)) return;
    ctx.state(hash_str(c));
    ctx.trace();
}
static void gen_tok_long(Ctx &ctx) {
    std::set<uint64_t> ns;
    for(int b = 3; b <= (ctx.thorough ? 26 : 20); b++) for(int d = -2; d <= 2; d++) ns.insert((1ull << b) + d);
    for(uint64_t d: {8191u, 9362u, 13107u, 16384u, 21845u, 32767u}) for(int k = -1; k <= 1; k++) ns.insert(d + k);
    for(char k: {'a', 'w', 'e', 'u', 'm', 'x'}) for(uint64_t n: ns) ctx.emit(fmt("%c:%lu", k, n));
    if(ctx.thorough) for(char k: {'a', 'w'}) ctx.emit(fmt("%c:%lu", k, 1ul << 28));
}
static void gen_payload(Ctx &ctx) {
    for(int up = 0; up < 3; up++)
        for(int d = 1; d <= 7; d++) {
            uint64_t top = 1ull << 4 * (d < 6 ? d : 6);
            for(uint64_t a = 0; a < top; a += 0x10000) {
                if(!ctx.thorough && d >= 6 && (up || d == 7) && a > 0x120000 && a < 0xfd0000) continue;
                if(!ctx.thorough && d == 7 && a > 0x10000 && a < 0xff0000) continue;
                ctx.emit(fmt("%d %d %d %lx-%lx", d, up, d % 2, a, std::min(a + 0xffff, top - 1)));
            }
        }
}

// ------------------------------------------------------------------ C13
typedef std::vector<uint8_t> Elem;
static std::vector<const uint8_t *> *seen;
static void visit(void *e) { seen->push_back((const uint8_t *) e); }
static Elem elem_value(size_t size, uint64_t serial) {
    Elem e(size);
    for(size_t i = 0; i < size; i++) e[i] = (uint8_t) (serial * 37 + i * 11 + (serial >> 8));
    if(size >= 8) memcpy(e.data(), &serial, 8);
    return e;
}
struct StackRun {
    passgen_stack s;
    std::vector<Elem> m;
    size_t size;
    uint64_t serial = 1;
    std::string why;
    bool push(int mode) {
        Elem v = elem_value(size, serial++);
        uint8_t *tmp = (uint8_t *) malloc(size);
        memcpy(tmp, v.data(), size);
        uint8_t *p = (uint8_t *) passgen_stack_push(&s, mode ? NULL : tmp);
        memset(tmp, 0xEE, size);
        free(tmp);
        if(!p) { why = "push returned nothing"; return false; }
        if(mode) memcpy(p, v.data(), size); // the returned element is filled in by the caller
        if(memcmp(p, v.data(), size)) { why = "push returned an element with another value"; return false; }
        m.push_back(v);
        return true;
    }
    bool pop(int mode) {
        uint8_t *tmp = (uint8_t *) malloc(size);
        memset(tmp, 0xEE, size);
        void *r = passgen_stack_pop(&s, mode ? NULL : tmp);
        bool ok = true;
        if(m.empty()) {
            if(r) { why = "pop of an empty stack returned something"; ok = false; }
            for(size_t i = 0; i < size; i++) if(tmp[i] != 0xEE) { why = "pop of an empty stack wrote an element"; ok = false; }
        } else {
            if(!mode && (r != tmp || memcmp(tmp, m.back().data(), size))) { why = "pop returned another value than was pushed last"; ok = false; }
            m.pop_back();
        }
        free(tmp);
        return ok;
    }
    bool quick() {
        if(s.len != m.size()) { why = fmt("length is %zu, expected %zu", s.len, m.size()); return false; }
        uint8_t *t = (uint8_t *) passgen_stack_top(&s);
        if(m.empty() ? t != NULL : !t || memcmp(t, m.back().data(), size)) { why = "top is wrong"; return false; }
        if(passgen_stack_get(&s, m.size()) || passgen_stack_get(&s, m.size() + 1) || passgen_stack_get(&s, m.size() + 31) || passgen_stack_get(&s, m.size() + 1000) || passgen_stack_get(&s, ~(size_t) 0)) { why = "access beyond the end yields something"; return false; }
        return true;
    }
    bool full() {
        if(!quick()) return false;
        for(size_t i = 0; i < m.size(); i++) {
            uint8_t *p = (uint8_t *) passgen_stack_get(&s, i);
            if(!p || memcmp(p, m[i].data(), size)) { why = fmt("element %zu of %zu is wrong", i, m.size()); return false; }
        }
        std::vector<const uint8_t *> v;
        seen = &v;
        passgen_stack_foreach(&s, visit);
        if(v.size() != m.size()) { why = fmt("iteration visits %zu of %zu elements", v.size(), m.size()); return false; }
        for(size_t i = 0; i < v.size(); i++)
            if(memcmp(v[i], m[i].data(), size)) { why = fmt("iteration yields another value for element %zu of %zu", i, m.size()); return false; }
        return true;
    }
};
// case: "<element size> <start length> <ops>", ops: + push, * push without value, - pop, _ pop without destination, number n before an op repeats it
static void check_stack(Ctx &ctx, const std::string &c) {
    size_t base = __sanitizer_get_current_allocated_bytes();
    std::string why;
    {
        size_t size, start;
        int off;
        sscanf(c.c_str(), "%zu %zu %n", &size, &start, &off);
        StackRun r;
        r.size = size;
        memset(&r.s, 0x5a, sizeof r.s);
        passgen_stack_init(&r.s, size);
        bool ok = true;
        for(size_t i = 0; i < start && ok; i++) { ok = r.push(i % 3 == 2); if(ok && size < 64) ok = r.quick(); }
        if(ok && start) ok = r.full();
        const char *p = c.c_str() + off;
        size_t steps = start;
        while(ok && *p) {
            size_t n = 1;
            if(isdigit(*p)) { n = strtoul(p, (char **) &p, 10); }
            char op = *p++;
            for(size_t i = 0; i < n && ok; i++) {
                ok = op == '+' || op == '*' ? r.push(op == '*') : r.pop(op == '_');
                ok = ok && r.quick();
                steps++;
            }
            ok = ok && (r.m.size() < 100 || !*p || n > 1 ? r.full() : true);
        }
        if(!ok) why = r.why;
        ctx.transitions(steps);
        passgen_stack_free(&r.s);
    }
    size_t left = __sanitizer_get_current_allocated_bytes();
    if(why.empty() && left > base + 4096 * 8) {} // see the balance space
    if(!why.empty()) ctx.fail("stack " + c, fmt("element size, start length and operations '%s': %s", c.c_str(), why.c_str()));
    ctx.state(hash_str(c));
    ctx.trace(1);
}
static void gen_stack(Ctx &ctx) {
    std::vector<size_t> sizes = {1, 8, 24};
    int depth = ctx.thorough ? 10 : 7;
    for(size_t size: sizes)
        for(size_t start = 0; start <= (ctx.thorough ? 300 : 140); start++)
            all_strings({"+", "-"}, depth, [&](const std::string &s, size_t d) { if((int) d == depth) ctx.emit(fmt("%zu %zu %s", size, start, s.c_str())); return !ctx.stopped(); });
    for(size_t size: {2, 3, 4, 5, 7, 12, 16, 40, 100, 1000, 5000})
        for(size_t start = 0; start <= 140; start++)
            for(auto s: {"+-+--++", "--+*-_+", "***__*_", "_*+-_+*"}) ctx.emit(fmt("%zu %zu %s", size, start, s));
    // runs: every pattern of pushes and pops over boundary counts
    std::vector<int> cnt = {1, 2, 3, 4, 5, 8, 16, 17, 31, 32, 33, 64, 65, 128, 129, 260};
    for(int a: cnt) for(int b: cnt) for(int d: cnt) for(int e: {1, 32, 33, 70}) ctx.emit(fmt("8 0 %d+%d-%d+%d-%d+", a, b, d, e, a));
    for(int a: {1000, 1023, 1024, 1025, 2048, 2049, 5000}) for(int b: {1, 31, 32, 33, 500, 999, 1000, 2049, 5001}) ctx.emit(fmt("16 0 %d+%d-%d+%d-", a, b, a, a + a));
}
// memory balance: live bytes after the history equal those before it
static void check_balance(Ctx &ctx, const std::string &c) {
    size_t size, n, k;
    sscanf(c.c_str(), "%zu %zu %zu", &size, &n, &k);
    uint8_t *v = (uint8_t *) calloc(1, size);
    size_t before = __sanitizer_get_current_allocated_bytes();
    passgen_stack s;
    passgen_stack_init(&s, size);
    for(size_t i = 0; i < n; i++) passgen_stack_push(&s, v);
    for(size_t i = 0; i < k; i++) passgen_stack_pop(&s, v);
    size_t live = __sanitizer_get_current_allocated_bytes() - before;
    if(k == n && live && n) { }
    passgen_stack_free(&s);
    size_t after = __sanitizer_get_current_allocated_bytes();
    free(v);
    if(after != before) ctx.fail("leak " + c, fmt("stack of %zu elements of %zu bytes with %zu popped: %zu bytes remain allocated after freeing", n, size, k, after - before));
    if(after == before && n) {
        // arrays
        before = __sanitizer_get_current_allocated_bytes();
        passgen_array a;
        passgen_array_init(&a, k);
        for(size_t i = 0; i < n; i++) passgen_array_push(&a, &a);
        passgen_array_free(&a);
        after = __sanitizer_get_current_allocated_bytes();
        if(after != before) ctx.fail("leak-array " + c, fmt("array with initial capacity %zu and %zu elements: %zu bytes remain allocated", k, n, after - before));
    }
    ctx.transitions(n + k);
    ctx.state(hash_str(c));
    ctx.trace(1);
}
static void gen_balance(Ctx &ctx) {
    for(size_t size: {1, 8, 24, 200})
        for(size_t n = 0; n <= 140; n++)
            for(size_t k = 0; k <= n; k++) ctx.emit(fmt("%zu %zu %zu", size, n, k));
}
// case: "<initial capacity> <start> <ops>"; + push, - pop, R reallocate to the current length + 3, = reallocate exactly
static void check_array(Ctx &ctx, const std::string &c) {
    size_t cap, start;
    int off;
    sscanf(c.c_str(), "%zu %zu %n", &cap, &start, &off);
    passgen_array a;
    memset(&a, 0x5a, sizeof a);
    passgen_array_init(&a, cap);
    std::vector<void *> m;
    uintptr_t serial = 1;
    std::string ops(start, '+'), why;
    ops += c.substr(off);
    for(size_t i = 0; i < ops.size() && why.empty(); i++) {
        if(ops[i] == '+') { void *v = (void *) (serial++ * 8 + (serial % 5 == 0 ? 0 : 1)); passgen_array_push(&a, v); m.push_back(v); }
        else if(ops[i] == '-') {
            void *v = passgen_array_pop(&a), *w = m.empty() ? NULL : m.back();
            if(!m.empty()) m.pop_back();
            if(v != w) why = "pop returned another value";
        } else if(ops[i] == 'R') passgen_array_realloc(&a, m.size() + 3);
        else if(m.size()) passgen_array_realloc(&a, m.size());
        if(a.items != m.size()) why = fmt("length is %zu, expected %zu", a.items, m.size());
        if(why.empty() && (i >= start || i + 1 == start))
            for(size_t j = 0; j < m.size() && why.empty(); j++) if(passgen_array_get(&a, j) != m[j]) why = fmt("element %zu of %zu is wrong", j, m.size());
    }
    ctx.transitions(ops.size());
    passgen_array_free(&a);
    if(!why.empty()) ctx.fail("array " + c, fmt("initial capacity, start length and operations '%s': %s", c.c_str(), why.c_str()));
    ctx.state(hash_str(c));
    ctx.trace(1);
}
// ---- large ones, without a copy: element i is a function of i. case "<s or a> <count> <element size> <pops between>"
static uint64_t large_seen, large_bad;
static size_t large_size;
static void large_fill(uint8_t *p, size_t size, uint64_t i) {
    for(size_t k = 0; k < size && k < 24; k++) p[k] = (uint8_t) ((i * 0x9E3779B97F4A7C15ull + k * 77) >> (k % 8 * 8));
    for(size_t k = size > 24 ? size - 16 : size; k < size; k++) p[k] = (uint8_t) (i + k);
}
static bool large_is(const uint8_t *p, size_t size, uint64_t i) {
    uint8_t b[24];
    size_t n = size < 24 ? size : 24;
    large_fill(b, n, i);
    if(memcmp(b, p, n)) return false;
    for(size_t k = size > 24 ? size - 16 : size; k < size; k++) if(p[k] != (uint8_t) (i + k)) return false;
    return true;
}
static void large_visit(void *e) { if(!large_is((const uint8_t *) e, large_size, large_seen)) large_bad++; large_seen++; }
static void check_large(Ctx &ctx, const std::string &c) {
    char kind;
    size_t n, size, gap;
    sscanf(c.c_str(), "%c %zu %zu %zu", &kind, &n, &size, &gap);
    std::string why;
    auto probes = [&](size_t len) {
        std::set<size_t> o;
        for(size_t b = 1; b && b < 2 * len; b *= 2) for(size_t d: {b - 2, b - 1, b, b + 1, b / 2 * 3, len - b, len - b - 1}) if(d < len) o.insert(d);
        for(size_t i = 0; i < len; i += len / 1000 + 1) o.insert(i);
        return o;
    };
    std::vector<uint8_t> e(size + 1);
    if(kind == 's') {
        passgen_stack s;
        passgen_stack_init(&s, size);
        size_t len = 0, turn = n / 3 * 2;
        auto push = [&]() {
            large_fill(e.data(), size, len);
            uint8_t *p = (uint8_t *) passgen_stack_push(&s, len % 3 ? e.data() : NULL);
            if(!p) { why = "push yields nothing"; return; }
            if(len % 3 == 0) memcpy(p, e.data(), size);
            len++;
        };
        auto pop = [&]() {
            len--;
            memset(e.data(), 0xEE, size);
            void *r = passgen_stack_pop(&s, e.data());
            if(r != e.data() || !large_is(e.data(), size, len)) why = fmt("pop does not yield element %zu", len);
        };
        auto look = [&]() {
            if(s.len != len) { why = fmt("length is %zu, expected %zu", s.len, len); return; }
            for(size_t i: probes(len)) { uint8_t *p = (uint8_t *) passgen_stack_get(&s, i); if(!p || !large_is(p, size, i)) { why = fmt("element %zu of %zu is wrong", i, len); return; } }
            if(passgen_stack_get(&s, len) || passgen_stack_get(&s, 2 * len)) { why = "access beyond the end yields something"; return; }
            uint8_t *t = (uint8_t *) passgen_stack_top(&s);
            if(len ? !t || !large_is(t, size, len - 1) : !!t) { why = "top is wrong"; return; }
            large_seen = large_bad = 0;
            large_size = size;
            passgen_stack_foreach(&s, large_visit);
            if(large_seen != len || large_bad) why = fmt("iteration visits %llu of %zu elements, %llu of them wrong", (unsigned long long) large_seen, len, (unsigned long long) large_bad);
            ctx.beat();
        };
        for(size_t i = 0; i < n && why.empty(); i++) {
            push();
            if(gap && i % gap == 0) { if(why.empty()) pop(); if(why.empty() && len) pop(); if(why.empty()) push(); if(why.empty()) push(); if(why.empty()) s.len == len ? (void) 0 : (void) (why = "length is wrong"); }
            if((i & 0xffff) == 0) ctx.beat();
            if((i & (i + 1)) == 0 && why.empty()) look();
        }
        if(why.empty()) look();
        while(why.empty() && len > n - turn) { pop(); if((len & 0xffff) == 0) ctx.beat(); }
        if(why.empty()) look();
        for(size_t i = 0; i < 100 && why.empty(); i++) push();
        if(why.empty()) look();
        if(n % 2) while(why.empty() && len) pop();
        passgen_stack_free(&s);
    } else {
        passgen_array a;
        passgen_array_init(&a, size);
        auto value = [](size_t i) { return (void *) (uintptr_t) (i * 0x9E3779B97F4A7C15ull); };
        size_t len = 0;
        for(size_t i = 0; i < n && why.empty(); i++) {
            passgen_array_push(&a, value(len++));
            if(gap && i % gap == 0 && passgen_array_pop(&a) != value(--len)) why = fmt("pop does not yield element %zu", len);
            if((i & 0xffff) == 0) ctx.beat();
        }
        if(why.empty() && a.items != len) why = fmt("length is %zu, expected %zu", a.items, len);
        for(size_t i = 0; i < len && why.empty(); i++) if(passgen_array_get(&a, i) != value(i)) why = fmt("element %zu of %zu is wrong", i, len);
        while(why.empty() && len) if(passgen_array_pop(&a) != value(--len)) why = fmt("pop does not yield element %zu", len);
        passgen_array_free(&a);
    }
    if(!why.empty()) ctx.fail("large " + c, fmt("container, count, element size, pops '%s': ", c.c_str()) + why);
    ctx.transitions(2 * n);
    ctx.state(hash_str(c));
    ctx.trace(1);
}
static void gen_large(Ctx &ctx) {
    for(size_t gap: {0, 7, 1000})
        for(size_t n: {40000, 65536, 70001, 1000000, 2097152, 2200001, 5000000}) {
            if(n > 1000000 && gap == 7) continue;
            if(n > 2200001 && gap) continue;
            ctx.emit(fmt("s %zu %d %zu", n, 1, gap));
            if(n <= 2200001) ctx.emit(fmt("s %zu %d %zu", n, 8, gap));
            if(n < 100000) ctx.emit(fmt("s %zu %d %zu", n, 40, gap));
            ctx.emit(fmt("a %zu %d %zu", n, n % 3 ? 0 : 5, gap));
        }
    for(size_t size: {255, 256, 257, 2047, 2048, 2049, 65535, 65536, 65537, 100000, 1000003}) for(int n: {1, 2, 3, 5, 17, 33, 65, 100}) if(size * n < 20000000) ctx.emit(fmt("s %d %zu %d", n, size, n % 3));
    ctx.emit(fmt("s 5 %zu 0", (size_t) 134217728 + 1));
    if(ctx.thorough) ctx.emit("s 140000000 1 0"), ctx.emit("a 140000000 0 0");
}
static void gen_array(Ctx &ctx) {
    int depth = ctx.thorough ? 10 : 7;
    for(size_t cap: {0, 1, 2, 3, 4, 5, 8, 100})
        for(size_t start = 0; start <= 70; start++) {
            all_strings({"+", "-"}, depth, [&](const std::string &s, size_t d) { if((int) d == depth) ctx.emit(fmt("%zu %zu %s", cap, start, s.c_str())); return !ctx.stopped(); });
            all_strings({"+", "-", "R", "="}, depth - 3, [&](const std::string &s, size_t d) { if((int) d == depth - 3) ctx.emit(fmt("%zu %zu %s", cap, start, s.c_str())); return !ctx.stopped(); });
        }
    for(size_t start: {127, 128, 129, 255, 256, 257, 1000, 5000}) for(auto s: {"+++", "---", "-+-+", "R+++++", "=+"}) ctx.emit(fmt("0 %zu %s", start, s));
}

int main(int argc, char **argv) {
    std::string prop = "?";
    for(int i = 1; i + 1 < argc; i++) if(!strcmp(argv[i], "--prop")) prop = argv[i + 1];
    if(prop == "C09") {
        add({"bytes", "all byte strings of length 1 to 3, and 4 bytes behind critical two-byte prefixes, with output limits and resumption", gen_bytes, check_bytes});
        add({"classes", "all strings up to length 5 (6) over 27 representatives of the byte classes; all strings of up to 5 characters of each width with malformed ones in between", gen_rep, check_rep});
        add({"runs", "runs of 1..25 and up to 160 bytes of one of 6 characters between 18 heads and 16 tails, complete, incomplete or malformed, with every output limit and resumption", gen_runs, check_bytes});
        add({"codepoints", "every value from 0 to 0x11ffff and around every power of two beyond (thorough: all 2^32)", gen_cps, check_cps});
        add({"encode-space", "all width sequences up to length 5 (7) x every output size x start positions, resumed until done", gen_encode, check_encode});
        add({"long", "texts of 8 mixtures of widths of 6..300 and around powers of two up to 2^20 (2^24) characters, whole, in pieces, with malformed ends, with exactly enough or too little room; encoded again", gen_long, check_long});
    }
    if(prop == "C10") {
        add({"sequences", "all sequences up to length 6 (7) over 17 code points, one call per code point, varying widths", [](Ctx &c) { for(size_t x = 0; x < TALPHA.size(); x++) for(size_t y = 0; y < TALPHA.size(); y++) c.emit(fmt("%zu,%zu", x, y)); }, check_tokens});
        add({"codepoints", "every code point in 16 automaton states, with 3 continuations", gen_tok_cps, check_tok_cps});
        add({"payloads", "every hexadecimal payload of 1 to 6 digits in lower case, and in upper and mixed case (quick: up to 0x120000); 7 digits", gen_payload, check_payload});
        add({"long", "5 kinds of tokens, and input behind an error, for up to 2^20 (2^26, two kinds 2^28) tokens, followed by tokens of every kind", gen_tok_long, check_tok_long, 120});
    }
    if(prop == "C13") {
        add({"stack", "all push/pop sequences of length 7 (10) from every length 0..140 (300) for 3 element sizes; other element sizes; run patterns over growth boundaries", gen_stack, check_stack});
        add({"balance", "every (length, number popped) up to 140: live memory after freeing", gen_balance, check_balance, 60});
        add({"array", "all push/pop/reallocate sequences from every length 0..70 for 8 initial capacities", gen_array, check_array});
        add({"large", "stacks and arrays of up to 5000000 (140000000) elements, elements of up to 2^27 bytes", gen_large, check_large, 120});
    }
    return main_(argc, argv);
}
