// C29: the version check; C30: SipHash; C31: memory contexts.
#include "mc.hpp"
#include <cstdlib>
#include <cstring>
extern "C" {
#include <passgen/version.h>
#include <passgen/util/siphash.h>
#include <passgen/context.h>
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
}
using namespace mc;

// ---- C29: version.c compiled as every one of a set of library versions (see run.py)
struct AnyVersion { int major, minor, patch; passgen_version (*get)(); bool (*compatible)(passgen_version); };
extern "C" const AnyVersion any_versions[];
extern "C" const unsigned any_version_count;
extern "C" const int project_version[3];

static bool compatible(int a, int b, int c, int x, int y, int z) { return a == x && (b > y || (b == y && c >= z)); }
static void check_version(Ctx &ctx, const std::string &c) {
    unsigned v; int major;
    sscanf(c.c_str(), "%u %d", &v, &major);
    AnyVersion own = {project_version[0], project_version[1], project_version[2], passgen_version_get, passgen_version_compatible};
    const AnyVersion &a = v ? any_versions[v - 1] : own;
    passgen_version g = a.get();
    if(g.major != a.major || g.minor != a.minor || g.patch != a.patch)
        return ctx.fail(fmt("get %d.%d.%d", a.major, a.minor, a.patch), fmt("version %d.%d.%d calls itself %d.%d.%d", a.major, a.minor, a.patch, g.major, g.minor, g.patch));
    uint64_t yes = 0;
    for(int y = 0; y < 256; y++)
        for(int z = 0; z < 256; z++)
            for(int s = 0; s < 2; s++) {
                passgen_version want;
                memset(&want, 0, sizeof want);
                want.major = major; want.minor = y; want.patch = z;
                if(s) want.build = "x", want.prerelease = "rc1";
                bool got = a.compatible(want), ref = compatible(a.major, a.minor, a.patch, major, y, z);
                if(got != ref)
                    return ctx.fail(fmt("version %u %d %d %d", v, major, y, z), fmt("library %d.%d.%d %s a program that needs at least %d.%d.%d", a.major, a.minor, a.patch, got ? "accepts" : "refuses", major, y, z));
                yes += got;
            }
    ctx.transitions(2 * 65536);
    ctx.state(hash_str(c));
    ctx.trace(yes ? 1 : 0);
}

// ---- C30: SipHash-2-4, written from its definition
static uint64_t rotl(uint64_t x, int b) { return x << b | x >> (64 - b); }
struct Sip {
    uint64_t v[4];
    void round() {
        v[0] += v[1]; v[2] += v[3]; v[1] = rotl(v[1], 13) ^ v[0]; v[3] = rotl(v[3], 16) ^ v[2]; v[0] = rotl(v[0], 32);
        v[2] += v[1]; v[0] += v[3]; v[1] = rotl(v[1], 17) ^ v[2]; v[3] = rotl(v[3], 21) ^ v[0]; v[2] = rotl(v[2], 32);
    }
};
static uint64_t word(const uint8_t *p, size_t n) { uint64_t w = 0; for(size_t i = 0; i < n; i++) w |= (uint64_t) p[i] << (8 * i); return w; }
static std::string siphash(const uint8_t *in, size_t n, const uint8_t *key, size_t out) {
    uint64_t k0 = word(key, 8), k1 = word(key + 8, 8);
    Sip s = {{k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull}};
    if(out == 16) s.v[1] ^= 0xee;
    size_t i = 0;
    for(; i + 8 <= n; i += 8) { uint64_t m = word(in + i, 8); s.v[3] ^= m; s.round(); s.round(); s.v[0] ^= m; }
    uint64_t b = (uint64_t) n << 56 | word(in + i, n - i);
    s.v[3] ^= b; s.round(); s.round(); s.v[0] ^= b;
    s.v[2] ^= out == 16 ? 0xee : 0xff;
    std::string r;
    for(size_t part = 0; part < out; part += 8) {
        if(part) s.v[1] ^= 0xdd;
        for(int j = 0; j < 4; j++) s.round();
        uint64_t h = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
        for(int j = 0; j < 8; j++) r += (char) (h >> (8 * j));
    }
    return r;
}
static std::string sip_one(const std::vector<uint8_t> &in, const uint8_t *key, size_t shift) {
    size_t n = in.size();
    // exactly as much memory as there is data, at every alignment
    uint8_t *m = (uint8_t *) malloc(n + shift + 1) , *p = m + 1 + shift;
    if(n) memcpy(p, in.data(), n);
    uint8_t *k = (uint8_t *) malloc(16 + 1);
    memcpy(k + 1, key, 16);
    std::string why;
    for(size_t out: {8, 16}) {
        uint8_t *o = (uint8_t *) malloc(out);
        memset(o, 0xa5, out);
        int r = passgen_siphash(p, n, k + 1, o, out);
        if(r != 0) why = fmt("returns %d", r);
        else if(std::string((char *) o, out) != siphash(in.data(), n, key, out)) why = fmt("%zu bytes of output are not SipHash-2-4", out);
        free(o);
    }
    if(n && memcmp(p, in.data(), n)) why = "the input changed";
    free(m);
    free(k);
    return why;
}
static uint8_t pat(const char *kind, size_t i) { return *kind == '0' ? 0 : *kind == 'f' ? 0xff : *kind == 'i' ? i : (uint8_t) (i * 151 + (i >> 8) * 7 + 3); }
static void check_sip(Ctx &ctx, const std::string &c) {
    size_t n; char kind[8], key[8]; long bit, shift, kbit;
    sscanf(c.c_str(), "%zu %7s %7s %ld %ld %ld", &n, kind, key, &bit, &kbit, &shift);
    std::vector<uint8_t> in(n);
    for(size_t i = 0; i < n; i++) in[i] = pat(kind, i);
    uint8_t k[16];
    for(size_t i = 0; i < 16; i++) k[i] = pat(key, i);
    if(kbit >= 0) k[kbit / 8] ^= 1 << kbit % 8;
    size_t from = bit >= 0 ? bit : 0, to = bit == -2 ? n * 8 : from + 1;
    for(size_t b = from; b < to; b++) {
        if(bit != -1) in[b / 8] ^= 1 << b % 8;
        std::string why = sip_one(in, k, shift);
        if(!why.empty()) return ctx.fail(fmt("siphash %zu %s %s %ld %ld %ld", n, kind, key, bit == -1 ? -1 : (long) b, kbit, shift), fmt("%zu bytes '%s' (bit %ld flipped), key '%s' (bit %ld flipped), alignment %ld: ", n, kind, bit == -1 ? -1 : (long) b, key, kbit, shift) + why);
        if(bit != -1) in[b / 8] ^= 1 << b % 8;
        ctx.transitions(2);
    }
    ctx.state(hash_str(c));
    ctx.trace(1);
}
static void gen_sip(Ctx &ctx) {
    size_t N = ctx.thorough ? 4200 : 1100;
    for(size_t n = 0; n <= N; n++)
        for(auto kind: {"0", "f", "i", "m"}) for(auto key: {"0", "f", "i", "m"}) for(int s = 0; s < (n < 80 ? 9 : n < 300 ? 2 : 1); s++) ctx.emit(fmt("%zu %s %s -1 -1 %d", n, kind, key, s));
    for(size_t n = 1; n <= (ctx.thorough ? 600 : 130); n++) for(auto kind: {"0", "m"}) ctx.emit(fmt("%zu %s m -2 -1 0", n, kind));
    for(size_t n: {0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257}) for(int b = 0; b < 128; b++) ctx.emit(fmt("%zu m 0 -1 %d 0", n, b)), ctx.emit(fmt("%zu m m -1 %d 0", n, b));
    for(int p = 12; p <= (ctx.thorough ? 27 : 22); p++) for(int d = -2; d <= 2; d++) for(auto kind: {"0", "m"}) ctx.emit(fmt("%zu %s m -1 -1 0", (size_t) (1 << p) + d, kind));
    for(size_t n: {65535, 65536, 65537, 1 << 20}) for(size_t b: {(size_t) 0, (size_t) 7, n * 4, n * 8 - 1, n * 8 - 9}) ctx.emit(fmt("%zu m m %zu -1 0", n, b));
}

// ---- C31: memory contexts
static std::string LOG;
static char ANSWER[64];
static void *f_malloc(void *s, size_t n) { LOG += fmt("malloc(%p,%zu)", s, n); return ANSWER + 1; }
static void *f_calloc(void *s, size_t c, size_t n) { LOG += fmt("calloc(%p,%zu,%zu)", s, c, n); return ANSWER + 2; }
static void *f_realloc(void *s, void *p, size_t n) { LOG += fmt("realloc(%p,%p,%zu)", s, p, n); return ANSWER + 3; }
static void f_free(void *s, void *p) { LOG += fmt("free(%p,%p)", s, p); }
static void *g_malloc(void *s, size_t n) { LOG += fmt("MALLOC(%p,%zu)", s, n); return NULL; }
static void *g_calloc(void *s, size_t c, size_t n) { LOG += fmt("CALLOC(%p,%zu,%zu)", s, c, n); return NULL; }
static void *g_realloc(void *s, void *p, size_t n) { LOG += fmt("REALLOC(%p,%p,%zu)", s, p, n); return NULL; }
static void g_free(void *s, void *p) { LOG += fmt("FREE(%p,%p)", s, p); }
// operations: m c r f (set the first function), M C R F (the second), 1..4 (unset), s (state), S (other state), i (initialise again)
static const char *OPS = "mcrfMCRF1234sSi";
static void check_context(Ctx &ctx, const std::string &c) {
    struct { uint8_t before[16]; passgen_context ctx; uint8_t after[16]; } box;
    memset(&box, 0x5a, sizeof box);
    passgen_context *x = &box.ctx;
    passgen_context_init(x);
    int set[4] = {0, 0, 0, 0};
    void *state = NULL;
    int A, B;
    std::string why;
    size_t steps = 0;
    for(size_t i = 0; i <= c.size() && why.empty(); i++) {
        if(i) switch(char op = c[i - 1]) {
            case 'm': passgen_context_set_malloc(x, f_malloc); set[0] = 1; break;
            case 'c': passgen_context_set_calloc(x, f_calloc); set[1] = 1; break;
            case 'r': passgen_context_set_realloc(x, f_realloc); set[2] = 1; break;
            case 'f': passgen_context_set_free(x, f_free); set[3] = 1; break;
            case 'M': passgen_context_set_malloc(x, g_malloc); set[0] = 2; break;
            case 'C': passgen_context_set_calloc(x, g_calloc); set[1] = 2; break;
            case 'R': passgen_context_set_realloc(x, g_realloc); set[2] = 2; break;
            case 'F': passgen_context_set_free(x, g_free); set[3] = 2; break;
            case '1': passgen_context_set_malloc(x, NULL); set[0] = 0; break;
            case '2': passgen_context_set_calloc(x, NULL); set[1] = 0; break;
            case '3': passgen_context_set_realloc(x, NULL); set[2] = 0; break;
            case '4': passgen_context_set_free(x, NULL); set[3] = 0; break;
            case 's': passgen_context_set_alloc_state(x, state = &A); break;
            case 'S': passgen_context_set_alloc_state(x, state = &B); break;
            case 'i': passgen_context_init(x); memset(set, 0, sizeof set); state = NULL; break;
        }
        if(i < c.size()) continue;              // prefixes are cases of their own
        // every request, in the context as it is now
        for(size_t n: {(size_t) 1, (size_t) 24, (size_t) 7000}) {
            std::string want, at = fmt("after '%.*s': ", (int) i, c.c_str());
            LOG.clear();
            void *p = passgen_malloc(x, n);
            want = set[0] ? fmt("%s(%p,%zu)", set[0] == 1 ? "malloc" : "MALLOC", state, n) : "";
            if(LOG != want || (set[0] == 1 && p != ANSWER + 1) || (set[0] == 2 && p)) why = at + "a request for memory goes to '" + LOG + "', not '" + want + "'";
            if(!set[0] && p) memset(p, 1, n);
            LOG.clear();
            void *q = passgen_calloc(x, 3, n);
            want = set[1] ? fmt("%s(%p,3,%zu)", set[1] == 1 ? "calloc" : "CALLOC", state, n) : "";
            if(LOG != want || (set[1] == 1 && q != ANSWER + 2) || (set[1] == 2 && q)) why = at + "a request for cleared memory goes to '" + LOG + "', not '" + want + "'";
            if(!set[1]) { for(size_t j = 0; j < 3 * n; j++) if(((char *) q)[j]) why = at + "cleared memory is not clear"; memset(q, 1, 3 * n); }
            LOG.clear();
            void *r0 = set[2] ? (void *) &box : malloc(8);
            if(!set[2]) memcpy(r0, "content", 8);
            void *r = passgen_realloc(x, r0, n + 8);
            want = set[2] ? fmt("%s(%p,%p,%zu)", set[2] == 1 ? "realloc" : "REALLOC", state, r0, n + 8) : "";
            if(LOG != want || (set[2] == 1 && r != ANSWER + 3) || (set[2] == 2 && r)) why = at + "a request to resize goes to '" + LOG + "', not '" + want + "'";
            if(!set[2]) { if(memcmp(r, "content", 8)) why = at + "resizing loses the content"; memset(r, 1, n + 8); free(r); }
            LOG.clear();
            void *d = set[3] ? (void *) &box : malloc(n);
            passgen_free(x, d);
            want = set[3] ? fmt("%s(%p,%p)", set[3] == 1 ? "free" : "FREE", state, d) : "";
            if(LOG != want) why = at + "a release goes to '" + LOG + "', not '" + want + "'";
            if(!set[0]) free(p);
            if(!set[1]) free(q);
            steps += 4;
        }
    }
    // unusual arguments go to a function that was set unchanged, and to the C library otherwise
    const size_t odd[] = {0, 1, 255, 256, 65536, 1ull << 31, 1ull << 32, (1ull << 32) + 1, SIZE_MAX / 2, SIZE_MAX};
    const char *const NAME[4][3] = {{"", "malloc", "MALLOC"}, {"", "calloc", "CALLOC"}, {"", "realloc", "REALLOC"}, {"", "free", "FREE"}};
    auto expect = [&](int f, const std::string &args, void *got, int k) {
        std::string want = set[f] ? fmt("%s(%p,", NAME[f][set[f]], state) + args + ")" : "";
        if(why.empty() && (LOG != want || (f != 3 && set[f] == 1 && got != ANSWER + k) || (f != 3 && set[f] == 2 && got))) why = "after '" + c + "': a request goes to '" + LOG + "', not '" + want + "', or its result is changed";
        LOG.clear();
        steps++;
    };
    LOG.clear();
    for(size_t n: odd) {
        if(set[0]) { void *p = passgen_malloc(x, n); expect(0, fmt("%zu", n), p, 1); }
        if(set[1]) for(size_t k: odd) { void *p = passgen_calloc(x, k, n); expect(1, fmt("%zu,%zu", k, n), p, 2); }
        if(set[2]) for(void *q: {(void *) NULL, (void *) &box}) { void *p = passgen_realloc(x, q, n); expect(2, fmt("%p,%zu", q, n), p, 3); }
    }
    if(!set[1]) { void *p = passgen_calloc(x, SIZE_MAX / 2 + 2, 2); if(p) why = "after '" + c + "': an impossible request succeeds"; }
    if(!set[2]) { void *p = passgen_realloc(x, NULL, 50); if(!p) why = "after '" + c + "': resizing nothing fails"; else memset(p, 1, 50); free(p); }
    passgen_free(x, NULL);
    expect(3, fmt("%p", (void *) NULL), NULL, 0);
    size_t before = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    if(why.empty() && !set[3]) for(int i = 0; i < 3; i++) passgen_free(x, malloc(1000));
    size_t after = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    if(before != after) why = "'" + c + "': released memory is still allocated";
    for(uint8_t b: box.before) if(b != 0x5a) why = "memory next to the context is written";
    for(uint8_t b: box.after) if(b != 0x5a) why = "memory next to the context is written";
    if(!why.empty()) return ctx.fail("context " + c, why);
    ctx.transitions(steps + c.size());
    ctx.state(hash_str(fmt("%d%d%d%d%d", set[0], set[1], set[2], set[3], state == NULL ? 0 : state == &A ? 1 : 2)));
    ctx.trace(1);
}
static void gen_context(Ctx &ctx) {
    int depth = ctx.thorough ? 5 : 4;
    std::function<void(std::string)> go = [&](std::string s) {
        ctx.emit(s);
        if((int) s.size() < depth) for(const char *o = OPS; *o; o++) go(s + *o);
    };
    go("");
    // every combination of functions and states, reached in both orders
    for(int m = 0; m < 81 * 3; m++) {
        std::string s;
        int k = m;
        for(int f = 0; f < 4; f++, k /= 3) if(k % 3) s += k % 3 == 1 ? "mcrf"[f] : "MCRF"[f];
        if(k) s += k == 1 ? 's' : 'S';
        ctx.emit(s);
        ctx.emit(std::string(s.rbegin(), s.rend()));
        for(int f = 0; f < 4; f++) ctx.emit(s + "1234"[f]);
    }
}

int main(int argc, char **argv) {
    std::string prop = "?";
    for(int i = 1; i + 1 < argc; i++) if(!strcmp(argv[i], "--prop")) prop = argv[i + 1];
    if(prop == "C29") add({"versions", "48 library versions (compiled from the code) and the project's own x all 2^24 versions a program can ask for", [](Ctx &c) { for(unsigned v = 0; v <= any_version_count; v++) for(int m = 0; m < 256; m++) c.emit(fmt("%u %d", v, m)); }, check_version});
    if(prop == "C30") add({"inputs", "every length 0..1100 (4200) and around powers of two to 2^22 (2^27) x 4 contents x 4 keys, every alignment, every single bit of inputs up to 130 (600) bytes and of the key", gen_sip, check_sip, 120});
    if(prop == "C31") add({"histories", "all sequences of up to 4 (5) changes of a context over 15 kinds, every request after each; every combination of functions", gen_context, check_context});
    return main_(argc, argv);
}
