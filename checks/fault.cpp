// C21: every fault of the underlying source at every point of request histories.  Each case runs in a
// process of its own, which logs what it handed out to shared memory.
#include "mc.hpp"
extern "C" {
#include <passgen/passgen.h>
#include <passgen/generate.h>
#include <passgen/random.h>
#include <passgen/error.h>
#include <passgen/pattern/env.h>
}
#include <algorithm>
using namespace mc;

static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static std::string fmt(const char *f, ...) {
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

// ------------------------------------------------------------------ the source
static const size_t LOGMAX = 1 << 17;
struct Log {
    int opened, open_null, done;
    int nreq;
    size_t len;             // bytes handed out by completed requests
    size_t demand;          // at least this many bytes were asked for by completed requests
    uint64_t calls, delivered;
    int faulted;
    uint8_t bytes[LOGMAX];
    size_t end[64];
};
static Log *L;
enum { NONE, SHORT, SHORT_RESUME, ZERO, ZERO_RESUME, ERR, ERR_RESUME, EINTR_RESUME, KINDS };
static const char *KIND[] = {"no fault", "short read, then nothing", "one short read", "end of file", "one empty read", "error", "one error", "one interruption"};
static uint64_t F = ~0ull, POS;
static int K, FIRED;
static uint8_t src_byte(uint64_t i) {
    uint64_t h = (i + 1) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    return h;
}
// the device: delivers its bytes until position F, then misbehaves
static ssize_t device(void *d, size_t n) {
    L->calls++;
    uint8_t *b = (uint8_t *) d;
    auto give = [&](size_t k) { for(size_t i = 0; i < k; i++) b[i] = src_byte(POS + i); POS += k; L->delivered = POS; };
    if(K == NONE || POS + n <= F || (FIRED && (K == SHORT_RESUME || K == ZERO_RESUME || K == ERR_RESUME || K == EINTR_RESUME))) { give(n); return n; }
    L->faulted = 1;
    bool first = !FIRED;
    FIRED = 1;
    size_t k = F > POS ? F - POS : 0;
    if((K == SHORT || K == SHORT_RESUME) && first && k > 0) {
        give(k);
        for(size_t i = k; i < n; i++) b[i] = 0xEE;      // the device left rubbish behind what it delivered
        return k;
    }
    if(K == SHORT || K == ZERO || K == ZERO_RESUME || K == SHORT_RESUME) return 0;
    errno = K == EINTR_RESUME ? EINTR : EIO;
    return -1;
}
static size_t raw_read(void *, void *d, size_t n) { return (size_t) device(d, n); }
static void raw_close(void *) {}
static ssize_t ck_read(void *, char *b, size_t n) { return device(b, n); }
static int ck_close(void *) { return 0; }
extern "C" {
ssize_t __wrap_getrandom(void *d, size_t n, unsigned) { return device(d, n); }
int __wrap_getentropy(void *d, size_t n) { ssize_t r = device(d, n); if(r >= 0 && (size_t) r == n) return 0; errno = EIO; return -1; }
}

static passgen_random OBJ;
static passgen_random *open_source(char src, uint64_t len) {
    cookie_io_functions_t f = {ck_read, NULL, NULL, ck_close};
    FILE *fp = NULL;
    switch(src) {
        case 'c': case 'C': // a custom source: used as the tests of the project do
            memset(&OBJ, 0, sizeof OBJ);
            OBJ.read = raw_read;
            OBJ.close = raw_close;
            passgen_random_reload(&OBJ);
            return &OBJ;
        case 'f': fp = fopencookie(NULL, "r", f); setvbuf(fp, NULL, _IONBF, 0); return passgen_random_file_open(NULL, fp);
        case 'b': fp = fopencookie(NULL, "r", f); return passgen_random_file_open(&OBJ, fp);
        case 's': return passgen_random_open(NULL, NULL);
        case 'S': return passgen_random_open(&OBJ, "system");
        case 'p': case 'd': {
            // an actual file that ends at F
            std::string path = fmt("file-%d", getpid());
            FILE *o = fopen(path.c_str(), "w");
            for(uint64_t i = 0; i < len; i++) fputc(src_byte(i), o);
            fclose(o);
            L->calls = 1;
            L->delivered = len;
            L->faulted = 1;
            passgen_random *r = src == 'p' ? passgen_random_path_open(NULL, path.c_str()) : passgen_random_open(NULL, ("file:" + path).c_str());
            unlink(path.c_str());
            return r;
        }
    }
    return NULL;
}
static passgen_pattern PAT[2];
static int push(void *d, uint32_t cp) {
    (void) d;
    if(L->len < LOGMAX) L->bytes[L->len++] = cp;
    return 0;
}
// history: ops separated by blanks: rN read, tW typed draw, bW bounded draw, o boolean, gI generate pattern I
static void child(char src, const std::string &hist, uint64_t len) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(20);
    int d = open("/dev/null", O_WRONLY);
    dup2(d, 1); dup2(d, 2);
    passgen_random *r = open_source(src, len);
    if(!r) { L->open_null = 1; _exit(0); }
    L->opened = 1;
    static uint8_t buf[1 << 16];
    const char *p = hist.c_str();
    while(*p) {
        char op = *p++;
        char *e;
        size_t n = strtoul(p, &e, 10);
        p = *e == ' ' ? e + 1 : e;
        uint64_t v = 0;
        size_t demand = n;
        switch(op) {
            case 'r':
                memset(buf, 0xA5, n);
                passgen_random_read(r, buf, n);
                memcpy(L->bytes + L->len, buf, n);
                L->len += n;
                break;
            case 't': v = n == 1 ? passgen_random_u8(r) : n == 2 ? passgen_random_u16(r) : n == 4 ? passgen_random_u32(r) : passgen_random_u64(r); break;
            case 'b': demand = 1; v = n == 1 ? passgen_random_u8_max(r, 200) : n == 2 ? passgen_random_u16_max(r, 50000) : n == 4 ? passgen_random_u32_max(r, 3000000000u) : passgen_random_u64_max(r, 1ull << 63); break;
            case 'o': demand = 1; v = passgen_random_bool(r); break;
            case 'g': {
                demand = n == 0 ? 200 : 600;    // [a-p]{400}: 4 bits each; the other one: 600 choices of 8 bits
                size_t mark = L->len;
                passgen_env env;
                passgen_env_init(&env, r);
                if(passgen_generate(&PAT[n], &env, NULL, NULL, push)) L->len = mark;
                env.random = NULL;
                passgen_env_free(&env);
                break;
            }
        }
        if(op != 'r' && op != 'g') { memcpy(L->bytes + L->len, &v, 8); L->len += 8; }
        L->demand += demand;
        L->end[L->nreq] = L->len;
        L->nreq++;
    }
    L->done = 1;
    if(r == &OBJ) passgen_random_close(r);
    else passgen_random_free(r);
    _exit(0);
}
static int run_child(char src, const std::string &hist, uint64_t f, int kind, uint64_t len) {
    memset(L, 0, offsetof(Log, bytes));
    fflush(NULL);
    pid_t pid = fork();
    if(!pid) { F = f; K = kind; POS = 0; FIRED = 0; child(src, hist, len); }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
// case: SRC KIND F ' ' history
static void check_fault(Ctx &ctx, const std::string &c) {
    static std::map<std::string, std::pair<std::vector<uint8_t>, std::vector<size_t>>> base;
    static std::map<std::string, uint64_t> used;
    if(!L) L = (Log *) mmap(NULL, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char src = c[0];
    int kind = c[1] - '0';
    char *e;
    uint64_t f = strtoull(c.c_str() + 2, &e, 10);
    std::string hist = e + 1, bk = std::string(1, src) + hist;
    bool real = src == 'p' || src == 'd';
    if(!base.count(bk)) {
        if(base.size() > 2000) base.clear();
        int st = run_child(src, hist, ~0ull, NONE, 1 << 15);
        if(!WIFEXITED(st) || WEXITSTATUS(st) || !L->done || !L->calls) {
            if(!L->calls) { ctx.skipped(); return; }
            ctx.fail("baseline " + c, fmt("requests '%s' on a faultless source end with status %x", hist.substr(0, 300).c_str(), st));
            return;
        }
        base[bk] = {std::vector<uint8_t>(L->bytes, L->bytes + L->len), std::vector<size_t>(L->end, L->end + L->nreq)};
        used[bk] = L->delivered;
    }
    auto &b = base[bk];
    int st = run_child(src, hist, f, kind, f);
    ctx.evals();
    ctx.state(hash_str(c));
    ctx.transitions(L->nreq + 1);
    ctx.trace();
    if(L->faulted) ctx.nontrivial();
    bool resume = kind == SHORT_RESUME || kind == ZERO_RESUME || kind == ERR_RESUME || kind == EINTR_RESUME;
    std::string what = fmt("%s after %llu bytes of %s, requests '%s': ", real ? "end of file" : KIND[kind], (unsigned long long) f,
        src == 'c' || src == 'C' ? "a custom source" : src == 's' || src == 'S' ? "the system source" : "a file", hist.substr(0, 300).c_str());
    if(WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) { ctx.fail("fault-crash " + c.substr(0, 100), what + fmt("terminated by signal %d", WTERMSIG(st))); return; }
    bool stopped = !L->done && !L->open_null;
    if(stopped && WIFEXITED(st) && WEXITSTATUS(st) == 0) { ctx.fail("fault-quiet " + c.substr(0, 100), what + "the process ends with status 0 without finishing"); return; }
    for(int i = 0; i < L->nreq; i++)
        if(i >= (int) b.second.size() || L->end[i] != b.second[i] || memcmp(L->bytes, b.first.data(), L->end[i])) {
            ctx.fail("fault-bytes " + c.substr(0, 100), what + fmt("request %d is answered with bytes that differ from those of the source", i + 1));
            return;
        }
    if(L->faulted && !resume && L->demand > L->delivered) {
        ctx.fail("fault-count " + c.substr(0, 100), what + fmt("requests for %zu bytes were answered although the source delivered %llu", L->demand, (unsigned long long) L->delivered));
        return;
    }
}

static std::vector<uint64_t> points(const std::string &hist, bool all) {
    // positions worth a fault: around every request boundary (counted both continuously and in blocks), and fixed ones
    std::set<uint64_t> s = {0, 1, 2, 3, 7, 8, 100, 255, 256, 257, 511, 512, 1000};
    auto around = [&](uint64_t x) { for(int d = -2; d <= 2; d++) if((int64_t) x + d >= 0) s.insert(x + d); };
    uint64_t total = 0, blk = 1024;
    const char *p = hist.c_str();
    while(*p) {
        char op = *p++;
        char *e;
        size_t n = strtoul(p, &e, 10);
        p = *e == ' ' ? e + 1 : e;
        if(op == 'g') n = 3200;
        if(op == 'o') n = 1;
        total += n;
        around(total);
        around(1024 + total);
        if(n > 1024) { around(blk + n); s.insert(blk + n / 2); blk += n; }
    }
    for(uint64_t b = 1024; b <= total + 2048; b += 1024) around(b), s.insert(b + 500);
    if(all) for(uint64_t k = 0; k <= total + 1100; k++) s.insert(k);
    return std::vector<uint64_t>(s.begin(), s.end());
}
static void emit_faults(Ctx &ctx, const std::string &hist, const char *sources, bool all, const std::vector<int> &kinds) {
    for(const char *s = sources; *s; s++)
        for(uint64_t f: points(hist, all))
            if(*s == 'p' || *s == 'd') ctx.emit(fmt("%c0%llu ", *s, (unsigned long long) f) + hist);
            else for(int k: kinds) ctx.emit(fmt("%c%d%llu ", *s, k, (unsigned long long) f) + hist);
}
static const std::vector<int> ALLK = {SHORT, SHORT_RESUME, ZERO, ZERO_RESUME, ERR, ERR_RESUME, EINTR_RESUME};
static void histories(Ctx &ctx) {
    std::vector<std::string> al = {"r1", "r8", "r100", "r1000", "r1023", "r1024", "r1025", "r2048", "r3000"};
    for(auto &a: al) emit_faults(ctx, a, "cfbsSpd", false, ALLK);
    for(auto &a: al) for(auto &b: al) emit_faults(ctx, a + " " + b, "cs", false, ALLK), emit_faults(ctx, a + " " + b, "fbp", false, {SHORT, ERR});
    std::vector<std::string> a3 = {"r1", "r100", "r1000", "r1023", "r1024", "r1025"};
    if(ctx.thorough) a3 = al;
    for(auto &a: a3) for(auto &b: a3) for(auto &d: a3) emit_faults(ctx, a + " " + b + " " + d, ctx.thorough ? "cfbsSpd" : "cs", false, ctx.thorough ? ALLK : std::vector<int>{SHORT, SHORT_RESUME, ERR});
}
static void typed(Ctx &ctx) {
    // draws of every kind with the read position at every distance from the end of the buffer
    for(auto &op: {"t1", "t2", "t4", "t8", "b1", "b2", "b4", "b8", "o"})
        for(int at: {0, 1, 1000, 1010, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024}) {
            std::string h = at ? fmt("r%d ", at) : "";
            for(int i = 0; i < 12; i++) h += std::string(op) + " ";
            emit_faults(ctx, h, ctx.thorough ? "cfbsSpd" : "cs", false, ctx.thorough ? ALLK : std::vector<int>{SHORT, ERR, ZERO, SHORT_RESUME});
        }
    // long runs of one draw
    for(auto &op: {"t1", "t2", "t4", "t8", "b1", "b2", "b4", "b8", "o"}) {
        std::string h = "r990 ";
        for(int i = 0; i < 60; i++) h += std::string(op) + " ";
        emit_faults(ctx, h, "cfp", false, {SHORT, ERR, ERR_RESUME});
    }
}
static void sweeps(Ctx &ctx) {
    for(auto h: {"r1024 r1", "r3000 r10", "r700 r700 r700", "r1 r1500 r1024 r1", "g0 g0", "g1", "r1000 g0 g1"})
        emit_faults(ctx, h, ctx.thorough ? "cfbsSpd" : strchr(h, 'g') ? "s" : "csp", true, ctx.thorough ? ALLK : strchr(h, 'g') ? std::vector<int>{SHORT, ERR_RESUME} : std::vector<int>{SHORT, SHORT_RESUME, ERR});
}

int main(int argc, char **argv) {
    passgen_error err;
    if(passgen_parse(&PAT[0], &err, "[a-p]{400}") || passgen_parse(&PAT[1], &err, "([\\u{100}-\\u{1ff}](a|b)?){600}")) return 2;
    add({"histories", "all sequences of up to 2 of 9 and 3 of 6 / 9 request sizes on custom, file (buffered and not), system and path sources x 7 kinds of faults x all points around request and buffer boundaries", histories, check_fault});
    add({"typed", "runs of typed, bounded and boolean draws starting at 14 buffer positions x faults", typed, check_fault});
    add({"sweeps", "faults after every number of bytes during 7 histories of reads and generations", sweeps, check_fault});
    return main_(argc, argv);
}
