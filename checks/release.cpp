// C23: after a randomness source is closed or freed, the writable memory of the whole process is searched
// for every piece of its stream, its key and its state; objects passed for release must be cleared.
#include "mc.hpp"
#include "ref_stream.hpp"
#include "ref_argon2.hpp"
#include <stdarg.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <algorithm>
extern "C" {
#include <passgen/passgen.h>
#include <passgen/generate.h>
#include <passgen/random.h>
#include <passgen/error.h>
#include <passgen/wordlist.h>
#include <passgen/markov.h>
#include <passgen/pattern/env.h>
#include <passgen/pattern/preset.h>
#include <passgen/pattern/group.h>
#include <passgen/pattern/set.h>
#include <passgen/pattern/special.h>
#include <passgen/pattern/segment.h>
#include <passgen/pattern/segment_item.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/container/stack.h>
#include <passgen/container/array.h>
#include <passgen/container/hashmap.h>
passgen_random *passgen_random_chacha20_argon2_open(passgen_random *random, const uint8_t *passphrase, const uint8_t *domain, const uint8_t *token, passgen_argon2_config *config);
}
using namespace mc;
static std::string fmt(const char *f, ...) {
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

// ------------------------------------------------------------------ secrets
// everything the harness knows about the secrets is kept in memory that is not searched (or not writable)
static const char PASS[] = "Pa55phr4se-of-the-user-that-is-quite-long", DOMAIN_[] = "d0main.example", TOKEN[] = "t0ken-17";
static const char KEYTEXT[] = "kEy0kEy1kEy2kEy3kEy4kEy5kEy6kEy7", IV[] = "iviviviv";
static const size_t STREAM = 32768, STACK = 1 << 18;
static const uint64_t SEED = 0x1234567890abcdefull;
enum { STREAM_KIND = 1, KEY_KIND = 2, PASS_KIND = 3 };
static const char *const KIND[] = {"", "bytes of the random stream", "the key or state", "the passphrase"};
enum { NBLOOM = 1 << 14, NWIN = 1 << 17 };
struct Table { uint64_t bloom[NBLOOM]; uint64_t win[NWIN]; uint32_t at[NWIN]; uint8_t kind[NWIN]; };
enum { XORSHIFT, CHACHA, ARGON, DEVICE, NTABLE };
struct Arena {
    Table t[NTABLE];
    uint8_t device[STREAM];
};
struct Mine {
    uint8_t out[1 << 16];   // bytes handed out
    char desc[512];
    int tables;             // which secrets to look for
    struct { int verdict, kind; unsigned where; size_t off; char region[128]; } res;
};
static const Arena *A;
static Mine *M;             // one per worker, shared with its children
static uint8_t *STK;        // the library runs on this stack
static void mine() {
    if(!M) M = (Mine *) mmap(NULL, sizeof(Mine), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(M, 0, sizeof *M);
}
static passgen_random OBJ;
static uint64_t mix(uint64_t v) { v *= 0x9E3779B97F4A7C15ull; return v ^ v >> 31; }
static void put(Table &t, const uint8_t *p, size_t n, int kind) {
    for(size_t i = 0; i + 8 <= n; i++) {
        uint64_t v;
        memcpy(&v, p + i, 8);
        uint64_t h = mix(v);
        t.bloom[h >> 44 & (NBLOOM - 1)] |= 1ull << (h >> 58);
        size_t k = h & (NWIN - 1);
        while(t.kind[k] && t.win[k] != v) k = (k + 1) & (NWIN - 1);
        if(t.kind[k]) continue;
        t.win[k] = v;
        t.at[k] = i;
        t.kind[k] = kind;
    }
}
static inline int get(const Table &t, uint64_t v, uint32_t *at) {
    uint64_t h = mix(v);
    if(!(t.bloom[h >> 44 & (NBLOOM - 1)] >> (h >> 58) & 1)) return 0;
    size_t k = h & (NWIN - 1);
    while(t.kind[k]) { if(t.win[k] == v) { *at = t.at[k]; return t.kind[k]; } k = (k + 1) & (NWIN - 1); }
    return 0;
}
static void fill_arena() {
    // between inaccessible pages, so that it is a mapping of its own
    STK = (uint8_t *) mmap(NULL, STACK + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 4096;
    mprotect(STK, STACK, PROT_READ | PROT_WRITE);
    Arena *A = (Arena *) mmap(NULL, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ::A = A;
    fflush(NULL);
    pid_t pid = fork();
    if(!pid) {
        // in a process of its own, so that no trace of the reference computation is found later
        std::vector<uint8_t> b(STREAM);
        auto stream = [&](int t, ref::Stream s) { for(size_t i = 0; i < STREAM; i++) b[i] = s.at(i); put(A->t[t], b.data(), STREAM, STREAM_KIND); };
        put(A->t[XORSHIFT], (uint8_t *) &SEED, 8, KEY_KIND);
        stream(XORSHIFT, ref::Stream::xorshift(SEED));
        put(A->t[CHACHA], (uint8_t *) KEYTEXT, 32, KEY_KIND);
        stream(CHACHA, ref::Stream::chacha((uint8_t *) KEYTEXT, (uint8_t *) IV));
        std::vector<uint8_t> hash = ref::argon2(2, 1, 32, 8, 8, PASS, "passgen", DOMAIN_, TOKEN);
        put(A->t[ARGON], hash.data(), 32, KEY_KIND);
        put(A->t[ARGON], (uint8_t *) PASS, strlen(PASS), PASS_KIND);
        stream(ARGON, ref::Stream::chacha(hash.data(), (uint8_t *) "passgen\0"));
        for(size_t i = 0; i < STREAM; i++) { uint64_t h = mix(i * 77 + 5); h = mix(h + i); A->device[i] = h >> 20; }
        put(A->t[DEVICE], A->device, STREAM, STREAM_KIND);
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if(st) _exit(2);
}

// ------------------------------------------------------------------ search
// The stack the library ran on is judged more leniently: compilers spill registers where they like.
// There only a copy of 32 bytes in a row (or all of a shorter secret) counts.
static char MAPS[1 << 16];
static bool search(const uint8_t *p, size_t n, size_t run, const char *region, int kinds) {
    for(int t = 0; t < NTABLE; t++) {
        if(!(M->tables >> t & 1)) continue;
        const Table &T = A->t[t];
        size_t len = 0;
        uint32_t last = 0;
        for(size_t i = 0; i + 8 <= n; i++) {
            uint64_t v;
            memcpy(&v, p + i, 8);
            uint32_t at;
            int k = get(T, v, &at);
            if(!k || !(kinds >> k & 1)) { len = 0; continue; }
            len = len && at == last + 1 ? len + 1 : 1;
            last = at;
            if(len + 7 >= run) {
                M->res.verdict = 1;
                M->res.kind = k;
                M->res.where = at;
                M->res.off = i;
                snprintf(M->res.region, sizeof M->res.region, "%s", region);
                return true;
            }
        }
    }
    return false;
}
static bool search_all(bool stack) {
    int fd = syscall(SYS_open, "/proc/self/maps", O_RDONLY);
    size_t n = 0;
    for(;;) {
        ssize_t r = syscall(SYS_read, fd, MAPS + n, sizeof MAPS - 1 - n);
        if(r <= 0) break;
        n += r;
    }
    syscall(SYS_close, fd);
    MAPS[n] = 0;
    for(char *l = MAPS; *l; ) {
        char *e = strchr(l, '\n');
        if(!e) break;
        *e = 0;
        uintptr_t lo, hi;
        char perm[8];
        lo = strtoull(l, &l, 16);
        hi = strtoull(l + 1, &l, 16);
        if(l[1] == 'r' && l[2] == 'w' && l[4] == 'p' && ((uintptr_t) STK >= hi || (uintptr_t) STK < lo)) {
            const char *name = e;
            while(name > l && name[-1] != ' ') name--;
            if(search((uint8_t *) lo, hi - lo, 8, *name ? name : "anonymous memory", 14)) return true;
        }
        l = e + 1;
    }
    return stack && search(STK, STACK, 32, "the stack", 14);
}

// ------------------------------------------------------------------ running a history
static const char *CASE;
static passgen_pattern *PAT;
static size_t DEVPOS;
extern "C" ssize_t __wrap_getrandom(void *d, size_t n, unsigned) {
    if(n > STREAM - DEVPOS) n = STREAM - DEVPOS;
    memcpy(d, A->device + DEVPOS, n);
    DEVPOS += n;
    return n;
}
static size_t custom_read(void *, void *d, size_t n) { return __wrap_getrandom(d, n, 0); }
static void custom_close(void *) {}
static const char SOURCES[] = "xXcCaAspPf";
static void run_history(void) {
    const char *c = CASE;
    char src = c[0], mode = c[1], rel = c[2];
    c += 4;
    passgen_random *obj = mode == 'h' ? NULL : &OBJ, *r = NULL;
    char path[64];
    int fd = -1;
    if(strchr("pPf", src)) {
        fd = syscall(SYS_memfd_create, "device", 0);
        if(write(fd, A->device, STREAM) < 0) _exit(3);
        snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
    }
    switch(src) {
        case 'x': r = passgen_random_xorshift_open(obj, SEED); break;
        case 'X': snprintf(M->desc, 512, "xorshift:%llu", (unsigned long long) SEED); r = passgen_random_open(obj, M->desc); break;
        case 'c': r = passgen_random_chacha20_open(obj, (const uint8_t *) KEYTEXT, (const uint8_t *) IV); break;
        case 'C': snprintf(M->desc, 512, "chacha20:%s:%s", KEYTEXT, IV); r = passgen_random_open(obj, M->desc); break;
        case 'a': r = passgen_random_chacha20_argon2_open(obj, (uint8_t *) PASS, (uint8_t *) DOMAIN_, (uint8_t *) TOKEN, NULL); break;
        case 'A': snprintf(M->desc, 512, "chacha20-argon2:%s:%s:%s", PASS, DOMAIN_, TOKEN); r = passgen_random_open(obj, M->desc); break;
        case 's': r = passgen_random_open(obj, mode == 'h' ? "system" : NULL); break;
        case 'p': r = passgen_random_path_open(obj, path); break;
        case 'P': snprintf(M->desc, 512, "file:%s", path); r = passgen_random_open(obj, M->desc); break;
        case 'f': {
            FILE *f = fopen(path, "r");
            setvbuf(f, NULL, _IONBF, 0);
            r = passgen_random_file_open(obj, f);
        } break;
    }
    if(!r) { M->res.verdict = 2; return; }
    size_t o = 0;
    while(*c) {
        char op = *c++;
        char *e;
        size_t n = strtoul(c, &e, 10);
        c = *e == ' ' ? e + 1 : e;
        if(o > 40000) o = 0;
        switch(op) {
            case 'r': passgen_random_read(r, M->out + o, n); o += n; break;
            case 'b': M->out[o++] = n == 1 ? passgen_random_u8(r) : n == 2 ? passgen_random_u16(r) : n == 4 ? passgen_random_u32(r) : n == 8 ? passgen_random_u64(r) : passgen_random_bool(r); break;
            case 'm': M->out[o++] = n == 1 ? passgen_random_u8_max(r, 200) : n == 2 ? passgen_random_u16_max(r, 50000) : n == 4 ? passgen_random_u32_max(r, 3000000000u) : passgen_random_u64_max(r, 10000000000000000000ull); break;
            case 'k': passgen_random_chacha20_seek(r, n); break;
            case 'g': {
                passgen_env env;
                passgen_env_init(&env, r);
                double ent;
                passgen_generate_fill_utf8(PAT, &env, &ent, M->out, 60000);
                env.random = NULL;
                passgen_env_free(&env);
            } break;
        }
    }
    // the search must be able to find the secret while the source is open (in a process of its own: it leaves traces)
    {
        pid_t pid = fork();
        if(!pid) { _exit(search_all(false) ? 7 : 8); }
        int st;
        waitpid(pid, &st, 0);
        if(!WIFEXITED(st) || WEXITSTATUS(st) != 7) { M->res.verdict = 3; return; }
        M->res.verdict = 0;
    }
    if(rel == 'c') passgen_random_close(r);
    else if(rel == 'f') passgen_random_free(r);
    else {
        passgen_env env;
        passgen_env_init(&env, r);
        passgen_env_free(&env);
    }
}
static ucontext_t MAIN, LIBCTX;
static void on_stack(void (*f)(void)) {
    getcontext(&LIBCTX);
    LIBCTX.uc_stack.ss_sp = STK;
    LIBCTX.uc_stack.ss_size = STACK;
    LIBCTX.uc_link = &MAIN;
    makecontext(&LIBCTX, f, 0);
    swapcontext(&MAIN, &LIBCTX);
}
static int table_of(char s) { return strchr("xX", s) ? XORSHIFT : strchr("cC", s) ? CHACHA : strchr("aA", s) ? ARGON : DEVICE; }
static const char *source_name(char s) {
    switch(s) {
        case 'x': return "an xorshift source";
        case 'X': return "an xorshift source opened by description";
        case 'c': return "a ChaCha20 source";
        case 'C': return "a ChaCha20 source opened by description";
        case 'a': return "a ChaCha20-Argon2 source";
        case 'A': return "a ChaCha20-Argon2 source opened by description";
        case 's': return "the system source";
        case 'p': return "a file source opened by path";
        case 'P': return "a file source opened by description";
    }
    return "a file source";
}
static void verdict(Ctx &ctx, const std::string &c, char src, int st) {
    std::string what = source_name(src) + fmt(", history '%s'", c.substr(c.find(' ') + 1).c_str());
    if(!WIFEXITED(st) || WEXITSTATUS(st)) { ctx.fail("release-crash " + c.substr(0, 100), what + fmt(": terminated with status %x", st)); return; }
    if(M->res.verdict == 2) { ctx.fail("release-open " + c.substr(0, 100), what + ": cannot be opened"); return; }
    if(M->res.verdict == 3) { ctx.fail("release-vacuous " + c.substr(0, 100), what + ": the buffer of the open source does not contain its stream"); return; }
    if(M->res.verdict == 1)
        ctx.fail("release " + c.substr(0, 100), what + fmt(": after its release, %s (from offset %u) remain in memory: %s+0x%zx", KIND[M->res.kind], M->res.where, M->res.region, M->res.off));
}
// case: <source><h|o><c|f|e> history
static void check_source(Ctx &ctx, const std::string &c) {
    mine();
    M->tables = 1 << table_of(c[0]);
    pid_t pid = fork();
    if(!pid) {
        memset(STK, 0, STACK);
        CASE = c.c_str();
        on_stack(run_history);
        if(!M->res.verdict) search_all(true);
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    ctx.trace();
    ctx.nontrivial();
    ctx.evals();
    ctx.transitions(1 + std::count(c.begin(), c.end(), ' '));
    ctx.state(hash_str(c));
    verdict(ctx, c, c[0], st);
}
// ------------------------------------------------------------------ several sources after each other
// case: <src><src>.. : all opened on the heap and used, released in the order given by the digits
static passgen_random *RS[4];
static std::string MULTI;
static void multi_body(void) {
    static const char *h[] = {"r100", "r1000 b8 m4", "r3000 r1", "g0"};
    int n = MULTI.find(' ');
    for(int i = 0; i < n; i++) {
        char s = MULTI[i];
        passgen_random *r = s == 'x' ? passgen_random_xorshift_open(NULL, SEED) : s == 'c' ? passgen_random_chacha20_open(NULL, (const uint8_t *) KEYTEXT, (const uint8_t *) IV)
            : s == 'a' ? passgen_random_chacha20_argon2_open(NULL, (uint8_t *) PASS, (uint8_t *) DOMAIN_, (uint8_t *) TOKEN, NULL) : passgen_random_open(NULL, "system");
        if(!r) { M->res.verdict = 2; return; }
        RS[i] = r;
        passgen_random_read(r, M->out, 100 + 600 * i);
        passgen_random_read(r, M->out, 1000);
        passgen_random_read(r, M->out, 2000);
    }
    M->tables = 0;
    for(const char *p = MULTI.c_str() + n + 1; *p; p++) {
        int i = *p - '0';
        passgen_random_free(RS[i]);
        M->tables |= 1 << table_of(MULTI[i]);
        pid_t pid = fork();
        if(!pid) _exit(search_all(true) ? 7 : 8);
        int st;
        waitpid(pid, &st, 0);
        if(WEXITSTATUS(st) == 7) return;
    }
}
static void check_multi(Ctx &ctx, const std::string &c) {
    mine();
    pid_t pid = fork();
    if(!pid) {
        memset(STK, 0, STACK);
        MULTI = c;
        on_stack(multi_body);
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    ctx.trace(); ctx.nontrivial(); ctx.evals(); ctx.transitions(2 * c.find(' ')); ctx.state(hash_str(c));
    verdict(ctx, c, c[0], st);
}

// ------------------------------------------------------------------ released objects
static std::string OBJ_ERR;
static int s_dummy;
static std::string zeros(const char *what, const void *p, size_t n) {
    for(size_t i = 0; i < n; i++)
        if(((const uint8_t *) p)[i]) return fmt("%s is not cleared when it is released (byte %zu of %zu)", what, i, n);
    return "";
}
// blocks that must be cleared by the time they are returned to the allocator
static struct { void *p; size_t n; const char *what; bool seen; } WATCH[64];
static int NWATCH;
extern "C" void __real_free(void *);
extern "C" void __wrap_free(void *p) {
    for(int i = 0; i < NWATCH; i++)
        if(p && WATCH[i].p == p && !WATCH[i].seen) {
            WATCH[i].seen = true;
            std::string e = zeros(WATCH[i].what, p, WATCH[i].n);
            if(OBJ_ERR.empty() && !e.empty()) OBJ_ERR = e + " before its memory is returned";
        }
    __real_free(p);
}
static void cleared(const char *what, const void *p, size_t n) { std::string e = zeros(what, p, n); if(!e.empty() && OBJ_ERR.empty()) OBJ_ERR = e; }
#define CLEARED(what, obj) cleared(what, &(obj), sizeof(obj))
static void watch(void *p, size_t n, const char *what) { if(NWATCH < 64 && p) { WATCH[NWATCH].p = p; WATCH[NWATCH].n = n; WATCH[NWATCH].what = what; WATCH[NWATCH++].seen = false; } }
static void watched() {
    for(int i = 0; i < NWATCH; i++) if(!WATCH[i].seen && OBJ_ERR.empty()) OBJ_ERR = fmt("%s is not released", WATCH[i].what);
    NWATCH = 0;
}
static FILE *words_file(int words) {
    static char text[1 << 16];
    size_t o = 0;
    for(int i = 0; i < words; i++) o += sprintf(text + o, "word%d\xc3\xa4xy\n", i * 37 % 1000);
    return fmemopen(text, o ? o : 1, "r");
}
// releases the parts of a group one by one, each as a copy that owns what the original owned
static void release_parts(passgen_pattern_group *g, int depth) {
    for(size_t s = 0; s < g->segments.len; s++) {
        passgen_pattern_segment *seg = passgen_pattern_group_segment_get(g, s);
        for(size_t i = 0; i < seg->items.len; i++) {
            passgen_pattern_item *it = passgen_pattern_segment_get_item(seg, i);
            if(it->kind == PASSGEN_PATTERN_GROUP && depth < 2) {
                passgen_pattern_group copy = it->data.group;
                release_parts(&copy, depth + 1);
                passgen_pattern_group_free(&copy);
                CLEARED("a group", copy);
            } else if(it->kind == PASSGEN_PATTERN_SET && i % 2) {
                passgen_pattern_set copy = it->data.set;
                passgen_pattern_set_free(&copy);
                CLEARED("a set", copy);
            } else if(it->kind == PASSGEN_PATTERN_SPECIAL && i % 2) {
                passgen_pattern_special copy = it->data.special;
                passgen_pattern_special_free(&copy);
                CLEARED("a reference", copy);
            } else {
                passgen_pattern_item copy = *it;
                passgen_pattern_item_free(&copy);
                CLEARED("an item", copy);
            }
            passgen_pattern_item blank;
            memset(&blank, 0, sizeof blank);
            blank.kind = PASSGEN_PATTERN_LITERAL;
            *it = blank;
        }
        if(s % 2 == 0) {
            passgen_pattern_segment copy = *seg;
            passgen_pattern_segment_free(&copy);
            CLEARED("a segment", copy);
            passgen_pattern_segment_init(seg);
        }
    }
}
static void check_object(Ctx &ctx, const std::string &c) {
    OBJ_ERR.clear();
    NWATCH = 0;
    char kind = c[0];
    std::string arg = c.size() > 2 ? c.substr(2) : "";
    int n = atoi(arg.c_str());
    passgen_error err;
    memset(&err, 0, sizeof err);
    switch(kind) {
        case 'p': {     // pattern, or the error
            passgen_pattern *p = (passgen_pattern *) malloc(sizeof *p);
            memset(p, 0xAA, sizeof *p);
            if(passgen_parse(p, &err, arg.c_str())) {
                passgen_error_free(&err);
                CLEARED("an error", err);
            } else {
                passgen_pattern_free(p);
                CLEARED("a pattern", *p);
            }
            free(p);
        } break;
        case 'P': {     // preset
            passgen_preset p;
            memset(&p, 0xAA, sizeof p);
            passgen_preset_init(&p, arg.c_str());
            if(passgen_preset_parse(&p) == 0) {
                passgen_preset_free(&p);
                CLEARED("a preset", p);
            }
        } break;
        case 'q': {     // parser, stopped after every prefix, and the pattern it was building
            for(size_t cut = 0; cut <= arg.size(); cut++) {
                passgen_parser parser;
                passgen_pattern pattern;
                memset(&parser, 0xAA, sizeof parser);
                memset(&pattern, 0xAA, sizeof pattern);
                passgen_parser_init(&parser, &pattern);
                passgen_token_parser tp;
                passgen_token_parser_init(&tp);
                bool bad = false;
                for(size_t i = 0; i < cut && !bad; i++) {
                    passgen_token t;
                    memset(&t, 0, sizeof t);
                    int s = passgen_token_parse(&tp, &t, 1, (uint8_t) arg[i]);
                    if(s < 0) bad = true;
                    else if(s == PASSGEN_TOKEN_INIT) bad = passgen_parse_token(&parser, &t) != 0;
                }
                if(!bad && cut % 2) passgen_parse_finish(&parser);
                passgen_pattern *pat = passgen_parser_free(&parser);
                CLEARED("a parser", parser);
                passgen_pattern_free(&pattern);
                CLEARED("the pattern of a parser", pattern);
            }
        } break;
        case 'i': {     // the parts of a pattern, released one by one
            passgen_pattern p;
            if(passgen_parse(&p, &err, arg.c_str())) break;
            release_parts(&p.group, 0);
            passgen_pattern_group_free(&p.group);
            CLEARED("a group", p.group);
        } break;
        case 'S': {     // set
            passgen_pattern_set s;
            memset(&s, 0xAA, sizeof s);
            passgen_pattern_set_init(&s);
            for(int i = 0; i < n; i++) passgen_pattern_set_range_append(&s)->start = 'a' + i % 26;
            passgen_pattern_set_free(&s);
            CLEARED("a set", s);
        } break;
        case 's': {     // stack
            passgen_stack s;
            memset(&s, 0xAA, sizeof s);
            passgen_stack_init(&s, 24);
            char el[24];
            memset(el, 0x5A, 24);
            for(int i = 0; i < n; i++) passgen_stack_push(&s, el);
            for(int i = 0; i < n % 7; i++) passgen_stack_pop(&s, NULL);
            passgen_stack_free(&s);
            CLEARED("a stack", s);
        } break;
        case 'a': {     // array
            passgen_array a;
            memset(&a, 0xAA, sizeof a);
            passgen_array_init(&a, n % 5);
            for(int i = 0; i < n; i++) passgen_array_push(&a, &s_dummy);
            for(int i = 0; i < n % 3; i++) passgen_array_pop(&a);
            passgen_array_free(&a);
            CLEARED("an array", a);
        } break;
        case 'h': {     // hash map and an entry
            passgen_hashmap m;
            memset(&m, 0xAA, sizeof m);
            passgen_hashmap_init(&m, n % 2 ? &passgen_hashmap_context_utf8 : &passgen_hashmap_context_utf32);
            std::vector<std::string> keys(n);
            for(int i = 0; i < n; i++) {
                keys[i] = fmt("key%d", i);
                if(!(n % 2)) { uint32_t w[9] = {0x100u + i, 'a', 'b', 'c', 'd', 'e', 'f', 'g', 0}; keys[i] = std::string((char *) w, sizeof w); }
                passgen_hashmap_insert(&m, keys[i].c_str(), &keys[i]);
            }
            for(int i = 0; i < n; i += 3) passgen_hashmap_remove(&m, keys[i].c_str());
            passgen_hashmap_free(&m);
            CLEARED("a hash map", m);
            passgen_hashmap_entry e;
            e.key = strdup("k");
            e.value = strdup("v");
            passgen_hashmap_entry_free(NULL, &e);
            CLEARED("a hash map entry", e);
        } break;
        case 'w': {     // wordlist with its markov chain
            int words = 0, order = 0, stage = 0;
            sscanf(arg.c_str(), "%d %d %d", &words, &order, &stage);
            passgen_wordlist *w = (passgen_wordlist *) malloc(sizeof *w);
            memset(w, 0xAA, sizeof *w);
            passgen_wordlist_init(w, words_file(words), order);
            if(stage > 0) passgen_wordlist_parse(w);
            if(stage > 1) passgen_wordlist_parse_markov(w);
            watch(w->markov.root, order ? sizeof(passgen_markov_node) : sizeof(passgen_markov_leaf), "the root of a markov chain");
            passgen_wordlist_free(w);
            CLEARED("a wordlist", *w);
            watched();
            free(w);
        } break;
        case 'M': {     // markov chain
            passgen_markov m;
            memset(&m, 0xAA, sizeof m);
            passgen_markov_init(&m, n);
            uint32_t word[] = {'w', 0x100, 'x', 0x10ffff, 'w', 'y'};
            for(int i = 1; i <= 6; i++) passgen_markov_add(&m, word, i, 1);
            watch(m.root, sizeof(passgen_markov_node), "the root of a markov chain");
            passgen_markov_node *node = m.root;
            for(int l = 0; l < n && node; l++) {
                passgen_markov_node *next = NULL;
                for(size_t i = 0; i < node->capacity && !next; i++) next = passgen_markov_node_child(node, i).node;
                node = next;
                watch(node, l + 1 < n ? sizeof(passgen_markov_node) : sizeof(passgen_markov_leaf), "a node or leaf of a markov chain");
            }
            passgen_markov_free(&m);
            CLEARED("a markov chain", m);
            watched();
        } break;
        case 'e': {     // environment: (r)andomness, (l)ists and (L)ists of the same name
            passgen_env env;
            memset(&env, 0xAA, sizeof env);
            passgen_random *r = arg.find('r') != std::string::npos ? passgen_random_xorshift_open(NULL, SEED) : NULL;
            passgen_env_init(&env, r);
            watch(r, sizeof *r, "the randomness source of an environment");
            int k = 0;
            for(char ch: arg)
                if(ch == 'l' || ch == 'L') {
                    char *name = strdup(ch == 'l' ? fmt("list%d", k++).c_str() : "list");
                    passgen_env_wordlist_add(&env, name, words_file(5), 2);
                    passgen_hashmap_entry *e = passgen_hashmap_lookup(&env.wordlists, name);
                    if(e) watch(e->value, sizeof(passgen_wordlist), "a wordlist of an environment");
                }
            passgen_env_free(&env);
            CLEARED("an environment", env);
            watched();
        } break;
    }
    ctx.trace(); ctx.nontrivial(); ctx.evals(); ctx.transitions(1); ctx.state(hash_str(c));
    if(!OBJ_ERR.empty()) ctx.fail("object " + c.substr(0, 100), OBJ_ERR);
}

// ------------------------------------------------------------------ spaces
static const char *const RELEASES[] = {"hc", "hf", "he", "oc"};
static void emit_history(Ctx &ctx, const std::string &h, const char *sources) {
    for(const char *s = sources; *s; s++) {
        if(h.find('k') != std::string::npos && !strchr("cCaA", *s)) continue;
        for(auto r: RELEASES) ctx.emit(std::string(1, *s) + r + " " + h);
    }
}
static void histories(Ctx &ctx) {
    std::vector<std::string> al = {"r1", "r7", "r8", "r64", "r100", "r1000", "r1023", "r1024", "r1025", "r3000", "b0", "b1", "b8", "m1", "m8", "g0", "k0", "k5", "k1000", "k1"};
    emit_history(ctx, "", SOURCES);
    for(auto &a: al) emit_history(ctx, a, SOURCES);
    for(auto &a: al) for(auto &b: al) emit_history(ctx, a + " " + b, ctx.thorough ? SOURCES : "xcAsP");
    std::vector<std::string> a3 = {"r1", "r63", "r1023", "r1025", "b8", "g0", "k77"};
    for(auto &a: a3) for(auto &b: a3) for(auto &d: a3) emit_history(ctx, a + " " + b + " " + d, ctx.thorough ? SOURCES : "xcf");
}
static void positions(Ctx &ctx) {
    for(int p = 0; p <= (ctx.thorough ? 2200 : 1030); p++) emit_history(ctx, fmt("r%d", p), ctx.thorough ? SOURCES : "xcap");
    for(int p = 1025; p <= 1025 + 130; p++) { emit_history(ctx, fmt("r%d r%d", p, p + 1), "xcas"); emit_history(ctx, fmt("k%d r%d", p, 2 * p), "cA"); }
}
static void multi(Ctx &ctx) {
    const std::string src = "xcas";
    int max = ctx.thorough ? 4 : 3;
    std::function<void(std::string)> go = [&](std::string s) {
        if(s.size() == (size_t) max || s.size() > 1) {
            std::string order;
            for(size_t i = 0; i < s.size(); i++) order += '0' + i;
            do ctx.emit(s + " " + order); while(std::next_permutation(order.begin(), order.end()));
        }
        if(s.size() < (size_t) max) for(char ch: src) if(s.find(ch) == std::string::npos) go(s + ch);
    };
    go("");
}
static void objects(Ctx &ctx) {
    std::vector<std::string> atoms = {"a", "[a-z]", "(b|c)", "\\w{list}", "a?", "[abc]{2}", "(x(y){3}|)", "\\u{20ac}"};
    std::vector<std::string> pats = {"", "|", "((((((a))))))", "(", "[a", "a{2", "\\w{x", "a|b{", "\\m{unfinished"};
    for(auto &a: atoms) {
        pats.push_back(a);
        for(auto &b: atoms) { pats.push_back(a + b); pats.push_back(a + "|" + b); for(auto &d: atoms) pats.push_back("(" + a + b + ")" + d + "|" + a); }
    }
    for(auto &p: pats) for(char k: std::string("pPqi")) ctx.emit(std::string(1, k) + " " + p);
    for(int i = 0; i <= 600; i++) for(char k: std::string("Ssah")) ctx.emit(fmt("%c %d", k, i));
    for(int i = 1; i <= 24; i++) ctx.emit(fmt("M %d", i));
    for(int w: {1, 2, 3, 10, 100, 1000}) for(int o = 1; o <= 6; o++) for(int st = 0; st < 3; st++) ctx.emit(fmt("w %d %d %d", w, o, st));
    for(auto r: {"", "r"}) for(auto l: {"", "l", "ll", "L", "lL", "lll", "llllllllllll"}) ctx.emit(fmt("e %s%s", r, l));
}

int main(int argc, char **argv) {
    passgen_error err;
    PAT = (passgen_pattern *) malloc(sizeof *PAT);
    if(passgen_parse(PAT, &err, "([a-z0-9]{3,9}|(x|y|z){40}[A-Z]?){30}")) return 2;
    fill_arena();
    add({"histories", "all sequences of up to 2 of 20 and 3 of 7 operations on sources of 10 kinds x 4 ways to release them", histories, check_source});
    add({"positions", "release at every position of the buffer, and behind reads and seeks at every offset of a block", positions, check_source});
    add({"several", "several sources open at once, released in every order", multi, check_multi});
    add({"objects", "patterns, parsers at every point, presets, errors, parts of patterns, containers at every size, wordlists, markov chains and environments are cleared", objects, check_object});
    return main_(argc, argv);
}
