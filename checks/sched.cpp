// C28: uses of separate objects never influence each other.
//
// The library is compiled so that every memory access and function entry calls a hook (the hooks
// the compiler emits for the thread sanitizer; its run-time library is not used).  Two threads run
// two uses of the library; a scheduler lets exactly one of them run, and switches between them at
// chosen points.  All schedules up to a bounded number of switches are run.  The result of each
// use has to be its result alone, whatever the schedule.
#include "mc.hpp"
#include "patterns.hpp"
#include <malloc.h>
#include <math.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/syscall.h>
extern "C" {
#include <passgen/passgen.h>
#include <passgen/generate.h>
#include <passgen/random.h>
#include <passgen/error.h>
#include <passgen/markov.h>
#include <passgen/pattern/env.h>
#include <passgen/wordlist.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/util/utf8.h>
#include <passgen/util/siphash.h>
#include <passgen/container/stack.h>
#include <passgen/container/array.h>
#include <passgen/container/hashmap.h>
}
using namespace mc;

// ------------------------------------------------------------------ scheduler
struct Thread {
    sem_t sem;
    uint64_t count[3];                  // points passed: all; calls, returns and shared memory; shared memory
    bool wrote;                         // to memory another use can reach
    std::vector<uint64_t> stops;        // points at which to hand over
    size_t next_stop;
    uint64_t stop;
    int mode;                           // which points the stops count
    bool done;
    std::string out;
    const std::function<std::string()> *job;
};
static const int NT = 3;
static Thread th[NT];
static int nth;
static std::atomic<int> free_run{0};
static sem_t all_done;
static __thread int me = -1;            // index of the controlled thread, or -1
static __thread int off = 0;            // inside code that is not the library's
extern "C" char __data_start, _end;

static void advance(Thread &t) { t.stop = t.next_stop < t.stops.size() ? t.stops[t.next_stop++] : UINT64_MAX; }
static int successor(int i) {
    for(int k = 1; k < nth; k++) if(!th[(i + k) % nth].done) return (i + k) % nth;
    return -1;
}
static void __attribute__((noinline)) hand_over() {
    int i = me;
    advance(th[i]);
    if(free_run) return;
    int n = successor(i);
    if(n < 0) return;
    sem_post(&th[n].sem);
    while(sem_wait(&th[i].sem)) {}
}
// kind 0: an access to memory of its own, 1: a call or return, 2: an access to memory others can reach
static inline void point(int kind, bool write = false) {
    if(me < 0 || off) return;
    Thread &t = th[me];
    for(int k = 0; k <= kind; k++) t.count[k]++;
    if(write && kind == 2) t.wrote = true;
    if(t.mode <= kind && t.count[t.mode] == t.stop) hand_over();
}
// static memory, and all that was allocated before the threads (they allocate elsewhere)
static char *shared_end = &_end;
static inline void access(void *p, bool write = true) {
    if(me < 0) return;
    point((char *) p >= &__data_start && (char *) p < shared_end ? 2 : 0, write);
}
struct Off { Off() { off++; } ~Off() { off--; } };

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { point(1); }
void __tsan_func_exit() { point(1); }
void __tsan_read_range(void *p, unsigned long) { access(p, false); }
void __tsan_write_range(void *p, unsigned long) { access(p); }
void __tsan_vptr_update(void **p, void *) { access(p); }
void __tsan_vptr_read(void **p) { access(p, false); }
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, false); } \
    void __tsan_write##n(void *p) { access(p); } \
    void __tsan_unaligned_read##n(void *p) { access(p, false); } \
    void __tsan_unaligned_write##n(void *p) { access(p); } \
    void __tsan_volatile_read##n(void *p) { access(p, false); } \
    void __tsan_volatile_write##n(void *p) { access(p); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access(p, false); } \
    void __tsan_unaligned_volatile_write##n(void *p) { access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(b, T) \
    T __tsan_atomic##b##_load(const T *p, int) { access((void *) p); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##b##_store(T *p, T v, int) { access((void *) p); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##b##_exchange(T *p, T v, int) { access((void *) p); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##b##_fetch_add(T *p, T v, int) { access((void *) p); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(T *p, T v, int) { access((void *) p); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##b##_fetch_and(T *p, T v, int) { access((void *) p); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##b##_fetch_or(T *p, T v, int) { access((void *) p); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##b##_fetch_xor(T *p, T v, int) { access((void *) p); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##b##_fetch_nand(T *p, T v, int) { access((void *) p); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(T *p, T *e, T v, int, int) { access((void *) p); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(T *p, T *e, T v, int, int) { access((void *) p); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(T *p, T e, T v, int, int) { access((void *) p); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(1); }
void __tsan_atomic_signal_fence(int) { point(1); }

#define WRAP(R, f, P, A) R __real_##f P; R __wrap_##f P { point(1); return __real_##f A; }
#define WRAPW(R, f, P, A) R __real_##f P; R __wrap_##f P { access((void *) a); return __real_##f A; }
WRAPW(void *, memcpy, (void *a, const void *b, size_t n), (a, b, n))
WRAPW(void *, memmove, (void *a, const void *b, size_t n), (a, b, n))
WRAPW(void *, memset, (void *a, int b, size_t n), (a, b, n))
WRAP(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n))
WRAP(size_t, strlen, (const char *a), (a))
WRAP(int, strcmp, (const char *a, const char *b), (a, b))
WRAP(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n))
WRAPW(char *, strcpy, (char *a, const char *b), (a, b))
WRAPW(char *, strncpy, (char *a, const char *b, size_t n), (a, b, n))
WRAPW(char *, strcat, (char *a, const char *b), (a, b))
WRAP(char *, strchr, (const char *a, int b), (a, b))
WRAP(char *, strdup, (const char *a), (a))
WRAP(char *, strndup, (const char *a, size_t n), (a, n))
WRAP(char *, strtok, (char *a, const char *b), (a, b))
WRAP(void *, malloc, (size_t n), (n))
WRAP(void *, calloc, (size_t m, size_t n), (m, n))
WRAP(void *, realloc, (void *p, size_t n), (p, n))
WRAP(void, free, (void *p), (p))
WRAP(size_t, fread, (void *p, size_t m, size_t n, FILE *f), (p, m, n, f))
WRAP(int, fgetc, (FILE *f), (f))
WRAP(int, fclose, (FILE *f), (f))
WRAP(unsigned long long, strtoull, (const char *a, char **b, int c), (a, b, c))
WRAP(unsigned long, strtoul, (const char *a, char **b, int c), (a, b, c))
WRAP(long, strtol, (const char *a, char **b, int c), (a, b, c))
WRAP(char *, getenv, (const char *a), (a))
WRAP(int, vsnprintf, (char *a, size_t n, const char *f, va_list l), (a, n, f, l))
int __wrap_snprintf(char *a, size_t n, const char *f, ...) { point(1); va_list l; va_start(l, f); int r = __real_vsnprintf(a, n, f, l); va_end(l); return r; }
int __wrap_sprintf(char *a, const char *f, ...) { point(1); va_list l; va_start(l, f); int r = vsprintf(a, f, l); va_end(l); return r; }
}

static void *thread_main(void *arg) {
    int i = (int) (intptr_t) arg;
    for(;;) {
        while(sem_wait(&th[i].sem)) {}
        me = i; off = 0;
        th[i].out = (*th[i].job)();
        me = -1;
        th[i].done = true;
        // in a free run the last one to finish is found by a counter
        static std::atomic<int> finished{0};
        if(++finished == nth) { finished = 0; sem_post(&all_done); }
        else if(!free_run) { int n = successor(i); if(n >= 0) sem_post(&th[n].sem); }
    }
    return NULL;
}
static bool started = false;
static void start_threads() {
    if(started) return;
    started = true;
    sem_init(&all_done, 0, 0);
    for(int i = 0; i < NT; i++) {
        sem_init(&th[i].sem, 0, 0);
        pthread_t t;
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 4 << 20);
        pthread_create(&t, &a, thread_main, (void *) (intptr_t) i);
    }
}
// runs the threads; false if one had to wait for a lock held by another
static bool run_threads(int n, int first) {
    nth = n;
    free_run = 0;
    for(int i = 0; i < n; i++) { Thread &t = th[i]; t.count[0] = t.count[1] = t.count[2] = 0; t.wrote = false; t.next_stop = 0; advance(t); t.done = false; t.out.clear(); }
    sem_post(&th[first].sem);
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 2;
    for(;;) {
        if(sem_timedwait(&all_done, &ts) == 0) break;
        if(errno != ETIMEDOUT) continue;
        // a thread waits for something the stopped one has: let all run
        free_run = 1;
        for(int i = 0; i < n; i++) if(!th[i].done) sem_post(&th[i].sem);
        while(sem_wait(&all_done)) {}
        for(int i = 0; i < n; i++) { sem_destroy(&th[i].sem); sem_init(&th[i].sem, 0, 0); }
        return false;
    }
    return true;
}

// ------------------------------------------------------------------ callbacks
static const std::function<std::string()> *nested = NULL;   // run inside callback number nested_at
static uint64_t nested_at = 0, callbacks = 0;
static std::string nested_out;
static void callback() {
    if(me >= 0 || !nested_at) { callbacks++; return; }
    if(++callbacks != nested_at) return;
    auto *job = nested;
    uint64_t at = nested_at, n = callbacks;
    nested_at = 0;
    nested_out = (*job)();
    nested_at = at; callbacks = n;
}

// ------------------------------------------------------------------ uses
static FILE *mem_file(const std::string &s) {
    Off o;
    int fd = syscall(SYS_memfd_create, "w", 0);
    FILE *f = fdopen(fd, "w+");
    fwrite(s.data(), 1, s.size(), f);
    fflush(f);
    fseek(f, 0, SEEK_SET);
    return f;
}
// in-memory file without a system call per use
static FILE *text_file(const char *s) { Off o; return fmemopen((void *) s, strlen(s), "r"); }

static std::string hex(const void *p, size_t n) {
    static const char d[] = "0123456789abcdef";
    std::string o;
    for(size_t i = 0; i < n; i++) { unsigned char c = ((const unsigned char *) p)[i]; o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
struct Counter { uint32_t x; };
static size_t counter_read(void *ctx, void *dest, size_t n) {
    Off o;
    callback();
    Counter *c = (Counter *) ctx;
    for(size_t i = 0; i < n; i++) { c->x = c->x * 1664525u + 1013904223u; ((uint8_t *) dest)[i] = c->x >> 24; }
    return n;
}
static void counter_close(void *) {}
static void counter_open(passgen_random *r, Counter *c, uint32_t seed, size_t pos = 1000) {
    Off o;
    c->x = seed;
    memset(r, 0, sizeof *r);
    r->context = c; r->read = counter_read; r->close = counter_close;
    r->pos = pos;
    for(size_t i = 0; i < sizeof r->buffer; i++) r->buffer[i] = (uint8_t) (i * 37 + seed * 11);
}
struct Sink { std::string s; };
static int sink(void *d, uint32_t cp) {
    Off o;
    callback();
    ((Sink *) d)->s += fmt("%x ", cp);
    return 0;
}
enum Form { CB, U32, UTF8, JSON };
static std::string generate(const passgen_pattern *p, Form form, uint32_t seed, bool entropy, std::vector<std::pair<const char *, const char *>> lists = {}, int order = 2) {
    passgen_env env;
    passgen_random r;
    Counter c;
    counter_open(&r, &c, seed);
    passgen_env_init(&env, &r);
    for(auto &l: lists) { Off o; char *n = strdup(l.first); FILE *f = text_file(l.second); off--; passgen_env_wordlist_add(&env, n, f, order); off++; }
    double e = -1, *ep = entropy ? &e : NULL;
    std::string out;
    if(form == CB) { Sink s; int ret = passgen_generate(p, &env, ep, &s, sink); Off o; out = fmt("%d ", ret) + s.s; }
    else {
        alignas(8) char buf[512];
        size_t n = form == U32 ? passgen_generate_fill_unicode(p, &env, ep, (uint32_t *) buf, 128)
                 : form == UTF8 ? passgen_generate_fill_utf8(p, &env, ep, (uint8_t *) buf, 512)
                                : passgen_generate_fill_json_utf8(p, &env, ep, (uint8_t *) buf, 512);
        Off o;
        out = fmt("%zu ", n) + hex(buf, form == U32 ? 4 * n : n);
    }
    uint64_t next = passgen_random_u64(&r);
    { Off o; out += fmt(" %a %llx", e, (unsigned long long) next); }
    env.random = NULL;
    passgen_env_free(&env);
    return out;
}
static std::string parse_generate(const char *pat, Form form, uint32_t seed, bool entropy, std::vector<std::pair<const char *, const char *>> lists = {}, int order = 2) {
    passgen_pattern p;
    passgen_error e;
    { Off o; memset(&e, 0, sizeof e); }
    int ret = passgen_parse(&p, &e, pat);
    std::string out;
    { Off o; out = fmt("%d %s %zu %zu ", ret, ret ? e.message ? e.message : "-" : "", ret ? e.offset.codepoint : 0, ret ? e.offset.byte : 0); }
    if(!ret) out += generate(&p, form, seed, entropy, lists, order);
    passgen_pattern_free(&p);
    return out;
}
static std::string draws(passgen_random *r, int n) {
    std::string o;
    for(int i = 0; i < n; i++) {
        uint64_t v = 0;
        switch(i % 9) {
            case 0: v = passgen_random_u8(r); break;
            case 1: v = passgen_random_u16(r); break;
            case 2: v = passgen_random_u32(r); break;
            case 3: v = passgen_random_u64(r); break;
            case 4: v = passgen_random_bool(r); break;
            case 5: v = passgen_random_u8_max(r, 37); break;
            case 6: v = passgen_random_u16_max(r, 1000); break;
            case 7: v = passgen_random_u32_max(r, 100000); break;
            case 8: v = passgen_random_u64_max(r, 10000000000ull); break;
        }
        Off off_;
        o += fmt("%llx ", (unsigned long long) v);
    }
    return o;
}
static std::string source(const char *desc, int n) {
    passgen_random r;
    if(!passgen_random_open(&r, desc)) return "not opened";
    std::string o = draws(&r, n);
    uint8_t b[40];
    passgen_random_read(&r, b, sizeof b);
    { Off f; o += hex(b, sizeof b); }
    passgen_random_close(&r);
    return o;
}

static passgen_pattern *shared_pattern, *shared_words;
struct Use { std::string name; std::function<std::string()> run; bool large; };
static std::vector<Use> USES;
static std::vector<std::string> ALONE;

// hash map with hooks of its own
static uint64_t my_hash(const passgen_hashmap *, const void *k, bool first) {
    Off o;
    callback();
    uint64_t h = hash_bytes(k, strlen((const char *) k));
    return first ? h : h >> 32;
}
static bool my_equal(const passgen_hashmap *, const void *a, const void *b) { Off o; callback(); return strcmp((const char *) a, (const char *) b) == 0; }
static int my_each(void *u, passgen_hashmap_entry *e) { Off o; callback(); *(uint64_t *) u += hash_bytes(e->key, strlen((const char *) e->key)) * (uintptr_t) e->value; return 0; }

static std::string maps(const passgen_hashmap_context *ctx, int salt, int n) {
    passgen_hashmap m;
    passgen_hashmap_init(&m, ctx);
    std::string o;
    std::vector<std::string> keys;
    { Off f; for(int i = 0; i < n; i++) keys.push_back(fmt("%c%d", 'a' + salt, i * (salt + 3))); }
    for(int i = 0; i < n; i++) passgen_hashmap_insert(&m, keys[i].c_str(), (void *) (uintptr_t) (i + salt * 100 + 1));
    for(int i = 0; i < n; i += 3) { auto e = passgen_hashmap_remove(&m, keys[i].c_str()); Off f; o += fmt("r%zx ", (size_t) e.value); }
    for(int i = 0; i < n; i++) { auto *e = passgen_hashmap_lookup(&m, keys[i].c_str()); Off f; o += e ? fmt("%zx ", (size_t) e->value) : "- "; }
    uint64_t sum = 0;
    passgen_hashmap_foreach(&m, &sum, my_each);
    { Off f; o += fmt("len %zu sum %llx", m.len, (unsigned long long) sum); }
    passgen_hashmap_free(&m);
    return o;
}
static void my_init(passgen_hashmap *m) { Off o; callback(); m->context_data = strdup("salt"); }
static void my_fini(passgen_hashmap *m) { Off o; callback(); free(m->context_data); }
static passgen_hashmap_context my_context = {my_hash, my_equal, my_init, my_fini};

static const char *LIST_A = "apple\nbanana\ncherry pie\nf\xc3\xa4hre\n";
static const char *LIST_B = "one\ntwo\nthree\nfour\nfive\nsix\n";

static void add_uses() {
    auto u = [](std::string n, std::function<std::string()> f, bool large = false) { USES.push_back({n, f, large}); };
    u("generate", [] { return parse_generate("[a-f]{3}(x|y{2})z?", CB, 1, true); });
    u("unicode", [] { return parse_generate("(ab|{2}c[\xc3\xa4-\xc3\xbc]){2}", U32, 2, true); });
    u("utf8", [] { return parse_generate("\\u{1F600}[\xe2\x82\xac\xc3\xa9]{2}-a", UTF8, 3, true); });
    u("json", [] { return parse_generate("\"\\u{1}[a-c\\\\]{2,3}", JSON, 4, true); });
    u("plain", [] { return parse_generate("q[0-9]{4}", UTF8, 5, false); });
    u("escapes", [] { return parse_generate("\\u{41}\\n\\x\\{[\\]\\-a]", U32, 6, false); });
    u("choices", [] { return parse_generate("a|b|{3}(c|d)|", CB, 7, true); });
    u("words", [] { return parse_generate("\\w{a}-\\w{b}", UTF8, 8, true, {{"a", LIST_A}, {"b", LIST_B}}); });
    u("words2", [] { return parse_generate("\\w{b}\\w{a}", CB, 9, true, {{"a", LIST_B}, {"b", LIST_A}}); });
    u("markov", [] { return parse_generate("\\m{a}", CB, 10, true, {{"a", LIST_A}}); });
    u("markov3", [] { return parse_generate("\\m{b}", U32, 11, true, {{"b", LIST_B}}, 3); });
    u("missing", [] { return parse_generate("x\\w{none}", UTF8, 12, true, {{"a", LIST_A}}); });
    u("badlist", [] { return parse_generate("x\\m{bad}", UTF8, 12, true, {{"bad", "ab\xff\n"}}); });
    u("errors", [] {
        std::string o;
        for(const char *s: {"(a", "a{3,", "[b-a]", "\\u{zz}", "a)", "\xc3\xa4\xff"}) {
            passgen_pattern p;
            passgen_error e;
            { Off f; memset(&e, 0, sizeof e); }
            int ret = passgen_parse(&p, &e, s);
            { Off f; o += fmt("%d %s %zu %zu; ", ret, e.message ? e.message : "-", e.offset.codepoint, e.offset.byte); }
            passgen_pattern_free(&p);
        }
        return o;
    });
    u("causes", [] {
        passgen_error e, c;
        { Off f; memset(&e, 0, sizeof e); memset(&c, 0, sizeof c); }
        passgen_error_init_raw(&e, "outer");
        passgen_error_init_raw(&c, "inner");
        passgen_error_offset_set(&c, 3, 5);
        passgen_error_source_set(&c, "file", 7);
        passgen_error_cause_add(&e, &c);
        passgen_error_offset_set(&e, 8, 9);
        std::string o;
        { Off f; o = fmt("%s %zu %zu %zu", e.message, e.offset.codepoint, e.offset.byte, e.causes.items); }
        passgen_error_free(&e);
        return o;
    });
    u("xorshift", [] { return source("xorshift:1234", 40); });
    u("xorshift2", [] { return source("xorshift:99", 40); });
    u("zero", [] { return source("zero", 18); });
    u("file", [] { return source("file:/dev/zero", 18); });
    u("chacha", [] { return source("chacha20:a key:nonce", 20); }, true);
    u("chacha2", [] { return source("chacha20:other:abc", 20); }, true);
    u("argon", [] { return source("chacha20-argon2:password:domain:token", 4); }, true);
    u("system", [] {
        // the values are unknown, but there have to be some
        passgen_random r;
        passgen_random_system_open(&r);
        uint64_t v = 0;
        for(int i = 0; i < 8; i++) v |= passgen_random_u64(&r);
        passgen_random_close(&r);
        return std::string(v ? "ok" : "nothing");
    });
    u("seek", [] {
        passgen_random r;
        uint8_t key[32], iv[8];
        { Off f; for(int i = 0; i < 32; i++) key[i] = i; for(int i = 0; i < 8; i++) iv[i] = 7 * i; }
        passgen_random_chacha20_open(&r, key, iv);
        std::string o = draws(&r, 5);
        passgen_random_chacha20_seek(&r, 700);
        o += draws(&r, 5);
        passgen_random_chacha20_seek(&r, 3);
        o += draws(&r, 5);
        passgen_random_close(&r);
        return o;
    }, true);
    u("custom", [] {
        passgen_random r;
        Counter c;
        counter_open(&r, &c, 77, 0);
        std::string o = draws(&r, 12);
        std::vector<uint8_t> b(2000);
        passgen_random_read(&r, b.data(), 100);
        { Off f; o += hex(b.data(), 100); }
        passgen_random_read(&r, b.data(), 1500);
        { Off f; o += fmt("%llx ", (unsigned long long) hash_bytes(b.data(), 1500)); }
        o += draws(&r, 12);
        passgen_random_reload(&r);
        o += draws(&r, 12);
        return o;
    });
    u("tokens", [] {
        std::string o;
        uint32_t text[] = {'a', '\\', 'u', '{', '1', 'F', '6', '0', '0', '}', '\\', 'n', 0xe4, '\\', 'q', '\\', 'u', 'x', 0};
        passgen_token_parser tp;
        passgen_token_parser_init(&tp);
        passgen_token t;
        { Off f; memset(&t, 0, sizeof t); }
        for(int i = 0; text[i]; i++) {
            int ret = passgen_token_parse(&tp, &t, 1, text[i]);
            { Off f; o += fmt("%d:%x:%zu:%zu ", ret, t.codepoint, t.offset, t.byte_offset); }
            if(ret < 0) { const char *m = passgen_token_parse_error_str(ret); Off f; o += m; break; }
        }
        return o;
    });
    u("decode", [] {
        std::string o;
        for(const char *s: {"a\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80z", "b\xc3(", "xy\xf0\x9f", "\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9"}) {
            uint32_t out[4], *op = out;
            uint8_t w[4];
            const uint8_t *in = (const uint8_t *) s;
            size_t len;
            { Off f; len = strlen(s); memset(w, 0, sizeof w); }
            int ret = passgen_utf8_decode(&op, 4, w, &in, len);
            Off f;
            o += fmt("%d %zu %zu ", ret, (size_t) (op - out), (size_t) (in - (const uint8_t *) s)) + hex(out, (op - out) * 4) + hex(w, op - out);
        }
        return o;
    });
    u("encode", [] {
        std::string o;
        uint32_t in[] = {'a', 0xe4, 0x20ac, 0x1f600, 'z', 0x110000};
        for(size_t room: {1, 3, 6, 20}) {
            uint8_t out[32];
            { Off f; memset(out, 0, 32); }
            size_t op = 0, ip = 0;
            int ret = passgen_utf8_encode(out, room, &op, in, 6, &ip);
            Off f;
            o += fmt("%d %zu %zu ", ret, op, ip) + hex(out, op);
        }
        for(uint32_t cp: {0x41u, 0x22u, 0x1u, 0x20acu, 0x1f600u}) {
            uint8_t out[16];
            { Off f; memset(out, 0, 16); }
            int n = passgen_json_encode_codepoint(out, cp), m = passgen_utf8_encode_codepoint(out + 8, cp);
            Off f;
            o += fmt("%d %d ", n, m) + hex(out, 16);
        }
        return o;
    });
    u("maps", [] { return maps(&passgen_hashmap_context_utf8, 0, 12); });
    u("maps2", [] { return maps(&my_context, 1, 7); });
    u("stacks", [] {
        std::string o;
        passgen_stack s;
        passgen_stack_init(&s, sizeof(uint32_t));
        for(uint32_t i = 0; i < 40; i++) { uint32_t v = i * i; passgen_stack_push(&s, &v); }
        for(uint32_t i = 0; i < 40; i += 7) { uint32_t *v = (uint32_t *) passgen_stack_get(&s, i); Off f; o += fmt("%u ", *v); }
        for(uint32_t i = 0; i < 20; i++) { uint32_t v = 0; passgen_stack_pop(&s, &v); Off f; o += fmt("%u ", v); }
        uint32_t *t = (uint32_t *) passgen_stack_top(&s);
        { Off f; o += fmt("top %u len %zu", *t, s.len); }
        passgen_stack_free(&s);
        return o;
    });
    u("arrays", [] {
        std::string o;
        passgen_array a;
        passgen_array_init(&a, 2);
        for(uintptr_t i = 1; i < 30; i++) passgen_array_push(&a, (void *) (i * 3));
        for(size_t i = 0; i < 29; i += 4) { void *p = passgen_array_get(&a, i); Off f; o += fmt("%zu ", (size_t) p); }
        for(int i = 0; i < 5; i++) { void *p = passgen_array_pop(&a); Off f; o += fmt("%zu ", (size_t) p); }
        passgen_array_free(&a);
        return o;
    });
    u("siphash", [] {
        std::string o;
        uint8_t key[16], out[8];
        { Off f; for(int i = 0; i < 16; i++) key[i] = i; }
        for(const char *s: {"", "abc", "0123456789abcdefg"}) {
            size_t n;
            { Off f; n = strlen(s); }
            passgen_siphash(s, n, key, out, 8);
            Off f;
            o += hex(out, 8) + " ";
        }
        return o;
    });
    u("chain", [] {
        std::string o;
        passgen_markov m;
        passgen_markov_init(&m, 2);
        uint32_t w[3][5] = {{'a', 'b', 'c', 'a', 'b'}, {'b', 'c', 'a', 0xe4, 'x'}, {'a', 'b', 'x', 'a', 'b'}};
        for(auto &x: w) passgen_markov_add(&m, x, 5, 1 + x[2] % 3);
        passgen_random r;
        Counter c;
        counter_open(&r, &c, 5);
        uint32_t cur[3] = {0, 0, 0};
        double e = 1;
        for(int i = 0; i < 8; i++) {
            uint32_t n = passgen_markov_generate(&m, cur, &r, &e);
            Off f;
            o += fmt("%x %a ", n, e);
            if(!n) break;
            cur[0] = cur[1]; cur[1] = n;
        }
        passgen_markov_free(&m);
        return o;
    });
    u("list", [] {
        std::string o;
        passgen_wordlist w;
        FILE *f = text_file(LIST_A);
        passgen_wordlist_init(&w, f, 2);
        int a = passgen_wordlist_parse(&w);
        passgen_random r;
        Counter c;
        counter_open(&r, &c, 5);
        for(int i = 0; i < 4; i++) { const char *s = passgen_wordlist_random(&w, &r); Off f; o += s; o += " "; }
        { Off f; o += fmt("%d %zu", a, passgen_wordlist_count(&w)); }
        passgen_wordlist_free(&w);
        return o;
    });
    u("shared", [] { return generate(shared_pattern, UTF8, 21, true); });
    u("shared2", [] { return generate(shared_pattern, CB, 22, true); });
    u("sharedwords", [] { return generate(shared_words, UTF8, 23, true, {{"a", LIST_A}, {"b", LIST_B}}); });
    u("sharedwords2", [] { return generate(shared_words, CB, 24, false, {{"a", LIST_B}, {"b", LIST_A}}); });
    u("abandoned", [] {
        passgen_pattern p;
        passgen_parser ps;
        passgen_parser_init(&ps, &p);
        uint32_t t[] = {'(', 'a', '[', 'b', '-', 'c', ']', '{', '2'};
        int ret = passgen_parser_unicode(&ps, t, 9);
        passgen_parser_free(&ps);
        passgen_pattern_free(&p);
        return std::to_string(ret);
    });
}

// ------------------------------------------------------------------ deciding
enum { ACCESS, CALL, SHARED };
static void set_job(int i, size_t use, int mode, std::vector<uint64_t> stops) {
    th[i].job = &USES[use].run;
    th[i].mode = mode;
    th[i].stops = stops;
}
static std::string judge(int n, const std::vector<size_t> &use, const std::string &what) {
    for(int i = 0; i < n; i++)
        if(th[i].out != ALONE[use[i]])
            return fmt("%s: '%s' gives [%s] instead of [%s]", what.c_str(), USES[use[i]].name.c_str(), th[i].out.substr(0, 300).c_str(), ALONE[use[i]].substr(0, 300).c_str());
    return "";
}
static std::vector<size_t> parse_case(const std::string &c) {
    std::vector<size_t> o;
    size_t p = 0;
    while(p <= c.size()) {
        size_t q = c.find('+', p);
        if(q == std::string::npos) q = c.size();
        std::string n = c.substr(p, q - p);
        for(size_t i = 0; i < USES.size(); i++) if(USES[i].name == n) o.push_back(i);
        p = q + 1;
    }
    return o;
}
struct Measure { uint64_t n[3]; bool wrote; };
static Measure measure(size_t use) {
    set_job(0, use, ACCESS, {});
    run_threads(1, 0);
    return {{th[0].count[0], th[0].count[1], th[0].count[2]}, th[0].wrote};
}
// runs one schedule; false to stop exploring this case
struct Runner {
    Ctx &ctx;
    std::vector<size_t> use;
    int blocked = 0;
    uint64_t runs = 0;
    bool operator()(const std::string &what) {
        ctx.beat();
        if(!run_threads(use.size(), 0)) blocked++;
        runs++;
        std::string m = judge(use.size(), use, what);
        if(!m.empty()) { ctx.fail("interference " + ctx.current, m); return false; }
        // the library makes one wait for the other: the schedules that follow are the same ones again
        if(blocked > 3) { ctx.skipped(1); return false; }
        return !ctx.stopped();
    }
    void end() { ctx.transitions(runs); ctx.trace(runs); ctx.nontrivial(runs); }
};

int main(int argc, char **argv) {
    mallopt(M_PERTURB, 0xa5);
    add_uses();
    passgen_pattern p1, p2;
    passgen_error e;
    memset(&e, 0, sizeof e);
    if(passgen_parse(&p1, &e, "([a-f\xc3\xa4]{1,3}|{2}(x|y)z?){2}\\u{e9}")) abort();
    if(passgen_parse(&p2, &e, "\\w{a}[-_]\\m{b}?")) abort();
    shared_pattern = &p1; shared_words = &p2;
    for(auto &x: USES) ALONE.push_back(x.run());
    malloc_trim(0);

    shared_end = (char *) sbrk(0);
    size_t N = USES.size();
    add({"alone", "every use, twice in a row in a thread of its own, and the same use in all threads one after the other",
        [N](Ctx &c) { for(size_t i = 0; i < N; i++) c.emit(USES[i].name); },
        [](Ctx &c, const std::string &s) {
            auto u = parse_case(s);
            start_threads();
            Measure m = measure(u[0]);
            if(getenv("MC_VERBOSE")) fprintf(stderr, "%s: %llu accesses, %llu calls, %llu shared%s\n", s.c_str(), (unsigned long long) m.n[0], (unsigned long long) m.n[1], (unsigned long long) m.n[2], m.wrote ? " written" : "");
            Runner r{c, u};
            for(int i = 0; i < 3; i++) { set_job(0, u[0], ACCESS, {}); if(!r("alone")) break; }
            r.end();
        }});

    add({"one", "all ordered pairs of uses, the first stopped at every memory access, call and return of the library, the other run from beginning to end",
        [N](Ctx &c) { for(size_t i = 0; i < N; i++) for(size_t j = 0; j < N; j++) c.emit(USES[i].name + "+" + USES[j].name); },
        [](Ctx &c, const std::string &s) {
            auto u = parse_case(s);
            start_threads();
            uint64_t fine, coarse;
            { Measure m = measure(u[0]); fine = m.n[0]; coarse = m.n[1]; }
            c.state(hash_str(s) ^ fine);
            Runner r{c, u};
            // long uses are stopped at calls and accesses to static memory, and at the first accesses
            bool large = USES[u[0]].large || USES[u[1]].large;
            set_job(1, u[1], ACCESS, {});
            uint64_t nf = fine, nc = 0, step = 1;
            if(large) { nf = c.thorough ? 3000 : 300; nc = coarse; if(nf > fine) nf = fine; }
            if(USES[u[0]].name == "argon" || USES[u[1]].name == "argon") { step = nc > 400 ? nc / 400 : 1; nf = 0; }
            bool go = true;
            for(uint64_t k = 1; go && k <= nf; k++) {
                set_job(0, u[0], ACCESS, {k});
                go = r(fmt("the first is stopped at access %llu, the second runs to its end", (unsigned long long) k));
            }
            for(uint64_t k = 1; go && k <= nc; k += step) {
                set_job(0, u[0], CALL, {k});
                go = r(fmt("the first is stopped at call %llu, the second runs to its end", (unsigned long long) k));
            }
            r.end();
        }, 100});

    add({"two", "all ordered pairs of uses, the first stopped at a point, the second stopped at a point, the first run to its end, the second run to its end: all pairs of accesses to memory both can reach if one of them writes such memory (all other schedules are equivalent to these), and pairs of calls",
        [N](Ctx &c) { for(size_t i = 0; i < N; i++) for(size_t j = 0; j < N; j++) c.emit(USES[i].name + "+" + USES[j].name); },
        [](Ctx &c, const std::string &s) {
            auto u = parse_case(s);
            start_threads();
            Measure m[2] = {measure(u[0]), measure(u[1])};
            bool conflict = m[0].wrote || m[1].wrote;
            Runner r{c, u};
            bool go = true;
            for(int mode: {SHARED, CALL}) {
                if(mode == SHARED && !conflict) continue;
                uint64_t a = m[0].n[mode], b = m[1].n[mode], max = mode == SHARED ? 40000 : conflict ? 10000 : c.thorough ? 20000 : 600, sa = 1, sb = 1;
                if(USES[u[0]].name == "argon" || USES[u[1]].name == "argon") max /= 20;
                while((a / sa + 1) * (b / sb + 1) > max) (a / sa > b / sb ? sa : sb)++;
                for(uint64_t i = 1; go && i <= a; i += sa)
                    for(uint64_t j = 1; go && j <= b; j += sb) {
                        set_job(0, u[0], mode, {i});
                        set_job(1, u[1], mode, {j});
                        go = r(fmt("the first is stopped at %s %llu, the second at %llu", mode == SHARED ? "shared access" : "call", (unsigned long long) i, (unsigned long long) j));
                    }
            }
            r.end();
        }, 100});

    add({"nested", "all ordered pairs of uses, the second run inside every callback of the first (characters, reads of the source, comparisons, visits)",
        [N](Ctx &c) { for(size_t i = 0; i < N; i++) for(size_t j = 0; j < N; j++) c.emit(USES[i].name + "+" + USES[j].name); },
        [](Ctx &c, const std::string &s) {
            auto u = parse_case(s);
            for(uint64_t k = 1;; k++) {
                nested = &USES[u[1]].run; nested_at = k; callbacks = 0; nested_out.clear();
                std::string o = USES[u[0]].run();
                uint64_t n = callbacks;
                nested_at = 0;
                c.beat(); c.transitions(1); c.trace(); c.nontrivial();
                if(k > n) break;
                if(o != ALONE[u[0]]) { c.fail("nested " + s, fmt("with the second run inside callback %llu, the first gives [%s] instead of [%s]", (unsigned long long) k, o.substr(0, 300).c_str(), ALONE[u[0]].substr(0, 300).c_str())); break; }
                if(nested_out != ALONE[u[1]]) { c.fail("nested " + s, fmt("run inside callback %llu of the first, the second gives [%s] instead of [%s]", (unsigned long long) k, nested_out.substr(0, 300).c_str(), ALONE[u[1]].substr(0, 300).c_str())); break; }
            }
        }, 100});
    return main_(argc, argv);
}
