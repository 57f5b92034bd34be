// C22: generation depends only on its inputs.
//
// Histories of library operations (aborted generations, failed parses, loads, reads, ...) are
// enumerated; each history runs in a process of its own and is followed by probe generations from
// deterministic sources, whose results must be those of a process without any history.  A history
// acts on objects of its own, or on the very objects used by the probes.
#include "mc.hpp"
#include "patterns.hpp"
#include "ref_json.hpp"
#include <malloc.h>
#include <math.h>
#include <sys/syscall.h>
extern "C" {
#include <passgen/passgen.h>
#include <passgen/generate.h>
#include <passgen/random.h>
#include <passgen/error.h>
#include <passgen/pattern/env.h>
#include <passgen/wordlist.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/util/utf8.h>
#include <passgen/container/stack.h>
#include <passgen/container/hashmap.h>
}

static FILE *mem_file(const std::string &s) {
    int fd = syscall(SYS_memfd_create, "w", 0);
    FILE *f = fdopen(fd, "w+");
    fwrite(s.data(), 1, s.size(), f);
    fflush(f);
    fseek(f, 0, SEEK_SET);
    return f;
}
static bool parse(const std::string &s, passgen_pattern *p, passgen_error *e) {
    memset(e, 0, sizeof *e);
    return passgen_parse(p, e, s.c_str()) == 0;
}
static void lists(passgen_env *env) {
    for(auto &l: LISTS) passgen_env_wordlist_add(env, strdup(l.name), mem_file(l.text), l.order);
    passgen_env_wordlist_add(env, strdup("bad"), mem_file("ok\nab\xff\n"), 2);
}

// ------------------------------------------------------------------ probes
static const std::vector<std::string> PROBES = {
    "abc", "[a-z]{5}", "(a|{3}b|c)x?", "\\w{three}", "\\m{chain}{2}", "\\m{mixed}-\\w{dup}", "\\u{1F600}[\xc3\xa4-\xc3\xb6]\\n\"", "{2}a|b(c|d){0,3}",
    "[a-zA-Z0-9]{30}", "abcdefghijklmnop?", "((a|b)[xy]?){3}", "(x", "a{3,2}", "\\w{missing}", "\\w{bad}", "\\m{bad}", "[^]", "\\m{three}", "", "a{0,9}[01]{8}",
};
static const std::vector<std::string> SOURCES = {"xorshift:42", "chacha20:probekey:abc", "zero"};

struct Collect { Str s; int stop; };
static int collect(void *d, uint32_t cp) {
    Collect *c = (Collect *) d;
    if(c->stop >= 0 && (int) c->s.size() >= c->stop) return -1;
    c->s.push_back(cp);
    return 0;
}

// the result of a generation in one of the forms, as text; in *pos the next source bytes
static std::string generate(passgen_pattern *pat, passgen_env *env, passgen_random *r, int form, bool entropy, bool consumed = true) {
    double e = -1, *ep = entropy ? &e : NULL;
    std::string o;
    passgen_random *old = env->random;
    env->random = r;
    if(form == 0) {
        Collect c{{}, -1};
        int ret = passgen_generate(pat, env, ep, &c, collect);
        o = ret ? "fail" : "out ";
        if(!ret) for(uint32_t x: c.s) o += fmt("%x ", x);
    } else {
        std::string buf(4096, '\0');
        size_t n = form == 1 ? passgen_generate_fill_unicode(pat, env, ep, (uint32_t *) &buf[0], 1024)
                 : form == 2 ? passgen_generate_fill_utf8(pat, env, ep, (uint8_t *) &buf[0], 4096)
                             : passgen_generate_fill_json_utf8(pat, env, ep, (uint8_t *) &buf[0], 4096);
        buf.resize(form == 1 ? 4 * n : n);
        if(form == 1) { o = "out "; for(size_t i = 0; i < n; i++) { uint32_t x; memcpy(&x, &buf[4 * i], 4); o += fmt("%x ", x); } }
        else if(form == 2) { o = "out "; std::vector<ref::U8> u; if(!ref::utf8_all(buf, &u)) o = "bad utf8 "; for(auto &x: u) o += fmt("%x ", x.cp); }
        else { o = "out "; std::vector<uint32_t> d; ref::JsonReader jr(buf); if(!jr.body(&d, true)) o = "bad json "; for(auto &x: d) o += fmt("%x ", x); }
        if(n == 0) o = "empty";
    }
    env->random = old;
    if(entropy && o.compare(0, 3, "out") == 0) o += fmt("entropy %a ", e);
    if(consumed) o += fmt("next %016llx", (unsigned long long) passgen_random_u64(r));
    return o;
}

struct World {
    passgen_env env;
    std::vector<passgen_pattern> pats;
    std::vector<std::string> status;
    void open() {
        passgen_env_init(&env, NULL);
        lists(&env);
        pats.resize(PROBES.size());
        for(size_t i = 0; i < PROBES.size(); i++) {
            passgen_error e;
            bool ok = parse(PROBES[i], &pats[i], &e);
            status.push_back(ok ? "ok" : fmt("error at %zu/%zu", e.offset.codepoint, e.offset.byte));
        }
    }
};
static std::string probe(World &w) {
    std::string o;
    for(size_t i = 0; i < PROBES.size(); i++) {
        o += PROBES[i] + " " + w.status[i] + "\n";
        if(w.status[i] != "ok") continue;
        for(auto &src: SOURCES) {
            if(src[0] != 'x' && i % 3) continue;
            for(int v = 0; v < 5; v++) {
                static const int form[] = {0, 0, 1, 2, 3};
                passgen_random r;
                passgen_random_open(&r, src.c_str());
                o += fmt("%s:%d:%d: ", src.c_str(), form[v], v & 1) + generate(&w.pats[i], &w.env, &r, form[v], v & 1) + "\n";
                passgen_random_close(&r);
            }
        }
    }
    return o;
}
static std::string BASE[2];

// ------------------------------------------------------------------ operations
static const std::vector<std::string> OPPAT = {
    "abc", "\\m{chain}", "\\m{mixed}", "\\w{three}x", "(a|b|{2}c)", "[a-f]{6}", "ab?c{2}", "(((x)))", "a{0,5}", "\\w{bad}", "\\m{bad}", "\\m{averyveryverylongwordlistname}",
};
static const std::vector<std::string> BADPAT = {"(", "a{", "[a-", "\\w{", "\\u{12", "a{2,1}", ")", "(a|{2", "\xff", "[b-a]", "abc\\"};
// case: ops separated by spaces: an operation is KIND ':' INDEX ':' PARAM
static std::vector<std::string> ops(bool wide) {
    std::vector<std::string> o;
    for(size_t i = 0; i < OPPAT.size(); i++) {
        for(int k = 0; k < 4; k++) if(wide || (k == 0 || k == 3) && i < 9) o.push_back(fmt("g:%zu:%d", i, k));                // generate in a form
        for(int k = 0; k < (wide ? 5 : 2); k++) o.push_back(fmt("s:%zu:%d", i, k));                                           // stopped by the consumer
        if(wide) for(int k = 0; k < 4; k++) o.push_back(fmt("b:%zu:%d", i, k));                                               // small buffer
        if(wide || i == 7 || i == 4) for(int k = 0; k < 3; k++) o.push_back(fmt("d:%zu:%d", i, k));                           // depth limit
        if(wide) o.push_back(fmt("p:%zu:0", i));                                                                              // parse, free
        if(wide) for(int k = 0; k < 3; k++) o.push_back(fmt("t:%zu:%d", i, k));                                               // abandoned parse
    }
    for(size_t i = 0; i < BADPAT.size(); i++) { o.push_back(fmt("e:%zu:0", i)); if(wide) for(int k = 0; k < 4; k++) o.push_back(fmt("T:%zu:%d", i, k)); }
    for(int i = 0; i < 6; i++) for(int k = 0; k < (wide ? 5 : 2); k++) o.push_back(fmt("r:%d:%d", i, k));                     // sources
    for(int i = 0; i < 5; i++) o.push_back(fmt("w:%d:0", i));                                                                 // wordlists
    for(int i = 0; i < 4; i++) o.push_back(fmt("u:%d:0", i));                                                                 // conversions
    o.push_back("h:0:0");
    return o;
}
static void run_op(const std::string &op, World *shared) {
    char kind = op[0];
    int idx = 0, par = 0;
    sscanf(op.c_str() + 1, ":%d:%d", &idx, &par);
    passgen_env own, *env = &own;
    passgen_pattern pat, *p = &pat;
    passgen_error err;
    passgen_random r;
    passgen_random_open(&r, "xorshift:7");
    bool gen = strchr("gsbd", kind) != NULL;
    if(gen) {
        std::string s = OPPAT[idx];
        p = &pat;
        parse(s, &pat, &err);
        if(shared) {
            env = &shared->env;
            for(size_t i = 0; i < PROBES.size(); i++) if(PROBES[i].compare(0, 8, s.substr(0, 8)) == 0) { p = &shared->pats[i]; break; }
        } else { passgen_env_init(&own, NULL); lists(&own); }
    }
    switch(kind) {
        case 'g': generate(p, env, &r, par, par & 1); break;
        case 's': {
            env->random = &r;
            for(int n = 0; n < 3; n++) { Collect c{{}, par}; double e; passgen_generate(p, env, n & 1 ? &e : NULL, &c, collect); }
            env->random = NULL;
            break;
        }
        case 'b': {
            env->random = &r;
            for(int n = 0; n < 4; n++) { char b[64]; double e; passgen_generate_fill_utf8(p, env, &e, (uint8_t *) b, par); passgen_generate_fill_json_utf8(p, env, NULL, (uint8_t *) b, par); passgen_generate_fill_unicode(p, env, &e, (uint32_t *) b, par); }
            env->random = NULL;
            break;
        }
        case 'd': {
            size_t old = env->depth_limit;
            env->depth_limit = par;
            generate(p, env, &r, 0, true);
            env->depth_limit = old;
            break;
        }
        case 'p': parse(OPPAT[idx], &pat, &err); passgen_pattern_free(&pat); break;
        case 'e': parse(BADPAT[idx], &pat, &err); passgen_pattern_free(&pat); break;
        case 't': case 'T': {
            const std::string &s = kind == 't' ? OPPAT[idx] : BADPAT[idx];
            passgen_parser ps;
            passgen_parser_init(&ps, &pat);
            passgen_token_parser tp = {};
            passgen_token tok = {};
            for(size_t i = 0; i < s.size() && (int) i <= par + (kind == 't' ? 1 : 0); i++)
                if(passgen_token_parse(&tp, &tok, 1, (unsigned char) s[i]) == PASSGEN_TOKEN_INIT) if(passgen_parse_token(&ps, &tok)) break;
            passgen_parser_free(&ps);
            passgen_pattern_free(&pat);
            break;
        }
        case 'r': {
            static const char *d[] = {"xorshift:42", "chacha20:probekey:abc", "zero", "chacha20-argon2:pass", "nonsense:1", "file:/nonexistent"};
            static const int n[] = {0, 1, 17, 1024, 2500};
            if(idx == 3 && par > 1) break;
            passgen_random q;
            if(passgen_random_open(&q, d[idx])) { std::vector<uint8_t> b(n[par] + 1); passgen_random_read(&q, b.data(), n[par]); passgen_random_close(&q); }
            break;
        }
        case 'w': {
            static const char *t[] = {"a\nb\n", "", "x\xff\nabc\n", "longer\nwords\nhere", "\n\nq"};
            passgen_env e2;
            passgen_env *to = shared && idx < 4 ? &shared->env : &e2;
            passgen_env_init(&e2, NULL);
            passgen_env_wordlist_add(to, strdup("historylist"), mem_file(t[idx]), 1 + idx);
            passgen_error pe;
            for(auto s: {"\\w{historylist}", "\\m{historylist}"}) { parse(s, &pat, &pe); generate(&pat, to, &r, 0, true); passgen_pattern_free(&pat); }
            passgen_env_free(&e2);
            break;
        }
        case 'u': {
            static const char *t[] = {"\xf0\x9f\x98", "abc\xff", "\xe2\x82\xac\xe2", "ok"};
            uint32_t out[2], *o = out;
            const unsigned char *in = (const unsigned char *) t[idx];
            passgen_utf8_decode(&o, 2, NULL, &in, strlen(t[idx]));
            break;
        }
        case 'h': {
            passgen_hashmap m;
            passgen_hashmap_init(&m, &passgen_hashmap_context_utf8);
            for(int i = 0; i < 40; i++) passgen_hashmap_insert(&m, fmt("key%d", i % 7).c_str() ? (void *) "key" : NULL, NULL);
            passgen_hashmap_remove(&m, (void *) "key");
            passgen_hashmap_free(&m);
            break;
        }
    }
    if(gen) {
        passgen_pattern_free(&pat);
        if(!shared) passgen_env_free(&own);
    }
    passgen_random_close(&r);
}

static std::string in_child(const std::function<std::string()> &f) {
    int fd[2];
    if(pipe(fd)) return "pipe";
    fcntl(fd[1], F_SETPIPE_SZ, 1 << 17);
    pid_t pid = fork();
    if(!pid) {
        close(fd[0]);
        std::string s = f();
        s += "\nend";
        size_t at = 0;
        while(at < s.size()) { ssize_t n = write(fd[1], s.data() + at, s.size() - at); if(n <= 0) break; at += n; }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char b[16384];
    ssize_t n;
    while((n = read(fd[0], b, sizeof b)) > 0 || n < 0 && errno == EINTR) if(n > 0) s.append(b, n);
    close(fd[0]);
    int st;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(WIFSIGNALED(st)) s += fmt("\nkilled by signal %d", WTERMSIG(st));
    return s;
}
static std::string first_diff(const std::string &a, const std::string &b) {
    size_t i = 0, p = 0;
    std::string name;
    auto line = [](const std::string &s, size_t at) { size_t e = s.find('\n', at); return s.substr(at, (e == std::string::npos ? s.size() : e) - at); };
    size_t pa = 0, pb = 0;
    while(pa < a.size() && pb < b.size()) {
        std::string la = line(a, pa), lb = line(b, pb);
        if(la != lb) return "in the fresh process " + name + " / " + la.substr(0, 200) + ", after the history " + lb.substr(0, 200);
        if(la.find(": ") == std::string::npos) name = la;
        pa += la.size() + 1; pb += lb.size() + 1;
    }
    (void) i; (void) p;
    return "results end early: " + (b.size() > a.size() ? b.substr(a.size()) : a.substr(b.size())).substr(0, 200);
}

// case: MODE (o own objects, s shared objects, l shared with late opening) then operations
static void check_history(Ctx &ctx, const std::string &c) {
    char mode = c[0];
    std::vector<std::string> list;
    for(size_t at = 1; at < c.size();) {
        size_t e = c.find(' ', at + 1);
        if(e == std::string::npos) e = c.size();
        list.push_back(c.substr(at + 1, e - at - 1));
        at = e;
    }
    std::string got = in_child([&]() {
        mallopt(M_PERTURB, 0x5a);
        World w;
        if(mode != 'o') w.open();
        for(auto &o: list) {
            int times = 1;
            size_t star = o.find('*');
            if(star != std::string::npos) times = atoi(o.c_str() + star + 1);
            for(int i = 0; i < times; i++) run_op(o.substr(0, star), mode == 's' ? &w : NULL);
        }
        if(mode == 'o') w.open();
        return probe(w);
    });
    ctx.state(hash_str(c));
    ctx.transitions(list.size());
    ctx.trace();
    ctx.evals(PROBES.size());
    if(got != BASE[0]) ctx.fail("history " + c.substr(0, 200), "history [" + c + "]: " + first_diff(BASE[0], got));
}

// ------------------------------------------------------------------ forms and batches
// case: pattern.  From one seed: every form, with and without entropy, gives the same outputs and
// consumes the same source bytes; batches equal repeated generation with fresh objects.
static void check_forms(Ctx &ctx, const std::string &s) {
    passgen_pattern pat;
    passgen_error err;
    if(!parse(s, &pat, &err)) { passgen_pattern_free(&pat); return; }
    passgen_env env;
    passgen_env_init(&env, NULL);
    bool wl = s.find('\\') != std::string::npos;
    if(wl) lists(&env);
    std::vector<std::string> base, plain;
    std::string tail;
    const int K = 4;
    // reference batch: the callback form, without entropy
    passgen_random r;
    passgen_random_open(&r, "xorshift:99");
    std::vector<std::string> ent;
    for(int k = 0; k < K; k++) plain.push_back(generate(&pat, &env, &r, 0, false, false));
    uint64_t end = passgen_random_u64(&r);
    passgen_random_close(&r);
    bool failed = false, empty = false;
    for(auto &x: plain) { if(x == "fail") failed = true; if(x == "out ") empty = true; }
    std::vector<std::string> ents;
    for(int v = 1; v < 10 && !ctx.failed; v++) {
        int form = v < 8 ? v / 2 : 0;
        bool e = v & 1;
        passgen_random_open(&r, "xorshift:99");
        std::string bad;
        for(int k = 0; k < K; k++) {
            passgen_pattern p2, *pp = &pat;
            passgen_env e2, *ee = &env;
            if(v >= 8) { // fresh objects for every password, other work in between
                passgen_error err2;
                parse(s, &p2, &err2);
                passgen_env_init(&e2, NULL);
                if(wl) lists(&e2);
                pp = &p2; ee = &e2;
                passgen_random other;
                passgen_random_open(&other, "chacha20:other");
                generate(&pat, &env, &other, k % 4, true);
                passgen_random_close(&other);
            }
            std::string g = generate(pp, ee, &r, form, e, false);
            if(v >= 8) { passgen_pattern_free(&p2); passgen_env_free(&e2); }
            std::string en;
            size_t at = g.find("entropy");
            if(at != std::string::npos) { en = g.substr(at); g = g.substr(0, at); }
            std::string want = plain[k];
            if(form && (want == "out " || want == "fail")) want = "empty";
            if(g != want) bad = fmt("password %d is %s, expected %s", k, g.substr(0, 150).c_str(), want.substr(0, 150).c_str());
            if(e && want.compare(0, 3, "out") == 0) {
                if(v == 1) ents.push_back(en);
                else if((size_t) k < ents.size() && en != ents[k]) bad = fmt("entropy of password %d is %s, expected %s", k, en.c_str(), ents[k].c_str());
            } else if(v == 1) ents.push_back("");
            ctx.transitions(1);
        }
        // a failing generation may stop before or after its last draw
        if(bad.empty() && passgen_random_u64(&r) != end) bad = "a different amount of source bytes is consumed";
        passgen_random_close(&r);
        if(!bad.empty())
            ctx.fail("forms " + esc(s).substr(0, 200), fmt("pattern %s, %s%s%s from the same source: ", esc(s).substr(0, 200).c_str(), form == 0 ? "callback form" : form == 1 ? "code point form" : form == 2 ? "UTF-8 form" : "JSON form", e ? " with entropy" : "", v >= 8 ? " with fresh objects for each password" : "") + bad);
    }
    (void) empty; (void) failed;
    ctx.state(hash_str(s));
    ctx.trace();
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}

// words of every kind, malformed ones too, picked again and again: case "<hex of the word> <position in the list> <mode>"
static void check_words(Ctx &ctx, const std::string &c) {
    char hex[80];
    int at, order;
    sscanf(c.c_str(), "%79s %d %d", hex, &at, &order);
    std::string w, text;
    for(size_t i = 0; hex[i] && hex[i + 1]; i += 2) { unsigned x; sscanf(hex + i, "%2x", &x); w += (char) x; }
    std::vector<std::string> words = {"okay", "ab\xc3\xa9", "ok"};
    words.insert(words.begin() + at, w);
    for(auto &x: words) text += x + "\n";
    static const char *pats[] = {"\\w{words}", "\\m{words}", "\\w{words}\\m{words}\\w{words}"};
    passgen_pattern pat[3];
    passgen_error err;
    auto open = [&](passgen_env *e) { passgen_env_init(e, NULL); passgen_env_wordlist_add(e, strdup("words"), mem_file(text), order); };
    for(int i = 0; i < 3; i++) parse(pats[i], &pat[i], &err);
    auto one = [&](int i, passgen_env *e, int seed) {
        passgen_random r;
        passgen_random_open(&r, fmt("xorshift:%d", seed).c_str());
        std::string g = generate(&pat[i], e, &r, seed & 3, seed & 4, true);
        passgen_random_close(&r);
        ctx.transitions(1);
        return g;
    };
    const int N = 10;
    std::vector<std::string> want;
    for(int i = 0; i < 3; i++) for(int s = 1; s <= N; s++) { passgen_env e; open(&e); want.push_back(one(i, &e, s)); passgen_env_free(&e); }
    passgen_env env;
    open(&env);
    for(int round = 0; round < 3; round++)
        for(int i = 0; i < 3; i++)
            for(int s = 1; s <= N; s++) {
                std::string g = one(i, &env, s);
                if(g != want[i * N + s - 1]) {
                    ctx.fail("words " + c, fmt("wordlist '%s', pattern %s, seed %d, in round %d over the same wordlist: %s, with a fresh wordlist: %s", esc(text).c_str(), pats[i], s, round, g.substr(0, 200).c_str(), want[i * N + s - 1].substr(0, 200).c_str()));
                    goto out;
                }
            }
out:
    passgen_env_free(&env);
    for(int i = 0; i < 3; i++) passgen_pattern_free(&pat[i]);
    ctx.state(hash_str(c));
    ctx.trace();
}
static void gen_words(Ctx &ctx) {
    std::vector<std::string> w;
    for(int b = 1; b < 256; b++) {
        if(b == '\n' || b == '\r') continue;
        for(auto f: {"%02x", "%02x61", "61%02x", "%02x80", "%02xa9bf", "%02x80bfbf", "6162%02x6162"}) w.push_back(fmt(f, b));
    }
    for(auto s: {"eda080", "f4908080", "c080", "e08080", "f0808080", "efbfbd", "efbbbf", "efbbbf61", "f09f9880", "f09f98", "20", "2020", "09", "09612009", "78787878787878787878787878787878787878787878787878787878787878787878"}) w.push_back(s);
    for(auto &x: w) for(int at = 0; at < 4; at++) { if(!ctx.thorough && at == 2) continue; for(int order = 1; order < (ctx.thorough ? 5 : 2); order++) ctx.emit(fmt("%s %d %d", x.c_str(), at, order + (ctx.thorough ? 0 : (int) (x.size() / 2 + at) % 3))); }
}

int main(int argc, char **argv) {
    RENV = refenv();
    // results of a process without history, under two fillings of fresh memory
    for(int i = 0; i < 2; i++) BASE[i] = in_child([&]() {
        mallopt(M_PERTURB, i ? 0xc3 : 0x5a);
        World w;
        w.open();
        return probe(w);
    });
    add({"memory", "the probes alone, under two fillings of fresh heap memory, and twice in a row", [](Ctx &c) { c.emit("memory"); c.emit("twice"); },
         [](Ctx &ctx, const std::string &c) {
             if(c == "memory") { if(BASE[0] != BASE[1]) ctx.fail("memory", "results depend on the previous contents of heap memory: " + first_diff(BASE[0], BASE[1])); }
             else {
                 std::string two = in_child([&]() { mallopt(M_PERTURB, 0x5a); World w; w.open(); probe(w); return probe(w); });
                 if(two != BASE[0]) ctx.fail("twice", "probing the same objects again: " + first_diff(BASE[0], two));
             }
             ctx.trace();
             ctx.state(hash_str(c));
         }});
    add({"long", "the probes 500 (10000 thorough) times on the same objects; every probe and operation pattern 70000 (300000) times with three seeds in turn", [](Ctx &c) {
             for(int i = 0; i < (c.thorough ? 20 : 8); i++) c.emit(fmt("rounds %d", i));
             for(size_t i = 0; i < PROBES.size() + OPPAT.size(); i++) for(int form = 0; form < 4; form++) if(c.thorough || form == (int) i % 4) c.emit(fmt("cycle %zu %d", i, form));
         },
         [](Ctx &ctx, const std::string &c) {
             size_t at = 0;
             int form = 0;
             ctx.state(hash_str(c));
             ctx.trace();
             if(sscanf(c.c_str(), "cycle %zu %d", &at, &form) != 2) {
                 World w;
                 w.open();
                 // different rounds meet a period at different places
                 int first = atoi(c.c_str() + 7);
                 passgen_random r;
                 passgen_random_open(&r, "xorshift:3");
                 for(int i = 0; i < first; i++) for(size_t k = 0; k < PROBES.size(); k++) if(w.status[k] == "ok") generate(&w.pats[k], &w.env, &r, 0, true);
                 passgen_random_close(&r);
                 for(int i = 0; i < (ctx.thorough ? 500 : 63); i++) {
                     std::string o = probe(w) + "\nend";
                     ctx.beat();
                     ctx.transitions(1);
                     if(o != BASE[0]) { ctx.fail("long " + c, fmt("round %d: ", i) + first_diff(BASE[0], o)); return; }
                 }
                 return;
             }
             std::string s = at < PROBES.size() ? PROBES[at] : OPPAT[at - PROBES.size()];
             passgen_pattern pat;
             passgen_error e;
             if(!parse(s, &pat, &e)) return;
             passgen_env env;
             passgen_env_init(&env, NULL);
             lists(&env);
             std::string want[3];
             static const char *seed[] = {"xorshift:11", "xorshift:2222", "xorshift:333333"};
             for(int i = 0; i < (ctx.thorough ? 300000 : 70000); i++) {
                 passgen_random r;
                 passgen_random_open(&r, seed[i % 3]);
                 std::string g = generate(&pat, &env, &r, form, true);
                 passgen_random_close(&r);
                 if((i & 1023) == 0) ctx.beat();
                 if(i < 3) { passgen_env e2; passgen_env_init(&e2, NULL); lists(&e2); passgen_random_open(&r, seed[i]); want[i] = generate(&pat, &e2, &r, form, true); passgen_random_close(&r); passgen_env_free(&e2); }
                 if(g != want[i % 3]) { ctx.fail("cycle " + c, fmt("pattern %s, generation %d from the same wordlists: %s, the first gave %s", esc(s).c_str(), i, g.substr(0, 200).c_str(), want[i % 3].substr(0, 200).c_str())); break; }
             }
             ctx.transitions(70000);
             passgen_env_free(&env);
             passgen_pattern_free(&pat);
         }, 100});
    add({"single", "every single operation (wide set) on own and on shared objects, once and 2..70000 times", [](Ctx &c) {
             for(auto &o: ops(true)) for(auto m: {"o", "s", "l"}) { c.emit(std::string(m) + " " + o); for(int n: {2, 3, 17, 256, 300}) if(n < 20 || o[0] != 'r' && *m != 'l') c.emit(std::string(m) + " " + o + fmt("*%d", n)); }
             for(auto o: {"g:1:0", "g:0:0", "g:4:0", "g:5:0", "p:4:0", "e:7:0"}) for(auto m: {"o", "s"}) c.emit(std::string(m) + " " + o + "*70000");
         }, check_history, 120});
    add({"pairs", "all pairs of operations on own and on shared objects", [](Ctx &c) {
             auto a = ops(true);
             for(auto &x: a) for(auto &y: a) for(auto m: {"o", "s"}) c.emit(std::string(m) + " " + x + " " + y);
         }, check_history});
    add({"triples", "all triples of 18 / about 80 operations", [](Ctx &c) {
             std::vector<std::string> al = {"s:1:0", "s:2:1", "s:3:1", "s:4:0", "d:7:1", "b:5:3", "g:1:0", "g:8:3", "e:1:0", "e:3:0", "e:8:0", "T:4:3", "t:5:2", "w:2:0", "w:3:0", "r:0:1", "u:0:0", "g:9:0"};
             if(c.thorough) al = ops(false);
             size_t n = al.size();
             for(size_t i = 0; i < n; i++) for(size_t j = 0; j < n; j++) for(size_t k = 0; k < n; k++) for(auto m: {"o", "s"}) { if(!c.thorough && *m == 'o' && (i + j + k) % 2) continue; c.emit(std::string(m) + " " + al[i] + " " + al[j] + " " + al[k]); }
         }, check_history});
    add({"words", "lists of four words of which one is any single byte, or a byte with others around it, at each position: repeated picks from one list against fresh lists", gen_words, check_words});
    add({"forms", "all patterns of cost up to 6, probes and long patterns: 4 forms x entropy, batch against fresh objects per password, from one seed", [](Ctx &c) {
             for(auto &s: structured(6)) c.emit(s);
             for(auto &s: PROBES) c.emit(s);
             for(int n = 0; n < 300; n += 3) c.emit(fmt("[a-z]{%d}", n)), c.emit(fmt("(a|b|[cd]){%d}x", n)), c.emit(rep("x?", n)), c.emit(fmt("\\m{mixed}{%d}", n / 8)), c.emit(fmt("\\w{three}[x-z]{%d}", n / 4));
         }, check_forms});
    return main_(argc, argv);
}
