// C14 C15: wordlists and markov models, explored over word lists x complete trees of random draws.
#include "mc.hpp"
#include "tree.hpp"
extern "C" {
#include <passgen/markov.h>
#include <passgen/pattern/pattern.h>
}
#include <algorithm>
using namespace mc;
using ref::Str;

static char P; // '4' or '5'

// an unbounded random word that is mapped to n outcomes without ever rejecting one
template<class F> static bool unrejected(uint64_t n, F run) {
    if(n < 2 || !(n & (n - 1))) return false;
    for(uint64_t v: {(uint64_t) 0, ~(uint64_t) 0}) {
        Tree t;
        t.single = true;
        t.value = v;
        T = &t;
        run();
        T = NULL;
        if(!t.wide || t.decisions != 1) return false;
    }
    return true;
}

// ------------------------------------------------------------------ C15: lines
static std::vector<std::string> lines_of(const std::string &t) {
    std::vector<std::string> out;
    std::string cur;
    for(char c: t + "\n") {
        if(c == '\n') { if(!cur.empty()) out.push_back(cur); cur.clear(); }
        else cur += c;
    }
    return out;
}
static bool decode_word(const std::string &w, Str *out) {
    std::vector<ref::U8> u;
    if(!ref::utf8_all(w, &u)) return false;
    for(auto &x: u) out->push_back(x.cp);
    return true;
}
struct Sink { Str s; size_t limit; bool cut = false; };
static int sink_cb(void *d, uint32_t cp) {
    Sink *s = (Sink *) d;
    if(s->s.size() == s->limit) { s->cut = true; return 77; }
    s->s.push_back(cp);
    return 0;
}
static void check_text(Ctx &ctx, const std::string &text, const std::string &label) {
    std::vector<std::string> want = lines_of(text);
    uint64_t h = hash_str(text);
    ctx.state(h);
    ctx.trace();
    ctx.transitions(want.size() + 1);
    // the loaded words
    passgen_wordlist w;
    memset(&w, 0xee, sizeof w);
    passgen_wordlist_init(&w, mem_file(text), 2);
    int r = passgen_wordlist_parse(&w);
    if(r) ctx.fail("parse " + label, fmt("%s: loading fails with %d", label.c_str(), r));
    else if(passgen_wordlist_count(&w) != want.size())
        ctx.fail("count " + label, fmt("%s: %zu words are loaded, the file has %zu non-empty lines", label.c_str(), passgen_wordlist_count(&w), want.size()));
    else for(size_t i = 0; i < want.size() && !ctx.failed; i++)
        if(want[i] != (const char *) w.words[i])
            ctx.fail("word " + label, fmt("%s: word %zu is %s, expected %s", label.c_str(), i, esc((const char *) w.words[i]).substr(0, 300).c_str(), esc(want[i]).substr(0, 300).c_str()));
    passgen_wordlist_free(&w);
    if(ctx.failed) return;

    // picking
    passgen_pattern pat;
    passgen_error err;
    if(!parse_real("\\w{l}", &pat, &err)) { ctx.fail("pattern", "\\w{l} is rejected"); return; }
    passgen_env env;
    passgen_env_init(&env, &RND);
    passgen_env_wordlist_add(&env, strdup("l"), mem_file(text), 2);
    auto run = [&](Sink &s, double *e) { return passgen_generate(&pat, &env, e, &s, sink_cb); };
    size_t n = want.size();
    if(n <= 2000) {
        Tree t;
        std::map<Str, double> got;
        double failed = 0;
        bool bad = false;
        do {
            t.begin();
            T = &t;
            Sink s{{}, 1 << 20};
            double e = -1;
            int r = run(s, &e);
            T = NULL;
            ctx.beat();
            ctx.state(hash_bytes(t.choice.data(), t.pos * 8, h));
            ctx.transitions(1);
            if(t.unsupported || t.nondet || t.zero) { bad = true; break; }
            if(r) failed += t.prob();
            else {
                got[s.s] += t.prob();
                if(fabs(e - (double) n) > 1e-9 * n) ctx.fail("entropy " + label, fmt("%s: picking %s of %zu words reports the factor %.9g", label.c_str(), ref::show(s.s).substr(0, 200).c_str(), n, e));
            }
        } while(!ctx.failed && t.next());
        if(t.zero) ctx.fail("zero-draw " + label, label + ": draw from an empty range");
        if(t.nondet) ctx.fail("nondet " + label, label + ": the same draws lead to different decisions");
        if(!bad && !ctx.failed) {
            std::map<Str, double> exp;
            double expfail = n ? 0 : 1;
            for(auto &x: want) { Str s; if(decode_word(x, &s)) exp[s] += 1.0 / n; else expfail += 1.0 / n; }
            if(fabs(expfail - failed) > 1e-9) ctx.fail("fail " + label, fmt("%s: generation fails with probability %.9f, expected %.9f", label.c_str(), failed, expfail));
            for(auto &x: exp) got[x.first];
            for(auto &x: got) {
                double p = exp.count(x.first) ? exp[x.first] : 0;
                if(fabs(p - x.second) > 1e-9) {
                    ctx.fail("prob " + label, fmt("%s: %s is generated with probability %.9f, expected %.9f", label.c_str(), ref::show(x.first).substr(0, 300).c_str(), x.second, p));
                    break;
                }
            }
        } else if(t.unsupported && !ctx.failed) {
            if(unrejected(n, [&] { Sink s{{}, 1 << 20}; run(s, NULL); }))
                ctx.fail("biased " + label, fmt("%s: an unbounded random word is mapped to %zu words without rejection", label.c_str(), n));
            ctx.skipped();
        }
    } else {
        // every value of the one draw
        std::vector<uint32_t> seen(n, 0);
        uint64_t range = 0;
        bool wide = false;
        for(uint64_t v = 0; v < n && !ctx.failed; v++) {
            Tree t;
            t.single = true;
            t.value = v;
            T = &t;
            Sink s{{}, 1 << 20};
            double e = -1;
            int r = run(s, &e);
            T = NULL;
            ctx.beat();
            wide |= t.wide;
            if(v == 0) { range = t.range; ctx.transitions(n); if(range != n || wide) break; }
            // words are their own index in these lists
            std::string o;
            for(uint32_t c: s.s) o += ref::utf8_put(c);
            uint64_t idx = strtoull(o.c_str() + 1, NULL, 10);
            if(r || idx >= n || o != want[idx]) ctx.fail("pick " + label, fmt("%s: drawing %llu emits %s (result %d)", label.c_str(), (unsigned long long) v, esc(o).substr(0, 100).c_str(), r));
            else if(seen[idx]++) ctx.fail("pick " + label, fmt("%s: word %llu is picked by several draws", label.c_str(), (unsigned long long) idx));
            else if(fabs(e - (double) n) > 1e-9 * n) ctx.fail("entropy " + label, fmt("%s: factor %.9g reported", label.c_str(), e));
        }
        if(!ctx.failed && !wide && range != n)
            ctx.fail("range " + label, fmt("%s: one of %llu values is drawn for %zu words", label.c_str(), (unsigned long long) range, n));
        if(wide && unrejected(n, [&] { Sink s{{}, 1 << 20}; run(s, NULL); }))
            ctx.fail("biased " + label, fmt("%s: an unbounded random word is mapped to %zu words without rejection", label.c_str(), n));
    }
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}
// case forms: "t <escaped text>"  |  "n count final blanks base": generated lists  |  "l length unit": one long word
static void check_words(Ctx &ctx, const std::string &c) {
    if(c[0] == 't') { check_text(ctx, unesc(c.substr(2)), "text " + c.substr(2, 150)); return; }
    std::string text;
    if(c[0] == 'n') {
        int n, fin, blank;
        sscanf(c.c_str() + 2, "%d %d %d", &n, &fin, &blank);
        for(int i = 0; i < n; i++) {
            if(blank && i % blank == 0) text += "\n";
            text += fmt("w%d", i);
            if(i + 1 < n || fin) text += "\n";
        }
        if(fin == 2) text += "\n\n";
    } else {
        int len, kind;
        sscanf(c.c_str() + 2, "%d %d", &len, &kind);
        static const char *unit[] = {"a", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff"};
        std::string w;
        if(kind < 4) for(int i = 0; i < len; i++) w += unit[kind];
        else if(kind < 8) { for(int i = 0; i < len; i++) w += "a"; w += unit[kind - 4 + 1]; w += "bc"; }
        else { for(int i = 0; i < len; i++) w += unit[i % 4]; }
        text = w + "\nzz\n";
        if(kind % 2) text += w;
    }
    check_text(ctx, text, "list " + c);
}
static void gen_words(Ctx &ctx) {
    all_strings({"a", "b", "\n", "\xc3\xa4", "\r", " "}, ctx.thorough ? 7 : 6, [&](const std::string &s, size_t) { ctx.emit("t " + esc(s)); return !ctx.stopped(); });
    all_strings({"a", "\n", "\xff", "\xe2\x82", "\xe2\x82\xac", "\xed\xa0\x80", "\t", "#", ":", "\\", "\x01", "\x7f", "\x80", "\xf4\x90\x80\x80", "\xf0\x9f\x98\x80"}, ctx.thorough ? 5 : 4,
                [&](const std::string &s, size_t) { ctx.emit("t " + esc(s)); return !ctx.stopped(); });
    for(int b = 1; b < 256; b++) {
        std::string s(1, (char) b);
        for(auto &x: {s, "a" + s, s + "a\n", "x\n" + s + "\ny", s + s + "\n\n" + s}) ctx.emit("t " + esc(x));
    }
    // what a file begins and ends with: every pair of bytes, every character of three bytes
    for(int a = 1; a < 256; a++)
        for(int b = 1; b < 256; b++) {
            std::string s = {(char) a, (char) b};
            ctx.emit("t " + esc(s + "x\ny"));
            if(a < 0x80 || b < 0x80) ctx.emit("t " + esc("y\nx" + s));
        }
    for(uint32_t c = 0x800; c < 0x110000; c += c < 0x10000 || ctx.thorough ? 1 : 257) {
        if(c >= 0xd800 && c < 0xe000) continue;
        ctx.emit("t " + esc(ref::utf8_put(c) + (c % 2 ? "one\ntwo" : "\nb")));
    }
    for(int n = 0; n <= 1100; n++) {
        if(n > 40 && n % 16 > 2 && n % 16 < 14 && !ctx.thorough) continue;
        for(int fin = 0; fin < 3; fin++) ctx.emit(fmt("n %d %d %d", n, fin, n % 5));
    }
    for(int n: {2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 16384, 16385}) ctx.emit(fmt("n %d %d 0", n, n % 2));
    for(int n: {32767, 32768, 32769, 65535, 65536, 65537, 65793, 131072, 131073}) ctx.emit(fmt("n %d %d 0", n, n % 2));
    int L = ctx.thorough ? 1400 : 700;
    for(int l = 1; l <= L; l++)
        for(int k = 0; k <= 9; k++) ctx.emit(fmt("l %d %d", l, k));
    for(int l: {1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100000})
        for(int k = 0; k <= 9; k++) ctx.emit(fmt("l %d %d", l, k));
}

// several picks in a row: every sequence of up to four (five) picks among the first, second, middle and last word, in one generation,
// in several, and alternating between two lists of the same length.  case: "<words> <mode>"
static void check_sequence(Ctx &ctx, const std::string &c) {
    int n, mode;
    sscanf(c.c_str(), "%d %d", &n, &mode);
    std::string text, other;
    for(int i = 0; i < n; i++) { text += fmt("w%d\n", i); other += fmt("v%d\n", i); }
    int depth = ctx.thorough ? 5 : 4;
    std::vector<passgen_pattern> pats(2 * depth + 2);
    passgen_error err;
    for(int i = 0; i < 2; i++)
        for(int k = 1; k <= depth; k++)
            if(!parse_real(fmt("(\\w{%s} ){%d}", i ? "o" : "l", k), &pats[i * depth + k], &err)) { ctx.fail("pattern", "a pattern of wordlists is rejected"); return; }
    passgen_env env;
    passgen_env_init(&env, &RND);
    passgen_env_wordlist_add(&env, strdup("l"), mem_file(text), 2);
    passgen_env_wordlist_add(&env, strdup("o"), mem_file(other), 2);
    std::set<uint64_t> pick;
    for(int v: {0, 1, n / 2, n - 1}) if(v >= 0 && v < n) pick.insert(v);
    std::vector<uint64_t> seq;
    std::function<void()> rec = [&] {
        if(ctx.failed) return;
        if(!seq.empty()) {
            std::string want, got;
            double e = 0, bits = 0;
            bool bad = false;
            auto go = [&](int list, size_t from, size_t k) {
                Tree t;
                t.forced = true;
        for(size_t i = 0; i < k; i++) t.force(seq[from + i], n);
                T = &t;
                Sink s{{}, 1 << 20};
                int r = passgen_generate(&pats[list * depth + k], &env, &e, &s, sink_cb);
                T = NULL;
                bits += log2(e);
                ctx.transitions(k);
                bad |= r != 0 || !t.forced_all();
                for(uint32_t x: s.s) got += ref::utf8_put(x);
            };
            if(mode == 0) go(0, 0, seq.size());
            else for(size_t i = 0; i < seq.size(); i++) go(mode == 2 ? i % 2 : 0, i, 1);
            for(size_t i = 0; i < seq.size(); i++) want += fmt("%c%llu ", mode == 2 && i % 2 ? 'v' : 'w', (unsigned long long) seq[i]);
            ctx.trace();
            ctx.beat();
            if(bad) ctx.skipped();
            else if(got != want) ctx.fail("sequence " + c, fmt("a list of %d words, mode %d: picking %s gives %s", n, mode, want.c_str(), got.c_str()));
            else if(fabs(bits - seq.size() * log2(n)) > 1e-6) ctx.fail("sequence entropy " + c, fmt("a list of %d words, mode %d: picking %s reports %.9f bits", n, mode, want.c_str(), bits));
        }
        if((int) seq.size() == depth) return;
        for(uint64_t v: pick) { seq.push_back(v); rec(); seq.pop_back(); }
    };
    rec();
    ctx.state(hash_str(c));
    ctx.nontrivial();
    env.random = NULL;
    passgen_env_free(&env);
    for(int i = 0; i < 2; i++) for(int k = 1; k <= depth; k++) passgen_pattern_free(&pats[i * depth + k]);
}
static void gen_sequence(Ctx &ctx) {
    std::set<int> ns;
    for(int n = 1; n <= 20; n++) ns.insert(n);
    for(int b = 5; b <= 17; b++) for(int d = -1; d <= 1; d++) ns.insert((1 << b) + d);
    for(int n: {50, 100, 500, 999, 1000, 1001, 1500, 2000, 5000, 10000, 20000, 50000, 100000, 100001}) ns.insert(n);
    for(int n: ns) for(int m = 0; m < 3; m++) ctx.emit(fmt("%d %d", n, m));
}
// names: which list does a reference pick?  case: escaped pattern name ; loaded names separated by ,
static void check_names(Ctx &ctx, const std::string &c) {
    size_t p = c.find(';');
    std::string name = unesc(c.substr(0, p)), loaded = c.substr(p + 1);
    std::map<std::string, std::string> have;
    passgen_env env;
    passgen_env_init(&env, &RND);
    int k = 0;
    for(size_t i = 0; i < loaded.size();) {
        size_t e = loaded.find(',', i);
        if(e == std::string::npos) e = loaded.size();
        std::string n = unesc(loaded.substr(i, e - i));
        std::string word = ref::utf8_put(0x100 + k++);
        passgen_env_wordlist_add(&env, strdup(n.c_str()), mem_file(word + "\n"), 1);
        have[n] = word;
        i = e + 1;
    }
    ctx.state(hash_str(c));
    ctx.trace();
    for(char kind: {'w', 'm'}) {
        std::string pt = fmt("\\%c{", kind);
        for(char ch: name) { if(ch == '}' || ch == '\\') pt += '\\'; pt += ch; }
        pt += "}";
        passgen_pattern pat;
        passgen_error err;
        if(!parse_real(pt, &pat, &err)) { passgen_pattern_free(&pat); ctx.skipped(); continue; }
        for(int rep = 0; rep < 2; rep++) {
            Tree t;
            T = &t;
            Sink s{{}, 1000};
            int r = passgen_generate(&pat, &env, NULL, &s, sink_cb);
            T = NULL;
            ctx.transitions(t.draws + 1);
            std::string o;
            for(uint32_t cp: s.s) o += ref::utf8_put(cp);
            bool ok = have.count(name);
            if(ok ? r != 0 || o != have[name] : r == 0)
                ctx.fail("name " + c, fmt("%s with lists %s: result %d, output %s, expected %s", pt.c_str(), loaded.c_str(), r, esc(o).c_str(), ok ? have[name].c_str() : "failure"));
        }
        passgen_pattern_free(&pat);
    }
    env.random = NULL;
    passgen_env_free(&env);
}
static void gen_names(Ctx &ctx) {
    std::vector<std::string> names = {"a", "b", "ab", "aa", "A", "", "a b", "\xc3\xa4", "a:b", "}", "\\", "{", "averyverylongnameforawordlist", "averyverylongnameforawordlisu"};
    std::string l40;
    for(int n = 1; n <= 70; n++) {
        l40 += (char) ('a' + n % 26);
        ctx.emit(l40 + ";" + l40 + ",x");
        ctx.emit(l40 + ";" + l40 + "x,x");
        ctx.emit(l40 + "\xe2\x82\xac;" + l40 + "%e2%82%ac," + l40);
    }
    for(auto &n: names)
        for(size_t m = 0; m < (1u << names.size()); m += ctx.thorough ? 1 : 7) {
            std::string l;
            for(size_t i = 0; i < names.size(); i++) if(m >> i & 1) l += (l.empty() ? "" : ",") + esc(names[i]);
            if(l.find("{}") != std::string::npos) continue;
            ctx.emit(esc(n) + ";" + l);
        }
    // redefinition
    for(auto a: {"a,a", "a,b,a", "a,a,a,b", "b,a,b,a,b"}) { ctx.emit(std::string("a;") + a); ctx.emit(std::string("b;") + a); }
    for(int n = 1; n <= 200; n++) {
        std::string l;
        for(int i = 0; i < n; i++) l += (i ? "," : "") + fmt("list%d", i % 67);
        ctx.emit("list0;" + l);
        ctx.emit(fmt("list%d;", n % 67) + l);
        ctx.emit(fmt("list%d;", (n - 1) % 67) + l);
    }
}

// streams that cannot be read as a file
static void check_streams(Ctx &ctx, const std::string &c) {
    for(char kind: {'w', 'm'}) {
        passgen_env env;
        passgen_env_init(&env, &RND);
        FILE *f = NULL;
        if(c == "pipe") {
            int fd[2];
            if(pipe(fd)) return;
            if(write(fd[1], "x\ny\n", 4) < 0) {}
            close(fd[1]);
            f = fdopen(fd[0], "r");
        } else if(c == "closed") { f = mem_file("a\nb\n"); close(fileno(f)); }
        else if(c == "writeonly") { int fd = open("/dev/null", O_WRONLY); f = fdopen(fd, "w"); }
        else f = fopen(c.c_str(), "r");
        if(!f) { env.random = NULL; passgen_env_free(&env); ctx.skipped(); return; }
        passgen_env_wordlist_add(&env, strdup("l"), f, 2);
        passgen_pattern pat;
        passgen_error err;
        parse_real(fmt("x\\%c{l}", kind), &pat, &err);
        for(int i = 0; i < 3; i++) {
            Tree t;
            T = &t;
            Sink s{{}, 1000};
            int r = passgen_generate(&pat, &env, NULL, &s, sink_cb);
            T = NULL;
            ctx.transitions(1);
            if(r == 0) ctx.fail("stream " + c, fmt("a wordlist that cannot be read (%s): \\%c generates %s", c.c_str(), kind, ref::show(s.s).c_str()));
        }
        env.random = NULL;
        passgen_env_free(&env);
        passgen_pattern_free(&pat);
    }
    ctx.trace();
    ctx.state(hash_str(c));
}
static void gen_streams(Ctx &ctx) { for(auto s: {"pipe", "closed", "writeonly", "/dev/null", "/tmp"}) ctx.emit(s); }

// ------------------------------------------------------------------ C14: markov models
// case: order ; word,word,...   a word is code points in hex separated by spaces, optionally *weight
struct MWord { Str s; uint64_t w = 1; };
struct MCase { int order; std::vector<MWord> words; bool weighted = false; };
static MCase mparse(const std::string &c) {
    MCase m;
    m.order = atoi(c.c_str());
    size_t p = c.find(';') + 1;
    while(p < c.size()) {
        size_t e = c.find(',', p);
        if(e == std::string::npos) e = c.size();
        MWord w;
        const char *q = c.c_str() + p, *qe = c.c_str() + e;
        while(q < qe) {
            if(*q == '*') { w.w = strtoull(q + 1, NULL, 10); m.weighted = true; break; }
            char *n;
            uint32_t v = strtoul(q, &n, 16);
            if(n == q) break;
            w.s.push_back(v);
            q = n;
            while(q < qe && *q == ' ') q++;
        }
        m.words.push_back(w);
        p = e + 1;
    }
    return m;
}
typedef std::map<Str, std::map<uint32_t, uint64_t>> Grams;
static Grams grams(const MCase &m) {
    Grams g;
    for(auto &w: m.words) {
        Str x(m.order, 0);
        x.insert(x.end(), w.s.begin(), w.s.end());
        x.push_back(0);
        for(size_t i = 0; i + m.order < x.size(); i++) g[Str(x.begin() + i, x.begin() + i + m.order)][x[i + m.order]] += w.w;
    }
    return g;
}
static std::string grams_show(const Str &s) { std::string o; for(auto c: s) o += fmt(o.empty() ? "%x" : " %x", c); return "[" + o + "]"; }

// every step of a model: all draws in every context
static void check_steps(Ctx &ctx, passgen_markov *mk, const Grams &g, int order, const std::string &c, const char *how, size_t maxctx) {
    size_t k = 0;
    std::string key = c.substr(0, 200);
    for(auto &row: g) {
        if(k++ >= maxctx && row.first != g.begin()->first) break;
        uint64_t total = 0;
        for(auto &x: row.second) total += x.second;
        Tree t;
        std::map<uint32_t, double> got;
        bool bad = false;
        uint32_t *cur = (uint32_t *) malloc(order * 4);
        memcpy(cur, row.first.data(), order * 4);
        do {
            t.begin();
            T = &t;
            double e = 1;
            uint32_t next = passgen_markov_generate(mk, cur, &RND, &e);
            T = NULL;
            ctx.beat();
            if(t.unsupported || t.nondet || t.zero) { bad = true; break; }
            got[next] += t.prob();
            auto x = row.second.find(next);
            if(x != row.second.end() && fabs(e * x->second / total - 1) > 1e-9)
                ctx.fail("step-entropy " + key, fmt("%s, %s: after %s, step to %x reports the factor %.9g, expected %llu/%llu", c.substr(0, 400).c_str(), how, grams_show(row.first).c_str(), next, e,
                         (unsigned long long) total, (unsigned long long) x->second));
        } while(!ctx.failed && t.next());
        ctx.state(hash_bytes(row.first.data(), row.first.size() * 4, hash_str(c)));
        ctx.transitions(total);
        if(ctx.failed) { free(cur); return; }
        if(t.zero) { ctx.fail("zero-draw " + key, c.substr(0, 400) + ": draw from an empty range after " + grams_show(row.first)); free(cur); return; }
        if(t.nondet) { ctx.fail("nondet " + key, c.substr(0, 400) + ": hidden state"); free(cur); return; }
        if(bad && total > 5000) {
            // too many draws for the tree: resolve the outcome function by bisection
            std::map<uint32_t, uint64_t> n;
            uint64_t range = 0, calls = 0;
            bool wide = false, many = false;
            std::map<uint64_t, uint32_t> memo;
            auto f = [&](uint64_t v) {
                auto k = memo.find(v);
                if(k != memo.end()) return k->second;
                Tree s;
                s.single = true;
                s.value = v;
                T = &s;
                double e = 1;
                uint32_t next = passgen_markov_generate(mk, cur, &RND, &e);
                T = NULL;
                calls++;
                ctx.beat();
                range = s.range;
                wide |= s.wide;
                many |= s.decisions > 1 && !s.wide;
                auto x = row.second.find(next);
                if(!s.wide && x != row.second.end() && fabs(e * x->second / total - 1) > 1e-9)
                    ctx.fail("step-entropy " + key, fmt("%s, %s: after %s, step to %x reports the factor %.9g, expected %llu/%llu", c.substr(0, 400).c_str(), how, grams_show(row.first).c_str(), next, e,
                             (unsigned long long) total, (unsigned long long) x->second));
                return memo[v] = next;
            };
            f(0);
            if(!wide && !many && range == total) {
                std::set<uint64_t> cut = {0, range - 1};
                for(int b = 0; b < 64; b++) for(int d = -1; d <= 1; d++) if((1ull << b) + d < range) cut.insert((1ull << b) + d);
                uint64_t acc = 0;
                for(auto &x: row.second) { acc += x.second; for(int d = -1; d <= 1; d++) if(acc + d < range) cut.insert(acc + d); }
                acc = 0;
                for(auto x = row.second.rbegin(); x != row.second.rend(); ++x) { acc += x->second; for(int d = -1; d <= 1; d++) if(acc + d < range) cut.insert(acc + d); }
                for(int k = 1; k < 64; k++) cut.insert(range / 64 * k);
                std::function<void(uint64_t, uint64_t)> seg = [&](uint64_t lo, uint64_t hi) {
                    if(lo == hi || ctx.failed || many) return;
                    uint64_t mid = lo + (hi - lo) / 2;
                    if(hi - lo == 1) { n[f(hi)]++; return; }
                    if(f(lo) == f(hi) && f(mid) == f(lo)) { n[f(lo)] += hi - lo; return; }
                    if(calls > 300000) { many = true; return; }
                    seg(lo, mid);
                    seg(mid, hi);
                };
                n[f(0)]++;
                uint64_t prev = 0;
                for(uint64_t v: cut) { if(v > prev) seg(prev, v); prev = v; }
                for(auto &x: row.second) n[x.first];
                if(!many && !ctx.failed)
                    for(auto &x: n) {
                        auto w = row.second.find(x.first);
                        uint64_t want = w == row.second.end() ? 0 : w->second;
                        if(want != x.second) {
                            ctx.fail("step " + key, fmt("%s, %s: after %s, %x follows for %llu of %llu draws, expected %llu", c.substr(0, 400).c_str(), how, grams_show(row.first).c_str(), x.first,
                                     (unsigned long long) x.second, (unsigned long long) range, (unsigned long long) want));
                            break;
                        }
                    }
                ctx.transitions(calls);
            } else if(!wide && !many)
                ctx.fail("range " + key, fmt("%s, %s: after %s one of %llu values is drawn, the counts add up to %llu", c.substr(0, 400).c_str(), how, grams_show(row.first).c_str(), (unsigned long long) range, (unsigned long long) total));
            if(ctx.failed) { free(cur); return; }
            if(!wide && !many) { free(cur); continue; }
        }
        if(bad) {
            if(unrejected(total, [&] { passgen_markov_generate(mk, cur, &RND, NULL); }))
                ctx.fail("biased " + key, fmt("%s: after %s an unbounded random word is mapped to %llu outcomes without rejection", c.substr(0, 400).c_str(), grams_show(row.first).c_str(), (unsigned long long) total));
            ctx.skipped();
            free(cur);
            return;
        }
        free(cur);
        for(auto &x: row.second) got[x.first];
        for(auto &x: got) {
            auto w = row.second.find(x.first);
            double p = w == row.second.end() ? 0 : (double) w->second / total;
            if(fabs(p - x.second) > 1e-9) {
                ctx.fail("step " + key, fmt("%s, %s: after %s, %x follows with probability %.9f, expected %.9f", c.substr(0, 400).c_str(), how, grams_show(row.first).c_str(), x.first, x.second, p));
                return;
            }
        }
        // the counts themselves
        passgen_markov_node *node = mk->root;
        for(int i = 0; i + 1 < order; i++) node = passgen_markov_node_child(node, row.first[i]).node;
        passgen_markov_leaf *leaf = passgen_markov_node_child(node, row.first[order - 1]).leaf;
        for(auto &x: row.second)
            if(passgen_markov_leaf_count(leaf, x.first) != x.second)
                ctx.fail("leaf " + key, fmt("%s, %s: count of %x after %s is %u, expected %llu", c.substr(0, 400).c_str(), how, x.first, grams_show(row.first).c_str(), passgen_markov_leaf_count(leaf, x.first),
                         (unsigned long long) x.second));
        for(uint32_t absent: {(uint32_t) 0, (uint32_t) 'a', (uint32_t) 'q', row.second.begin()->first + 3, row.second.begin()->first + 21})
            if(!row.second.count(absent) && passgen_markov_leaf_count(leaf, absent) != 0)
                ctx.fail("leaf " + key, fmt("%s, %s: count of absent %x after %s is %u", c.substr(0, 400).c_str(), how, absent, grams_show(row.first).c_str(), passgen_markov_leaf_count(leaf, absent)));
        if(ctx.failed) return;
    }
}
// whole words through the pattern: complete draw tree up to a number of characters
static void check_generate(Ctx &ctx, const MCase &m, const Grams &g, const std::string &text, const std::string &c, size_t cap) {
    std::string key = c.substr(0, 200);
    // reference
    struct N { Str s; double p; };
    std::map<std::pair<Str, bool>, std::pair<double, double>> want; // (word, cut) -> p, e
    std::vector<N> todo{{Str(m.order, 0), 1}};
    size_t leaves = 0;
    while(!todo.empty()) {
        N n = todo.back();
        todo.pop_back();
        auto &row = g.at(Str(n.s.end() - m.order, n.s.end()));
        uint64_t total = 0;
        for(auto &x: row) total += x.second;
        leaves += total;
        if(leaves > 6000) { ctx.skipped(); return; }
        for(auto &x: row) {
            double p = n.p * x.second / total;
            Str w(n.s.begin() + m.order, n.s.end());
            if(x.first == 0) { auto &z = want[{w, false}]; z.first += p; z.second = 1 / p; }
            else if(w.size() == cap) want[{w, true}].first += p;
            else { N k{n.s, p}; k.s.push_back(x.first); todo.push_back(k); }
        }
    }
    passgen_env env;
    passgen_env_init(&env, &RND);
    passgen_env_wordlist_add(&env, strdup("l"), mem_file(text), m.order);
    passgen_pattern pat;
    passgen_error err;
    if(!parse_real("\\m{l}", &pat, &err)) { ctx.fail("pattern", "\\m{l} is rejected"); return; }
    std::map<std::pair<Str, bool>, double> got;
    Tree t;
    bool bad = false;
    size_t n = 0;
    do {
        t.begin();
        T = &t;
        Sink s{{}, cap};
        double e = -1;
        int r = passgen_generate(&pat, &env, &e, &s, sink_cb);
        T = NULL;
        ctx.beat();
        ctx.transitions(t.pos);
        if(t.unsupported || t.nondet || t.zero || ++n > 200000) { bad = true; break; }
        if(r && !s.cut) { ctx.fail("generate " + key, fmt("%s: \\m{l} fails with %d", c.substr(0, 400).c_str(), r)); break; }
        got[{s.s, s.cut}] += t.prob();
        if(!r) {
            auto w = want.find({s.s, false});
            if(w == want.end()) { ctx.fail("generate " + key, fmt("%s: \\m{l} generates %s, which is not a path of the model", c.substr(0, 400).c_str(), ref::show(s.s).c_str())); break; }
            if(fabs(e / w->second.second - 1) > 1e-6) {
                ctx.fail("entropy " + key, fmt("%s: %s is reported with %.9g, expected %.9g", c.substr(0, 400).c_str(), ref::show(s.s).c_str(), e, w->second.second));
                break;
            }
        }
    } while(t.next());
    ctx.trace(n);
    if(!bad && !ctx.failed) {
        for(auto &x: want) got[x.first];
        for(auto &x: got) {
            double p = want.count(x.first) ? want[x.first].first : 0;
            if(fabs(p - x.second) > 1e-9) {
                ctx.fail("prob " + key, fmt("%s: %s%s has probability %.9f, expected %.9f", c.substr(0, 400).c_str(), ref::show(x.first.first).c_str(), x.first.second ? "..." : "", x.second, p));
                break;
            }
        }
    }
    if(bad) ctx.skipped();
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}
static void check_markov(Ctx &ctx, const std::string &c) {
    MCase m = mparse(c);
    Grams g = grams(m);
    ctx.trace();
    // counts are 32 bits wide
    for(auto &row: g) { uint64_t n = 0; for(auto &x: row.second) n += x.second; if(n >> 32) { ctx.skipped(); return; } }
    size_t maxctx = 400;
    // directly
    passgen_markov mk;
    memset(&mk, 0xee, sizeof mk);
    passgen_markov_init(&mk, m.order);
    for(auto &w: m.words) {
        uint32_t *cp = (uint32_t *) malloc(w.s.size() * 4);
        memcpy(cp, w.s.data(), w.s.size() * 4);
        passgen_markov_add(&mk, cp, w.s.size(), w.w);
        free(cp);
    }
    check_steps(ctx, &mk, g, m.order, c, "added directly", maxctx);
    passgen_markov_free(&mk);
    if(ctx.failed || m.weighted) return;
    // from a wordlist file
    std::string text;
    for(auto &w: m.words) {
        for(auto cp: w.s) { if(cp == '\n' || (cp >= 0xd800 && cp < 0xe000)) return; text += ref::utf8_put(cp); }
        if(w.s.empty()) return;
        text += "\n";
    }
    passgen_wordlist wl;
    passgen_wordlist_init(&wl, mem_file(text), m.order);
    passgen_wordlist_parse(&wl);
    passgen_wordlist_parse_markov(&wl);
    check_steps(ctx, &wl.markov, g, m.order, c, "from a file", maxctx);
    passgen_wordlist_free(&wl);
    if(!ctx.failed) check_generate(ctx, m, g, text, c, 6);
}
static std::string wcode(const std::vector<uint32_t> &cps) { std::string o; for(auto c: cps) o += fmt(o.empty() ? "%x" : " %x", c); return o; }
static void gen_markov_lists(Ctx &ctx) {
    // all lists of words over a small alphabet
    for(auto al: {std::vector<uint32_t>{'a', 'b'}, std::vector<uint32_t>{'a', 'd'}, std::vector<uint32_t>{'a', 'a' + 21}}) {
        std::vector<std::string> words;
        std::function<void(std::vector<uint32_t>)> rec = [&](std::vector<uint32_t> w) {
            if(!w.empty()) words.push_back(wcode(w));
            if(w.size() < 3) for(auto a: al) { auto x = w; x.push_back(a); rec(x); }
        };
        rec({});
        for(int order = 1; order <= 4; order++) {
            for(auto &a: words) {
                ctx.emit(fmt("%d;", order) + a);
                for(auto &b: words) {
                    ctx.emit(fmt("%d;", order) + a + "," + b);
                    if(al[1] == 'b' || ctx.thorough) for(auto &d: words) ctx.emit(fmt("%d;", order) + a + "," + b + "," + d);
                }
            }
        }
    }
    // three letters, two words up to 3 letters
    std::vector<std::string> words;
    std::function<void(std::vector<uint32_t>)> rec = [&](std::vector<uint32_t> w) {
        if(!w.empty()) words.push_back(wcode(w));
        if(w.size() < (ctx.thorough ? 4 : 3)) for(uint32_t a: {0x61u, 0xe4u, 0x1f600u}) { auto x = w; x.push_back(a); rec(x); }
    };
    rec({});
    for(int order = 1; order <= 3; order++) for(auto &a: words) for(auto &b: words) ctx.emit(fmt("%d;", order) + a + "," + b);
}
static void gen_markov_growth(Ctx &ctx) {
    // tables that grow: n characters spaced by the products of the table sizes
    for(uint32_t step: {1u, 2u, 3u, 7u, 17u, 21u, 37u, 51u, 79u, 119u, 163u, 331u, 357u, 673u, 1361u, 13209u, 256u, 768u, 1792u, 4352u, 65536u, 196608u, 458752u})
        for(int n = 1; n <= (ctx.thorough ? 60 : 24); n++) {
            if((uint64_t) step * n + 0x100 > 0x10ffff) break;
            for(int order = 1; order <= 3; order++) {
                auto cp = [&](int i) { uint32_t c = 0x100 + step * (i % n); return c >= 0xd800 && c < 0xe000 ? c + 0x10000 : c; };
                std::string single, pairs, rev, chain;
                for(int i = 0; i < n; i++) {
                    single += (i ? "," : "") + wcode({cp(i)});
                    rev += (i ? "," : "") + wcode({cp(n - 1 - i), cp(0)});
                    pairs += (i ? "," : "") + wcode({cp(i * 5), cp(i * 3 + 1), cp(i)});
                    chain += (i ? "," : "") + wcode({'a', cp(i), 'b', cp(n - 1 - i)});
                }
                for(auto &l: {single, pairs, rev, chain, single + "," + single, single + "," + wcode({cp(0)}) + "," + rev}) ctx.emit(fmt("%d;", order) + l);
            }
        }
    // all orders of insertion of colliding characters
    std::vector<uint32_t> col = {0x61, 0x64, 0x61 + 21, 0x61 + 357, 0x62, 0x61 + 13209};
    std::sort(col.begin(), col.end());
    do {
        std::string a, b;
        for(size_t i = 0; i < col.size(); i++) { a += (i ? "," : "") + wcode({col[i]}); b += (i ? "," : "") + wcode({'x', col[i], col[(i + 1) % col.size()]}); }
        ctx.emit("1;" + a);
        ctx.emit("1;" + a + "," + b);
        ctx.emit("2;" + b);
    } while(std::next_permutation(col.begin(), col.end()));
}
static void gen_markov_lengths(Ctx &ctx) {
    std::vector<int> orders;
    for(int o = 1; o <= 12; o++) orders.push_back(o);
    for(int o: {16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255}) orders.push_back(o);
    for(int o: orders)
        for(int len: {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000}) {
            if(o > 12 && len > 300) continue;
            std::vector<uint32_t> w, v;
            for(int i = 0; i < len; i++) { w.push_back('a' + (i * i + i / 7) % 5); v.push_back('a' + (i * i + i / 7 + (i == len / 2)) % 5); }
            ctx.emit(fmt("%d;", o) + wcode(w));
            if(wcode(w).size() < 3500) ctx.emit(fmt("%d;", o) + wcode(w) + "," + wcode(v));
        }
    // repeated words and counts
    for(int o = 1; o <= 4; o++)
        for(int n = 1; n <= 40; n++) {
            std::string l = "61 62";
            for(int i = 1; i < n; i++) l += i % 3 ? ",61 62" : ",61 63";
            ctx.emit(fmt("%d;", o) + l);
        }
    // weights
    for(int o = 1; o <= 3; o++)
        for(int a = 1; a <= 12; a++) for(int b = 1; b <= 12; b++) {
            ctx.emit(fmt("%d;61*%d,62*%d", o, a, b));
            ctx.emit(fmt("%d;61 62*%d,61 63*%d,62*%d", o, a, b, (a + b) % 7 + 1));
        }
    for(int o = 1; o <= 2; o++) for(int a: {100, 255, 256, 1000, 2000}) for(int b: {1, 7, 300}) ctx.emit(fmt("%d;61*%d,62*%d,61*%d", o, a, b, b));
    for(int o = 1; o <= 2; o++)
        for(unsigned a: {1u, 255u, 4999u, 5000u, 65535u, 65536u, 65537u, 131072u, 16777216u, 2147483647u, 2147483648u, 4294967295u})
            for(unsigned b: {1u, 3u, 256u, 65535u, 65536u, 70000u, 2147483648u, 4294967295u}) {
                ctx.emit(fmt("%d;61*%u,62*%u", o, a, b));
                ctx.emit(fmt("%d;61 62*%u,61 65*%u,61 61*7,67*%u", o, b, a, a));
            }
}
static void gen_markov_codepoints(Ctx &ctx) {
    std::string l;
    int k = 0;
    auto put = [&](uint32_t c) {
        if(c >= 0xd800 && c < 0xe000) return;
        l += (l.empty() ? "" : ",") + wcode({c, 'z'});
        if(++k % 16 == 0) { ctx.emit(fmt("%d;", 1 + k / 16 % 3) + l); l.clear(); }
    };
    for(uint32_t c = 1; c < 0x3000; c++) if(c != '\n') put(c);
    for(uint32_t c = 0x3000; c < 0x110000; c += ctx.thorough ? 1 : 97) put(c);
    for(uint32_t c = 0x10fff0; c < 0x110000; c++) put(c);
    for(int i = 0; i < 32; i++) put(0xfff0 + i);
}

// very many distinct characters: case "w ORDER N STEP WEIGHTS", and very many n-grams: case "c ORDER LINES LENGTH"
static void check_wide(Ctx &ctx, const std::string &c) {
    size_t order, n, step, wm;
    sscanf(c.c_str() + 2, "%zu %zu %zu %zu", &order, &n, &step, &wm);
    ctx.state(hash_str(c));
    ctx.trace();
    if(c[0] == 'c') {
        std::string word(step, 'x'), text;
        for(size_t i = 0; i < step; i++) word[i] = 'a' + i % 26;
        for(size_t i = 0; i < n; i++) text += word + "\n";
        passgen_env env;
        passgen_random *r = passgen_random_open(NULL, "xorshift:5");
        passgen_env_init(&env, r);
        passgen_env_wordlist_add(&env, strdup("l"), mem_file(text), order);
        passgen_pattern pat;
        passgen_error err;
        if(!parse_real("\\m{l}", &pat, &err)) { ctx.fail("pattern", "\\m{l} is rejected"); return; }
        Sink s{{}, step + 1};
        double e = -1;
        int ret = passgen_generate(&pat, &env, &e, &s, sink_cb);
        ctx.beat();
        if(ret || std::string(s.s.begin(), s.s.end()) != word || fabs(e - 1) > 1e-9)
            ctx.fail("count " + c, fmt("a list of %zu times '%s', order %zu: generation returns %d, '%s', factor %g", n, word.c_str(), order, ret, ref::show(s.s).c_str(), e));
        env.random = NULL;
        passgen_env_free(&env);
        passgen_random_free(r);
        passgen_pattern_free(&pat);
        return;
    }
    passgen_markov m;
    passgen_markov_init(&m, order);
    const uint32_t START = 0x21;
    uint64_t total = 0;
    auto weight = [&](size_t i) -> uint64_t { return wm && i % 3 == 0 ? wm : 1; };
    for(size_t i = 0; i < n; i++) { uint32_t cp = START + i * step; passgen_markov_add(&m, &cp, 1, weight(i)); total += weight(i); }
    ctx.beat();
    std::vector<uint32_t> cur(order, 0);
    auto step_ = [&](uint64_t v, double *e, bool *usable) {
        Tree t;
        t.single = true;
        t.value = v;
        T = &t;
        *e = 1;
        uint32_t next = passgen_markov_generate(&m, cur.data(), &RND, e);
        T = NULL;
        *usable = !t.wide && t.decisions <= 1 && (t.range == total || t.decisions == 0);
        ctx.beat();
        return next;
    };
    // what begins a word
    uint64_t stride = n <= 3000 ? 1 : total / (ctx.thorough ? 20000 : 1000);
    std::vector<uint64_t> seen(n, 0);
    bool usable = true;
    for(uint64_t v = 0; v < total && !ctx.failed; v += stride) {
        double e;
        uint32_t x = step_(v, &e, &usable);
        ctx.transitions(1);
        if(!usable) break;
        if(x < START || (x - START) % step || (x - START) / step >= n) { ctx.fail("wide " + c, fmt("after the beginning, %x follows, which is in no word", x)); break; }
        size_t i = (x - START) / step;
        if(++seen[i] > weight(i)) { ctx.fail("wide " + c, fmt("%x is picked for more than %llu of %llu draws", x, (unsigned long long) weight(i), (unsigned long long) total)); break; }
        if(fabs(e * weight(i) / total - 1) > 1e-9) { ctx.fail("wide-entropy " + c, fmt("%x reports the factor %.9g, expected %llu/%llu", x, e, (unsigned long long) total, (unsigned long long) weight(i))); break; }
    }
    if(usable && stride == 1) for(size_t i = 0; i < n && !ctx.failed; i++) if(seen[i] != weight(i)) ctx.fail("wide " + c, fmt("%zx is picked for %llu draws, expected %llu", START + i * step, (unsigned long long) seen[i], (unsigned long long) weight(i)));
    // the counts, and what follows every character
    passgen_markov_node *node = m.root;
    for(size_t i = 0; i + 1 < order; i++) node = passgen_markov_node_child(node, 0).node;
    passgen_markov_leaf *leaf = passgen_markov_node_child(node, 0).leaf;
    for(size_t i = 0; i < n && !ctx.failed; i++) {
        uint32_t cp = START + i * step;
        uint32_t k = passgen_markov_leaf_count(leaf, cp);
        if(k != weight(i)) ctx.fail("wide-count " + c, fmt("count of %x is %u, expected %llu", cp, k, (unsigned long long) weight(i)));
        cur[order - 1] = cp;
        Tree t;
        t.single = true;
        t.value = 0;
        T = &t;
        double e = 1;
        uint32_t next = passgen_markov_generate(&m, cur.data(), &RND, &e);
        T = NULL;
        ctx.beat();
        if(next || e != 1) ctx.fail("wide-end " + c, fmt("after %x, %x follows with the factor %g, expected the end", cp, next, e));
    }
    passgen_markov_free(&m);
}
static void gen_wide(Ctx &ctx) {
    for(size_t n: {1, 2, 3, 4, 7, 8, 17, 18, 37, 38, 79, 80, 127, 128, 129, 163, 164, 200, 255, 256, 257, 331, 332, 500, 673, 674, 1361, 1362, 2729, 2730, 4096, 5471, 5472, 10949, 10950, 21911, 32768, 43853, 43854, 50000, 65535, 65536, 65537, 70000, 87719, 87720, 131072, 175447, 200000, 350000, 701820, 1100000})
        for(size_t step: {1, 2, 3, 5, 7, 163, 256, 65536}) {
            if(n * step > 1100000 || n > 100000 && step > 3 && !ctx.thorough) continue;
            for(size_t order: {1, 2, 3}) for(size_t w: {0, 2, 300}) if(ctx.thorough || n < 6000 || order == 1 + n % 2 && w == 2) ctx.emit(fmt("w %zu %zu %zu %zu", order, n, step, w));
        }
    for(size_t b: {6, 7, 8, 15, 16, 17, 18}) for(int d = -1; d <= 1; d++) for(size_t len: {1, 3}) for(size_t order: {1, 2, 4}) if(b < 18 || len == 1 || ctx.thorough) ctx.emit(fmt("c %zu %zu %zu 0", order, ((size_t) 1 << b) + d, len));
}

int main(int argc, char **argv) {
    for(int i = 1; i + 1 < argc; i++) if(!strcmp(argv[i], "--prop")) P = argv[i + 1][2];
    RND.read = raw_read;
    RND.close = raw_close;
    if(P == '5') {
        add({"texts", "all file contents over {a b newline ae CR space} up to length 6 (7 thorough) and over 15 byte-level symbols (malformed UTF-8 included) up to length 4 (5); every pair of bytes and every character up to U+FFFF at the beginning of a file; lists of 0..1100 and around 2^11..2^17 words; words of 1..700 characters and around powers of two, of every width",
             gen_words, check_words});
        add({"sequences", "all sequences of up to 4 (5) picks among the first, second, middle and last word of lists of 1..20 and up to 131073 words, in one generation, several, and alternating with a second list", gen_sequence, check_sequence});
        add({"names", "references x loaded lists: sampled-free subsets of 14 names (every 7th subset; all thorough), name lengths 1..70, up to 200 (re)definitions", gen_names, check_names});
        add({"streams", "wordlists on streams that cannot be seeked or read", gen_streams, check_streams});
    } else {
        add({"lists", "all lists of up to three words of up to three letters over two letters (three collision classes), orders 1..4; all pairs of words over three letters", gen_markov_lists, check_markov});
        add({"growth", "lists with 1..24 (60 thorough) distinct characters spaced by the table sizes and their products, six arrangements, orders 1..3; all insertion orders of six colliding characters", gen_markov_growth, check_markov});
        add({"lengths", "orders 1..12 and up to 255 x word lengths 1..1000, repeated words, weights", gen_markov_lengths, check_markov});
        add({"wide", "chains with 1 to 1100000 distinct characters of 8 spacings, orders 1..3, three weights; lists of 63 to 262145 equal words", gen_wide, check_wide, 60});
        add({"codepoints", "every code point below U+3000 and a stride above", gen_markov_codepoints, check_markov});
    }
    return main_(argc, argv);
}
