// C16: patterns x complete trees of random draws x every buffer size x the three output forms.
#include "tree.hpp"
#include "patterns.hpp"
#include "ref_json.hpp"

static size_t LEAVES = 60, BIGWORDS = 0;
static bool surrogate(const Str &s) { for(uint32_t c: s) if(c >= 0xd800 && c < 0xe000) return true; return false; }
static const char *FORM[] = {"code point", "UTF-8", "JSON"};

struct Run { passgen_pattern *pat; passgen_env *env; Tree *t; };
// run one fill call with an exactly sized heap buffer; result in out (bytes of the elements reported)
static size_t fill(const Run &r, int form, size_t size, bool want_entropy, std::string *out, double *ent) {
    size_t elem = form == 0 ? 4 : 1;
    uint8_t *b = (uint8_t *) malloc(size * elem ? size * elem : 1);
    if(!(size * elem)) { free(b); b = (uint8_t *) malloc(0); }
    if(size) memset(b, 0xa5, size * elem);
    size_t keep = r.t->pos;
    r.t->begin();
    T = r.t;
    double e = -1, *ep = want_entropy ? &e : NULL;
    size_t n = form == 0 ? passgen_generate_fill_unicode(r.pat, r.env, ep, (uint32_t *) b, size)
             : form == 1 ? passgen_generate_fill_utf8(r.pat, r.env, ep, b, size)
                         : passgen_generate_fill_json_utf8(r.pat, r.env, ep, b, size);
    T = NULL;
    *ent = e;
    if(r.t->pos > keep) r.t->nondet = true;
    r.t->choice.resize(keep < r.t->choice.size() ? keep : r.t->choice.size());
    r.t->arity.resize(r.t->choice.size());
    r.t->pos = keep;
    if(n <= size) out->assign((char *) b, n * elem);
    free(b);
    return n;
}

// all sizes for one outcome
static bool judge(Ctx &ctx, const std::string &c, const Run &r, bool ok, const Str &ref_out, double ref_ent, size_t maxsizes) {
    std::string want[3];
    if(ok) {
        want[0].assign((const char *) ref_out.data(), ref_out.size() * 4);
        for(uint32_t x: ref_out) want[1] += ref::utf8_put(x);
    }
    bool got = false;
    for(int form = 0; form < 3; form++) {
        size_t len = want[form].size() / (form ? 1 : 4);
        if(form == 2) {
            // the escaping is free as long as it decodes to the same characters
            std::string o;
            double e;
            size_t cap = ref_out.size() * 12 + 8;
            size_t n = fill(r, 2, cap, true, &o, &e);
            if(!ok) { if(n) { ctx.fail("json-fail " + c, fmt("pattern %s: generation fails but the JSON form reports %zu", c.c_str(), n)); return false; } }
            else {
                if(n > cap) { ctx.fail("json-len " + c, fmt("pattern %s: JSON form reports %zu for a buffer of %zu", c.c_str(), n, cap)); return false; }
                std::vector<uint32_t> dec;
                ref::JsonReader jr(o);
                if(!jr.body(&dec, true) || dec != ref_out) {
                    ctx.fail("json-decode " + c, fmt("pattern %s: JSON form %s decodes to %s (%s), generated %s; %s", c.c_str(), esc(o).substr(0, 200).c_str(), ref::show(dec).substr(0, 200).c_str(), jr.err.c_str(), ref::show(ref_out).substr(0, 200).c_str(), show_choices(*r.t).c_str()));
                    return false;
                }
                want[2] = o;
                len = n;
            }
        }
        std::vector<size_t> sizes;
        if(len + 4 <= maxsizes) for(size_t i = 0; i <= len + 3; i++) sizes.push_back(i);
        else {
            for(size_t i = 0; i <= 12; i++) sizes.push_back(i);
            for(size_t i = 13; i < len; i = i * 3 / 2 + 1) sizes.push_back(i);
            for(size_t i = len - 8; i <= len + 5; i++) sizes.push_back(i);
        }
        for(size_t k: {len + 17, len + 100, 2 * len + 1000}) sizes.push_back(k);
        for(size_t size: sizes) {
            std::string o;
            double e;
            bool we = (size + form) & 1;
            size_t n = fill(r, form, size, we, &o, &e);
            ctx.transitions(1);
            bool fits = ok && size >= len;
            if(r.t->nondet) { ctx.skipped(); return false; }
            if(n != (fits ? len : 0)) {
                ctx.fail(fmt("size %s ", FORM[form]) + c, fmt("pattern %s, %s form, buffer of %zu: reports %zu, expected %zu (output %s); %s", c.c_str(), FORM[form], size, n, fits ? len : 0, ok ? ref::show(ref_out).substr(0, 200).c_str() : "none", show_choices(*r.t).substr(0, 300).c_str()));
                return false;
            }
            if(fits && o != want[form]) {
                ctx.fail(fmt("content %s ", FORM[form]) + c, fmt("pattern %s, %s form, buffer of %zu: wrote %s, expected %s; %s", c.c_str(), FORM[form], size, esc(o).substr(0, 200).c_str(), esc(want[form]).substr(0, 200).c_str(), show_choices(*r.t).substr(0, 300).c_str()));
                return false;
            }
            if(fits && we && n && fabs(e - ref_ent) > 1e-9 * fabs(ref_ent)) {
                ctx.fail(fmt("entropy %s ", FORM[form]) + c, fmt("pattern %s, %s form, buffer of %zu: entropy %g, expected %g", c.c_str(), FORM[form], size, e, ref_ent));
                return false;
            }
            got = true;
        }
    }
    ctx.nontrivial(got);
    return true;
}

static std::string word_lists(passgen_env *env) {
    for(auto &l: LISTS) passgen_env_wordlist_add(env, strdup(l.name), mem_file(l.text), l.order);
    // words around the internal decoding chunk
    std::string long_ = rep("a", 126) + "\xf0\x9f\x98\x80" + "\xe2\x82\xac" + "zz\n" + rep("\xc3\xa4", 128) + "\n" + rep("b", 127) + "\"\\\n" + rep("\xe2\x82\xac", 257) + "\n" + "\x01\t\"\n";
    passgen_env_wordlist_add(env, strdup("long"), mem_file(long_), 2);
    passgen_env_wordlist_add(env, strdup("bad"), mem_file("ok\nab\xff\n"), 2);
    passgen_env_wordlist_add(env, strdup("empty"), mem_file("\n\n"), 2);
    return "";
}

static void fill_pattern(Ctx &ctx, const std::string &s, long depth) {
    passgen_pattern pat;
    passgen_error err;
    if(!parse_real(s, &pat, &err)) { passgen_pattern_free(&pat); return; }
    passgen_env env;
    passgen_env_init(&env, &RND);
    if(depth >= 0) env.depth_limit = depth;
    if(s.find('\\') != std::string::npos) word_lists(&env);
    std::string show = (depth >= 0 ? fmt("(depth limit %ld) ", depth) : "") + esc(s).substr(0, 150);
    Tree t;
    size_t leaves = 0;
    uint64_t h = hash_str(s);
    do {
        t.begin();
        T = &t;
        Str out;
        double ent = -1;
        int r = passgen_generate(&pat, &env, &ent, &out, emit_cb);
        T = NULL;
        leaves++;
        if(t.nondet || t.zero) { ctx.skipped(); break; }
        if(t.unsupported) { ctx.skipped(); break; }
        if(surrogate(out)) continue;
        ctx.beat();
        ctx.trace();
        ctx.state(hash_bytes(t.choice.data(), t.pos * 8, h));
        // drop stale choices so that replays see exactly this path
        while(t.choice.size() > t.pos) { t.choice.pop_back(); t.arity.pop_back(); }
        if(!judge(ctx, show, Run{&pat, &env, &t}, r == 0, out, ent, 400)) break;
    } while(t.next() && leaves < LEAVES);
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}

static void check_fill(Ctx &ctx, const std::string &s) { fill_pattern(ctx, s, -1); }
// case: "<depth limit> <pattern>": failures in the middle of the output
static void check_limit(Ctx &ctx, const std::string &c) { fill_pattern(ctx, c.substr(c.find(' ') + 1), atol(c.c_str())); }
static void limits(Ctx &ctx) {
    for(auto &s: structured(ctx.thorough ? 5 : 4)) if(s.find('(') != std::string::npos) for(int d = 0; d <= 3; d++) for(auto a: {"%sx", "\xc3\xa4%s", "\"%s(y|(z))"}) ctx.emit(fmt("%d ", d) + fmt(a, s.c_str()));
    for(int n: {1, 2, 3, 10, 1022, 1023, 1024, 1025}) for(int d: {n - 1, n, n + 1, n + 2}) for(auto a: {"%s", "a%s", "a%sb", "\xf0\x9f\x98\x80?%s", "(a|bc)%s"}) ctx.emit(fmt("%d ", d) + fmt(a, (rep("(", n) + "x" + rep(")", n)).c_str()));
    for(auto f: {"({0}x)", "({0}x|{0}y)", "\\w{missing}", "\\w{empty}", "\\w{bad}", "\\m{missing}", "\\m{bad}", "\\m{empty}", "(((x)))", "[]", "()"})
        for(auto a: {"ab%s", "ab%scd", "ab(%s|cd)", "ab%s?", "(ab%s|cd)", "ab(%s){2}", "ab(c|%s){3}", "\xc3\xa4%s", "\"%s\"", "a{3}%s"}) for(int d: {1, 2, 3, 4, 1024}) ctx.emit(fmt("%d ", d) + fmt(a, f));
}

// case: 'XXXXXX' hex of a block of 256 code points
static void check_block(Ctx &ctx, const std::string &c) {
    uint32_t base = strtoul(c.c_str(), NULL, 16);
    for(uint32_t cp = base; cp < base + 256 && cp < 0x110000; cp++) {
        if(cp >= 0xd800 && cp < 0xe000) continue;
        for(int mode = 0; mode < 3; mode++) {
            if(mode == 2 && cp >= 0x300 && cp % 61) continue;
            std::string s = mode == 0 ? fmt("\\u{%x}", cp) : mode == 1 ? fmt("[\\u{%x}]", cp) : fmt("\\u{%x}a\\u{%x}", cp, cp);
            passgen_pattern pat;
            passgen_error err;
            if(!parse_real(s, &pat, &err)) { ctx.skipped(); passgen_pattern_free(&pat); continue; }
            passgen_env env;
            passgen_env_init(&env, &RND);
            Tree t;
            Str out;
            double ent = -1;
            T = &t;
            int r = passgen_generate(&pat, &env, &ent, &out, emit_cb);
            T = NULL;
            ctx.trace();
            ctx.state(hash_str(s));
            bool go = judge(ctx, fmt("U+%04X ", cp) + esc(s), Run{&pat, &env, &t}, r == 0, out, ent, 64);
            env.random = NULL;
            passgen_env_free(&env);
            passgen_pattern_free(&pat);
            if(!go && ctx.failed) return;
        }
    }
    ctx.beat();
}

static void mixes(Ctx &ctx) {
    // all strings over characters of every encoded width and escape class
    static const std::vector<std::string> al = {"a", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\"", "\\u{1}", "\\n", "\\\\", "\\u{7f}"};
    int max = ctx.thorough ? 6 : 5;
    std::function<void(const std::string &, int)> rec = [&](const std::string &p, int len) {
        ctx.emit(p);
        if(len == max) return;
        for(auto &a: al) rec(p + a, len + 1);
    };
    rec("", 0);
}
static void ladder(Ctx &ctx) {
    static const std::vector<std::string> wide = {"a", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\u{1f}", "\"", "\\\\", "\\n"};
    int N = ctx.thorough ? 300 : 80;
    for(int n = 0; n <= N; n++)
        for(auto &w: wide) for(auto &v: wide) { ctx.emit(rep(w, n) + v); if(n < 40) ctx.emit(fmt("%s{%d}%s", w.c_str(), n, v.c_str())), ctx.emit(fmt("[%s]{%d}(%s|%s)", w == "\\n" ? "\\n" : w.c_str(), n, v.c_str(), w.c_str())); }
    for(int n: {126, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10000, 65535, 65536, 65537})
        for(auto &w: wide) ctx.emit(fmt("%s{%d}", w.c_str(), n)), ctx.emit(fmt("x(%s){%d}y?", w.c_str(), n));
    for(auto l: {"one", "three", "chain", "dup", "long", "bad", "empty", "missing"})
        for(auto k: {"w", "m"}) for(auto p: {"\\%s{%s}", "x\\%s{%s}", "\\%s{%s}\xe2\x82\xac", "\\%s{%s}{2}", "(\\%s{%s}|q)?"}) {
            if(*k == 'm' && !strcmp(l, "long")) continue;
            ctx.emit(fmt(p, k, l));
        }
    for(auto p: {"", "()", "[]", "a{0}", "{0}a", "({0}a)", "(a|{0}b)c", "x{0}|", "({0}a|b)\xf0\x9f\x98\x80?"}) ctx.emit(p);
    for(int n: {1022, 1023, 1024}) ctx.emit(rep("(", n) + "a" + rep(")", n));
}

int main(int argc, char **argv) {
    bool thorough = false;
    for(int i = 1; i < argc; i++) if(!strcmp(argv[i], "--thorough")) thorough = true;
    if(thorough) LEAVES = 400;
    RENV = refenv();
    RND.read = raw_read;
    RND.close = raw_close;
    add({"mixes", "all strings of up to 5 / 6 characters over 9 characters of every width and escape class x every buffer size x 3 forms", mixes, check_fill});
    add({"structured", "all patterns of cost up to 4 / 5 x up to 60 / 400 outcomes x every buffer size x 3 forms", [](Ctx &c) { for(auto &s: structured(c.thorough ? 5 : 4)) c.emit(s); }, check_fill});
    add({"ladder", "lengths 0..80 / 300 and around powers of two to 65537 x 64 character class pairs, wordlists, failing patterns", ladder, check_fill});
    add({"limits", "patterns with groups x depth limits 0..3, and failures of every kind in the middle of the output", limits, check_limit});
    add({"codepoints", "every code point alone, in a set and repeated x every buffer size x 3 forms", [](Ctx &c) { for(uint32_t b = 0; b < 0x110000; b += 256) c.emit(fmt("%06x", b)); }, check_block});
    return main_(argc, argv);
}
