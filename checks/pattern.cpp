// C01 C02 C03 C04: exhaustive enumeration of patterns; for each accepted pattern, exhaustive
// exploration of the tree of random draws made by the real generator.
//
// The library under test is a shared object built with interposable symbols; the random draw
// functions are replaced here, so every draw - from whatever helper it is made - becomes a choice
// point whose alternatives are all explored.
#include "mc.hpp"
#include "tree.hpp"
#include "patterns.hpp"
using namespace mc;
using ref::Str;

static size_t LEAVES = 2500;
static char P; // '1'..'4'

static void check_pattern(Ctx &ctx, const std::string &s) {
    ref::Pattern rp = ref::parse(s);
    passgen_pattern pat;
    passgen_error err;
    bool ok = parse_real(s, &pat, &err);
    uint64_t h = hash_str(s);
    ctx.state(h ^ 0x1234);
    ctx.transitions(rp.ntoks + 1);
    ctx.trace();
    if(ok != rp.ok()) {
        if(P == '1') ctx.fail("accept " + esc(s).substr(0, 200), fmt("pattern %s: parser %s it, the grammar %s it", esc(s).substr(0, 300).c_str(),
                         ok ? "accepts" : "rejects", rp.ok() ? "accepts" : "rejects"));
        passgen_pattern_free(&pat);
        return;
    }
    if(!ok) {
        if(P == '1' && rp.err != ref::BAD_UTF8 && (err.offset.codepoint != rp.off || err.offset.byte != rp.boff))
            ctx.fail("position " + esc(s).substr(0, 200), fmt("pattern %s: error reported at character %zu byte %zu, expected %zu/%zu", esc(s).substr(0, 300).c_str(),
                     err.offset.codepoint, err.offset.byte, rp.off, rp.boff));
        passgen_pattern_free(&pat);
        return;
    }
    if(P == '1') { passgen_pattern_free(&pat); return; }

    ref::Denoter d;
    d.env = &RENV;
    d.limit = 4 * LEAVES;
    if(d.paths(*rp.root) > LEAVES) { ctx.skipped(); passgen_pattern_free(&pat); return; }
    ref::Dist want = d.group(*rp.root, 0);
    if(d.too_big) { ctx.skipped(); passgen_pattern_free(&pat); return; }

    passgen_env env;
    passgen_env_init(&env, &RND);
    bool uses_lists = s.find("\\w") != std::string::npos || s.find("\\m") != std::string::npos;
    if(uses_lists)
        for(auto &l: LISTS) passgen_env_wordlist_add(&env, strdup(l.name), mem_file(l.text), l.order);

    Tree t;
    ref::Dist got;
    size_t leaves = 0;
    bool give_up = false;
    std::map<Str, int> support;
    bool ref_can_fail = false;
    for(auto &x: want.m) { if(x.first.fail) ref_can_fail = true; else support[x.first.s]; }
    do {
        t.begin();
        T = &t;
        Str out;
        double ent = -1;
        int r = passgen_generate(&pat, &env, &ent, &out, emit_cb);
        T = NULL;
        leaves++;
        if(t.zero && P == '3') { ctx.fail("zero-draw " + esc(s), "generator draws from an empty range (bound 0) for pattern " + esc(s)); break; }
        if(t.nondet) { if(P == '3') ctx.fail("nondet " + esc(s), "the same draws lead to different decisions (hidden state) for pattern " + esc(s)); give_up = true; break; }
        if(t.unsupported || t.zero || leaves > 40 * LEAVES) { give_up = true; break; }
        ctx.state(hash_bytes(t.choice.data(), t.pos * 8, h));
        ctx.beat();
        double p = t.prob();
        got.add(r != 0, out, ent, p);
        if(P == '2') {
            if(r == 0 && !support.count(out)) {
                ctx.fail("output " + esc(s), fmt("pattern %s generates %s, which it does not denote; %s", esc(s).c_str(), ref::show(out).c_str(), show_choices(t).c_str()));
                break;
            }
            if(r != 0 && !ref_can_fail) {
                ctx.fail("failure " + esc(s), fmt("pattern %s: generation fails with %d although the pattern denotes outputs; %s", esc(s).c_str(), r, show_choices(t).c_str()));
                break;
            }
        }
        if(P == '4' || P == '2') {
            // the same decisions without entropy collection give the same output
            size_t keep = t.pos;
            Str out2;
            t.begin();
            T = &t;
            int r2 = passgen_generate(&pat, &env, NULL, &out2, emit_cb);
            T = NULL;
            if(r2 != r || (r == 0 && out2 != out) || t.pos != keep || t.nondet) {
                ctx.fail("entropy-effect " + esc(s), fmt("pattern %s: requesting entropy changes the result (%s vs %s)", esc(s).c_str(), ref::show(out).c_str(), ref::show(out2).c_str()));
                break;
            }
            t.pos = keep;
        }
    } while(t.next());
    ctx.transitions(t.draws);
    ctx.trace(leaves);
    if(!give_up && !ctx.failed) {
        if(P == '3' || P == '2') {
            std::map<Str, double> a, b;
            double fa = 0, fb = 0;
            for(auto &x: want.m) if(x.first.fail) fa += x.second.first; else a[x.first.s] += x.second.first;
            for(auto &x: got.m) if(x.first.fail) fb += x.second.first; else b[x.first.s] += x.second.first;
            if(P == '3') {
                if(fabs(fa - fb) > 1e-9) ctx.fail("prob-fail " + esc(s), fmt("pattern %s: generation fails with probability %.9f, expected %.9f", esc(s).c_str(), fb, fa));
                for(auto &x: a) b[x.first];
                for(auto &x: b) {
                    double w = a.count(x.first) ? a[x.first] : 0;
                    if(fabs(w - x.second) > 1e-9) {
                        ctx.fail("prob " + esc(s), fmt("pattern %s: output %s has probability %.9f, expected %.9f", esc(s).c_str(), ref::show(x.first).c_str(), x.second, w));
                        break;
                    }
                }
            }
        }
        if(P == '4') {
            for(auto &x: want.m) got.m[x.first];
            for(auto &x: got.m) {
                auto w = want.m.find(x.first);
                double pw = w == want.m.end() ? 0 : w->second.first;
                if(x.first.fail) continue;
                if(fabs(pw - x.second.first) > 1e-9) {
                    std::string alt;
                    for(auto &y: want.m) if(!y.first.fail && y.first.s == x.first.s) alt += fmt(" %.6g(p=%.6g)", y.second.second, y.second.first);
                    ctx.fail("entropy " + esc(s), fmt("pattern %s: output %s is reported with entropy value %.9g with probability %.9f, expected probability %.9f; expected entropy values for this output:%s",
                             esc(s).c_str(), ref::show(x.first.s).c_str(), exp(x.first.le * 1e-8), x.second.first, pw, alt.c_str()));
                    break;
                }
            }
        }
    }
    if(give_up) ctx.skipped();
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}

// ------------------------------------------------------------------ spaces
// all strings over an alphabet, except that at most one symbol follows the first erroneous one
static void strings(Ctx &ctx, const std::vector<std::string> &al, size_t maxlen, size_t shard_depth) {
    std::function<void(const std::string &, size_t, int, bool)> rec = [&](const std::string &p, size_t len, int dead, bool mine) {
        if(ctx.stopped()) return;
        if(mine) ctx.emit_mine(p);
        if(len == maxlen) return;
        int nd = 0;
        if(len >= shard_depth) {
            ref::Pattern r = ref::parse(p);
            if(r.err == ref::BAD_GRAMMAR || r.err == ref::BAD_TOKEN) nd = dead + 1;
        }
        if(nd > 1) return;
        for(auto &a: al) {
            bool m = mine;
            if(len + 1 <= shard_depth) m = ctx.take();
            if(len + 1 < shard_depth || m) rec(p + a, len + 1, nd, m);
        }
    };
    rec("", 0, 0, ctx.take());
}
// note: prefixes shorter than shard_depth are checked by whichever worker owns them, and expanded by all

static void ladder(Ctx &ctx) {
    int N = ctx.thorough ? 140 : 70;
    auto lit = [](int n, int off = 0) { std::string o; for(int i = 0; i < n; i++) o += (char) ('a' + (i + off) % 26); return o; };
    static const char *tail[] = {"", "?", "{2}", "{0}", "{1,2}", "[xy]", "(x|y)", "(x|y)?z", "|z", "{0,2}?q", "[x-z]{2}q"};
    for(int n = 0; n <= N; n++)
        for(auto t: tail) {
            ctx.emit(lit(n) + t);
            ctx.emit("(" + lit(n) + t + ")");
            ctx.emit("[01]" + lit(n) + t);
            ctx.emit("x|" + lit(n) + t);
            if(n % 7 < 2 || n > 30 && n < 36) ctx.emit("(" + lit(n) + t + "){2}w");
        }
    // wide characters at every offset inside a literal
    for(int n = 0; n <= 20; n++)
        for(auto w: {"\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc4\xa8", "\xc5\xbb", "\xc8\xbf"})
            for(auto t: {"", "?", "{2}", "bcd"}) ctx.emit(lit(n) + w + t);
    // long literals around the decoder chunk (256 characters), with a multi-character construct across the boundary
    for(int n: {250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 510, 511, 512, 513, 514, 767, 768, 769, 1023, 1024, 1025})
        for(auto c: {"", "?", "{2}", "{0,1}", "[xy]", "(x|y)", "\\u{41}", "\\(", "\\n", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80?", "[\xc3\xa4-\xc3\xa6]z", "\\w{one}", "({2}x|y)z"})
            for(auto pre: {"", "\xc3\xa4", "\xf0\x9f\x98\x80\xe2\x82\xac"}) ctx.emit(pre + lit(n) + c + "tail");
    for(int n: {252, 253, 254, 255, 256, 257, 258, 508, 512, 516})
        for(auto c: {"\\", "\\u", "\\u{", "\\u{4", "(", "[", "{", "{1", "{1,", "\\w", "\\w{", "\\w{on", ")", "]", "}", "\\q", "\\u{g}", "?", "{2,1}"})
            for(auto post: {"", "zz"}) ctx.emit(lit(n) + c + post);
    // many items
    for(int n = 0; n <= N; n++)
        for(auto t: {"", "?", "{2}", "{0,1}", "[xy]?z"}) {
            ctx.emit(rep("[a]", n) + t);
            ctx.emit(rep("a{1}", n) + "b" + t);
            ctx.emit(rep("(a)", n) + t);
            ctx.emit("(" + rep("[a]b", n) + ")" + t);
        }
    // many alternatives, equal and weighted
    for(int n = 1; n <= N; n++) {
        std::string a, b, c, d;
        for(int i = 0; i < n; i++) {
            std::string x = fmt("%c%c", 'a' + i % 26, 'A' + i / 26);
            a += (i ? "|" : "") + x;
            b += std::string(i ? "|" : "") + fmt("{%d}", i % 4) + x;
            c += std::string(i ? "|" : "") + (i == n - 1 ? "{5}" : "") + x;
            d += std::string(i ? "|" : "") + (i == n / 2 ? "{0}" : "") + x;
        }
        for(auto &x: {a, b, c, d}) { ctx.emit(x); ctx.emit("(" + x + ")z"); ctx.emit("q(" + x + ")?"); }
        if(n <= 12) ctx.emit("(" + b + "){2}");
    }
    // weights of many digits
    for(auto w: {"1", "7", "10", "99", "100", "255", "256", "257", "1000", "1023"})
        for(auto v: {"1", "2", "10", "256"}) { ctx.emit(fmt("{%s}a|{%s}b", w, v)); ctx.emit(fmt("({%s}a|b|{%s}c)d", w, v)); ctx.emit(fmt("{%s}{%s}a|b", w, v)); ctx.emit(fmt("a{%s}{%s}", v, v)); }
    // repeat counts
    for(int lo = 0; lo <= 40; lo++)
        for(int hi = lo; hi <= 40; hi++) { ctx.emit(fmt("a{%d,%d}", lo, hi)); ctx.emit(fmt("xa{%d,%d}?y", lo, hi)); }
    for(int n = 41; n <= 600; n += 13) ctx.emit(fmt("(ab){%d}", n)), ctx.emit(fmt("a{0,%d}", n)), ctx.emit(fmt("a{%03d,%d}b", n, n + 3));
    // many sets and ranges
    for(int n = 1; n <= N; n++) {
        std::string s, r;
        for(int i = 0; i < n; i++) { s += ref::utf8_put(0x100 + 3 * (i * 7 % n)); r += ref::utf8_put(0x400 + 10 * i) + "-" + ref::utf8_put(0x400 + 10 * i + i % 5); }
        ctx.emit("[" + s + "]");
        ctx.emit("[" + r + "]");
        ctx.emit("x[" + s + r + "]?");
    }
    for(auto r: {"[ -~]", "[a-zA-Z0-9]", "[0-9a-f]{2}", "[\xc3\x80-\xc3\xbf]", "[\xe2\x82\xa0-\xe2\x82\xaf]", "[\xf0\x9f\x98\x80-\xf0\x9f\x98\x8f]", "[a-a]", "[a-b-d]", "[-a]", "[--a]", "[\\--a]", "[a\\-]", "[a-\\-]", "[+-\\-]", "[!-\\-]", "[]", "[]{3}a", "[aab]", "[a-ca]", "[a-cb-d]", "[\\n\\t]", "[\\u{41}-\\u{43}]", "[(|)?{},]"}) ctx.emit(r), ctx.emit(std::string("x") + r + "{2}"), ctx.emit(std::string("(") + r + "|z)?");
    // nesting
    for(int n = 0; n <= N; n++)
        for(auto t: {"a", "a|b", "a?", "[ab]", "a{2}", ""}) {
            ctx.emit(rep("(", n) + t + rep(")", n));
            ctx.emit(rep("(", n) + t + rep("){1}", n));
            ctx.emit(rep("(x", n) + t + rep("y)", n));
            ctx.emit(rep("(", n) + t + rep(")", n + 1));
            ctx.emit(rep("(", n + 1) + t + rep(")", n));
            if(n <= 10) ctx.emit(rep("(z|", n) + t + rep(")", n)), ctx.emit(rep("({2}z|", n) + t + rep(")?", n));
        }
    // positions beyond 16 bits
    for(int n: {2040, 2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 131072})
        for(auto t: {"", "(", ")", "[a", "{2", "\\", "\\q", "\xc3", "{2,1}", "\\u{110000}", "|(a", "\\w{on", "(a)"}) if(P == '1' || !*t || n < 5000 && !strcmp(t, "(a)")) { ctx.emit(lit(n) + t); if(P == '1') ctx.emit("\xe2\x82\xac" + lit(n) + t + "zz"); }
    // siblings of nested groups
    for(int n = 1; n <= 40; n++) ctx.emit(rep("((a)b)", n)), ctx.emit(rep("(a|(b|c))", n > 6 ? 6 : n)), ctx.emit(fmt("((a(b)){%d})", n));
}

static const std::vector<std::string> ALPHA1 = {"a", "b", "(", ")", "|", "[", "]", "{", "}", "?", "2", "0", ",", "-"};
static const std::vector<std::string> ALPHA2 = {"a", "c", "(", ")", "|", "[", "]", "{", "}", "?", "1", ",", "-", "\\(", "\\-", "\\]", "\\u{28}", "\\u{62}",
                                                "\\n", "\\\\", "\\w{one}", "\\q", "\xc4\xa8", "\xf0\x9f\x98\x80"};
static const std::vector<std::string> ALPHA3 = {"\\", "u", "{", "}", "6", "1", "f", "0", "a", "w", "m", "(", ")", "-", "[", "]", "\xc3\xa4"};
static const std::vector<std::string> ALPHA4 = {"\\w{one}", "\\w{three}", "\\w{none}", "\\m{chain}", "\\m{dup}", "\\m{mixed}", "\\m{none}", "\\w{dup}", "\\w{averyveryverylongwordlistname}",
                                                "\\w{}", "\\w{o\\}}", "\\m{three}", "a", "(", ")", "|", "?", "{2}", "{0,1}", "{0}"};

static void codepoints(Ctx &ctx) {
    // every code point in every syntactic position
    std::vector<uint32_t> cps;
    for(uint32_t c = 1; c < 0x3000; c++) cps.push_back(c);
    for(uint32_t c = 0x3000; c < 0x110000; c += ctx.thorough || (P == '1' && c < 0x10000) ? 1 : 61) cps.push_back(c);
    for(uint32_t hi = 0; hi <= 0x10; hi++)
        for(uint32_t lo: {0x0, 0x28, 0x29, 0x3f, 0x5b, 0x5d, 0x7b, 0x7c, 0x7d, 0x7f, 0x80, 0xff, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff}) cps.push_back(hi << 16 | lo);
    for(size_t i = 0; i < cps.size(); i += 64) {
        std::string c;
        for(size_t k = i; k < cps.size() && k < i + 64; k++) c += fmt("%x ", cps[k]);
        ctx.emit(c);
    }
}
static void check_codepoints(Ctx &ctx, const std::string &c) {
    char *p = (char *) c.c_str();
    for(;;) {
        char *e;
        uint32_t cp = strtoul(p, &e, 16);
        if(e == p) break;
        p = e;
        if(!cp) continue;
        std::vector<std::string> forms;
        if(cp < 0xd800 || cp > 0xdfff) {
            std::string u = ref::utf8_put(cp);
            forms = {u, u + "b", "a" + u, "\\" + u, "\\" + u + "b", "[" + u + "]", "[\\" + u + "]", "[a-" + u + "]", "[" + u + "-a]", "(" + u, u + ")", "a{" + u + "}", "a{1" + u + "2}", "{" + u + "}a",
                     "[a" + u + "-]", u + "?", u + "{2}", "\\w{" + u + "}", "\\u{" + u + "}", "\\w" + u, "a|" + u, "[" + u + "-" + u + "]", "[" + u + u + "]", "[+-" + u + "]"};
        }
        for(auto f: {"\\u{%x}", "\\u{%X}", "\\u{%06x}", "[\\u{%x}]", "x\\u{%x}?", "[\\u{%x}-\\u{%x}]", "\\u{%x}b"}) forms.push_back(fmt(f, cp, cp));
        for(auto &f: forms) {
            check_pattern(ctx, f);
            if(ctx.failed) return;
        }
    }
}

// all short byte strings: well-formedness of the encoding
static void bytes(Ctx &ctx) {
    static const unsigned char rep_[] = {0x01, 0x28, 0x41, 0x5b, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff};
    std::vector<std::string> al;
    for(unsigned char c: rep_) al.push_back(std::string(1, (char) c));
    all_strings(al, ctx.thorough ? 5 : 4, [&](const std::string &s, size_t) { ctx.emit(s); return true; });
    for(int a = 1; a < 256; a++)
        for(int b = 0; b < 256; b++) {
            std::string s(1, (char) a);
            if(b) s += (char) b;
            ctx.emit(s);
            ctx.emit("x" + s + "y");
        }
    for(int n: {254, 255, 256, 257, 511, 512, 513})
        for(auto t: {"\xc3", "\xe2\x82", "\xe2", "\xf0\x9f\x98", "\xf0", "\x80", "\xc3\xa4", "\xc3" "a", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf"}) {
            ctx.emit(std::string(n, 'a') + t);
            ctx.emit(std::string(n, 'a') + t + "z");
        }
}

// many of one construct: acceptance must not depend on how many there are or how deeply they are nested
static void many_constructs(Ctx &ctx) {
    std::vector<int> counts;
    for(int n = 71; n <= (ctx.thorough ? 1100 : 300); n++) counts.push_back(n);
    for(int n: {511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}) counts.push_back(n);
    std::vector<int> wide = counts; // constructs that are not nested
    for(int n: {8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537}) wide.push_back(n);
    for(int n: counts)
        for(auto t: {"a", "", "[ab]", "a|b", "?", "}", "[", "{1", "\\q"}) {
            ctx.emit(rep("(", n) + t + rep(")", n));
            ctx.emit(rep("(", n) + t + rep(")", n + 1));
            ctx.emit(rep("(", n + 1) + t + rep(")", n));
            if(strlen(t) < 2) ctx.emit(rep("(x|", n) + t + rep("){2}", n)), ctx.emit(rep("(a?[b]", n) + t + rep(")?z", n));
        }
    static const char *unit[] = {"[a]", "(a)", "a{1}", "a?", "a|", "{2}a|", "\\n", "\\u{41}", "\\w{one}", "\xc3\xa4", "{0}b|", "()", "(a|b)", "[a-c]{2,3}?", "|"};
    for(int n: wide)
        for(auto u: unit)
            for(auto t: {"", "z", ")", "[", "{2,1}", "\\"}) {
                if(n > 4097 && (*t && *t != ')')) continue;
                ctx.emit(rep(u, n) + t);
                if(n <= 4097) ctx.emit("(" + rep(u, n) + t + ")");
            }
    static const char *member[] = {"a", "a-c", "\\-", "\xe2\x82\xac", "\\n", "\\u{62}", "(", "b-b"};
    for(int n: wide)
        for(auto u: member)
            for(auto t: {"]", "", "-]", "b-a]", "\\w]", "]}"}) {
                if(n > 4097 && strcmp(t, "]")) continue;
                ctx.emit("[" + rep(u, n) + t);
            }
    // names, numbers with leading zeros, escaped code points with many digits
    for(int n: wide) {
        for(auto u: {"n", "\xc3\xa4", "\\}", "{"}) ctx.emit("\\w{" + rep(u, n) + "}"), ctx.emit("\\m{" + rep(u, n) + "}x"), ctx.emit("\\p{" + rep(u, n));
        for(auto u: {"1", "2", "10", "4294967295", "4294967296"}) {
            ctx.emit("a{" + rep("0", n) + u + "}"), ctx.emit("{" + rep("0", n) + u + "}a|b"), ctx.emit("a{1," + rep("0", n) + u + "}");
            ctx.emit("a{" + rep("0", n) + u + ",3}");
        }
        for(auto u: {"1", "41", "10ffff", "110000"}) ctx.emit("\\u{" + rep("0", n) + u + "}");
        ctx.emit(rep("{3}", n) + "a");
        ctx.emit("a" + rep("{3}", n));
        ctx.emit("a" + rep("?", n));
        ctx.emit("a" + rep("{1,2}?", n));
    }
}

static void numbers(Ctx &ctx) {
    for(auto n: {"", "0", "1", "00", "007", "2", "10", "4294967295", "18446744073709551616", "18446744073709551617", "36893488147419103233", "99999999999999999999999999", "184467440737095516160"}) {
        for(auto f: {"a{%s}", "a{0,%s}", "a{%s,%s}", "{%s}a", "({%s}a|b)", "({%s}a|{%s}b)", "a{%s,}", "a{,%s}", "a{%s}{1}", "{%s}{1}a", "(a{%s})", "[ab]{%s}", "a?{%s}", "{%s"})
            ctx.emit(fmt(f, n, n));
    }
    for(int a = 0; a <= 12; a++) for(int b = 0; b <= 12; b++) { ctx.emit(fmt("a{%d,%d}", a, b)); ctx.emit(fmt("(a{%d,%d}b)", a, b)); ctx.emit(fmt("x{%d}{%d}", a, b)); }
    ctx.emit("a{10,9}"); ctx.emit("a{2,12}"); ctx.emit("a{12,2}"); ctx.emit("a{100,20}"); ctx.emit("a{9,10}");
}

// ------------------------------------------------------------------ single decisions of any size
// A pattern with exactly one decision, whose range may be too large to enumerate value by value.  The
// outcome function of the draw is piecewise constant (alternatives) or piecewise linear (code point
// ranges, repeat counts); its pieces are located by exhaustive bisection and their sizes compared
// with the reference.  case: kind ; expected pieces "value:count" or "lo-hi" ; pattern
static int big_cb(void *data, uint32_t cp) {
    uint64_t *o = (uint64_t *) data;
    o[0]++;
    o[1] = cp;
    return 0;
}
typedef std::map<uint64_t, __int128> Diff; // density as differences
static void check_big(Ctx &ctx, const std::string &c) {
    size_t p1 = c.find(';'), p2 = c.find(';', p1 + 1);
    bool repeat = c[0] == 'r';
    std::string spec = c.substr(p1 + 1, p2 - p1 - 1), s = c.substr(p2 + 1);
    Diff want;
    unsigned __int128 total = 0;
    for(const char *p = spec.c_str(); *p;) {
        char *e;
        uint64_t lo = strtoull(p, &e, 10), hi = lo, w = 1;
        if(*e == '-') hi = strtoull(e + 1, &e, 10);
        if(*e == ':') w = strtoull(e + 1, &e, 10);
        p = *e == ',' ? e + 1 : e;
        if(!w) continue;
        want[lo] += w;
        want[hi + 1] -= w;
        total += (unsigned __int128) (hi - lo + 1) * w;
    }
    passgen_pattern pat;
    passgen_error err;
    if(!parse_real(s, &pat, &err)) { passgen_pattern_free(&pat); ctx.skipped(); return; }
    passgen_env env;
    passgen_env_init(&env, &RND);
    uint64_t range = 0;
    bool wide = false, many = false, zero = false;
    size_t runs = 0;
    auto density = [&](uint64_t v) { __int128 d = 0; for(auto &x: want) { if(x.first > v) break; d += x.second; } return d; };
    std::map<uint64_t, uint64_t> memo;
    auto f = [&](uint64_t v) -> uint64_t {
        auto m = memo.find(v);
        if(m != memo.end()) return m->second;
        Tree t;
        t.single = true;
        t.value = v;
        T = &t;
        uint64_t o[2] = {0, 0};
        double ent = -1;
        int r = passgen_generate(&pat, &env, &ent, o, big_cb);
        T = NULL;
        runs++;
        ctx.beat();
        if(t.range) range = t.range;
        wide |= t.wide;
        zero |= t.zero;
        if(t.decisions > 1 && !t.wide) many = true;
        uint64_t out = r ? ~0ull : repeat ? o[0] : o[1];
        if(r || (repeat ? (o[0] && o[1] != 'a') : o[0] != 1) || density(out) <= 0) {
            if(P == '2') ctx.fail("output " + esc(s).substr(0, 200), fmt("pattern %s: drawing %llu of %llu: result %d, %llu characters, last U+%llX: not denoted by the pattern", esc(s).substr(0, 300).c_str(),
                                  (unsigned long long) v, (unsigned long long) t.range, r, (unsigned long long) o[0], (unsigned long long) o[1]));
        } else if(P == '4' && !t.wide) {
            double w = c[0] == 's' ? (double) total : (double) total / (double) density(out);
            if(fabs(ent - w) > 1e-9 * w) ctx.fail("entropy " + esc(s).substr(0, 200), fmt("pattern %s: drawing %llu of %llu reports the entropy value %.12g, expected %.12g", esc(s).substr(0, 300).c_str(),
                                  (unsigned long long) v, (unsigned long long) t.range, ent, w));
        }
        return memo[v] = out;
    };
    ctx.state(hash_str(c));
    f(0);
    if(P == '3') {
        if(zero) ctx.fail("zero-draw " + esc(s).substr(0, 200), "draw from an empty range for pattern " + esc(s).substr(0, 300));
        bool pow2 = total && !(total & (total - 1));
        if(wide) {
            // an unbounded word is mapped to the outcomes: possible exactly only if some words are rejected
            auto count = [&](uint64_t v) {
                Tree t; t.single = true; t.value = v; T = &t;
                uint64_t o[2] = {0, 0};
                passgen_generate(&pat, &env, NULL, o, big_cb);
                T = NULL;
                return t.decisions;
            };
            if(!pow2 && count(0) == 1 && count(~0ull) == 1)
                ctx.fail("no-rejection " + esc(s).substr(0, 200), fmt("pattern %s: an unbounded random word is mapped to %llu equally likely outcomes without rejecting any word, so they cannot be equally likely", esc(s).substr(0, 300).c_str(), (unsigned long long) total));
        }
        std::string probe = range == 0 && total > 1 && want.size() > 1 && !wide ? "no decision is made" : "";
        size_t live = 0;
        for(auto &x: want) { if(density(x.first) > 0) live++; }
        if(probe.size() && total > 1) {
            // a single possible outcome needs no draw
            uint64_t lo = 0; __int128 d = 0, n = 0; uint64_t prev = 0; bool on = false;
            for(auto &x: want) { if(on && d > 0) n += x.first - prev; d += x.second; prev = x.first; on = true; }
            if(n > 1) ctx.fail("no-draw " + esc(s).substr(0, 200), fmt("pattern %s: several outcomes are possible but no random decision is made", esc(s).substr(0, 300).c_str()));
        }
    }
    if(range > 1 && !wide && !many && !ctx.failed) {
        Diff got;
        // candidate breakpoints: the whole range, the reference boundaries, powers of two
        std::set<uint64_t> cut = {0, range - 1};
        unsigned __int128 acc = 0;
        {
            // in listing order
            for(const char *p = spec.c_str(); *p;) {
                char *e;
                uint64_t lo = strtoull(p, &e, 10), hi = lo, w = 1;
                if(*e == '-') hi = strtoull(e + 1, &e, 10);
                if(*e == ':') w = strtoull(e + 1, &e, 10);
                p = *e == ',' ? e + 1 : e;
                acc += (unsigned __int128) (hi - lo + 1) * w;
                for(int d = -1; d <= 1; d++) if(acc + d < range) cut.insert((uint64_t) (acc + d));
            }
        }
        for(int b = 0; b < 64; b++) for(int d = -1; d <= 1; d++) if((1ull << b) + d < range) cut.insert((1ull << b) + d);
        std::function<void(uint64_t, uint64_t)> seg = [&](uint64_t lo, uint64_t hi) {
            // half-open knowledge: adds the values of (lo, hi]; f(lo) is already counted
            if(ctx.failed || lo == hi) return;
            uint64_t a = f(lo), b = f(hi), n = hi - lo, mid = lo + n / 2, m = f(mid);
            if(n == 1) { got[b] += 1; got[b + 1] -= 1; return; }
            if(a == b && m == a) { got[a] += n; got[a + 1] -= n; return; }
            if(b == a + n && m == a + (mid - lo)) { got[a + 1] += 1; got[b + 1] -= 1; return; }
            if(a == b + n && m == a - (mid - lo)) { got[b] += 1; got[a] -= 1; return; }
            if(runs > 400000) { many = true; return; }
            seg(lo, mid);
            seg(mid, hi);
        };
        uint64_t v0 = f(0);
        got[v0] += 1; got[v0 + 1] -= 1;
        uint64_t prev = 0;
        for(uint64_t v: cut) { if(v > prev) seg(prev, v); prev = v; }
        if(!many && !ctx.failed && P == '3') {
            // got / range == want / total everywhere
            std::set<uint64_t> keys;
            for(auto &x: want) keys.insert(x.first);
            for(auto &x: got) keys.insert(x.first);
            __int128 g = 0, w = 0;
            for(uint64_t k: keys) {
                if(got.count(k)) g += got[k];
                if(want.count(k)) w += want[k];
                if(g * (__int128) total != w * (__int128) range) {
                    ctx.fail("prob " + esc(s).substr(0, 200), fmt("pattern %s: outcome %llu has %llu of %llu draws, expected %llu of %llu", esc(s).substr(0, 300).c_str(), (unsigned long long) k,
                             (unsigned long long) g, (unsigned long long) range, (unsigned long long) w, (unsigned long long) total));
                    break;
                }
            }
        }
    }
    if(many) ctx.skipped();
    ctx.transitions(runs);
    ctx.trace(runs);
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}
static void big(Ctx &ctx) {
    std::vector<uint64_t> W = {0, 1, 2, 3, 255, 256, 65535, 65536, 1000000, 2147483647, 2147483648, 4294967294, 4294967295};
    for(auto a: W) for(auto b: W) {
        if(a + b) ctx.emit(fmt("w;97:%llu,98:%llu;{%llu}a|{%llu}b", a, b, a, b));
        for(auto d: W)
            if(a + b + d) ctx.emit(fmt("w;97:%llu,98:%llu,99:%llu;({%llu}a|{%llu}b|{%llu}c)", a, b, d, a, b, d));
        ctx.emit(fmt("w;97:%llu,98:%llu,99:1;{%llu}a|{%llu}b|c", a, b, a, b));
    }
    for(int n: {3, 5, 17, 40, 100})
        for(auto w: {4294967295ull, 2147483648ull, 1000003ull}) {
            std::string spec, pat;
            for(int i = 0; i < n; i++) { spec += fmt("%s%d:%llu", i ? "," : "", 0x100 + i, w - i); pat += fmt("%s{%llu}", i ? "|" : "", w - i) + ref::utf8_put(0x100 + i); }
            ctx.emit("w;" + spec + ";" + pat);
        }
    std::vector<uint32_t> E = {1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1ffff, 0x7ffff, 0x80000, 0xfffff, 0x100000, 0x10ffff};
    for(auto a: E) for(auto b: E) {
        if(a > b) continue;
        ctx.emit(fmt("s;%u-%u;[\\u{%x}-\\u{%x}]", a, b, a, b));
        ctx.emit(fmt("s;%u-%u,97,98;[\\u{%x}-\\u{%x}ab]", a, b, a, b));
        ctx.emit(fmt("s;97-122,%u-%u,%u;[a-z\\u{%x}-\\u{%x}\\u{%x}]", a, b, b, a, b, b));
        for(auto d: E) if(d >= b) ctx.emit(fmt("s;%u-%u,%u-%u;[\\u{%x}-\\u{%x}\\u{%x}-\\u{%x}]", a, b, b, d, a, b, b, d));
    }
    for(int n: {2, 3, 15, 16, 17, 255, 256, 4000}) {
        std::string spec, pat;
        for(int i = 0; i < n; i++) { spec += fmt("%s1-1114111", i ? "," : ""); pat += "\\u{1}-\\u{10ffff}"; }
        if(n < 300) ctx.emit("s;" + spec + ";[" + pat + "]");
    }
    ctx.emit("s;1-1114111:4000;@4000");
    std::vector<uint64_t> R = {0, 1, 2, 3, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 65537, 131072, 1000000};
    for(auto a: R) for(auto b: R)
        if(a <= b) {
            ctx.emit(fmt("r;%llu-%llu;a{%llu,%llu}", a, b, a, b));
            if(b <= 65537) ctx.emit(fmt("r;%llu-%llu;(a){%llu,%llu}", a, b, a, b));
            if(a == b) ctx.emit(fmt("r;%llu-%llu;[a]{%llu}", a, b, a));
        }
}
static void check_big_case(Ctx &ctx, const std::string &c) {
    // "@n": n times the whole code point range
    size_t at = c.find(";@");
    if(at == std::string::npos) { check_big(ctx, c); return; }
    std::string pat = "[";
    for(int i = atoi(c.c_str() + at + 2); i > 0; i--) pat += "\\u{1}-\\u{10ffff}";
    check_big(ctx, c.substr(0, at + 1) + pat + "]");
}

// repeat ranges that are too large to be generated completely: "lo;hi;pattern of one character"
static int capped_cb(void *data, uint32_t cp) {
    uint64_t *o = (uint64_t *) data;
    o[1] = cp;
    return ++o[0] > 70000;
}
static void huge(Ctx &ctx) {
    for(auto hi: {65536ull, 131071ull, 131072ull, 16777215ull, 16777216ull, 16777217ull, 2147483646ull, 2147483647ull, 2147483648ull, 4294967293ull, 4294967294ull, 4294967295ull})
        for(auto lo: {0ull, 1ull, 2ull, 3ull, 255ull, 256ull, 257ull, 65535ull})
            for(auto item: {"a", "[a]", "(a)"}) ctx.emit(fmt("%llu;%llu;%s", lo, hi, item));
}
static void check_huge(Ctx &ctx, const std::string &c) {
    char *e;
    uint64_t lo = strtoull(c.c_str(), &e, 10), hi = strtoull(e + 1, &e, 10), n = hi - lo + 1;
    std::string s = e + 1 + fmt("{%llu,%llu}", (unsigned long long) lo, (unsigned long long) hi);
    passgen_pattern pat;
    passgen_error err;
    ctx.state(hash_str(c));
    if(!parse_real(s, &pat, &err)) { passgen_pattern_free(&pat); ctx.skipped(); return; }
    passgen_env env;
    passgen_env_init(&env, &RND);
    std::set<uint64_t> seen;
    for(uint64_t v: {0, 1, 2, 3, 7, 8, 254, 255, 256, 257, 511, 512, 1000, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537}) {
        if(v >= n) break;
        Tree t;
        t.single = true;
        t.value = v;
        T = &t;
        double ent = -1;
        uint64_t o[2] = {0, 0};
        int r = passgen_generate(&pat, &env, &ent, o, capped_cb);
        T = NULL;
        ctx.trace();
        ctx.transitions(t.draws);
        if(t.wide || t.decisions != 1) { ctx.skipped(); break; }
        if(P == '3' && t.range % n) {
            ctx.fail("prob " + s, fmt("pattern %s: one draw of %llu values decides between %llu equally likely counts", s.c_str(), (unsigned long long) t.range, (unsigned long long) n));
            break;
        }
        if(r) continue;  // more than the cap
        if(P == '2' && (o[0] < lo || o[0] > hi || o[0] && o[1] != 'a')) ctx.fail("output " + s, fmt("pattern %s gives %llu repetitions, the last one U+%llX", s.c_str(), (unsigned long long) o[0], (unsigned long long) o[1]));
        if(P == '3' && t.range == n && !seen.insert(o[0]).second) ctx.fail("prob " + s, fmt("pattern %s: several draws give %llu repetitions", s.c_str(), (unsigned long long) o[0]));
        if(P == '4' && !(fabs(ent - (double) n) < 1e-9 * n)) ctx.fail("entropy " + s, fmt("pattern %s: %llu repetitions are reported with entropy value %.12g, expected %llu", s.c_str(), (unsigned long long) o[0], ent, (unsigned long long) n));
        if(ctx.failed) break;
    }
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}

// one decision among very many listed alternatives: kind;n (the pattern is built from it)
//   a: n alternatives of one character   s: a set of n characters   r: a set of n ranges of two
//   w: n alternatives of weight 3        g: n alternatives in a group behind a literal
static Str many_char(uint64_t i) { return Str(1, 0x4000 + (uint32_t) (i % 0x9000) + (i / 0x9000) * 0x10000); }
// several wide decisions in a row: whatever the single decision yields, sequences of it yield, in one generation, in several, and
// alternating with another pattern.  case: "<kind> <range> <mode>"
static std::string joint_piece(char k, uint64_t n) {
    if(k == 's') return fmt("[\\u{%llx}-\\u{%llx}]", 0xe000ull, (unsigned long long) (0xe000 + n - 1));
    if(k == 'm') return n < 2 ? joint_piece('s', n) : fmt("[a\\u{%llx}-\\u{%llx}]", 0xe000ull, (unsigned long long) (0xe000 + n - 2));
    if(k == 'w') return n < 2 ? "(a|{0}b)" : fmt("({%llu}a|b)", (unsigned long long) n - 1);
    if(k == 'r') return fmt("a{%u,%llu}", 1, (unsigned long long) n);
    return "(abc?|d)";
}
static void check_joint(Ctx &ctx, const std::string &c) {
    char k;
    unsigned long long n;
    int mode;
    sscanf(c.c_str(), "%c %llu %d", &k, &n, &mode);
    int depth = ctx.thorough ? 5 : 4;
    std::vector<passgen_pattern> pats(depth + 2);
    passgen_error err;
    bool ok = true;
    for(int i = 1; i <= depth; i++) ok &= parse_real("(" + joint_piece(k, n) + fmt("){%d}", i), &pats[i], &err);
    ok &= parse_real("[\\u{1000}-\\u{1" + fmt("%04llx", (n > 0x10000 ? 0xffff : n - 1)) + "}]", &pats[0], &err);
    if(!ok) { if(P == '2') ctx.fail("joint " + c, "a pattern of " + joint_piece(k, n) + " is not accepted"); return; }
    passgen_env env;
    passgen_env_init(&env, &RND);
    std::vector<uint64_t> seq;
    std::set<uint64_t> pick;
    for(uint64_t v: {(uint64_t) 0, (uint64_t) 1, (uint64_t) n / 2, (uint64_t) n - 1}) if(v < n) pick.insert(v);
    std::map<uint64_t, Str> single;
    bool skip = false;
    auto go = [&](int pat, size_t from, size_t m, Str &out, double &bits) {
        Tree t;
        t.forced = true;
        for(size_t i = 0; i < m; i++) t.force(seq[from + i], n);
        T = &t;
        double e = -1;
        int r = passgen_generate(&pats[pat], &env, &e, &out, emit_cb);
        T = NULL;
        bits += log2(e);
        ctx.beat();
        ctx.transitions(m);
        skip |= r != 0 || !t.forced_all();
    };
    for(uint64_t v: pick) { seq = {v}; double b = 0; go(1, 0, 1, single[v], b); }
    seq.clear();
    std::function<void()> rec = [&] {
        if(ctx.failed || skip) return;
        if(!seq.empty()) {
            Str want, got;
            double bits = 0, ideal = 0;
            for(uint64_t v: seq) { want.insert(want.end(), single[v].begin(), single[v].end()); ideal += log2(k == 'w' ? (v == n - 1 && n > 1 ? n : n > 1 ? (double) n / (n - 1) : 1) : n); }
            if(mode == 0) go(seq.size(), 0, seq.size(), got, bits);
            else for(size_t i = 0; i < seq.size(); i++) {
                go(1, i, 1, got, bits);
                if(mode == 2) { Tree t; t.single = true; t.value = i % 2; T = &t; Str o; passgen_generate(&pats[0], &env, NULL, &o, emit_cb); T = NULL; }
            }
            ctx.trace();
            if(skip) return;
            if(P != '4' && got != want) ctx.fail("joint " + c, fmt("decisions of %s (mode %d): drawing %llu first of %zu gives '%s', expected '%s'", joint_piece(k, n).c_str(), mode, (unsigned long long) seq[0], seq.size(), ref::show(got).substr(0, 100).c_str(), ref::show(want).substr(0, 100).c_str()));
            if(P == '4' && fabs(bits - ideal) > 1e-6 * (1 + ideal)) ctx.fail("joint " + c, fmt("decisions of %s (mode %d): %zu of them report %.9f bits, expected %.9f", joint_piece(k, n).c_str(), mode, seq.size(), bits, ideal));
        }
        if((int) seq.size() == depth) return;
        for(uint64_t v: pick) { seq.push_back(v); rec(); seq.pop_back(); }
    };
    rec();
    if(skip) ctx.skipped(); else ctx.nontrivial();
    ctx.state(hash_str(c));
    env.random = NULL;
    passgen_env_free(&env);
    for(int i = 0; i <= depth; i++) passgen_pattern_free(&pats[i]);
}
static void joint(Ctx &ctx) {
    std::set<uint64_t> ns;
    for(uint64_t n = 1; n <= 20; n++) ns.insert(n);
    for(int b = 5; b <= 20; b++) for(int d = -1; d <= 1; d++) ns.insert((1 << b) + d);
    for(uint64_t n: {26, 50, 62, 94, 100, 999, 1000, 1001, 5000, 10000, 100000, 1000000}) ns.insert(n);
    for(uint64_t n: ns)
        for(int m = 0; m < 3; m++) {
            for(char k: {'s', 'm', 'w'}) if(k == 'w' || n < 0x100000) ctx.emit(fmt("%c %llu %d", k, (unsigned long long) n, m));
            if(n <= 5000) ctx.emit(fmt("r %llu %d", (unsigned long long) n, m));
        }
    for(int b = 21; b < 32; b++) for(int d = -1; d <= 1; d++) for(int m = 0; m < 3; m++) ctx.emit(fmt("w %llu %d", (1ull << b) + d, m));
}
// the entropy of a step of a Markov chain with given weights.  case: "<weight>,<weight>,..."
static void chain(Ctx &ctx) {
    const std::vector<uint64_t> w = {1, 2, 3, 254, 255, 256, 65535, 65536, 1000000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 1, (1u << 31) - 1};
    for(uint64_t a: w) for(uint64_t b: w) {
        ctx.emit(fmt("%llu,%llu", (unsigned long long) a, (unsigned long long) b));
        for(uint64_t c: w) if(a + b + c < 1ull << 32) ctx.emit(fmt("%llu,%llu,%llu", (unsigned long long) a, (unsigned long long) b, (unsigned long long) c));
    }
}
static void check_chain(Ctx &ctx, const std::string &c) {
    for(int level = 1; level <= 3; level++) {
        passgen_markov m;
        passgen_markov_init(&m, level);
        std::vector<uint64_t> w;
        uint64_t total = 0;
        for(const char *p = c.c_str(); *p;) {
            char *e;
            w.push_back(strtoull(p, &e, 10));
            uint32_t cp = 'a' + w.size() - 1;
            passgen_markov_add(&m, &cp, 1, w.back());
            total += w.back();
            p = *e ? e + 1 : e;
        }
        std::set<uint64_t> vs;
        uint64_t at = 0;
        for(uint64_t x: w) { vs.insert(at); vs.insert(at += x); vs.insert(at - 1); }
        vs.erase(total);
        uint32_t current[3] = {0, 0, 0};
        for(uint64_t v: vs) for(double before: {1.0, 3.0}) {
            Tree t;
            t.single = true;
            t.value = v;
            T = &t;
            double e = before;
            uint32_t cp = passgen_markov_generate(&m, current, &RND, &e);
            T = NULL;
            ctx.trace();
            ctx.transitions(t.draws);
            if(t.wide || cp < 'a' || cp >= 'a' + w.size()) { ctx.skipped(); continue; }
            double want = before * (double) total / (double) w[cp - 'a'];
            if(!(fabs(e - want) <= 1e-12 * want)) ctx.fail("chain " + c, fmt("a step of a chain with weights %s, level %d: '%c' is reported with %.17g, expected %.17g", c.c_str(), level, cp, e, want));
        }
        passgen_markov_free(&m);
        if(ctx.failed) return;
    }
    ctx.nontrivial();
    ctx.state(hash_str(c));
}
static void many(Ctx &ctx) {
    for(auto n: {100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 4096, 4097, 10000, 32767, 32769, 65535, 65536, 65537, 70000, 131073})
        for(auto k: {'a', 's', 'r', 'w', 'g'}) ctx.emit(fmt("%c;%d", k, n));
}
static void check_many(Ctx &ctx, const std::string &c) {
    char k = c[0];
    uint64_t n = strtoull(c.c_str() + 2, NULL, 10), per = k == 'r' ? 2 : k == 'w' ? 3 : 1;
    std::string s;
    if(k == 's' || k == 'r') s = "[";
    if(k == 'g') s = "x(";
    for(uint64_t i = 0; i < n; i++) {
        std::string u = ref::utf8_put(many_char(k == 'r' ? 2 * i : i)[0]);
        if(k == 's') s += u;
        else if(k == 'r') s += u + "-" + ref::utf8_put(many_char(2 * i + 1)[0]);
        else s += std::string(i ? "|" : "") + (k == 'w' ? "{3}" : "") + u;
    }
    if(k == 's' || k == 'r') s += "]";
    if(k == 'g') s += ")";
    std::string name = fmt("with %llu %s", (unsigned long long) n, k == 's' ? "characters in a set" : k == 'r' ? "ranges in a set" : "alternatives");
    passgen_pattern pat;
    passgen_error err;
    ctx.state(hash_str(c));
    if(!parse_real(s, &pat, &err)) {
        if(P == '2') ctx.fail("output " + c, "pattern " + name + " is not accepted");
        passgen_pattern_free(&pat);
        return;
    }
    passgen_env env;
    passgen_env_init(&env, &RND);
    uint64_t total = n * per;
    std::set<uint64_t> vs;
    for(uint64_t v: std::vector<uint64_t>{0, n / 2, n, total / 2, total - 1, 3 * n / 4}) for(int d = -2; d <= 2; d++) vs.insert(v + d);
    for(int b = 0; b < 20; b++) for(int m = 1; m <= 3; m++) for(int d = -1; d <= 1; d++) vs.insert((uint64_t) m * (1 << b) + d);
    if(n <= 1025) for(uint64_t v = 0; v < total; v++) vs.insert(v);
    std::map<Str, uint64_t> seen;
    uint64_t probes = 0;
    for(uint64_t v: vs) {
        if(v >= total) continue;
        Tree t;
        t.single = true;
        t.value = v;
        T = &t;
        double ent = -1;
        Str out;
        int r = passgen_generate(&pat, &env, &ent, &out, emit_cb);
        T = NULL;
        ctx.beat();
        ctx.trace();
        ctx.transitions(t.draws);
        if(t.wide || t.decisions != 1 || t.range != total) { ctx.skipped(); break; }
        probes++;
        bool good = r == 0 && out.size() == (k == 'g' ? 2u : 1u) && (k != 'g' || out[0] == 'x');
        if(good) {
            uint32_t cp = out.back();
            uint64_t i = (cp % 0x10000 - 0x4000) + (cp / 0x10000) * 0x9000;
            good = cp % 0x10000 >= 0x4000 && cp % 0x10000 < 0xd000 && i < (k == 'r' ? 2 * n : n);
        }
        if(!good && P == '2') ctx.fail("output " + c, fmt("pattern %s: draw %llu of %llu gives %d '%s', which it does not denote", name.c_str(), (unsigned long long) v, (unsigned long long) total, r, ref::show(out).c_str()));
        if(P == '3' && good && ++seen[out] > (k == 'w' ? 3u : 1u)) ctx.fail("prob " + c, fmt("pattern %s: '%s' is the outcome of too many draws", name.c_str(), ref::show(out).c_str()));
        double want = k == 'w' ? n : (double) total;
        if(P == '4' && good && !(fabs(ent - want) < 1e-9 * want)) ctx.fail("entropy " + c, fmt("pattern %s: reported entropy value %.12g, expected %.12g", name.c_str(), ent, want));
        if(ctx.failed) break;
    }
    if(probes) ctx.nontrivial();
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}

// products of many decisions: pattern ';' number of decisions ';' outcomes of each
static void products(Ctx &ctx) {
    struct { const char *one; double n; } units[] = {{"[a-z]", 26}, {"[ab]", 2}, {"(a|b|c)", 3}, {"({2}a|{2}b)", 2}, {"([ab]|[cd])", 4}, {"[\\u{100}-\\u{10ff}]", 4096}, {"(a{0,9})", 10}, {"(\\w{three})", 3}, {"(a?)", 2}};
    for(auto &u: units)
        for(int n = 1; n * log2(u.n) < 1000; n += n < 20 ? 1 : 7) ctx.emit(fmt("%s{%d};%d;%.17g", u.one, n, n, u.n));
    ctx.emit("[a-z]{300};300;26");
}
static void check_products(Ctx &ctx, const std::string &c) {
    size_t a = c.find(';'), b = c.find(';', a + 1);
    std::string s = c.substr(0, a);
    double bits = atoi(c.c_str() + a + 1) * log2(strtod(c.c_str() + b + 1, NULL));
    passgen_pattern pat;
    passgen_error err;
    ctx.state(hash_str(c));
    if(!parse_real(s, &pat, &err)) { passgen_pattern_free(&pat); ctx.skipped(); return; }
    passgen_env env;
    passgen_env_init(&env, &RND);
    for(auto &l: LISTS) passgen_env_wordlist_add(&env, strdup(l.name), mem_file(l.text), l.order);
    Tree t;
    T = &t;
    double ent = 0;
    uint64_t o[2] = {0, 0};
    int r = passgen_generate(&pat, &env, &ent, o, big_cb);
    T = NULL;
    ctx.trace();
    ctx.transitions(t.draws);
    if(!r) ctx.nontrivial();
    if(!r && !(fabs(log2(ent) - bits) < 1e-6)) ctx.fail((bits > 1023 ? "entropy-overflow " : "entropy-product ") + s, fmt("pattern %s: reported entropy is %.6f bits, expected %.6f", s.c_str(), log2(ent), bits));
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}

int main(int argc, char **argv) {
    for(int i = 1; i + 1 < argc; i++) if(!strcmp(argv[i], "--prop")) P = argv[i + 1][2];
    bool thorough = false;
    for(int i = 1; i < argc; i++) if(!strcmp(argv[i], "--thorough")) thorough = true;
    if(thorough) LEAVES = 6000;
    RENV = refenv();
    RND.read = raw_read;
    RND.close = raw_close;
    bool acc = P == '1';
    add({"tokens", "all strings over {a b ( ) | [ ] { } ? 2 0 , -} up to length 6 (quick) / 7 (thorough), at most one symbol after the first error",
         [](Ctx &c) { strings(c, ALPHA1, c.thorough ? 7 : P == '1' ? 6 : 6, 3); }, check_pattern});
    add({"escapes", "all strings over 24 symbols incl. escapes, \\u, \\w, non-ASCII up to length 4 / 5",
         [](Ctx &c) { strings(c, ALPHA2, c.thorough ? 5 : 4, 2); }, check_pattern});
    if(acc) add({"constructs", "71..300 (1100) and up to 4097 nested or 65537 adjacent constructs of 15 kinds, set members of 8 kinds, name characters, digits, with 6 to 9 endings",
         many_constructs, check_pattern});
    if(acc) add({"escape-letters", "all strings over {\\ u { } 6 1 f 0 a w m ( ) - [ ] ae} up to length 5 / 6",
         [](Ctx &c) { strings(c, ALPHA3, c.thorough ? 6 : 5, 2); }, check_pattern});
    add({"bytes", "all byte strings over 27 class representatives up to length 4 / 5, all 1- and 2-byte strings, malformed tails at chunk boundaries", bytes, check_pattern});
    add({"lists", "all strings over wordlist/markov references and operators up to length 3 / 4", [](Ctx &c) { strings(c, ALPHA4, c.thorough ? 4 : 3, 1); }, check_pattern});
    add({"numbers", "repeat and weight numbers: all pairs 0..12, leading zeros, up to and beyond the representable range", numbers, check_pattern});
    add({"structured", "all patterns of cost up to 6 / 7 built from literals, sets, groups, weights, repeats, optionals",
         [](Ctx &c) { for(auto &s: structured(c.thorough ? 7 : 6)) c.emit(s); }, check_pattern});
    add({"ladder", "size ladders: literals 0..70 and around 256/512/1024 characters, items, alternatives, set entries, nesting, weights, repeats", ladder, check_pattern});
    add({"codepoints", "every code point below U+3000 (C01: U+10000) and boundary/strided ones above, in every syntactic position", codepoints, check_codepoints});
    if(!acc) add({"decisions", "single decisions with ranges up to 2^38: all pairs and triples of 13 weights up to 2^32-1, code point ranges between 17 boundaries, repeat ranges up to 1000000; outcome function resolved by bisection",
         big, check_big_case});
    if(!acc) add({"huge-repeats", "repeat ranges up to 2^32-1, at 21 draws with up to 70000 repetitions", huge, check_huge});
    if(!acc) add({"many", "a decision among up to 131073 listed characters, ranges or alternatives, probed at up to 1025 or about 200 draws", many, check_many});
    if(P == '4') add({"chain", "steps of Markov chains with two or three continuations of 14 weights up to 2^31-1, every boundary outcome, levels 1..3", chain, check_chain});
    if(!acc) add({"joint", "all sequences of up to 4 (5) outcomes among the first, second, middle and last of a decision with a range of 1..20 and up to 2^20 (weights 2^31), in one generation, several, and alternating with another pattern", joint, check_joint});
    if(P == '4') add({"products", "products of up to 1000 bits of equal decisions of 9 kinds, and one beyond the range of a double", products, check_products});
    return main_(argc, argv);
}
