// C11: parsing, generating in every output form and freeing neither crash, corrupt, hang nor leak,
// whatever the pattern, and whether or not parsing succeeds.  Runs under AddressSanitizer, with and
// without internal assertions; every byte allocated must have been freed.
#include "mc.hpp"
#include "patterns.hpp"
#include <stdarg.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <sys/resource.h>
extern "C" {
#include <passgen/passgen.h>
#include <passgen/generate.h>
#include <passgen/random.h>
#include <passgen/error.h>
#include <passgen/wordlist.h>
#include <passgen/markov.h>
#include <passgen/pattern/env.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/util/utf8.h>
}
static std::string fmt(const char *f, ...) {
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
static passgen_random *SRC[3];
static passgen_env ENV;
static uint8_t *OUT8;
static uint32_t *OUT32;
static size_t EMITTED, STOP_AT;
static uint64_t NACC, NREJ, NGEN, NFAIL;
static int count_cb(void *data, uint32_t) { return ++EMITTED >= STOP_AT; }
static int refuse_cb(void *data, uint32_t) { return -1; }
static FILE *mem(const std::string &t) { return fmemopen((void *) t.data(), t.empty() ? 1 : t.size(), "r"); }

// generates from an accepted pattern in every form, on every source, with and without entropy
static void generate(const passgen_pattern *p, passgen_env *env, bool markov, int effort) {
    static const size_t sizes[] = {0, 1, 7, 64, 4000};
    for(int s = markov ? 1 : 0; s < (effort ? 3 : 2); s++) {
        env->random = SRC[s];
        for(int e = 0; e < 2; e++) {
            double ent, *pe = e ? &ent : NULL;
            for(int z = effort ? 0 : 3; z < (effort > 1 ? 5 : 4); z++) {
                size_t n = sizes[z];
                NGEN += 3;
                NFAIL += passgen_generate_fill_unicode(p, env, pe, OUT32 + 4000 - n, n) == 0;
                NFAIL += passgen_generate_fill_utf8(p, env, pe, OUT8 + 24000 - n, n) == 0;
                NFAIL += passgen_generate_fill_json_utf8(p, env, pe, OUT8 + 24000 - n, n) == 0;
            }
            EMITTED = 0;
            STOP_AT = effort > 1 ? 30000 : 300;
            passgen_generate(p, env, pe, NULL, count_cb);
            if(effort) passgen_generate(p, env, pe, NULL, refuse_cb);
        }
    }
    env->random = NULL;
}
// one pattern from beginning to end; returns how many bytes were leaked (negative: freed too much)
static long whole(const char *s, int effort, passgen_env *env = &ENV) {
    passgen_pattern pat;
    passgen_error err;
    memset(&pat, 0xA5, sizeof pat);
    memset(&err, 0xA5, sizeof err);
    size_t before = __sanitizer_get_current_allocated_bytes();
    if(passgen_parse(&pat, &err, s)) {
        NREJ++;
        passgen_error_free(&err);
    } else {
        NACC++;
        generate(&pat, env, strstr(s, "\\m"), effort);
        generate(&pat, env, strstr(s, "\\m"), 0);
    }
    passgen_pattern_free(&pat);
    return (long) __sanitizer_get_current_allocated_bytes() - (long) before;
}
static void leaked(Ctx &ctx, const std::string &c, long n, const std::string &what) {
    if(n) ctx.fail("leak " + esc(c).substr(0, 100), what + fmt(": %ld bytes remain allocated after everything is freed", n));
}
static void account(Ctx &ctx, uint64_t a, uint64_t r, uint64_t g) {
    ctx.trace(NACC - a + NREJ - r);
    ctx.transitions(NGEN - g);
}
static std::string tostr(const std::string &c) {
    // run-length coded patterns: {N:text}
    std::string o;
    for(size_t i = 0; i < c.size(); ) {
        if(c[i] == '\x01') {
            size_t k = c.find(':', i), e = c.find('\x02', i);
            size_t n = strtoul(c.c_str() + i + 1, NULL, 10);
            for(size_t j = 0; j < n; j++) o.append(c, k + 1, e - k - 1);
            i = e + 1;
        } else o += c[i++];
    }
    return o;
}
static void check_pattern(Ctx &ctx, const std::string &c) {
    uint64_t a = NACC, r = NREJ, g = NGEN;
    std::string s = tostr(c);
    leaked(ctx, c, whole(s.c_str(), s.size() > 100 ? 2 : 1), "pattern");
    account(ctx, a, r, g);
    ctx.state(hash_str(c));
}
// case: prefix; every byte (or pair of bytes) is appended
static void check_bytes(Ctx &ctx, const std::string &c) {
    uint64_t a = NACC, r = NREJ, g = NGEN;
    char b[16];
    int depth = c[0] - '0';
    size_t n = c.size() - 1;
    memcpy(b, c.data() + 1, n);
    for(int x = 1; x < 256; x++) {
        b[n] = x;
        if(depth == 1) {
            b[n + 1] = 0;
            long l = whole(b, 0);
            if(l) { leaked(ctx, c, l, "pattern '" + esc(b) + "'"); return; }
            ctx.state(hash_bytes(b, n + 1));
        } else
            for(int y = 1; y < 256; y++) {
                b[n + 1] = y;
                b[n + 2] = 0;
                long l = whole(b, 0);
                if(l) { leaked(ctx, c, l, "pattern '" + esc(b) + "'"); return; }
                ctx.state(hash_bytes(b, n + 2));
            }
        ctx.beat();
    }
    account(ctx, a, r, g);
}
// case: alphabet ' ' length ' ' prefix symbols; all continuations up to the length
static const std::vector<std::vector<std::string>> ALPHABET = {
    {"(", ")", "[", "]", "{", "}", "|", "?", "-", ",", "1", "0", "\\", "a"},
    {"\\w{", "\\m{", "\\p{", "one}", "chain}", "}", "{2}", "?", "|", "(", ")", "x", "{1,3}"},
    {"\\u{", "\\u", "{", "}", "0", "1", "f", "F", "g", "10ffff", "d800", "[", "]", "-", "\\"},
};
static void tokens_rec(Ctx &ctx, const std::string &c, int al, std::string &s, int left, bool &bad) {
    long l = whole(s.c_str(), 0);
    ctx.state(hash_str(s));
    if(l && !bad) { bad = true; leaked(ctx, c, l, "pattern '" + s + "'"); }
    if(bad || !left) return;
    for(auto &x: ALPHABET[al]) {
        size_t n = s.size();
        s += x;
        tokens_rec(ctx, c, al, s, left - 1, bad);
        s.resize(n);
    }
}
static void check_tokens(Ctx &ctx, const std::string &c) {
    uint64_t a = NACC, r = NREJ, g = NGEN;
    int al = c[0] - '0', left = c[1] - '0';
    std::string s = c.substr(2);
    s.reserve(256);
    bool bad = false;
    ctx.beat();
    tokens_rec(ctx, c, al, s, left, bad);
    account(ctx, a, r, g);
}
// ------------------------------------------------------------------ a parser given up at any point
// case: pattern; the tokens are fed one by one and the parser is released after each prefix, through each interface
static void check_abandoned(Ctx &ctx, const std::string &c) {
    std::vector<uint32_t> cps;
    {
        std::vector<ref::U8> u;
        ref::utf8_all(tostr(c), &u);
        for(auto &x: u) cps.push_back(x.cp);
    }
    std::string bytes = tostr(c);
    size_t step = cps.size() > 300 ? cps.size() / 100 : 1;
    for(size_t limit: {0, 1, 2, 3, 5})
        for(size_t cut = 0; cut <= cps.size(); cut += step)
            for(int way = 0; way < 4; way++) {
                passgen_parser parser;
                passgen_pattern pat;
                memset(&parser, 0xA5, sizeof parser);
                memset(&pat, 0xA5, sizeof pat);
                size_t before = __sanitizer_get_current_allocated_bytes();
                passgen_parser_init(&parser, &pat);
                if(limit) parser.limit = limit;
                bool bad = false;
                if(way < 2) {
                    passgen_token_parser tp;
                    passgen_token_parser_init(&tp);
                    for(size_t i = 0; i < cut && !bad; i++) {
                        passgen_token t;
                        memset(&t, 0xA5, sizeof t);
                        int st = passgen_token_parse(&tp, &t, 1, cps[i]);
                        if(st < 0) bad = true;
                        else if(st == PASSGEN_TOKEN_INIT) bad = passgen_parse_token(&parser, &t) != 0;
                    }
                } else bad = passgen_parser_unicode(&parser, cps.data(), cut) != 0;
                int fin = 1;
                if(!bad && way % 2 == 0) fin = passgen_parse_finish(&parser);
                passgen_pattern *p = passgen_parser_free(&parser);
                if(way == 0 && !bad && fin == 0 && cps.size() < 300) generate(&pat, &ENV, true, 0);
                passgen_pattern_free(&pat);
                long l = (long) __sanitizer_get_current_allocated_bytes() - (long) before;
                ctx.transitions(1);
                if(l) { leaked(ctx, c, l, fmt("parser released after %zu of %zu characters (limit %zu, interface %d)", cut, cps.size(), limit, way)); return; }
                ctx.beat();
            }
    ctx.trace();
    ctx.state(hash_str("abandoned" + c));
}
// ------------------------------------------------------------------ code points that no UTF-8 text contains
static const uint32_t ODD[] = {0, 1, 'a', '(', ')', '[', ']', '{', '}', '|', '?', '\\', 'u', '1', '-', ',', 0x128, 0x1015b, 0xd800, 0xdfff, 0x10ffff, 0x110000, 0x40000028, 0x7fffffff, 0x80000000, 0xffffffff};
static void check_codepoints(Ctx &ctx, const std::string &c) {
    uint32_t cps[8];
    size_t n = c.size();
    for(size_t i = 0; i < n; i++) cps[i] = ODD[c[i] - 'A'];
    for(uint32_t x: ODD)
        for(uint32_t y: ODD) {
            cps[n] = x;
            cps[n + 1] = y;
            for(int way = 0; way < 3; way++) {
                passgen_parser parser;
                passgen_pattern pat;
                size_t before = __sanitizer_get_current_allocated_bytes();
                passgen_parser_init(&parser, &pat);
                bool bad = false;
                if(way == 0) bad = passgen_parser_unicode(&parser, cps, n + 2) != 0;
                else if(way == 2) {
                    // tokens made by hand
                    for(size_t i = 0; i < n + 2 && !bad; i++) {
                        passgen_token t = {cps[i], i, i};
                        bad = passgen_parse_token(&parser, &t) != 0;
                    }
                } else {
                    passgen_token_parser tp;
                    passgen_token_parser_init(&tp);
                    for(size_t i = 0; i < n + 2 && !bad; i++) {
                        passgen_token t;
                        int st = passgen_token_parse(&tp, &t, 1, cps[i]);
                        bad = st < 0 || st == PASSGEN_TOKEN_INIT && passgen_parse_token(&parser, &t) != 0;
                    }
                }
                if(!bad) bad = passgen_parse_finish(&parser) != 0;
                passgen_parser_free(&parser);
                if(!bad) {
                    ENV.random = SRC[1];
                    EMITTED = 0;
                    STOP_AT = 300;
                    passgen_generate(&pat, &ENV, NULL, NULL, count_cb);
                    passgen_generate_fill_unicode(&pat, &ENV, NULL, OUT32, 64);
                    ENV.random = NULL;
                }
                passgen_pattern_free(&pat);
                long l = (long) __sanitizer_get_current_allocated_bytes() - (long) before;
                ctx.transitions(1);
                if(l) { leaked(ctx, c, l, fmt("code points ..., %x, %x (interface %d)", x, y, way)); return; }
            }
        }
    ctx.beat();
    ctx.trace();
    ctx.state(hash_str("cp" + c));
}
// ------------------------------------------------------------------ wordlists
// case: ORDER 'A'+pattern index, content
static const char *const WPAT[] = {"\\w{l}", "\\m{l}", "\\w{l}\\m{l}", "(\\m{l}|\\w{l}){3}", "\\w{m}\\m{m}", "\\w{}", "\\m{}", "\\m{l}?{2}", "[a]\\w{ll}"};
static void check_words(Ctx &ctx, const std::string &c) {
    int order = c[0] - '0';
    if(c[0] == '+') order = 255;
    std::string text = tostr(c.substr(1));
    passgen_env env;
    size_t before = __sanitizer_get_current_allocated_bytes();
    passgen_env_init(&env, NULL);
    // a file of exactly this content; the list is loaded once, or twice under one name
    for(int i = 0; i < (text.size() % 2 ? 2 : 1); i++) passgen_env_wordlist_add(&env, strdup("l"), mem(text), order);
    long inner = 0;
    for(auto p: WPAT) inner += whole(p, 0, &env), ctx.beat();
    env.random = NULL;
    passgen_env_free(&env);
    long l = (long) __sanitizer_get_current_allocated_bytes() - (long) before;
    leaked(ctx, c, l, fmt("wordlist '%s' of order %d (%ld bytes while generating)", esc(c).substr(1, 200).c_str(), order, inner));
    ctx.trace();
    ctx.transitions(9);
    ctx.state(hash_str("words" + c));
}

// ------------------------------------------------------------------ spaces
static bool LIMITED = false;  // the second build: less of what does not depend on the configuration
static std::string rl(size_t n, const std::string &s) { return fmt("\x01%zu:", n) + s + "\x02"; }
static void bytes_space(Ctx &ctx) {
    // all byte strings of up to three bytes, and two bytes behind every prefix of a selection
    ctx.emit("1");
    ctx.emit("2");
    if(!LIMITED) for(int a = 1; a < 256; a++) ctx.emit(std::string("2") + (char) a);
    for(auto p: {"\xe2\x82", "\xf0\x9f", "\xf4\x8f", "\xed\x9f", "[\xc3", "(\xe2\x82", "a{", "[a-", "\\u{", "\\w{", "\\w{\xc3", "[\\", "\\u{10", "(|", "(a{", "\\m{\\", "a?", "{1}", "(]"}) ctx.emit(std::string("2") + p);
    if(ctx.thorough) for(char a: std::string("([{|\\\xc3\xe2\xf0")) for(int b = 1; b < 256; b++) ctx.emit(std::string("2") + a + (char) b);
}
static void tokens_space(Ctx &ctx) {
    int lens[3] = {6, 5, 5};
    for(int al = 0; al < 3; al++) {
        int len = lens[al] + ctx.thorough - LIMITED;
        ctx.emit(fmt("%d0", al));
        for(auto &a: ALPHABET[al]) {
            ctx.emit(fmt("%d0", al) + a);
            for(auto &b: ALPHABET[al]) {
                ctx.emit(fmt("%d0", al) + a + b);
                for(auto &d: ALPHABET[al]) ctx.emit(fmt("%d%d", al, len - 3) + a + b + d);
            }
        }
    }
}
static void structures(Ctx &ctx) { for(auto &p: structured(ctx.thorough ? 6 : 5)) ctx.emit(p); }
static std::vector<size_t> sizes(bool thorough) {
    std::vector<size_t> v;
    for(size_t i = 0; i <= (thorough ? 600 : 140); i++) v.push_back(i);
    for(size_t p = 256; p <= 65536; p *= 2) for(int d = -1; d <= 1; d++) v.push_back(p + d);
    return v;
}
static void ladders(Ctx &ctx) {
    // one quantity grows: literals, alternatives, items, set entries, names, nesting, operators, escapes
    static const char *const unit[] = {"a", "\xf0\x9f\x98\x80", "a|", "(a)", "[a]", "a?", "a{2}", "\\u{20ac}", "{1}a|", "()", "[]", "(a|b)?", "\\n", "\\w{one}", "\\w{unknown}", "|", "(|)", "{1}"};
    for(size_t n: sizes(ctx.thorough)) {
        for(auto u: unit) if(n < 3000 || strlen(u) < 4) ctx.emit(rl(n, u));
        ctx.emit("[" + rl(n, "a") + "]");
        ctx.emit("[" + rl(n, "a-z") + "]");
        ctx.emit("[" + rl(n, "\xc3\xa4"));
        ctx.emit("\\w{" + rl(n, "n") + "}");
        ctx.emit("\\w{" + rl(n, "\xf0\x9f\x98\x80") + "}");
        ctx.emit("\\m{" + rl(n, "n"));
        ctx.emit("\\p{" + rl(n, "n") + "}");
        ctx.emit("\\u{" + rl(n, "0") + "}");
        ctx.emit("\\u{" + rl(n, "1"));
        ctx.emit("a{" + rl(n, "1") + "}");
        ctx.emit("a{" + rl(n, "0") + "1}");
        ctx.emit("a{1," + rl(n, "9") + "}");
        ctx.emit("{" + rl(n, "9") + "}a|b");
        ctx.emit("a" + rl(n, "?"));
        ctx.emit("a" + rl(n, "{1}"));
        ctx.emit(rl(n, "(") + "a" + rl(n, ")"));
        ctx.emit(rl(n, "(") + rl(n, ")"));
        ctx.emit(rl(n, "(a|"));
        ctx.emit(rl(n, "("));
        ctx.emit(rl(n, "(") + "a" + rl(n, ")") + ")");
        ctx.emit(rl(n, "(a") + rl(n, "|b)"));
        ctx.emit(rl(n, "([a-z]{2}") + rl(n, ")?"));
        ctx.emit(rl(n, "\\"));
    }
    for(size_t n: {100000, 300000, 1000000, 3000000}) {
        ctx.emit(rl(n, "(") + "a" + rl(n, ")"));
        ctx.emit(rl(n, "("));
        ctx.emit(rl(n, "(") + "]" );
        ctx.emit(rl(n, "([a]|") + "b" + rl(n, ")"));
        ctx.emit(rl(n, "a"));
        ctx.emit(rl(n, "a|"));
        ctx.emit("[" + rl(n, "a") + "]");
        ctx.emit("\\w{" + rl(n, "n") + "}");
    }
}
static void extremes(Ctx &ctx) {
    // numbers around every power of two and ten, alone and combined
    std::vector<std::string> num = {"0", "1", "2", "3", "9", "10", "99", "127", "128", "255", "256", "999", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "8589934592", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999"};
    for(auto &n: num) {
        for(auto p: {"a{%s}", "a{%s}?", "[a-z]{%s}", "(a|b){%s}", "\\w{one}{%s}", "\\m{chain}{%s}", "{%s}a", "{%s}a|b", "{%s}", "({%s}a|{%s}b|{%s})", "[a-b]{%s}{%s}", "(x[y]?){0,%s}", "{%s}{%s}a"}) {
            std::string s = p;
            for(size_t k; (k = s.find("%s")) != std::string::npos; ) s.replace(k, 2, n);
            ctx.emit(s);
        }
        for(auto &m: num) {
            ctx.emit("a{" + n + "," + m + "}");
            ctx.emit("{" + n + "}a|{" + m + "}b");
            ctx.emit("(a{" + n + "}b){" + m + "}");
            ctx.emit("[a{" + n + "}b{" + m + "}]");
            ctx.emit("(a|b){" + n + "," + m + "}c");
            for(auto k: {"0", "1", "4294967295", "18446744073709551615"}) ctx.emit("{" + n + "}a|{" + m + "}b|{" + k + "}c");
        }
    }
    for(auto p: {"(){1000000}", "(a{0}){1000000}", "(a{0}){0,1000000}", "(|){100000}", "(){100}(){1000}"}) ctx.emit(p);
}
static void abandoned(Ctx &ctx) {
    for(auto &p: structured(ctx.thorough ? 5 : 4)) ctx.emit(p);
    for(auto p: {"((a)|[b-c]{1,2}?){3}\\w{one}|{2}\\u{20ac}\\m{chain}x", "\\p{name}", "[\\]\\-a-\\u{7f}]", "a{12,34}{5}", "\xe2\x82\xac(\xf0\x9f\x98\x80|[\xc3\xa4-\xc3\xbc])", "\\w{\\u{41}b}", "(((", "a)b", "[a-", "{1}{2}a"}) ctx.emit(p);
    for(size_t n: {1, 2, 3, 10, 31, 32, 33, 100, 1000}) for(auto u: {"(", "(a|", "[a", "a", "(a){2}", "\\w{one}", "a|"}) ctx.emit(rl(n, u));
}
static void codepoints(Ctx &ctx) {
    int n = sizeof ODD / sizeof *ODD;
    ctx.emit("");
    for(int a = 0; a < n; a++) {
        ctx.emit(std::string(1, 'A' + a));
        for(int b = 0; b < n; b++) {
            ctx.emit(std::string() + char('A' + a) + char('A' + b));
            if(ctx.thorough) for(int d = 0; d < n; d++) ctx.emit(std::string() + char('A' + a) + char('A' + b) + char('A' + d));
        }
    }
}
static void words_space(Ctx &ctx) {
    const std::vector<std::string> sym = {"a", "b", "\n", "\xc3\xa4", "\xf0\x9f\x98\x80", "\xff", "\r", "\xc3"};
    int max = ctx.thorough ? 5 : 4;
    std::function<void(std::string, int)> go = [&](std::string s, int left) {
        for(int o: {1, 2, 3, 4}) ctx.emit(fmt("%d", o) + s);
        if(left) for(auto &x: sym) go(s + x, left - 1);
    };
    go("", max);
    for(size_t n: sizes(false)) {
        if(n > 20000) continue;
        for(int o: {1, 2, 5, 9}) {
            ctx.emit(fmt("%d", o) + rl(n, "a"));
            ctx.emit(fmt("%d", o) + rl(n, "ab\n"));
            ctx.emit(fmt("%d", o) + rl(n, "\xf0\x9f\x98\x80") + "\nz");
            ctx.emit(fmt("%d", o) + rl(n, "\n"));
            ctx.emit(fmt("%d", o) + "x\n" + rl(n, "q") + "\xff");
        }
        ctx.emit("+" + rl(n, "ab") + "\nc");
    }
}

int main(int argc, char **argv) {
    for(int i = 1; i < argc; i++) if(!strcmp(argv[i], "--limited")) LIMITED = true;
    SRC[0] = passgen_random_zero_open(NULL);
    SRC[1] = passgen_random_xorshift_open(NULL, 0x12345678deadull);
    SRC[2] = passgen_random_xorshift_open(NULL, 77);
    OUT8 = (uint8_t *) malloc(24000);
    OUT32 = (uint32_t *) malloc(4000 * 4);
    passgen_env_init(&ENV, NULL);
    for(auto &l: LISTS) passgen_env_wordlist_add(&ENV, strdup(l.name), mem(l.text), l.order);
    // lists are read when they are first used
    for(auto &l: LISTS) for(auto k: {"w", "m"}) whole(fmt("\\%s{%s}", k, l.name).c_str(), 0);
    struct rlimit rl = {8 << 20, 8 << 20};
    setrlimit(RLIMIT_STACK, &rl);
    add({"bytes", "all byte strings of up to three bytes, and two bytes behind critical prefixes", bytes_space, check_bytes, 20});
    add({"tokens", "all strings of up to 6 of 14, 5 of 13 (references) and 5 of 15 (escapes) symbols", tokens_space, check_tokens, 20});
    add({"structures", "all structured patterns up to cost 5", structures, check_pattern, 20});
    add({"ladders", "lengths of literals, sets, names, numbers, numbers of alternatives and items, nesting; to 3000000", ladders, check_pattern, 60});
    add({"extremes", "29 numbers around powers of two in every place of a number and every pair of places", extremes, check_pattern, 60});
    add({"abandoned", "parsers released after every prefix of a pattern, with and without limits, through two interfaces", abandoned, check_abandoned, 20});
    add({"codepoints", "sequences of up to 4 code points including invalid ones, through three interfaces", codepoints, check_codepoints, 20});
    add({"words", "wordlists of all contents to length 4 over 8 symbols, lengths to 16385, orders to 255; x 9 patterns", words_space, check_words, 30});
    return main_(argc, argv);
}
