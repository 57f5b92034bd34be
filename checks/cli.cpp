// C08 (command line), C17, C18, C19: the real command-line tool on enumerated command lines and
// configuration files, against a model of the documentation.
#include "clirun.hpp"
static int P;

static void check_cli(Ctx &ctx, const std::string &c) {
    Setup s = decode(c);
    Expect x = model(s);
    CliResult r = run_cli(s);
    ctx.state(hash_str(c));
    ctx.transitions(s.args.size() + 1);
    ctx.trace();
    if(!x.error && !x.immediate() && x.predictable) ctx.nontrivial();
    if(!x.predictable && !x.error && !x.immediate()) ctx.skipped();
    std::string m = compare(x, r);
    // errors never come with passwords: these patterns only produce characters not found in messages
    if(m.empty() && x.error && x.why != "password can not be produced")
        for(size_t i = 0; i + 2 < r.out.size(); i++) if((unsigned char) r.out[i] == 0xe2 && (unsigned char) r.out[i + 1] >= 0x88 && (unsigned char) r.out[i + 1] < 0x8c) { m = "an error (" + x.why + ") is accompanied by a password: " + esc(r.out).substr(0, 200); break; }
    if(!m.empty()) ctx.fail("cli " + esc(c).substr(0, 300), show_args(s) + ": " + m);
}

// ------------------------------------------------------------------ C18
static const std::string SYM = "[\\u{2200}-\\u{22ff}]";     // produces characters that occur in no message
static std::vector<std::vector<std::string>> tokens() {
    return {
        {"-a", "2"}, {"-a3"}, {"--amount=2"}, {"-a", "0"}, {"-a", "-1"}, {"--amount", "x"},
        {"-z"}, {"--null"}, {"-j"}, {"--json"}, {"-e"}, {"--entropy"}, {"-ze"}, {"-ja2"},
        {"-p", "uuid"}, {"--preset", "my"}, {"-p", "nope"}, {"-P", "my:" + SYM + "{2}"}, {"-P", "my:(" + SYM + "|b)c"}, {"--define-preset", "bad"},
        {"-w", "one:one.txt"}, {"--wordlist", "three:three.txt"}, {"-w", "one:three.txt"}, {"-w", "one:missing.txt"}, {"-w", "nocolon"},
        {"-M", "1"}, {"--markov-length", "2"}, {"-M", "0"}, {"-M", "256"}, {"-M", "255"},
        {"-r", "xorshift:5"}, {"--random", "zero"}, {"-r", "nonsense"}, {"-m", "pass"}, {"-d", "dom"}, {"-t", "tok"},
        {"-h"}, {"--version"}, {"-l"}, {"-Q"}, {"--unknown"}, {"--"},
        {SYM + "{3}"}, {"\\w{one}" + SYM}, {"\\m{three}" + SYM}, {"(" + SYM}, {"\\w{none}"}, {""}, {"-a"},
    };
}
static void sequences(Ctx &ctx) {
    auto al = tokens();
    // in quick mode the third token is drawn from every second/third one, depending on the first two
    std::function<void(std::vector<std::string>, int)> rec = [&](std::vector<std::string> args, int len) {
        ctx.emit(encode(args));
        // a usable line: seeded source and a pattern
        auto b = args;
        b.push_back("-r"); b.push_back("xorshift:9"); b.push_back(SYM + "{2}");
        ctx.emit(encode(b));
        b = args;
        b.insert(b.begin(), {SYM + "(a|b|{2}c)", "-rxorshift:7"});
        ctx.emit(encode(b));
        if(len == (ctx.thorough ? 3 : 2)) return;
        for(auto &t: al) { auto n = args; n.insert(n.end(), t.begin(), t.end()); rec(n, len + 1); }
    };
    rec({}, 0);
}
static void empties(Ctx &ctx) {
    // empty arguments of every option, on unusable and usable lines
    std::vector<std::vector<std::string>> e = {{""}, {"-P", ":" + SYM + "q"}, {"-P", "x:"}, {"-P", ":"}, {"-w", ":one.txt"}, {"-w", "one:"}, {"-w", ":"}, {"-r", "xorshift:5"}, {"-e"}, {SYM + "{2}"}, {"-w", "one:three.txt"}, {"-p", "x"}, {"-p", "uuid"}, {"\\w{}" + SYM}, {"\\m{}" + SYM}, {"-a", "2"}, {"-j"}};
    for(auto o: {"-p", "-P", "-w", "-r", "-m", "-d", "-t", "-M", "-a"}) e.push_back({o, ""});
    for(auto o: {"--preset=", "--define-preset=", "--wordlist=", "--random=", "--master=", "--domain=", "--token="}) e.push_back({o});
    int max = ctx.thorough ? 4 : 3;
    std::function<void(std::vector<std::string>, int)> rec = [&](std::vector<std::string> args, int len) {
        if(len) ctx.emit(encode(args));
        if(len == max) return;
        for(size_t i = 0; i < e.size(); i++) {
            if(!ctx.thorough && len == 2 && (hash_str(encode(args)) + i) % 5) continue; // quick: a fifth of the longest ones
            auto n = args; n.insert(n.end(), e[i].begin(), e[i].end()); rec(n, len + 1);
        }
    };
    rec({}, 0);
}
static void triples(Ctx &ctx) {
    // all ordered selections of the valid options
    std::vector<std::vector<std::string>> al = {{"-a", "2"}, {"-z"}, {"-j"}, {"-e"}, {"-p", "my"}, {"-P", "my:" + SYM}, {"-w", "one:three.txt"}, {"-M", "1"}, {"-r", "xorshift:5"}, {"-r", "zero"},
                                                {"-m", "pass"}, {"-d", "dom"}, {"-t", "tok"}, {SYM + "\\m{one}"}, {"--"}, {"-w", "one:one.txt"}};
    int max = ctx.thorough ? 5 : 4;
    std::function<void(std::vector<std::string>, int, unsigned)> rec = [&](std::vector<std::string> args, int len, unsigned used) {
        if(len >= 3) ctx.emit(encode(args));
        if(len == max) return;
        for(size_t i = 0; i < al.size(); i++) if(!(used >> i & 1)) { auto n = args; n.insert(n.end(), al[i].begin(), al[i].end()); rec(n, len + 1, used | 1u << i); }
    };
    rec({}, 0, 0);
}
static void spellings(Ctx &ctx) {
    // every option in every spelling, before, between and after the rest
    struct O { char c; std::string val; };
    std::vector<O> os = {{'a', "3"}, {'p', "my"}, {'P', "my:" + SYM + "{4}"}, {'d', "dom"}, {'w', "one:three.txt"}, {'r', "xorshift:77"}, {'m', "mp"}, {'M', "2"}, {'t', "tk"}, {'e', ""}, {'z', ""}, {'h', ""}, {'v', ""}, {'j', ""}, {'l', ""}};
    for(auto &o: os) {
        std::string name;
        for(auto &l: LONG) if(l.c == o.c) name = l.name;
        std::vector<std::vector<std::string>> sp;
        bool arg = !o.val.empty();
        if(arg) {
            sp.push_back({std::string("-") + o.c, o.val});
            sp.push_back({std::string("-") + o.c + o.val});
            for(char f: {'e', 'z', 'j'}) sp.push_back({std::string("-") + f + o.c + o.val}), sp.push_back({std::string("-") + f + o.c, o.val});
        } else {
            sp.push_back({std::string("-") + o.c});
            for(char f: {'e', 'z', 'j'}) sp.push_back({std::string("-") + f + o.c}), sp.push_back({std::string("-") + o.c + f});
        }
        for(size_t n = 1; n <= name.size(); n++) {
            std::string ab = "--" + name.substr(0, n);
            if(arg) { sp.push_back({ab, o.val}); sp.push_back({ab + "=" + o.val}); }
            else { sp.push_back({ab}); sp.push_back({ab + "=x"}); }
        }
        sp.push_back({"--" + name}); // argument missing when last
        for(auto &v: sp)
            for(auto rest: std::vector<std::vector<std::string>>{{"-r", "xorshift:3", SYM + "\\m{one}", "-w", "one:one.txt"}, {SYM + "{3}", "--random=xorshift:4"}, {"-P", "my:ab" + SYM, "-m", "x"}, {"-p", "firefox", "-r", "zero"}, {}, {"-a", "2", "--", "-" + SYM}})
                for(size_t at = 0; at <= rest.size(); at++) {
                    auto n = rest;
                    n.insert(n.begin() + at, v.begin(), v.end());
                    ctx.emit(encode(n));
                }
    }
}
static void amounts(Ctx &ctx, bool json) {
    std::vector<int> ns;
    for(int n = 1; n <= (ctx.thorough ? 300 : 70); n++) ns.push_back(n);
    for(int n: {100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4096, 10000}) ns.push_back(n);
    if(ctx.thorough) ns.push_back(65535), ns.push_back(65536), ns.push_back(65537), ns.push_back(1000000);
    else ns.push_back(65537);
    for(int n: ns)
        for(auto pat: {std::string("[a-z]{3}"), SYM, std::string("\\m{three}|\\w{one}"), std::string("ab?")})
            for(auto mode: std::vector<std::vector<std::string>>{{}, {"-z"}, {"-e"}, {"-ze"}, {"-j"}, {"-je"}}) {
                if((!mode.empty() && mode[0][1] == 'j') != json) continue;
                if(n > 5000 && pat[0] != '[') continue;
                std::vector<std::string> a = {"-a", fmt("%d", n), "-r", "xorshift:11", "-w", "one:one.txt", "-w", "three:three.txt", pat};
                a.insert(a.end(), mode.begin(), mode.end());
                ctx.emit(encode(a));
            }
    if(!json) for(auto n: {"0", "-1", "-2", "-2147483648", "abc", "", " ", "-", "+0", "00"}) for(auto o: {"-a", "--amount"}) { ctx.emit(encode({o, n, SYM})); ctx.emit(encode({std::string("-a") + n, SYM})); ctx.emit(encode({std::string("--amount=") + n, SYM})); }
    if(!json) for(auto n: {"0", "-1", "256", "257", "1000", "65536", "abc", ""}) for(auto o: {"-M", "--markov-length"}) ctx.emit(encode({o, n, SYM})), ctx.emit(encode({o, n, "-w", "one:one.txt", "\\m{one}" + SYM}));
    if(!json) for(int n = 1; n <= 255; n++) ctx.emit(encode({"-r", "xorshift:2", "-M", fmt("%d", n), "-w", "t:three.txt", "-w", "c:chain.txt", "\\m{t}-\\m{c}-\\m{t}"}));
    if(!json) for(int n = 1; n <= 255; n++) if(ctx.thorough || n < 20 || n % 16 > 13 || n % 16 < 3 || n > 250) ctx.emit(encode({"-r", "xorshift:2", "-M", fmt("%d", n), "-w", "o:orders.txt", "(\\m{o}-){40}"}));
}
static std::vector<std::string> pattern_set(bool thorough) {
    std::vector<std::string> o = structured(thorough ? 4 : 3);
    for(int n: {0, 1, 2, 7, 8, 100, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 10000, 65536, 100000})
        for(auto a: {"a", "[a-z]", "\xe2\x82\xac", "[\xf0\x9f\x98\x80-\xf0\x9f\x98\x8f]", "\\n", "\"", "\\\\", "\\u{1}"}) {
            o.push_back(fmt("%s{%d}", a, n));
            if(n < 300) o.push_back(fmt("(x%s){%d}", a, n));
        }
    for(auto l: {"one", "three", "chain", "long"}) { o.push_back(fmt("\\w{%s}", l)); o.push_back(fmt("\\w{%s}{3}-\\w{%s}", l, l)); if(strcmp(l, "long")) o.push_back(fmt("(\\m{%s}-){4}", l)); }
    for(auto l: {"bad", "empty", "missing", "dir"}) { o.push_back(fmt("\\w{%s}", l)); o.push_back(fmt("x\\m{%s}", l)); o.push_back(fmt("a|\\w{%s}", l)); }
    for(auto p: {"", "()", "[]", "{0}a", "({0}a)", "a|{0}b", "(", "[", "a{", "\\", "\xff", ")", "a{2,1}", "?", "-x", "\xed\xa0\x80"}) o.push_back(p);
    return o;
}
static const std::vector<std::string> LISTARGS = {"-w", "one:one.txt", "-w", "three:three.txt", "-w", "chain:chain.txt", "-w", "long:long.txt", "-w", "bad:bad.txt", "-w", "empty:empty.txt", "-w", "dir:."};
static void patterns(Ctx &ctx, bool json) {
    for(auto &p: pattern_set(ctx.thorough))
        for(auto mode: std::vector<std::vector<std::string>>{{}, {"-z", "-a", "3"}, {"-e", "-a", "2"}, {"-j"}, {"-j", "-e", "-a", "2"}}) {
            if((!mode.empty() && mode[0] == "-j") != json) continue;
            bool ent = std::find(mode.begin(), mode.end(), "-e") != mode.end();
            ref::Pattern rp = ref::parse(p);
            // entropies beyond the range of a double are a known finding with a case of its own
            size_t brace = p.rfind('{');
            if(ent && brace != std::string::npos && atoi(p.c_str() + brace + 1) >= 200 && p.find('[') != std::string::npos) continue;
            std::vector<std::string> a = {"-r", "xorshift:21"};
            if(p.find('\\') != std::string::npos) a.insert(a.end(), LISTARGS.begin(), LISTARGS.end());
            a.insert(a.end(), mode.begin(), mode.end());
            a.push_back("--");
            a.push_back(p);
            ctx.emit(encode(a));
        }
}
// a password that can not be produced after others that could
static void late_failures(Ctx &ctx) {
    for(int seed = 1; seed <= (ctx.thorough ? 400 : 60); seed++)
        for(auto p: {"\\w{bad}", "a|b|c|\\w{none}", "(x|y|\\m{bad})", "[ab]|\\w{empty}"})
            for(auto m: {"-a1", "-a2", "-za5", "-ja5", "-ea5", "-jea20"}) {
                std::vector<std::string> a = LISTARGS;
                a.insert(a.end(), {"-r", fmt("xorshift:%d", seed), m, p});
                ctx.emit(encode(a));
            }
}

// ------------------------------------------------------------------ C17
static void json_codepoints(Ctx &ctx) {
    auto lit = [](uint32_t cp) { return fmt("\\u{%x}", cp); };
    for(uint32_t cp = 0; cp < 0x110000;) {
        std::string p;
        int n = cp < 0x180 || cp >= 0xd700 && cp < 0xd800 || cp >= 0x10fff0 || cp >= 0xfff0 && cp < 0x10010 || cp >= 0x7f0 && cp < 0x810 ? 1 : 64, k = 0;
        for(; k < n && cp < 0x110000; k++, cp++) { if(cp == 0xd800) { cp = 0xe000; } p += lit(cp); }
        ctx.emit(encode({"-j", "-r", "zero", p}));
        if(n == 1) { ctx.emit(encode({"-j", "-r", "zero", "-a", "2", "a" + p + p + "0"})); ctx.emit(encode({"-j", "-r", "xorshift:5", "-e", "[" + p + "]{3}(" + p + "|x)?"})); }
    }
    // all pairs of special characters
    std::vector<std::string> sp;
    for(int c = 0; c < 0x20; c++) sp.push_back(lit(c));
    for(int c: std::vector<int>{0x20, '"', '\\', '/', 'u', 'n', '0', '{', '}', '[', ']', ',', ':', 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0x2028, 0x2029, 0xfeff, 0xfffe, 0xffff, 0x10ffff}) sp.push_back(lit(c));
    for(auto &a: sp) for(auto &b: sp) ctx.emit(encode({"-j", "-r", "zero", a + b}));
}
static void json_options(Ctx &ctx) {
    std::vector<std::vector<std::string>> al = {{"-e"}, {"-z"}, {"-a", "3"}, {"-p", "my"}, {"-m", "pass"}, {"-d", "d"}, {"-w", "one:three.txt"}, {"-M", "1"}, {"-j"}};
    for(unsigned m = 0; m < 1u << al.size(); m++)
        for(auto pat: {std::string("[a-c\"\\\\\\n]{4}"), std::string("\\w{one}-\\m{one}"), std::string("\\u{1}x?")})
            for(auto src: {"xorshift:8", ""}) {
                std::vector<std::string> a = {"-j", "-w", "one:one.txt", "-P", "my:" + pat};
                if(*src) a.insert(a.end(), {"-r", src});
                else if(!(m >> 4 & 1)) continue;
                for(size_t i = 0; i < al.size(); i++) if(m >> i & 1) a.insert(a.end(), al[i].begin(), al[i].end());
                if(!(m >> 3 & 1)) a.push_back(pat);
                ctx.emit(encode(a));
                std::vector<std::string> b;
                for(size_t i = al.size(); i-- > 0;) if(m >> i & 1) b.insert(b.end(), al[i].begin(), al[i].end());
                if(!(m >> 3 & 1)) b.push_back(pat);
                b.insert(b.end(), {"-P", "my:" + pat, "-w", "one:one.txt", "--json"});
                if(*src) b.insert(b.end(), {"--random", src});
                ctx.emit(encode(b));
            }
}

// ------------------------------------------------------------------ C19
static const char ALNUM[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static std::vector<std::set<uint32_t>> positions(const std::string &spec) {
    // X alnum, H lower-case hex, C consonant, V vowel, E edge, U variant, other: literal
    std::vector<std::set<uint32_t>> o;
    for(char c: spec) {
        std::string s(1, c);
        if(c == 'X') s = ALNUM;
        if(c == 'H') s = "0123456789abcdef";
        if(c == 'C') s = "bdfghjklmnprstvz";
        if(c == 'V') s = "aiou";
        if(c == 'U') s = "89ab";
        if(c == 'E') { s = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef0123456789:_-"; }
        o.emplace_back(s.begin(), s.end());
    }
    return o;
}
static const std::vector<std::pair<std::string, std::string>> DOCUMENTED = {
    {"apple1", "XXX-XXX-XXX-XXX"}, {"apple2", "XXXXXX-XXXXXX-XXXXXX"}, {"uuid", "HHHHHHHH-HHHH-4HHH-UHHH-HHHHHHHHHHHH"}, {"firefox", "XXXXXXXXXXXXXXX"}, {"edge", "EEEEEEEEEEEEEEE"},
    {"proquint16", "CVCVC"}, {"proquint32", "CVCVC-CVCVC"}, {"proquint48", "CVCVC-CVCVC-CVCVC"}, {"proquint64", "CVCVC-CVCVC-CVCVC-CVCVC"}, {"proquint80", "CVCVC-CVCVC-CVCVC-CVCVC-CVCVC"},
    {"proquint96", "CVCVC-CVCVC-CVCVC-CVCVC-CVCVC-CVCVC"}, {"proquint112", "CVCVC-CVCVC-CVCVC-CVCVC-CVCVC-CVCVC-CVCVC"}, {"proquint128", "CVCVC-CVCVC-CVCVC-CVCVC-CVCVC-CVCVC-CVCVC-CVCVC"},
};
// positions of a pattern without choices other than single characters; false if it is something else
static bool flat(const ref::Group &g, std::vector<std::map<uint32_t, uint64_t>> *o) {
    const ref::Alt *only = NULL;
    for(auto &a: g.alts) if(a.weight) { if(only) return false; only = &a; }
    if(!only) return false;
    for(auto &it: only->items) {
        if(it.maybe || it.min != it.max) return false;
        for(uint64_t k = 0; k < it.min; k++) {
            if(it.kind == ref::Item::LIT) o->push_back({{it.lit, 1}});
            else if(it.kind == ref::Item::GROUP) { if(!flat(*it.group, o)) return false; }
            else if(it.kind == ref::Item::SET) {
                std::map<uint32_t, uint64_t> m;
                for(auto &r: it.set) for(uint32_t c = r.first; c <= r.second; c++) m[c]++;
                if(!m.empty()) o->push_back(m);
            } else return false;
        }
    }
    return true;
}
static void check_preset(Ctx &ctx, const std::string &name) {
    std::string spec;
    for(auto &d: DOCUMENTED) if(d.first == name) spec = d.second;
    auto want = positions(spec);
    auto b = BUILTIN.find(name);
    if(b == BUILTIN.end()) { ctx.fail("preset-missing " + name, "built-in preset " + name + " is not listed"); return; }
    ref::Pattern rp = ref::parse(b->second);
    std::vector<std::map<uint32_t, uint64_t>> got;
    if(rp.ok() && flat(*rp.root, &got)) {
        bool same = got.size() == want.size();
        size_t bad = 0;
        for(size_t i = 0; same && i < got.size(); i++) {
            std::set<uint32_t> keys;
            for(auto &x: got[i]) { keys.insert(x.first); if(x.second != 1) same = false; }
            if(keys != want[i]) same = false;
            if(!same) bad = i;
        }
        if(!same) { ctx.fail("preset-format " + name, fmt("built-in preset %s is %s, which does not denote the documented format %s (position %zu)", name.c_str(), b->second.c_str(), spec.c_str(), bad)); return; }
    } else ctx.skipped();
    // generated passwords, and the same ones through the listed pattern
    std::vector<std::set<uint32_t>> seen(want.size());
    for(int seed = 1; seed <= 40; seed++) {
        Setup s, t;
        s.args = {"-p", name, "-a", "25", "-r", fmt("xorshift:%d", seed * 7919)};
        t.args = {"-a", "25", "-r", fmt("xorshift:%d", seed * 7919), "--", b->second};
        CliResult r = run_cli(s), q = run_cli(t);
        ctx.transitions(2);
        ctx.trace();
        if(r.code || r.out != q.out) { ctx.fail("preset-run " + name, fmt("-p %s gives '%s', its pattern '%s'", name.c_str(), esc(r.out).substr(0, 100).c_str(), esc(q.out).substr(0, 100).c_str())); return; }
        size_t at = 0, n = 0;
        while(at < r.out.size()) {
            size_t e = r.out.find('\n', at);
            std::string l = r.out.substr(at, e - at);
            at = e + 1;
            n++;
            bool ok = l.size() == want.size();
            for(size_t i = 0; ok && i < l.size(); i++) { ok = want[i].count((unsigned char) l[i]); seen[i].insert((unsigned char) l[i]); }
            if(!ok) { ctx.fail("preset-output " + name, "built-in preset " + name + " generates '" + esc(l) + "', the documented format is " + spec); return; }
        }
        if(n != 25) { ctx.fail("preset-count " + name, "-p " + name + fmt(" printed %zu passwords instead of 25", n)); return; }
        ctx.beat();
    }
    for(size_t i = 0; i < want.size(); i++) if(seen[i] != want[i]) { ctx.fail("preset-cover " + name, fmt("preset %s: in 1000 passwords, position %zu takes %zu of %zu characters", name.c_str(), i, seen[i].size(), want[i].size())); return; }
}

static std::vector<std::string> lines() {
    return {
        "preset a:" + SYM, "preset a x" + SYM, "preset\tb:y" + SYM + "{2}", "preset b\t \t(z|" + SYM + ")", "  preset a:i" + SYM, "\tpreset c:t" + SYM,
        "wordlist w:one.txt", "wordlist w three.txt", "wordlist\tv\tchain.txt", " wordlist w:chain.txt", "wordlist w missing.txt", "wordlist w:missing.txt",
        "random xorshift:31", "random\tzero", " random chacha20:key", "random nonsense:1", "random   xorshift:32",
        "# preset a:no", "  # preset b:no", "", "   ", "\t", "garbage preset a:no", "pre set a:no", "preset", "wordlist", "#", "preset nodef", "xrandom zero", "Preset a:no",
        "preset uuid:u" + SYM, "preset a:b:" + SYM,
    };
}
static const std::vector<std::vector<std::string>> QUERIES = {{"-l"}, {"\\w{w}-\\m{w}-[a-z]{8}"}, {"-p", "a"}, {"-p", "uuid", "-P", "a:" + SYM}, {"-p", "b"}, {"\\w{v}[a-z]{4}"}};
static void config_lines(Ctx &ctx) {
    auto al = lines();
    for(auto &a: al) for(bool nl: {false, true}) {
        std::string t = a + (nl ? "\n" : "");
        for(auto &q: QUERIES) { ctx.emit(encode(q, &t)); ctx.emit(encode(q, NULL, &t)); }
    }
    for(auto &a: al) for(auto &b: al) for(bool nl: {false, true}) {
        std::string t = a + "\n" + b + (nl ? "\n" : "");
        for(size_t k = 0; k < 3; k++) ctx.emit(encode(QUERIES[k], NULL, &t));
        if(nl) { ctx.emit(encode(QUERIES[0], &t)); std::string u = b; ctx.emit(encode(QUERIES[0], &a, &u)); ctx.emit(encode(QUERIES[1], &a, &u)); ctx.emit(encode(QUERIES[2], &a, &u)); }
    }
    // triples
    std::vector<std::string> s3 = {al[0], al[1], al[3], al[6], al[7], al[12], al[13], al[17], al[19], al[20], al[22], al[15], al[10], al[24]};
    if(ctx.thorough) s3 = al;
    for(auto &a: s3) for(auto &b: s3) for(auto &c: s3) {
        std::string t = a + "\n" + b + "\n" + c;
        ctx.emit(encode(QUERIES[0], NULL, &t));
        if((a.size() + b.size() + c.size()) % 2 || ctx.thorough) ctx.emit(encode(QUERIES[1], NULL, &t));
        t += "\n";
        ctx.emit(encode(ctx.thorough || (a.size() + b.size()) % 2 ? QUERIES[2] : QUERIES[0], NULL, &t));
    }
}
static void config_override(Ctx &ctx) {
    // each of preset, wordlist, randomness defined in any subset of system file, user file and options
    for(unsigned m = 0; m < 512; m++) for(int order = 0; order < 2; order++) {
        std::string sys, user;
        std::vector<std::string> a;
        if(m & 1) sys += "preset a:s" + SYM + "\n";
        if(m & 2) sys += "wordlist w one.txt\n";
        if(m & 4) sys += "random xorshift:100\n";
        if(m & 8) user += "wordlist w:three.txt\n";
        if(m & 16) user += "random zero\n";
        if(m & 32) user += "preset a u" + SYM + "\n";
        if(m & 64) a.insert(a.end(), {"-P", "a:o" + SYM});
        if(m & 128) a.insert(a.end(), {"-w", "w:chain.txt"});
        if(m & 256) { if(order) a.insert(a.end(), {"-m", "master"}); else a.insert(a.end(), {"-r", "xorshift:102"}); }
        for(auto q: std::vector<std::vector<std::string>>{{"-p", "a"}, {"\\w{w}-\\m{w}-[a-z]{8}"}, {"-l"}}) {
            auto x = a;
            x.insert(x.end(), q.begin(), q.end());
            ctx.emit(encode(x, &sys, &user));
            if(m < 64) { ctx.emit(encode(x, &sys)); ctx.emit(encode(x, NULL, &user)); }
        }
    }
    // every built-in preset replaced
    for(auto &d: DOCUMENTED) {
        std::string t = "preset " + d.first + " q" + SYM + "\nrandom xorshift:5\n", u = "preset " + d.first + ":r" + SYM;
        for(auto q: std::vector<std::vector<std::string>>{{"-p", d.first}, {"-l"}, {"-P", d.first + ":opt" + SYM, "-p", d.first}, {"-r", "xorshift:6", "-p", d.first}}) {
            ctx.emit(encode(q, &t)); ctx.emit(encode(q, NULL, &t)); ctx.emit(encode(q, &t, &u)); ctx.emit(encode(q));
        }
    }
}
static void config_sizes(Ctx &ctx) {
    auto R = [](int n, const std::string &t) { return fmt("\x1d%d*", n) + t + "\x1d"; };
    std::vector<int> ns;
    for(int n = 0; n <= 64; n++) ns.push_back(n);
    for(int c: {128, 256, 512, 1024, 4096, 10240, 20480, 40960, 65536, 81920, 102400}) for(int d = -60; d <= 4; d++) if(d > -4 || c == 10240 || c == 20480 && ctx.thorough) ns.push_back(c + d);
    if(ctx.thorough) for(int c: {163840, 327680, 1000000}) for(int d = -3; d <= 3; d++) ns.push_back(c + d);
    std::vector<std::string> q = {"-l"}, q2 = {"-p", "a"}, q3 = {"\\w{w}[a-z]{4}"};
    for(int n: ns) for(int v = 0; v < 6; v++) {
        std::string t;
        switch(v) {
            case 0: t = "#" + R(n, "c") + "\npreset a:" + SYM; break;
            case 1: t = R(n, "\n") + "preset a:" + SYM + "\n"; break;
            case 2: t = "preset a:" + SYM + "\n#" + R(n, "c"); break;
            case 3: t = R(n, " ") + "preset a:" + SYM + "x"; break;
            case 4: t = "random xorshift:3\nwordlist w one.txt\n" + R(n, "#") + "\npreset a:" + SYM; break;
            case 5: t = "preset l:" + R(n, "x") + "\npreset a:" + SYM + "\n"; break;
        }
        ctx.emit(encode(n % 3 ? q2 : q, NULL, &t));
        if(v == 4) ctx.emit(encode(q3, &t));
    }
    // many definitions
    for(int n: {1, 2, 5, 10, 20, 31, 32, 33, 50, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 2000}) {
        std::string t = R(n, "preset k%d:v%d" + SYM + "\n"), u = R(n, "preset k%d other\n"), w = R(n, "wordlist w%d one.txt\n") + "random xorshift:9\n";
        // the second %d stays literal in expand(), which is fine for a value
        ctx.emit(encode({"-l"}, &t)); ctx.emit(encode({"-l"}, NULL, &t)); ctx.emit(encode({"-l"}, &t, &u)); ctx.emit(encode({"-p", fmt("k%d", n - 1)}, &u, &t)); ctx.emit(encode({"-p", fmt("k%d", n / 2)}, &t, &u));
        if(n < 600) for(int k: {0, n / 2, n - 1, n}) ctx.emit(encode({fmt("\\w{w%d}[ab]{3}", k)}, NULL, &w));
        std::vector<std::string> a;
        for(int k = 0; k < n && k < 500; k++) { a.push_back("-P"); a.push_back(fmt("k%d:v", k)); }
        a.push_back("-l");
        if(n <= 300) ctx.emit(encode(a));
    }
}
// every byte at every place of a definition, values that look like other lines, pairs of special characters
static void config_characters(Ctx &ctx) {
    auto both = [&](const std::vector<std::string> &q, const std::string &t, bool sys) { if(sys) ctx.emit(encode(q, &t)); else ctx.emit(encode(q, NULL, &t)); };
    std::vector<std::string> pieces;
    for(int c = 1; c < 256; c++) if(c != '\n' && c != 0x1d) pieces.push_back(std::string(1, (char) c));
    for(auto x: {"\xc3\xa4", "\xe2\x82\xac", "\\#", "\\n", " #", "# ", " # x", "##", "//", "; ", " ;x", "random zero", " random zero", "preset b:c", "\tpreset b c", "wordlist w:one.txt", " wordlist w one.txt", "\r", " ", "  ", "\t", " \t ",
                 ":", "::", " :", ": ", "=", " = ", "\"", "'", "\"a b\"", "%s", "%n", "%d%%", "$HOME", "${x}", "\\\\", "[#]", "[ :]", "(a|#)", "{2}", "?"}) pieces.push_back(x);
    for(auto &x: pieces) {
        int k = 0;
        for(auto t: {"preset a:" + x, "preset a:" + x + SYM, "preset a " + SYM + x, "preset a:k" + x + "l" + SYM, "preset a x" + x + x + "y", "preset " + x + ":v" + SYM, "preset " + x + " v" + SYM, "preset a" + x + ":v", "preset " + x + "a v" + SYM,
                      "wordlist w" + x + ":one.txt", "wordlist " + x + " one.txt", "wordlist w:" + x + "one.txt", "wordlist w one.txt" + x, "random xorshift:5" + x, "random chacha20:k" + x + "l", "random chacha20:" + x + "k:" + x + "n", x + "preset a:v" + SYM, x + " preset a v", "#" + x}) {
            // what follows on the next lines must not be affected
            std::string u = t + "\npreset zz:z" + SYM + "\n";
            bool preset = k < 9 || k > 15;
            both({"-l"}, u, k & 1);
            if(preset) both({"-p", "a"}, t, !(k & 1)), both({"-p", x}, u, k & 1);
            else if(k < 13) both({"\\w{w}" + SYM}, u, k & 1), both({"\\w{w" + x + "}"}, t, k & 1);
            else both({"-a2", SYM + "{3}"}, u, k & 1);
            both({"-p", "zz"}, u, !(k & 1));
            k++;
        }
    }
    std::vector<std::string> sp = {"#", " ", "\t", ":", "\r", "\\", "a", "\"", ",", "=", ";", "[", "]", "preset", "random", "\n", "\n#", "\n "};
    for(auto &x: sp) for(auto &y: sp) for(auto &z: sp) {
        std::string t = "preset a" + x + y + z + SYM;
        if(t.find("\npreset:") != std::string::npos || t.find("\n preset:") != std::string::npos) continue; // a keyword without a blank behind it is not documented either way
        both({"-l"}, t, false);
        if(ctx.thorough || x == " " || x == ":" || x == "\t") both({"-p", "a"}, t + "\npreset zz:z" + SYM, true), both({"-l"}, "preset a:q" + x + y + z + "r\npreset zz z\n", true);
        if(ctx.thorough) both({"-p", "a"}, "preset a q" + x + y + z, true);
    }
}
// configuration paths.  case: MODE ':' LENGTH
static void check_paths(Ctx &ctx, const std::string &c) {
    char mode = c[0];
    int len = atoi(c.c_str() + 2);
    std::string base = fmt("p%d", getpid()), conf = "preset found:q" + SYM + "\n";
    std::string dir;
    if(mode == 'h' || mode == 'x' || mode == 'b') {
        // a directory whose name has the given length: base/./././...
        mkdir(base.c_str(), 0755);
        mkdir((base + "/.config").c_str(), 0755);
        write_all(base + "/passgen.conf", conf);
        write_all(base + "/.config/passgen.conf", conf);
        dir = base;
        while((int) dir.size() + 2 <= len) dir += "/.";
        while((int) dir.size() < len) dir += "/";
    }
    Setup s;
    s.args = {"-l"};
    CliResult r = run_cli(s, [&]() {
        unsetenv("HOME");
        if(mode == 'h') setenv("HOME", dir.c_str(), 1);
        if(mode == 'x') setenv("XDG_CONFIG_PATH", dir.c_str(), 1);
        if(mode == 'b') { setenv("HOME", "/nonexistent", 1); setenv("XDG_CONFIG_PATH", dir.c_str(), 1); }
        if(mode == 'd') { mkdir(base.c_str(), 0755); mkdir((base + "/.config").c_str(), 0755); mkdir((base + "/.config/passgen.conf").c_str(), 0755); setenv("HOME", base.c_str(), 1); }
        if(mode == 'e') { setenv("HOME", "", 1); }
    });
    ctx.trace();
    ctx.state(hash_str(c));
    ctx.transitions(1);
    bool found = r.out.find("preset found q") != std::string::npos;
    size_t plen = dir.size() + (mode == 'h' ? strlen("/.config/passgen.conf") : strlen("/passgen.conf"));
    bool must = strchr("hxb", mode) && plen < 4000, mustnot = !strchr("hxb", mode);
    if(r.sig || r.code == 99 || r.code) ctx.fail("path-crash " + c, fmt("configuration directory of length %d (%c): the tool ends with exit %d signal %d: %s", len, mode, r.code, r.sig, esc(r.err).substr(0, 300).c_str()));
    else if(must && !found) ctx.fail("path-missed " + c, fmt("configuration file in a directory with a name of %zu characters (%c) is not read", dir.size(), mode));
    else if(mustnot && found) ctx.fail("path-found " + c, "configuration applied from nowhere");
    for(auto f: {"/.config/passgen.conf", "/passgen.conf"}) { unlink((base + f).c_str()); rmdir((base + f).c_str()); }
    rmdir((base + "/.config").c_str());
    rmdir(base.c_str());
}

// ------------------------------------------------------------------ C08
static void master_cli(Ctx &ctx) {
    std::vector<std::string> comp = {"", "a", "b", "ab", "a:b", ":", "pass", "\xc3\xa4", " ", "passgen"};
    for(int n: {7, 8, 16, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 200, 255, 256, 300, 1000}) { std::string s; for(int i = 0; i < n; i++) s += (char) ('A' + i % 57); comp.push_back(s); }
    std::string pat = "[a-zA-Z0-9]{30}";
    const std::string none = "\x01";
    auto with = comp;
    with.push_back(none);
    for(auto &p: comp) for(auto &d: with) for(auto &t: with) {
        if(p.size() > 40 && d.size() > 40 && t.size() > 40 && !ctx.thorough) continue;
        std::vector<std::string> a = {"-m", p};
        if(d != none) a.insert(a.end(), {"-d", d});
        if(t != none) a.insert(a.end(), {"-t", t});
        a.push_back(pat);
        ctx.emit(encode(a));
    }
    for(auto &p: comp) for(auto &d: comp) for(auto o: std::vector<std::vector<std::string>>{{"--domain", d, "--master=" + p}, {"-t", d, "-m", p}, {"-m", "first", "-d", "x", "-d", d, "-m", p}, {"-m" + p, "-j", "-t" + d}, {"--token=" + d, "-d", p, "-m", "fixed"}}) { o.push_back(pat); ctx.emit(encode(o)); }
}
// the options and the description denote the same stream
static void check_description(Ctx &ctx, const std::string &c) {
    Setup s = decode(c), t;
    std::string v[3];
    int n = 0;
    for(auto &a: s.args) v[n++] = a;
    Setup q;
    q.args = {"-m", v[0]};
    if(n > 1) q.args.insert(q.args.end(), {"-d", v[1]});
    if(n > 2) q.args.insert(q.args.end(), {"-t", v[2]});
    q.args.push_back("[a-zA-Z0-9]{40}");
    t.args = {"-r", "chacha20-argon2:" + v[0] + (n > 1 ? ":" + v[1] : "") + (n > 2 ? ":" + v[2] : ""), "[a-zA-Z0-9]{40}"};
    CliResult a = run_cli(q), b = run_cli(t);
    ctx.state(hash_str(c));
    ctx.trace();
    ctx.transitions(2);
    if(a.code || b.code || a.out != b.out) ctx.fail("description " + esc(c), show_args(q) + " gives '" + esc(a.out).substr(0, 80) + "', " + show_args(t) + fmt(" gives (exit %d) '", b.code) + esc(b.out).substr(0, 80) + "'");
}

int main(int argc, char **argv) {
    for(int i = 1; i + 1 < argc; i++) if(!strcmp(argv[i], "--prop")) P = atoi(argv[i + 1] + 1);
    RENV = refenv();
    for(auto &l: LISTS) write_all(std::string(l.name) + ".txt", l.text);
    // words whose first and last letter belong together as long as the order of a markov chain exceeds their length
    std::string orders;
    uint32_t letter = 0x4e00;
    auto lengths = [](int k) { return k < 18 || k % 32 > 29 || k % 32 < 3 || k == 100 || k > 252; };
    for(int k = 0; k < 256; k++) if(lengths(k)) for(int i = 0; i < 2; i++) { orders += ref::utf8_put(letter) + std::string(k, 'x') + ref::utf8_put(letter + 0x1000) + "\n"; letter++; }
    write_all("orders.txt", orders);
    write_all("bad.txt", "ok\nfine\nab\xff\n");
    write_all("empty.txt", "\n\n");
    write_all("long.txt", rep("a", 126) + "\xf0\x9f\x98\x80" + "\xe2\x82\xac" + "zz\n" + rep("\xc3\xa4", 128) + "\n" + rep("b", 127) + "\"\\\n" + rep("\xe2\x82\xac", 257) + "\n" + "\x01\t\"\n");
    {
        Setup s;
        s.args = {"-l"};
        CliResult r = run_cli(s);
        size_t at = 0;
        while(at < r.out.size()) {
            size_t e = r.out.find('\n', at);
            if(e == std::string::npos) break;
            std::string l = r.out.substr(at, e - at);
            at = e + 1;
            size_t sp = l.find(' ', 7);
            if(l.compare(0, 7, "preset ") == 0 && sp != std::string::npos) BUILTIN[l.substr(7, sp - 7)] = l.substr(sp + 1);
        }
    }
    if(P == 8) {
        add({"options", "passphrases, domains and tokens over 28 contents and lengths to 1000, given by options in several orders and spellings", master_cli, check_cli});
        add({"descriptions", "the same streams through -m/-d/-t and through chacha20-argon2 descriptions", [](Ctx &c) {
                 std::vector<std::string> comp = {"a", "b", "ab", "pass", " ", "\xc3\xa4", "passgen"};
                 for(int n: {7, 8, 31, 32, 33, 63, 64, 65, 126, 127}) { std::string s; for(int i = 0; i < n; i++) s += (char) ('A' + i % 57 == ':' ? 'x' : 'A' + i % 57); comp.push_back(s); }
                 auto e = comp;
                 e.push_back("");
                 for(auto &p: comp) { c.emit(encode({p})); for(auto &d: e) { c.emit(encode({p, d})); for(auto &t: e) c.emit(encode({p, d, t})); } }
             }, check_description});
    }
    if(P == 18) {
        add({"spellings", "every option in every spelling (short, attached, clustered, long, all abbreviations) at every place of 6 command lines", spellings, check_cli});
        add({"amounts", "amounts 1..70 / 300 and around powers of two to 65537 / 1000000 x 4 patterns x separators x entropy; markov lengths 1..255; illegal numbers", [](Ctx &c) { amounts(c, false); }, check_cli});
        add({"patterns", "all patterns of cost up to 3 / 4, lengths to 100000 of 8 character classes, wordlists, malformed and failing patterns x 3 modes", [](Ctx &c) { patterns(c, false); }, check_cli});
        add({"late-failures", "passwords that fail after earlier ones succeeded: 60 / 400 seeds x 4 patterns x 6 modes", late_failures, check_cli});
        add({"sequences", "all sequences of up to 2 / 3 of 49 option and argument tokens, alone and on two usable command lines", sequences, check_cli});
        add({"empty", "all sequences of up to 2 (and a fifth of those of 3) / 4 of 33 tokens with empty arguments, names and values", empties, check_cli});
        add({"selections", "all ordered selections of 3-4 / 3-5 of 16 valid options", triples, check_cli});
    }
    if(P == 17) {
        add({"codepoints", "every code point (alone below U+180 and at encoding boundaries, in blocks of 64 otherwise); all pairs of 57 special characters", json_codepoints, check_cli});
        add({"options", "all subsets of 9 options x 3 patterns x sources, in two orders", json_options, check_cli});
        add({"amounts", "amounts 1..70 / 300 and around powers of two to 65537 / 1000000 x 4 patterns x entropy", [](Ctx &c) { amounts(c, true); }, check_cli});
        add({"patterns", "all patterns of cost up to 3 / 4, lengths to 100000 of 8 character classes, wordlists, malformed and failing patterns x 2 modes", [](Ctx &c) { patterns(c, true); }, check_cli});
        add({"overflow", "an entropy beyond 2^1024", [](Ctx &c) { c.emit(encode({"-je", "-r", "xorshift:5", "[a-z]{300}"})); }, [](Ctx &ctx, const std::string &c) {
                 Setup s = decode(c);
                 CliResult r = run_cli(s);
                 ref::Json j;
                 ref::JsonReader jr(r.out);
                 ctx.trace();
                 ctx.state(hash_str(c));
                 if(r.code || !jr.document(&j)) ctx.fail("entropy-overflow -je [a-z]{300}", "the entropy of [a-z]{300} exceeds the range of a double; the JSON output is not valid: " + esc(r.out).substr(r.out.size() > 60 ? r.out.size() - 60 : 0));
             }});
    }
    if(P == 19) {
        add({"presets", "every documented built-in preset: its pattern against the documented format, and 1000 generated passwords", [](Ctx &c) { for(auto &d: DOCUMENTED) c.emit(d.first); }, check_preset});
        add({"lines", "all configuration files of up to 2 of 32 lines and of 3 of 14 / 32 lines, with and without final newline, as system and user file, x queries", config_lines, check_cli});
        add({"override", "presets, wordlists and randomness sources defined in every subset of system file, user file and options", config_override, check_cli});
        add({"sizes", "files, lines, comments and blanks of 0..64 bytes and around powers of two and multiples of 10240; 1..2000 definitions", config_sizes, check_cli});
        add({"characters", "every byte and 45 special pieces at 19 places of a definition; all triples of 18 special pieces between name and pattern and within the pattern", config_characters, check_cli});
        add({"paths", "configuration directories with names of 1..300 and around 4096 characters, via HOME and XDG_CONFIG_PATH; unset, empty and odd ones", [](Ctx &c) {
                 for(char m: {'h', 'x', 'b'}) { for(int n = 10; n < 300; n += 7) c.emit(fmt("%c:%d", m, n)); for(int n = 3900; n < 4200; n += n > 4060 && n < 4100 ? 1 : 7) c.emit(fmt("%c:%d", m, n)); for(int n: {5000, 8192, 20000, 100000}) c.emit(fmt("%c:%d", m, n)); }
                 c.emit("d:0"); c.emit("e:0"); c.emit("n:0");
             }, check_paths});
    }
    return main_(argc, argv);
}
