// C26: the message for a rejected pattern shows the pattern, and below it a marker under the character
// where the reference parser finds the error (behind the last one if the pattern is incomplete).
#include "clirun.hpp"

// rid of terminal escape sequences
static std::string plain(const std::string &s) {
    std::string o;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
            i += 2;
            while(i < s.size() && !(s[i] >= 0x40 && s[i] <= 0x7e)) i++;
        } else o += s[i];
    }
    return o;
}
static size_t columns(const std::string &s) { size_t n = 0; for(unsigned char c: s) if((c & 0xc0) != 0x80) n++; return n; }

// "" if the message is as it should be
static std::string judge(const std::string &pattern, size_t off, const std::string &raw) {
    std::string text = plain(raw);
    std::vector<std::string> lines;
    size_t at = 0;
    while(at < text.size()) {
        size_t e = text.find('\n', at);
        if(e == std::string::npos) { lines.push_back(text.substr(at)); break; }
        lines.push_back(text.substr(at, e - at));
        at = e + 1;
    }
    if(text.empty()) return "no message";
    std::string why = "the pattern is not shown with a marker";
    for(size_t i = 0; i + 1 < lines.size(); i++) {
        const std::string &l = lines[i], &m = lines[i + 1];
        if(l.size() < pattern.size() || l.compare(l.size() - pattern.size(), pattern.size(), pattern)) continue;
        size_t caret = m.find('^');
        if(caret == std::string::npos || m.find_first_not_of(' ') != caret || caret + 1 != m.size()) continue;
        size_t start = columns(l.substr(0, l.size() - pattern.size()));
        if(caret < start) return fmt("the marker is %zu columns before the pattern", start - caret);
        if(caret - start != off) { why = fmt("the marker is under character %zu, the error is at character %zu", caret - start, off); continue; }
        return "";
    }
    return why;
}

static int ERRFD = -1;
static void check_lib(Ctx &ctx, const std::string &c) {
    std::string s = expand(c);
    ref::Pattern rp = ref::parse(s);
    ctx.evals();
    if(rp.ok() || rp.err == ref::BAD_UTF8) return;
    static pid_t owner;
    static int saved;
    if(owner != getpid()) { owner = getpid(); ERRFD = syscall(SYS_memfd_create, "err", 0); saved = dup(2); setvbuf(stderr, NULL, _IOFBF, 1 << 16); }
    passgen_pattern pat;
    passgen_error err;
    memset(&err, 0, sizeof err);
    if(passgen_parse(&pat, &err, s.c_str()) == 0) { passgen_pattern_free(&pat); ctx.skipped(); return; }   // C01
    fflush(stderr);
    if(ftruncate(ERRFD, 0)) {}
    lseek(ERRFD, 0, SEEK_SET);
    dup2(ERRFD, 2);
    passgen_error_print(&err, s.c_str());
    fflush(stderr);
    dup2(saved, 2);
    struct stat sb;
    fstat(ERRFD, &sb);
    std::string msg(sb.st_size, 0);
    if(sb.st_size && pread(ERRFD, &msg[0], sb.st_size, 0) != sb.st_size) abort();
    ctx.trace();
    ctx.nontrivial();
    ctx.transitions(rp.ntoks + 1);
    ctx.state(hash_str(s));
    std::string why = judge(s, rp.off, msg);
    if(!why.empty()) ctx.fail("marker " + esc(c).substr(0, 200), "pattern " + esc(s).substr(0, 200) + ": " + why + ": '" + esc(msg).substr(0, 600) + "'");
    passgen_pattern_free(&pat);
}
static const char *SYM[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x90\x8d\x88", "(", ")", "|", "[", "]", "-", "{", "}", "2", ",", "?", "\\", "u"};
static void gen_tokens(Ctx &ctx) {
    int max = ctx.thorough ? 6 : 5;
    std::function<void(std::string, int)> rec = [&](std::string s, int d) {
        if(d == 0) { ctx.emit_mine(s); return; }
        for(auto t: SYM) rec(s + t, d - 1);
    };
    for(int n = 1; n <= max; n++)
        if(n < 3) { for(auto t: SYM) if(ctx.take()) rec(t, n - 1); }
        else for(auto t: SYM) for(auto u: SYM) for(auto v: SYM) if(ctx.take()) rec(std::string(t) + u + v, n - 3);
}
static const char *ERRORS[] = {"]", ")", "\\q", "a{3,2}", "a{2", "[a", "(a|", "\\u{110000}", "\\u{x", "\\", "?b]", "[b-a]", "(a{1,2}", "a{4294967296}", "\\w{", "[\\m]"};
static std::string rep(size_t n, const std::string &t) { return fmt("\x1d%zu*", n) + t + "\x1d"; }
static void gen_places(Ctx &ctx) {
    std::vector<size_t> n;
    for(size_t i = 1; i < (ctx.thorough ? 3000u : 600u); i += ctx.thorough || i < 140 ? 1 : 7) n.push_back(i);
    for(size_t p = 1024; p <= (ctx.thorough ? 1u << 20 : 1u << 17); p *= 2) for(int d = -3; d <= 3; d++) n.push_back(p + d);
    for(auto e: ERRORS)
        for(auto before: {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x90\x8d\x88", "a\xe2\x82\xac", "(b\xc3\xa9)", "[a-c]", "a{2}", "\\u{41}", "\\[", "\\u{e9}|"})
            for(auto behind: {"", "c", "\xe2\x82\xac\xc3\xa9", "]"})
                for(size_t i: n) {
                    if(i > 600 && (*behind || (strlen(before) > 3 && i > 20000))) continue;
                    ctx.emit(rep(i, before) + e + behind);
                }
}
static void gen_chars(Ctx &ctx) {
    std::vector<std::pair<int, int>> narrow = {{0x21, 0x7e}, {0xa1, 0xac}, {0xae, 0x2ff}, {0x391, 0x3a1}, {0x3a3, 0x3ff}, {0x400, 0x482}, {0x48a, 0x52f}, {0x1e00, 0x1eff}, {0x2010, 0x2027}, {0x2070, 0x2071}, {0x20a0, 0x20bf}, {0x2100, 0x214f}, {0x10280, 0x1029c}, {0x10300, 0x1031f}, {0x10400, 0x1044f}};
    for(auto &r: narrow)
        for(int c = r.first; c <= r.second; c++) {
            std::string t = ref::utf8_put(c);
            for(auto e: {"]", "(", "x{2,1}", "\\q"}) { ctx.emit(t + e); ctx.emit(t + t + e + t); ctx.emit("\\u{" + fmt("%x", c) + "}" + e); }
            ctx.emit("\\" + t);
            ctx.emit("a\\" + t + "b");
        }
}
// the tool
static void check_cli(Ctx &ctx, const std::string &c) {
    size_t tab = c.find('\t');
    std::string pattern = expand(c.substr(0, tab));
    Setup s = decode(c.substr(tab + 1));
    ref::Pattern rp = ref::parse(pattern);
    ctx.evals();
    if(rp.ok() || rp.err == ref::BAD_UTF8) return;
    CliResult r = run_cli(s);
    ctx.trace();
    ctx.nontrivial();
    ctx.transitions(rp.ntoks + 1);
    ctx.state(hash_str(c));
    if(r.code == 0 && !r.sig) { ctx.skipped(); return; }      // C18
    if(r.sig || r.code == 99) { ctx.fail("crash " + esc(c).substr(0, 200), show_args(s) + ": the tool crashes: " + esc(r.err).substr(0, 500)); return; }
    std::string why = judge(pattern, rp.off, r.err);
    if(!why.empty()) ctx.fail("tool " + esc(c).substr(0, 200), show_args(s) + ": " + why + ": '" + esc(r.err).substr(0, 600) + "'");
}
static void gen_cli(Ctx &ctx) {
    auto all = [&](const std::string &p) {
        if(p[0] != '-' && p.size()) ctx.emit(p + "\t" + encode({p}));
        ctx.emit(p + "\t" + encode({"--", p}));
        ctx.emit(p + "\t" + encode({"-ejza2", "-r", "zero", "-P", "bad:" + p, "-p", "bad"}));
        std::string conf = "preset bad " + p + "\n";
        if(p[0] != '\t') ctx.emit(p + "\t" + encode({"-p", "bad"}, NULL, &conf));
    };
    std::function<void(std::string, int)> rec = [&](std::string s, int d) {
        if(d == 0) { all(s); return; }
        for(auto t: SYM) rec(s + t, d - 1);
    };
    for(int n = 1; n <= (ctx.thorough ? 3 : 2); n++) rec("", n);
    for(auto e: ERRORS) for(auto b: {"", "ab", "\xe2\x82\xac", "(a|\xc3\xa9){2}"}) { all(std::string(b) + e); all(std::string(b) + e + "\xe2\x82\xac"); }
    for(size_t i: {10, 100, 1000, 4096, 20000}) for(auto e: ERRORS) all(rep(i, "\xc3\xa9") + e);
}

int main(int argc, char **argv) {
    RENV = refenv();
    add({"tool", "rejected patterns of up to 2 (thorough 3) of 17 symbols, and 16 kinds of errors behind 4 prefixes and 5 lengths, given as argument, by option and in the configuration", gen_cli, check_cli});
    add({"tokens", "all rejected strings of up to 5 (thorough 6) of 17 symbols, among them characters of 2, 3 and 4 bytes", gen_tokens, check_lib});
    add({"places", "16 kinds of errors behind 11 kinds of prefixes repeated 1..140, every 7th to 600 times and around powers of two to 2^17, followed by 4 suffixes", gen_places, check_lib});
    add({"chars", "every printable character of width one of 15 blocks in front of, in and behind an error", gen_chars, check_lib});
    return main_(argc, argv);
}
