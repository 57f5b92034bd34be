// C21 on the command line: faults of the system source and of randomness files, and sources that can
// not be opened, in the real tool.
#include "clirun.hpp"
#include <errno.h>
struct Dev { uint64_t f, pos; int kind, fired; uint64_t calls; int faulted; };
static Dev *D;
enum { NONE, SHORT, SHORT_RESUME, ZERO, ERR, ERR_RESUME, EINTR_RESUME };
static uint8_t src_byte(uint64_t i) {
    uint64_t h = (i + 1) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    return h;
}
extern "C" ssize_t __real_getrandom(void *, size_t, unsigned);
extern "C" ssize_t __wrap_getrandom(void *d, size_t n, unsigned fl) {
    if(!D) return __real_getrandom(d, n, fl);
    D->calls++;
    uint8_t *b = (uint8_t *) d;
    auto give = [&](size_t k) { for(size_t i = 0; i < k; i++) b[i] = src_byte(D->pos + i); D->pos += k; };
    if(D->kind == NONE || D->pos + n <= D->f || (D->fired && (D->kind == SHORT_RESUME || D->kind == ERR_RESUME || D->kind == EINTR_RESUME))) { give(n); return n; }
    D->faulted = 1;
    bool first = !D->fired;
    D->fired = 1;
    size_t k = D->f > D->pos ? D->f - D->pos : 0;
    if((D->kind == SHORT || D->kind == SHORT_RESUME) && first && k) { give(k); return k; }
    if(D->kind == SHORT || D->kind == SHORT_RESUME || D->kind == ZERO) return 0;
    errno = D->kind == EINTR_RESUME ? EINTR : EIO;
    return -1;
}
// case: kind f TAB encoded command line; kind 9: randomness file of f bytes
static void check(Ctx &ctx, const std::string &c) {
    if(!D) D = (Dev *) mmap(NULL, sizeof(Dev), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int kind = c[0] - '0';
    char *e;
    uint64_t f = strtoull(c.c_str() + 1, &e, 10);
    std::string line = e + 1;
    Setup s = decode(line), q = s;
    if(kind == 9) {
        std::string full, name = fmt("rnd-%d", getpid());
        for(int i = 0; i < 1 << 17; i++) full += (char) src_byte(i);
        write_all(name + "-full", full);
        write_all(name + "-part", full.substr(0, f));
        q.args.insert(q.args.begin(), {"-r", "file:" + name + "-full"});
        s.args.insert(s.args.begin(), {"-r", "file:" + name + "-part"});
    }
    static std::map<std::string, std::string> base;
    std::string bk = (kind == 9 ? "f" : "s") + line;
    auto fd_limit = []() { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); };
    if(!base.count(bk)) {
        *D = Dev{~0ull, 0, NONE, 0, 0, 0};
        CliResult r = run_cli(q, fd_limit);
        if(r.code || r.out.empty()) { ctx.fail("baseline " + esc(c).substr(0, 200), show_args(q) + fmt(" ends with exit %d signal %d on a faultless source: ", r.code, r.sig) + esc(r.err).substr(0, 300)); return; }
        if(kind != 9 && !D->calls) { ctx.skipped(); return; }
        base[bk] = r.out;
    }
    *D = Dev{f, 0, kind == 9 ? NONE : kind, 0, 0, 0};
    CliResult r = run_cli(s, fd_limit);
    if(kind == 9) D->faulted = 1;
    ctx.evals();
    ctx.state(hash_str(c));
    ctx.transitions(D->calls);
    ctx.trace();
    if(D->faulted) ctx.nontrivial();
    std::string what = show_args(s) + fmt(", %s after %llu bytes: exit %d signal %d, output '", kind == 9 ? "end of file" : kind == ERR || kind == ERR_RESUME || kind == EINTR_RESUME ? "error" : "short read", (unsigned long long) f, r.code, r.sig) + esc(r.out).substr(0, 200) + "', errors '" + esc(r.err).substr(0, 300) + "'";
    const std::string &b = base[bk];
    bool ok = r.code == 0 && !r.sig;
    if((r.sig && r.sig != SIGABRT) || r.code == 99) ctx.fail("tool-crash " + esc(c).substr(0, 200), "the tool crashes: " + what);
    else if(ok && r.out != b) ctx.fail("tool-output " + esc(c).substr(0, 200), "exit status 0, but the output is not that of the source's bytes ('" + esc(b).substr(0, 200) + "'): " + what);
    else if(!ok && b.compare(0, r.out.size(), r.out)) ctx.fail("tool-output " + esc(c).substr(0, 200), "output that is not that of the source's bytes ('" + esc(b).substr(0, 200) + "'): " + what);
    else if(!ok && r.err.empty()) ctx.fail("tool-silent " + esc(c).substr(0, 200), "no message: " + what);
    else if(ok && D->faulted && (kind == SHORT || kind == ZERO || kind == ERR || kind == 9)) {
        // every password of [a-p]{400} takes 200 bytes
        size_t letters = 0;
        for(char ch: r.out) if(ch >= 'a' && ch <= 'p') letters++;
        if(s.args.back() == "[a-p]{400}" && letters / 2 > f + 40) ctx.fail("tool-count " + esc(c).substr(0, 200), fmt("%zu random letters out of %llu bytes: ", letters, (unsigned long long) f) + what);
    }
    if(kind == 9) { unlink(fmt("rnd-%d-full", getpid()).c_str()); unlink(fmt("rnd-%d-part", getpid()).c_str()); }
}
static void gen(Ctx &ctx) {
    std::vector<uint64_t> fs;
    for(uint64_t f = 0; f < 20; f++) fs.push_back(f);
    for(uint64_t f = 20; f < 5400; f += ctx.thorough ? 13 : 101) fs.push_back(f);
    for(uint64_t b = 1024; b <= 5120; b += 1024) for(int d = -2; d <= 2; d++) fs.push_back(b + d);
    for(auto mode: std::vector<std::vector<std::string>>{{"-a", "12"}, {"-a", "12", "-z"}, {"-a", "12", "-j"}, {"-ea12"}, {"-w", "three:three.txt", "-a9"}, {}})
        for(auto pat: {"[a-p]{400}", "([a-f]{2,9}-|x){40}"})
            for(uint64_t f: fs)
                for(int k: {1, 2, 3, 4, 5, 6, 9}) {
                    auto a = mode;
                    a.push_back(pat);
                    ctx.emit(fmt("%d%llu\t", k, (unsigned long long) f) + encode(a));
                }
}
// sources that can not be opened
static void check_open(Ctx &ctx, const std::string &c) {
    Setup s = decode(c);
    ctx.evals();
    ctx.trace();
    ctx.state(hash_str(c));
    ctx.transitions(1);
    ctx.nontrivial();
    if(s.has_user) {
        // a source that can not be opened is reported and does not replace the randomness by anything predictable
        CliResult a = run_cli(s), b = run_cli(s);
        if(a.sig || a.code == 99) ctx.fail("open-crash " + esc(c), show_args(s) + fmt(": exit %d signal %d ", a.code, a.sig) + esc(a.err).substr(0, 300));
        else if(a.err.empty()) ctx.fail("open-silent " + esc(c), show_args(s) + ": the source is not reported");
        else if(a.code == 0 && a.out == b.out) ctx.fail("open-fixed " + esc(c), show_args(s) + ": the same passwords are produced every time: " + esc(a.out));
        return;
    }
    CliResult r = run_cli(s);
    if((r.sig && r.sig != SIGABRT) || r.code == 99) ctx.fail("open-crash " + esc(c), show_args(s) + fmt(": exit %d signal %d ", r.code, r.sig) + esc(r.err).substr(0, 300));
    else if(r.code == 0 && !r.sig) ctx.fail("open-ignored " + esc(c), show_args(s) + ": exit 0 " + esc(r.out).substr(0, 200));
    else if(r.err.empty()) ctx.fail("open-silent " + esc(c), show_args(s) + ": no message");
    else if(!r.out.empty()) ctx.fail("open-output " + esc(c), show_args(s) + ": output " + esc(r.out).substr(0, 200));
    // and through the library
    for(auto &a: s.args) {
        if(a == "-r" || a == "[a-z]{20}" || a == "-m" || a == "x" || a == "-p" || a == "uuid") continue;
        passgen_random obj;
        passgen_random *o = NULL;
        if(a != "file:.") for(auto p: {(passgen_random *) NULL, &obj}) if((o = passgen_random_open(p, a.c_str()))) ctx.fail("opened " + esc(c), "passgen_random_open opens " + esc(a));
    }
}
static void gen_open(Ctx &ctx) {
    std::vector<std::string> al = {"", "file:", "file:missing", "file:/nonexistent/x", "file:.", "fil", "file", "xorshift:", "xorshift:0", "xorshift:abc", "xorshift", "systemx", "System", "zeros", " zero", "zero ", "chacha20", "chacha20-argon2", "random", ":", "file:missing:", "chacha20:" + std::string(33, 'k'), "chacha20-argon2:" + std::string(128, 'k'), "chacha20-argon2:a:" + std::string(128, 'k'), "chacha20-argon2:a:b:" + std::string(128, 'k'), "chacha20-argon2:a:b:c:d"};
    for(auto &d: al) {
        ctx.emit(encode({"-r", d, "[a-z]{20}"}));
        ctx.emit(encode({"[a-z]{20}", "-r", d}));
        ctx.emit(encode({"-p", "uuid", "-r", d}));
        ctx.emit(encode({"-m", "x", "-r", d, "[a-z]{20}"}));
        if(d.empty() || d == "file:." || d[0] == ' ' || d.back() == ' ') continue;
        std::string conf = "random " + d + "\n";
        ctx.emit(encode({"[a-z]{20}"}, NULL, &conf));
        ctx.emit(encode({"[a-z]{20}"}, &conf, &conf));
    }
}

int main(int argc, char **argv) {
    RENV = refenv();
    for(auto &l: LISTS) write_all(std::string(l.name) + ".txt", l.text);
    add({"tool", "the command-line tool with the system source misbehaving in 6 ways after 0..19, every 101st / 13th and boundary numbers of bytes, and with randomness files of these lengths, x 6 modes x 2 patterns", gen, check});
    add({"unopened", "26 sources that can not be opened, by option and configuration", gen_open, check_open});
    return main_(argc, argv);
}
