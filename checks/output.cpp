// C25: the tool reports success only if its complete output has been delivered.  Every kind of fault
// of standard output, at every byte or around every boundary of the buffers involved.
#include "clirun.hpp"
#include <pty.h>
#include <sys/socket.h>
#include <termios.h>

// kinds of standard output
//   L  a file that can not grow beyond k bytes       F  /dev/full       C  closed        R  open for reading only
//   P  a pipe without reader, SIGPIPE ignored        Q  the same with SIGPIPE            B  a pipe whose reader leaves after k bytes
//   N  a full nonblocking pipe of k pages            S  a slow reader, taking k bytes at a time
//   I  a stream with failing or short writes among good ones
//   T  a socket shut down for writing                Y  a terminal that is gone          Z  a terminal
struct Run { CliResult r; bool met = false; };
static int FILEFD = -1;
// kind I: standard output is a stream whose writes number fault_first.. fail (or are short), while all others succeed
static size_t fault_first, fault_count, fault_calls;
static bool fault_short;
static ssize_t cookie_write(void *, const char *b, size_t n) {
    fault_calls++;
    if(fault_calls >= fault_first && fault_calls < fault_first + fault_count) {
        if(fault_short && n > 1) n /= 2; else { errno = EIO; return 0; }
    }
    ssize_t r = write(1, b, n);
    return r < 0 ? 0 : r;
}
static Run run_out(const Setup &s, char kind, size_t k) {
    Run x;
    static pid_t owner;
    if(owner != getpid()) { owner = getpid(); FILEFD = syscall(SYS_memfd_create, "out", 0); mkdir(fmt("h%d", getpid()).c_str(), 0755); mkdir(fmt("h%d/.config", getpid()).c_str(), 0755); }
    std::string home = fmt("h%d", owner), sysc = home + "/sys.conf", userc = home + "/.config/passgen.conf";
    if(s.has_sys) write_all(sysc, s.sys);
    if(s.has_user) write_all(userc, s.user);
    else unlink(userc.c_str());
    int out[2] = {-1, -1}, err[2];
    if(pipe(err)) abort();
    fcntl(err[1], F_SETPIPE_SZ, 1 << 20);
    if(ftruncate(FILEFD, 0)) {}
    lseek(FILEFD, 0, SEEK_SET);
    switch(kind) {
        case 'L': case 'W': case 'I': out[1] = dup(FILEFD); break;
        case 'F': out[1] = __real_open("/dev/full", O_WRONLY); break;
        case 'R': out[1] = __real_open("/dev/zero", O_RDONLY); break;
        case 'C': break;
        case 'P': case 'Q': if(pipe(out)) abort(); close(out[0]); out[0] = -1; break;
        case 'B': case 'S': if(pipe(out)) abort(); fcntl(out[1], F_SETPIPE_SZ, 4096); break;
        case 'N': if(pipe(out)) abort(); fcntl(out[1], F_SETPIPE_SZ, 4096 * k); fcntl(out[1], F_SETFL, O_NONBLOCK); break;
        case 'T': if(socketpair(AF_UNIX, SOCK_STREAM, 0, out)) abort(); shutdown(out[1], SHUT_WR); break;
        case 'Y': case 'Z': {
            struct termios t;
            memset(&t, 0, sizeof t);
            cfmakeraw(&t);
            if(openpty(&out[0], &out[1], NULL, &t, NULL)) { x.r.code = -2; close(err[0]); close(err[1]); return x; }
            if(kind == 'Y') { close(out[0]); out[0] = -1; }
        }
    }
    fflush(NULL);
    pid_t pid = fork();
    if(!pid) {
        alarm(60);
        SYSCONF = s.has_sys ? sysc.c_str() : "/nonexistent/passgen.conf";
        setenv("HOME", home.c_str(), 1);
        unsetenv("XDG_CONFIG_PATH");
        unsetenv("POSIXLY_CORRECT");
        setsid();
        dup2(err[1], 2);
        if(out[1] >= 0) dup2(out[1], 1); else close(1);
        signal(SIGPIPE, kind == 'Q' || kind == 'B' ? SIG_DFL : SIG_IGN);
        for(int fd = 3; fd < 64; fd++) close(fd);
        if(kind == 'L') {
            signal(SIGXFSZ, SIG_IGN);
            struct rlimit rl = {k, k};
            setrlimit(RLIMIT_FSIZE, &rl);
        }
        if(kind == 'I') {
            fault_first = k / 1000;
            fault_count = k / 100 % 10;
            fault_short = k % 10;
            cookie_io_functions_t io = {NULL, cookie_write, NULL, NULL};
            FILE *o = fopencookie(NULL, "w", io);
            if(!o) abort();
            static char buf[4096];
            int mode = k / 10 % 10;
            setvbuf(o, buf, mode == 1 ? _IOLBF : _IOFBF, mode == 2 ? 16 : sizeof buf);
            stdout = o;
        }
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        std::vector<char *> argv;
        argv.push_back(strdup("passgen"));
        for(auto &a: s.args) argv.push_back(strdup(a.c_str()));
        argv.push_back(NULL);
        exit(passgen_main(argv.size() - 1, argv.data()));
    }
    if(out[1] >= 0) close(out[1]);
    close(err[1]);
    char b[65536];
    ssize_t n;
    if(kind == 'S' || kind == 'Z') while((n = read(out[0], b, kind == 'S' ? k : sizeof b)) > 0) x.r.out.append(b, n);
    if(kind == 'B') {
        while(x.r.out.size() < k && (n = read(out[0], b, std::min(k - x.r.out.size(), sizeof b))) > 0) x.r.out.append(b, n);
        close(out[0]);
        out[0] = -1;
    }
    while((n = read(err[0], b, sizeof b)) > 0) x.r.err.append(b, n);
    close(err[0]);
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(kind == 'N') { while((n = read(out[0], b, sizeof b)) > 0) x.r.out.append(b, n); }
    if(kind == 'L' || kind == 'W' || kind == 'I') {
        struct stat sb;
        fstat(FILEFD, &sb);
        x.r.out.resize(sb.st_size);
        if(sb.st_size && pread(FILEFD, &x.r.out[0], sb.st_size, 0) != sb.st_size) x.r.out = "(read error)";
    }
    if(out[0] >= 0) close(out[0]);
    if(WIFEXITED(st)) x.r.code = WEXITSTATUS(st);
    else x.r.sig = WTERMSIG(st);
    return x;
}

// case: kind k TAB encoded command line
static void check(Ctx &ctx, const std::string &c) {
    char kind = c[0], *e;
    size_t k = strtoull(c.c_str() + 1, &e, 10);
    std::string line = e + 1;
    Setup s = decode(line);
    static std::map<std::string, CliResult> base;
    if(!base.count(line)) {
        if(base.size() > 50) base.clear();
        base[line] = run_out(s, 'W', 0).r;
    }
    const CliResult &b = base[line];
    if(b.sig || b.code == 99) { ctx.fail("baseline " + esc(c).substr(0, 200), show_args(s) + fmt(" ends with exit %d signal %d: ", b.code, b.sig) + esc(b.err).substr(0, 300)); return; }
    Run x = run_out(s, kind, k);
    const CliResult &r = x.r;
    ctx.evals();
    ctx.trace();
    ctx.transitions(b.out.size());
    ctx.state(hash_str(c));
    if(r.code == -2) { ctx.skipped(); return; }
    bool room;       // whether everything can be delivered
    switch(kind) {
        case 'L': room = k >= b.out.size(); break;
        case 'N': room = k * 4096 >= b.out.size() + 4096; break;     // pages may be used partly
        case 'B': room = b.out.size() <= k; break;
        case 'S': case 'Z': room = true; break;
        case 'I': room = k < 1000; break;
        default: room = b.out.empty();
    }
    bool either = (kind == 'N' && !room && k * 4096 >= b.out.size() / 4) || (kind == 'B' && b.out.size() <= k + 70000);
    if(!room) ctx.nontrivial();
    std::string what = show_args(s) + fmt(", standard output %s: exit %d%s, delivered %zu of %zu bytes, errors '", kind == 'L' ? fmt("limited to %zu bytes", k).c_str() : kind == 'F' ? "full" : kind == 'C' ? "closed" : kind == 'R' ? "not writable" : kind == 'N' ? fmt("a nonblocking pipe of %zu pages", k).c_str() : kind == 'S' ? "read slowly" : kind == 'Y' ? "a lost terminal" : kind == 'Z' ? "a terminal" : kind == 'I' ? fmt("with %zu %s writes from the %zuth on (%s buffered)", k / 100 % 10, k % 10 ? "short" : "failing", k / 1000, k / 10 % 10 == 1 ? "line" : k / 10 % 10 == 2 ? "barely" : "fully").c_str() : "without reader", r.code, r.sig ? fmt(" signal %d", r.sig).c_str() : "", r.out.size(), b.out.size()) + esc(r.err).substr(0, 200) + "'";
    std::string key = fmt("%c%zu ", kind, k) + esc(line).substr(0, 200);
    bool pipe_signal = r.sig == SIGPIPE && (kind == 'Q' || kind == 'B');
    if((r.sig && !pipe_signal) || r.code == 99) { ctx.fail("crash " + key, "the tool crashes: " + what); return; }
    bool success = r.code == 0 && !r.sig;
    bool seen = kind == 'I' || kind == 'L' || kind == 'N' || kind == 'S' || kind == 'Z' || kind == 'B';
    if(seen && kind != 'I' && b.out.compare(0, r.out.size(), r.out)) { ctx.fail("other " + key, "what was delivered is not the beginning of the output: " + what); return; }
    if(b.code != 0) {
        // an error remains an error
        if(success) ctx.fail("error-lost " + key, fmt("exit status %d with ordinary output, but success here: ", b.code) + what);
        return;
    }
    if(room && !either) {
        if(!success) ctx.fail("refused " + key, "all output can be delivered, but the tool fails: " + what);
        else if(seen && r.out != b.out) ctx.fail("lost " + key, "output is lost: " + what);
        return;
    }
    if(kind == 'I' && success && r.out == b.out) return;  // there are fewer writes, or they were repeated
    if(kind == 'B' && either) return;      // the rest may have been in the pipe already
    if(success) {
        if(!(seen && r.out == b.out)) ctx.fail("silent " + key, "exit status 0 although output was lost: " + what);
        return;
    }
    if(!pipe_signal && r.err.empty()) ctx.fail("no-message " + key, "no message: " + what);
}

static std::string rep(int n, const std::string &t) { return fmt("\x1d%d*", n) + t + "\x1d"; }
typedef std::vector<std::string> Args;
static void add_lines(std::vector<std::pair<Args, const char *>> *v, bool thorough) {
    std::vector<Args> modes = {{}, {"-z"}, {"-e"}, {"-j"}, {"-je"}, {"-ze"}};
    // (command line, number of output bytes is decided by the tool)
    for(auto &m: modes)
        for(auto &t: std::vector<Args>{{"a"}, {"[a-z]{12}"}, {"\\u{e9}\\u{20ac}{3}"}, {"-a", "5", "[a-c]{3}"}, {"-p", "uuid"}, {"-w", "three:three.txt", "-a3", "\\w{three}"}, {""}, {"-a3", ""}}) {
            Args a = {"-r", "xorshift:7"};
            a.insert(a.end(), m.begin(), m.end());
            a.insert(a.end(), t.begin(), t.end());
            v->push_back({a, "short"});
        }
    for(auto &m: modes)
        for(auto &t: std::vector<Args>{{"-a", "700", "[a-z]{9}"}, {"x{4095}"}, {"x{4096}"}, {"x{4094}"}, {"x{8191}"}, {"x{8192}"}, {"-a2", "\\u{20ac}{1365}"}, {"-a", "3000", "\\u{10348}{3}"}, {"x{70000}"}}) {
            Args a = {"-r", "xorshift:7"};
            a.insert(a.end(), m.begin(), m.end());
            a.insert(a.end(), t.begin(), t.end());
            v->push_back({a, "long"});
        }
    if(thorough) v->push_back({{"-r", "zero", "-a", "200000", "ab"}, "long"});
    v->push_back({{"-l"}, "short"});
    v->push_back({{"-P", "x:abc", "-l"}, "short"});
    v->push_back({{"-P", "x:" + rep(9000, "y"), "-l"}, "long"});
    v->push_back({{"-h"}, "short"});
    v->push_back({{"-v"}, "short"});
    v->push_back({{}, "short"});
    v->push_back({{"a("}, "short"});
    v->push_back({{"a", "b"}, "short"});
    v->push_back({{"-p", "nosuch"}, "short"});
    v->push_back({{"-a", "0", "a"}, "short"});
    v->push_back({{"-M", "0", "a"}, "short"});
    v->push_back({{"-r", "nosuch", "a"}, "short"});
    v->push_back({{"-a", "2", "\\w{none}"}, "short"});
}
static void gen_limit(Ctx &ctx) {
    std::vector<std::pair<Args, const char *>> lines;
    add_lines(&lines, ctx.thorough);
    for(auto &l: lines) {
        std::string c = encode(l.first);
        if(!strcmp(l.second, "short")) {
            for(int k = 0; k < (ctx.thorough ? 700 : 100); k++) ctx.emit(fmt("L%d\t", k) + c);
            for(int k: {200, 300, 400, 500, 600, 1000, 100000}) ctx.emit(fmt("L%d\t", k) + c);
            continue;
        }
        std::set<int> ks = {0, 1, 2, 100, 3000, 300000, 3000000};
        for(int p = 4096; p <= 73728; p += p < 16384 || p > 60000 ? 1024 : 4096) for(int d = -3; d <= 3; d++) ks.insert(p + d);
        if(ctx.thorough) for(int k = 0; k < 80000; k += 97) ks.insert(k);
        for(int k: {7000, 6999, 7001, 69998, 69999, 70000, 70001, 70002, 39000, 39002}) ks.insert(k);
        for(int k: ks) ctx.emit(fmt("L%d\t", k) + c);
    }
}
static void gen_kinds(Ctx &ctx) {
    std::vector<std::pair<Args, const char *>> lines;
    add_lines(&lines, ctx.thorough);
    std::string conf = "preset mine xyz\nwordlist own three.txt\n";
    write_all(fmt("rnd-%d", getpid()), std::string(4096, 'r'));
    for(auto &l: lines)
        for(int cf = 0; cf < 3; cf++) {
            std::string c = encode(l.first, cf == 1 ? &conf : NULL, cf == 2 ? &conf : NULL);
            for(char k: {'F', 'C', 'R', 'P', 'Q', 'T', 'Y', 'Z'}) ctx.emit(fmt("%c0\t", k) + c);
            for(int k: {1, 2, 4, 16, 64, 256}) ctx.emit(fmt("N%d\t", k) + c);
            for(int k: {1, 100, 4096, 60000}) ctx.emit(fmt("S%d\t", k) + c);
            for(int k: {0, 1, 5000, 20000}) ctx.emit(fmt("B%d\t", k) + c);
        }
    // files opened while standard output is closed take its place
    for(auto &t: std::vector<Args>{{"-r", "file:rnd.bin", "[a-z]{5}"}, {"-w", "three:three.txt", "-r", "zero", "\\w{three}"}, {"-w", "three:three.txt", "-w", "one:one.txt", "-r", "file:rnd.bin", "\\w{three}\\w{one}"}, {"-r", "file:rnd.bin", "-j", "-a3000", "[a]{9}"}, {"-w", "three:three.txt", "-l"}})
        for(char k: {'F', 'C', 'R', 'P', 'Q', 'T', 'Y', 'Z'}) ctx.emit(fmt("%c0\t", k) + encode(t));
}

// some writes fail, those after them succeed
static void gen_transient(Ctx &ctx) {
    std::vector<std::pair<Args, const char *>> lines;
    add_lines(&lines, ctx.thorough);
    for(auto &l: lines) {
        bool is_short = !strcmp(l.second, "short");
        std::string c = encode(l.first);
        for(int mode = 0; mode < 3; mode++) {
            ctx.emit(fmt("I%d\t", mode * 10) + c);
            for(int first = 1; first <= (is_short ? mode ? 12 : 2 : ctx.thorough ? 60 : 24); first++)
                for(int count: {1, 2, 9})
                    for(int sh = 0; sh < 2; sh++) if(ctx.thorough || count == 1 || !sh) ctx.emit(fmt("I%d\t", first * 1000 + count * 100 + mode * 10 + sh) + c);
            if(!is_short) for(int first: {100, 500, 699, 700, 701, 1000, 2999, 3000, 4375, 4376}) ctx.emit(fmt("I%d\t", first * 1000 + 100 + mode * 10) + c);
        }
    }
}

int main(int argc, char **argv) {
    RENV = refenv();
    for(auto &l: LISTS) write_all(std::string(l.name) + ".txt", l.text);
    std::string r;
    for(int i = 0; i < 600000; i++) r += (char) (i * 7 + i / 256);
    write_all("rnd.bin", r);
    add({"limit", "115 command lines with standard output limited to every number of bytes up to 100, and to numbers around every multiple of 1024 or 4096 up to 73728", gen_limit, check});
    add({"kinds", "115 command lines, with and without configuration, x standard output full, closed, not writable, without reader, leaving reader, full nonblocking pipe, slow reader, shut down, lost and working terminal", gen_kinds, check});
    add({"transient", "the same command lines with one, two or nine of the writes 1..24 / 60 (and some later ones) failing or short and all others succeeding, x 3 kinds of buffering", gen_transient, check});
    return main_(argc, argv);
}
