// C27: all memory of the tool is locked, present and future, from before it opens the first file or
// reads the first random byte until it ends.
#define REAL_MLOCK
#include "clirun.hpp"
#include <sys/resource.h>

struct Shm { int events, reads, opens, ended, bad; char what[256]; };
static Shm *S;
static int LOCKABLE = -1;      // whether this system lets us lock memory
// where it does not, the calls are recorded instead and succeed
static int FLAGS;
static bool UNLOCKED;
extern "C" int mlockall(int flags) {
    if(LOCKABLE == 1) return syscall(SYS_mlockall, flags);
    if(!UNLOCKED || (flags & MCL_CURRENT)) UNLOCKED = false;
    FLAGS = (flags & (MCL_FUTURE | MCL_ONFAULT)) | ((flags | FLAGS) & MCL_CURRENT);
    return 0;
}
extern "C" int munlockall(void) {
    if(LOCKABLE == 1) return syscall(SYS_munlockall);
    FLAGS = 0;
    return 0;
}
extern "C" int munlock(const void *p, size_t n) {
    if(LOCKABLE == 1) return syscall(SYS_munlock, p, n);
    UNLOCKED = true;
    return 0;
}
static void *TABLE_AT;
static void drop_table() { munmap(TABLE_AT, TABLE * 8); }       // the explorer's own memory would be locked, too

// name of a writable private mapping that is not locked, or ""
static std::string unlocked() {
    static char buf[1 << 18];
    int fd = __real_open("/proc/self/smaps", O_RDONLY, 0);
    if(fd < 0) return "";
    size_t n = 0;
    ssize_t k;
    while((k = read(fd, buf + n, sizeof buf - 1 - n)) > 0) n += k;
    close(fd);
    buf[n] = 0;
    std::string head;
    for(char *l = buf; l && *l;) {
        char *e = strchr(l, '\n');
        std::string line(l, e ? e - l : strlen(l));
        l = e ? e + 1 : NULL;
        unsigned long a, b;
        char perm[8];
        if(sscanf(line.c_str(), "%lx-%lx %7s", &a, &b, perm) == 3) head = line;
        else if(!line.compare(0, 8, "VmFlags:")) {
            if(head.find(" rw-p ") == std::string::npos) continue;
            if((line + " ").find(" lo ") == std::string::npos) return head;
        }
    }
    return "";
}
static bool lockable() {
    if(LOCKABLE < 0) {
        pid_t pid = fork();
        if(!pid) {
            drop_table();
            // room for the largest cases
            bool before = unlocked().empty();
            _exit(before ? 2 : syscall(SYS_mlockall, MCL_CURRENT | MCL_FUTURE) == 0 && unlocked().empty() && malloc(256 << 20) ? 0 : 1);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        LOCKABLE = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    }
    return LOCKABLE;
}
static bool IN;
static void event(const char *what) {
    if(!IN) return;
    IN = false;
    S->events++;
    if(!S->bad && LOCKABLE != 1) {
        if(UNLOCKED || !(FLAGS & MCL_CURRENT)) { S->bad = 1; snprintf(S->what, sizeof S->what, "%s: memory has not been locked", what); }
        else if(!(FLAGS & MCL_FUTURE)) { S->bad = 1; snprintf(S->what, sizeof S->what, "%s: future memory is not locked", what); }
    } else if(!S->bad) {
        std::string u = unlocked();
        if(!u.empty()) { S->bad = 1; snprintf(S->what, sizeof S->what, "%s: %s is not locked", what, u.c_str()); }
        else {
            void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if(p != MAP_FAILED) {
                u = unlocked();
                if(!u.empty()) { S->bad = 1; snprintf(S->what, sizeof S->what, "%s: new memory is not locked", what); }
                munmap(p, 4096);
            }
        }
    }
    IN = true;
}
extern "C" ssize_t __real_getrandom(void *, size_t, unsigned);
extern "C" ssize_t __wrap_getrandom(void *d, size_t n, unsigned fl) {
    if(IN) S->reads++;
    event("when randomness is read");
    ssize_t r = __real_getrandom(d, n, fl);
    event("after randomness is read");
    return r;
}
static void on_open() { if(IN) S->opens++; event("when a file is opened"); }
static void on_exit_() { event("at exit"); S->ended = 1; }

static void check(Ctx &ctx, const std::string &c) {
    if(!S) S = (Shm *) mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ctx.evals();
    TABLE_AT = (void *) ctx.table;
    if(getenv("MC_NOLOCK")) LOCKABLE = 0;
    lockable();
    memset(S, 0, sizeof *S);
    Setup s = decode(c);
    CliResult r = run_cli(s, [&]() {
        drop_table();
        ON_OPEN = on_open; atexit(on_exit_); IN = true; });
    ctx.trace();
    ctx.transitions(S->events);
    ctx.state(hash_str(c));
    if(S->events > 1) ctx.nontrivial();
    if(r.sig && r.sig != SIGABRT) { ctx.fail("crash " + esc(c).substr(0, 200), show_args(s) + fmt(": signal %d ", r.sig) + esc(r.err).substr(0, 300)); return; }
    if(S->bad) ctx.fail("unlocked " + esc(c).substr(0, 200), show_args(s) + ": " + S->what);
}
static void gen(Ctx &ctx) {
    typedef std::vector<std::string> Args;
    std::string confs[] = {"preset p1 [a-c]{3}\nwordlist w1 three.txt\nrandom zero\n", "random system\n", "wordlist w1 one.txt\nwordlist w2 three.txt\n", "random xorshift:3\npreset p1 a\n"};
    std::vector<Args> opts = {{"-a", "3"}, {"-e"}, {"-j"}, {"-z"}, {"-w", "three:three.txt"}, {"-M2"}, {"-P", "x:abc"}, {"-D", "9"}};
    std::vector<Args> rnd = {{}, {"-r", "system"}, {"-r", "zero"}, {"-r", "xorshift:7"}, {"-r", "file:rnd.bin"}, {"-r", "chacha20:abc"}, {"-r", "chacha20:a:b:c"}, {"-m", "secret"}, {"-m", "secret", "-d", "dom", "-t", "tok"}, {"-r", "nosuch"}};
    std::vector<Args> what = {{"[a-z]{30}"}, {"a{100000}"}, {"\\w{three}\\m{three}"}, {"\\m{w1}"}, {"-p", "uuid"}, {"-p", "p1"}, {"a("}, {}, {"-l"}, {"-h"}, {"-v"}, {"a", "b"}, {"-?"}};
    for(auto &r: rnd)
        for(auto &w: what)
            for(int m = 0; m < 1 << opts.size(); m++) {
                if(!ctx.thorough && __builtin_popcount(m) > 1 && m != 255) continue;
                Args a = r;
                for(size_t i = 0; i < opts.size(); i++) if(m >> i & 1) a.insert(a.end(), opts[i].begin(), opts[i].end());
                a.insert(a.end(), w.begin(), w.end());
                ctx.emit(encode(a));
            }
    for(auto &r: rnd)
        for(auto &w: what)
            for(int sc = -1; sc < 4; sc++)
                for(int uc = -1; uc < 4; uc++) {
                    if(sc < 0 && uc < 0) continue;
                    Args a = r;
                    a.insert(a.end(), w.begin(), w.end());
                    ctx.emit(encode(a, sc < 0 ? NULL : &confs[sc], uc < 0 ? NULL : &confs[uc]));
                }
    // memory of every size, long runs
    for(auto n: {"1", "100", "1000", "20000"})
        for(auto p: {"[a-z]{3}", "a{1000}", "\\w{three}", "(a|b{9}){40}"})
            for(auto &r: rnd) {
                if(ctx.thorough || strcmp(n, "20000") || *p == '[') { Args a = r; a.insert(a.end(), {"-w", "three:three.txt", "-a", n, p}); ctx.emit(encode(a)); }
            }
    for(size_t n = 64; n <= (ctx.thorough ? 4u : 1u) << 20; n *= 2) { ctx.emit(encode({"\x1d" + fmt("%zu", n / 8) + "*[a-z]{2}\x1d"})); ctx.emit(encode({fmt("x{%zu}", n)})); }
}

int main(int argc, char **argv) {
    RENV = refenv();
    for(auto &l: LISTS) write_all(std::string(l.name) + ".txt", l.text);
    std::string rnd;
    for(int i = 0; i < 400000; i++) rnd += (char) (i * 7 + i / 256);
    write_all("rnd.bin", rnd);
    add({"locked", "10 sources x 13 patterns, presets and immediate options x subsets of 8 options (none, one or all; thorough: every subset) and x all pairs of 5 system and user configurations; amounts to 20000, patterns and outputs to 1 MB (thorough 4); locks observed at every opening of a file, every read of randomness and at exit", gen, check});
    return main_(argc, argv);
}
