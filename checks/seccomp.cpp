// C24: the system-call filter.  The program handed to the kernel is captured; every path through it is
// explored with the words of the system call as choice points, and compared with the documented set of
// operations; verdicts are replayed against the real kernel; the tool runs under the real filter.
#include "clirun.hpp"
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/audit.h>
#include <sys/prctl.h>
#include <sys/ioctl.h>
#include <pty.h>
#include <math.h>

// ------------------------------------------------------------------ capture
static std::vector<std::vector<sock_filter>> PROGS;
static bool LOAD = false;           // really install the filters
static int EARLY = 0;               // files opened or random bytes obtained before the filter was installed
static bool *EARLY_SHARED;
struct Captured { uint32_t n, len[16]; sock_filter f[16][4096]; };
static Captured *CAPTURED;
static void capture(const sock_fprog *p) {
    PROGS.emplace_back(p->filter, p->filter + p->len);
    if(CAPTURED && CAPTURED->n < 16) { CAPTURED->len[CAPTURED->n] = p->len; memcpy(CAPTURED->f[CAPTURED->n++], p->filter, p->len * sizeof(sock_filter)); }
}
extern "C" {
long __real_syscall(long, ...);
int __real_prctl(int, ...);
long __wrap_syscall(long n, ...) {
    va_list a;
    va_start(a, n);
    long v[6];
    for(auto &x: v) x = va_arg(a, long);
    va_end(a);
    if(n == SYS_seccomp && v[0] == SECCOMP_SET_MODE_FILTER && v[2]) { capture((sock_fprog *) v[2]); if(!LOAD) return 0; }
    return __real_syscall(n, v[0], v[1], v[2], v[3], v[4], v[5]);
}
int __wrap_prctl(int o, ...) {
    va_list a;
    va_start(a, o);
    unsigned long v[4];
    for(auto &x: v) x = va_arg(a, unsigned long);
    va_end(a);
    if(o == PR_SET_SECCOMP && v[0] == SECCOMP_MODE_FILTER && v[1]) { capture((sock_fprog *) v[1]); if(!LOAD) return 0; }
    if(o == PR_SET_NO_NEW_PRIVS && !LOAD) return 0;
    return __real_prctl(o, v[0], v[1], v[2], v[3]);
}
ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *d, size_t n, unsigned f) { if(PROGS.empty() && EARLY_SHARED) *EARLY_SHARED = true; return __real_getrandom(d, n, f); }
}
static void on_open() { if(PROGS.empty() && EARLY_SHARED) *EARLY_SHARED = true; }
// the filters are installed by the tool; here they are installed directly
static void install() {
    __real_prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    for(auto &p: PROGS) { sock_fprog f = {(unsigned short) p.size(), p.data()}; if(__real_prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &f, 0, 0)) _exit(3); }
}

// ------------------------------------------------------------------ the filter as a transition system
// words of the system call: 0 number, 1 architecture, 2/3 instruction pointer, 4.. arguments (low, high)
enum { NW = 16 };
static std::string ERR;
struct Run {
    uint32_t w[NW];
    bool read[NW];
};
static std::set<uint32_t> CONSTS, MASKS;
// runs one program; loads of unread words call choose(word)
template<class C> static uint32_t interpret(const std::vector<sock_filter> &p, Run &r, const C &choose, uint64_t &steps) {
    uint32_t A = 0, X = 0, M[16] = {0};
    for(size_t pc = 0; pc < p.size(); pc++) {
        const sock_filter &i = p[pc];
        steps++;
        switch(BPF_CLASS(i.code)) {
            case BPF_LD:
                if(BPF_MODE(i.code) == BPF_ABS && BPF_SIZE(i.code) == BPF_W && i.k % 4 == 0 && i.k < 64) {
                    int w = i.k / 4;
                    if(!r.read[w]) { r.w[w] = choose(w); r.read[w] = true; }
                    A = r.w[w];
                } else if(BPF_MODE(i.code) == BPF_IMM) A = i.k;
                else if(BPF_MODE(i.code) == BPF_MEM && i.k < 16) A = M[i.k];
                else if(BPF_MODE(i.code) == BPF_LEN) A = 64;
                else { ERR = "unknown load"; return 0; }
                break;
            case BPF_LDX:
                if(BPF_MODE(i.code) == BPF_IMM) X = i.k;
                else if(BPF_MODE(i.code) == BPF_MEM && i.k < 16) X = M[i.k];
                else { ERR = "unknown load"; return 0; }
                break;
            case BPF_ST: M[i.k & 15] = A; break;
            case BPF_STX: M[i.k & 15] = X; break;
            case BPF_MISC: if(BPF_MISCOP(i.code) == BPF_TAX) X = A; else A = X; break;
            case BPF_ALU: {
                uint32_t s = BPF_SRC(i.code) == BPF_X ? X : i.k;
                switch(BPF_OP(i.code)) {
                    case BPF_ADD: A += s; break;
                    case BPF_SUB: A -= s; break;
                    case BPF_MUL: A *= s; break;
                    case BPF_DIV: A = s ? A / s : 0; break;
                    case BPF_AND: A &= s; break;
                    case BPF_OR: A |= s; break;
                    case BPF_XOR: A ^= s; break;
                    case BPF_LSH: A <<= s & 31; break;
                    case BPF_RSH: A >>= s & 31; break;
                    case BPF_NEG: A = -A; break;
                    default: ERR = "unknown operation"; return 0;
                }
                break;
            }
            case BPF_JMP: {
                uint32_t s = BPF_SRC(i.code) == BPF_X ? X : i.k;
                bool t;
                switch(BPF_OP(i.code)) {
                    case BPF_JA: pc += i.k; continue;
                    case BPF_JEQ: t = A == s; break;
                    case BPF_JGT: t = A > s; break;
                    case BPF_JGE: t = A >= s; break;
                    case BPF_JSET: t = A & s; break;
                    default: ERR = "unknown jump"; return 0;
                }
                pc += t ? i.jt : i.jf;
                break;
            }
            case BPF_RET: return BPF_RVAL(i.code) == BPF_A ? A : i.k;
        }
    }
    ERR = "program does not return";
    return 0;
}
static bool allows(uint32_t v) { return (v & SECCOMP_RET_ACTION_FULL) == SECCOMP_RET_ALLOW || (v & SECCOMP_RET_ACTION_FULL) == SECCOMP_RET_LOG; }
static bool kills(uint32_t v) { return (v & SECCOMP_RET_ACTION_FULL) == SECCOMP_RET_KILL_THREAD || (v & SECCOMP_RET_ACTION_FULL) == SECCOMP_RET_KILL_PROCESS; }
template<class C> static uint32_t run_all(Run &r, const C &choose, uint64_t &steps) {
    uint32_t v = SECCOMP_RET_ALLOW;
    for(auto &p: PROGS) {
        uint32_t x = interpret(p, r, choose, steps);
        if((int32_t) (x & SECCOMP_RET_ACTION_FULL) < (int32_t) (v & SECCOMP_RET_ACTION_FULL)) v = x;
    }
    return v;
}

// ------------------------------------------------------------------ what is intended
enum Want { KILL, EITHER, ALLOW };
struct Call { uint32_t arch, nr; uint64_t a[6]; };
static Want wanted(const Call &c) {
    if(c.arch != AUDIT_ARCH_X86_64) return KILL;
    // the kernel looks at 32 bits of descriptors, flags and requests only
    auto fd = [&](int i) { return (uint32_t) c.a[i]; };
    auto exact = [&](int i) { return c.a[i] >> 32 ? EITHER : ALLOW; };
    switch(c.nr) {
        case SYS_open: case SYS_openat: {
            int i = c.nr == SYS_open ? 1 : 2;
            return fd(i) == O_RDONLY ? exact(i) : fd(i) == 0100000 ? EITHER : KILL;
        }
        case SYS_fstat: case SYS_newfstatat: case SYS_read: case SYS_readv: case SYS_lseek: return ALLOW;
        case SYS_write: case SYS_writev: return fd(0) == 1 || fd(0) == 2 ? exact(0) : KILL;
        case SYS_close: return fd(0) > 2 ? exact(0) : KILL;
        case SYS_getrandom: case SYS_exit: case SYS_exit_group: case SYS_brk: case SYS_munmap: case SYS_mremap: return ALLOW;
        case SYS_mmap: return c.a[0] == 0 && fd(2) == (PROT_READ | PROT_WRITE) && fd(3) == (MAP_PRIVATE | MAP_ANONYMOUS) ? c.a[2] >> 32 || c.a[3] >> 32 ? EITHER : ALLOW : KILL;
        case SYS_ioctl: return fd(0) == 1 && fd(1) == TIOCGWINSZ ? c.a[0] >> 32 || c.a[1] >> 32 ? EITHER : ALLOW : KILL;
    }
    return KILL;
}
// the argument words that matter to wanted(), with values for which it can be ALLOW
static std::vector<std::pair<int, uint32_t>> relevant(uint32_t nr) {
    auto lo = [](int i) { return 4 + 2 * i; };
    auto hi = [](int i) { return 5 + 2 * i; };
    switch(nr) {
        case SYS_open: return {{lo(1), O_RDONLY}, {hi(1), 0}};
        case SYS_openat: return {{lo(2), O_RDONLY}, {hi(2), 0}};
        case SYS_write: case SYS_writev: return {{lo(0), 1}, {hi(0), 0}};
        case SYS_close: return {{lo(0), 3}, {hi(0), 0}};
        case SYS_mmap: return {{lo(0), 0}, {hi(0), 0}, {lo(2), 3}, {hi(2), 0}, {lo(3), MAP_PRIVATE | MAP_ANONYMOUS}, {hi(3), 0}};
        case SYS_ioctl: return {{lo(0), 1}, {hi(0), 0}, {lo(1), TIOCGWINSZ}, {hi(1), 0}};
    }
    return {};
}
static Call to_call(const Run &r) {
    Call c;
    c.nr = r.w[0];
    c.arch = r.w[1];
    for(int i = 0; i < 6; i++) c.a[i] = r.w[4 + 2 * i] | (uint64_t) r.w[5 + 2 * i] << 32;
    return c;
}
static std::string show_call(const Call &c) {
    return fmt("system call %u of architecture 0x%x with arguments (0x%llx, 0x%llx, 0x%llx, 0x%llx, 0x%llx, 0x%llx)", c.nr, c.arch, (unsigned long long) c.a[0], (unsigned long long) c.a[1],
               (unsigned long long) c.a[2], (unsigned long long) c.a[3], (unsigned long long) c.a[4], (unsigned long long) c.a[5]);
}
static std::vector<uint32_t> REPS;      // representatives of the values of an argument word
static void collect(bool thorough) {
    PROGS.clear();
    CAPTURED = (Captured *) mmap(NULL, sizeof(Captured), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Setup help;
    help.args = {"-h"};
    run_cli(help);
    for(uint32_t i = 0; i < CAPTURED->n; i++) PROGS.emplace_back(CAPTURED->f[i], CAPTURED->f[i] + CAPTURED->len[i]);
    CAPTURED = NULL;
    std::set<uint32_t> k = {0, 1, 2, 3, 4, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, O_RDONLY, O_WRONLY, O_RDWR, O_CREAT | O_WRONLY, O_CREAT, O_TRUNC, O_CREAT | O_TRUNC, TIOCGWINSZ, PROT_READ | PROT_WRITE | PROT_EXEC, PROT_READ | PROT_EXEC, MAP_SHARED | MAP_ANONYMOUS, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED};
    for(int i = 0; i < 32; i++) { k.insert(1u << i); for(uint32_t b: {3u, (uint32_t) (MAP_PRIVATE | MAP_ANONYMOUS)}) k.insert(b ^ 1u << i); if(thorough) for(int j = 0; j < i; j++) k.insert(1u << i | 1u << j); }
    for(auto &p: PROGS) for(auto &i: p) {
        if(BPF_CLASS(i.code) == BPF_JMP) CONSTS.insert(i.k);
        if(BPF_CLASS(i.code) == BPF_ALU && BPF_OP(i.code) == BPF_AND) MASKS.insert(i.k);
    }
    for(uint32_t c: CONSTS) { k.insert(c - 1); k.insert(c); k.insert(c + 1); for(uint32_t m: MASKS) { k.insert(c | ~m); k.insert(c ^ (m & -m)); } }
    for(uint32_t m: MASKS) { k.insert(m); k.insert(~m); }
    REPS.assign(k.begin(), k.end());
}
// case: architecture number
static void check_call(Ctx &ctx, const std::string &c) {
    char *e;
    uint32_t arch = strtoul(c.c_str(), &e, 10), nr = strtoul(e, &e, 10);
    if(PROGS.empty()) { ctx.fail("no-filter", "no filter is installed"); return; }
    // depth-first over the values of the words in the order the filter reads them
    std::vector<std::pair<int, size_t>> path;   // word, index into REPS
    uint64_t steps = 0, paths = 0;
    auto rel = relevant(nr);
    for(;;) {
        Run r;
        memset(&r, 0, sizeof r);
        r.w[0] = nr; r.w[1] = arch;
        r.read[0] = r.read[1] = true;
        size_t at = 0;
        uint32_t v = run_all(r, [&](int w) {
            if(at == path.size()) path.push_back({w, 0});
            return REPS[path[at++].second];
        }, steps);
        paths++;
        if(!ERR.empty()) { ctx.fail("bpf " + ERR, "cannot interpret the filter: " + ERR); return; }
        ctx.state(hash_bytes(r.w, sizeof r.w));
        auto judge = [&](const Run &q) {
            Call call = to_call(q);
            Want w = wanted(call);
            if(allows(v) && w == KILL) ctx.fail(fmt("allows %u", nr), "the filter allows " + show_call(call));
            else if(!allows(v) && w == ALLOW) ctx.fail(fmt("denies %u", nr), "the filter denies " + show_call(call));
            else if(!allows(v) && !kills(v)) ctx.fail(fmt("survives %u", nr), fmt("the filter answers 0x%x instead of killing for ", v) + show_call(call));
        };
        // unread words do not influence the verdict: complete them in every relevant way
        Run q = r;
        for(auto &x: rel) if(!r.read[x.first]) q.w[x.first] = x.second;
        judge(q);
        for(auto &x: rel) if(!r.read[x.first]) { for(uint32_t k: REPS) { Run s = q; s.w[x.first] = k; judge(s); } paths += REPS.size(); }
        if(allows(v)) ctx.nontrivial();
        // next path
        path.resize(at);
        while(!path.empty() && ++path.back().second == REPS.size()) path.pop_back();
        if(path.empty() || ctx.failed) break;
        if((paths & 1023) == 0) ctx.beat();
    }
    ctx.transitions(steps);
    ctx.trace(paths);
}
static void calls(Ctx &ctx) {
    std::vector<uint32_t> nrs;
    for(uint32_t n = 0; n < (ctx.thorough ? 20000 : 2048); n++) nrs.push_back(n);
    for(uint32_t n = 0; n < 600; n++) nrs.push_back(0x40000000 + n);
    for(uint32_t n: CONSTS) for(int d = -1; d <= 1; d++) nrs.push_back(n + d);
    for(int b = 0; b < 32; b++) for(int d = -1; d <= 1; d++) nrs.push_back((1u << b) + d);
    for(uint32_t arch: std::initializer_list<uint32_t>{AUDIT_ARCH_X86_64, AUDIT_ARCH_I386, AUDIT_ARCH_AARCH64, AUDIT_ARCH_ARM, AUDIT_ARCH_X86_64 ^ 1, AUDIT_ARCH_X86_64 & ~__AUDIT_ARCH_64BIT, 0u, 0xffffffffu})
        for(uint32_t n: nrs) ctx.emit(fmt("%u %u", arch, n));
}

// ------------------------------------------------------------------ the kernel agrees
// case: number a0 .. a5 (hexadecimal).  Calls that the captured filter would allow although they are
// not intended are not issued; everything else is harmless or killed.
static void check_kernel(Ctx &ctx, const std::string &c) {
    unsigned long long v[7] = {0};
    sscanf(c.c_str(), "%llx %llx %llx %llx %llx %llx %llx", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6);
    Run r;
    memset(&r, 0, sizeof r);
    r.w[0] = v[0]; r.w[1] = AUDIT_ARCH_X86_64;
    for(int i = 0; i < 6; i++) r.w[4 + 2 * i] = v[i + 1], r.w[5 + 2 * i] = v[i + 1] >> 32;
    memset(r.read, 1, sizeof r.read);
    uint64_t steps = 0;
    uint32_t verdict = run_all(r, [](int) { return 0u; }, steps);
    Call call = to_call(r);
    Want w = wanted(call);
    if(allows(verdict) && w == KILL) { ctx.fail(fmt("allows %u", call.nr), "the filter allows " + show_call(call)); return; }
    fflush(NULL);
    pid_t pid = fork();
    if(!pid) {
        setpgid(0, 0);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        alarm(5);
        if(chdir("/nonexistent")) {}
        if(setgid(65534) || setuid(65534)) {}
        int d = __real_open("/dev/null", O_RDWR, 0);
        for(int i = 0; i < 3; i++) dup2(d, i);
        install();
        // the call and the exit are made directly
        long a = v[1], b = v[2], x = v[3], ret;
        register long r10 asm("r10") = v[4];
        register long r8 asm("r8") = v[5];
        register long r9 asm("r9") = v[6];
        asm volatile("syscall" : "=a"(ret) : "a"((long) v[0]), "D"(a), "S"(b), "d"(x), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        asm volatile("syscall" : : "a"((long) SYS_exit_group), "D"(7L) : "rcx", "r11", "memory");
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGSYS;
    ctx.trace();
    ctx.transitions(1);
    ctx.state(hash_str(c));
    if(killed != kills(verdict)) ctx.fail(fmt("kernel %u", call.nr), show_call(call) + fmt(": the captured filter %s it, but the process ends with status 0x%x", kills(verdict) ? "kills" : "allows", st));
}
static void kernel(Ctx &ctx) {
    auto put = [&](uint64_t nr, std::vector<uint64_t> a) {
        a.resize(6, 0);
        // keep what would be executed harmless
        ctx.emit(fmt("%llx %llx %llx %llx %llx %llx %llx", (unsigned long long) nr, (unsigned long long) a[0], (unsigned long long) a[1], (unsigned long long) a[2], (unsigned long long) a[3], (unsigned long long) a[4], (unsigned long long) a[5]));
    };
    for(uint64_t nr = 0; nr < 480; nr++) { if(nr == 335 || nr == 336) continue; /* uretprobe, uprobe: the kernel does not filter them */ put(nr, {}); put(nr, {~0ull, ~0ull, ~0ull, ~0ull, ~0ull, ~0ull}); put(nr | 0x40000000, {}); }
    for(uint32_t k: REPS) for(uint64_t hi: {0ull, 1ull << 32}) {
        uint64_t v = k | hi;
        put(SYS_open, {0, v}); put(SYS_openat, {0, 0, v});
        put(SYS_write, {v}); put(SYS_writev, {v}); put(SYS_close, {v});
        put(SYS_mmap, {v, 4096, 3, 0x22, ~0ull}); put(SYS_mmap, {0, 4096, v, 0x22, ~0ull}); put(SYS_mmap, {0, 4096, 3, v, ~0ull});
        put(SYS_ioctl, {v, TIOCGWINSZ}); put(SYS_ioctl, {1, v});
    }
}

// ------------------------------------------------------------------ operation under the filter
// case: kind of standard output, encoded command line
static void check_operation(Ctx &ctx, const std::string &c) {
    if(!EARLY_SHARED) EARLY_SHARED = (bool *) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *EARLY_SHARED = false;
    char kind = c[0];
    Setup s = decode(c.substr(1));
    CliResult r[2];
    std::string seen[2];
    for(int k = 0; k < 2; k++) {
        int m = -1, sl = -1, p[2] = {-1, -1};
        if(kind == 't') {
            struct winsize ws = {40, 100, 0, 0};
            if(openpty(&m, &sl, NULL, NULL, &ws)) { ctx.skipped(); return; }
        }
        if(kind == 'p' && pipe(p)) return;
        std::string file = fmt("out-%d", getpid());
        r[k] = run_cli(s, [&]() {
            PROGS.clear();
            ON_OPEN = on_open;
            LOAD = k == 1;
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            if(kind == 't') dup2(sl, 1), dup2(sl, 2);
            if(kind == 'p') dup2(p[1], 1);
            if(kind == 'n') { int d = __real_open("/dev/null", O_WRONLY, 0); dup2(d, 1); }
            if(kind == 'f') { int d = __real_open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(d, 1); }
        });
        if(kind == 't') { char b[1 << 16]; fcntl(m, F_SETFL, O_NONBLOCK); close(sl); ssize_t n; while((n = read(m, b, sizeof b)) > 0) seen[k].append(b, n); close(m); }
        if(kind == 'p') { char b[1 << 16]; close(p[1]); ssize_t n; while((n = read(p[0], b, sizeof b)) > 0) seen[k].append(b, n); close(p[0]); }
        if(kind == 'f') { seen[k] = read_all(file.c_str()); unlink(file.c_str()); }
        if(kind == 'm') seen[k] = r[k].out;
    }
    ctx.trace();
    ctx.transitions(s.args.size() + 1);
    ctx.state(hash_str(c));
    if(r[0].code == 0) ctx.nontrivial();
    std::string what = show_args(s) + fmt(" (standard output: %s): ", kind == 't' ? "terminal" : kind == 'p' ? "pipe" : kind == 'n' ? "/dev/null" : "file");
    if(r[0].sig == SIGABRT) { ctx.skipped(); return; }     // the randomness file is exhausted
    if(*EARLY_SHARED) ctx.fail("early " + esc(c).substr(0, 200), what + "files are opened or random bytes obtained before the filter is installed");
    else if(r[1].sig == SIGSYS) ctx.fail("killed " + esc(c).substr(0, 200), what + "killed by the filter");
    else if(r[0].code != r[1].code || r[0].sig != r[1].sig || seen[0] != seen[1] || r[0].err != r[1].err)
        ctx.fail("differs " + esc(c).substr(0, 200), what + fmt("exit %d signal %d without, exit %d signal %d with the filter; output '", r[0].code, r[0].sig, r[1].code, r[1].sig) + esc(seen[0]).substr(0, 300) + "' / '" + esc(seen[1]).substr(0, 300) + "'; errors '" + esc(r[0].err).substr(0, 200) + "' / '" + esc(r[1].err).substr(0, 200) + "'");
}
static void operation(Ctx &ctx) {
    std::vector<std::vector<std::string>> lines;
    std::vector<std::string> sources = {"xorshift:5", "zero", "file:random.bin", "file:/dev/zero", "chacha20:key", "chacha20:key:iv", "chacha20-argon2:pass:domain:token"};
    std::vector<std::string> pats = {"", "abc", "[a-z]{20}", "(a|b){1,9}\\u{20ac}", "\\w{one}-\\w{three}", "\\m{three}{3}", "[a-z]{3000}", "[a-z]{100000}", "(\\w{big}-){20}\\m{big}", "(", "\\w{none}", "((((((((((x))))))))))"};
    std::vector<std::vector<std::string>> modes = {{}, {"-a", "10"}, {"-a", "1000", "-z"}, {"-j"}, {"-je", "-a", "3"}, {"-e"}};
    std::vector<std::string> wl = {"-w", "one:one.txt", "-w", "three:three.txt", "-w", "big:big.txt"};
    for(auto &src: sources) for(auto &p: pats) for(auto &m: modes) {
        if(m.size() == 3 && p.size() > 9 && p.find('\\') == std::string::npos && !ctx.thorough) continue;
        auto a = m;
        a.insert(a.end(), {"-r", src});
        if(p.find('\\') != std::string::npos) a.insert(a.end(), wl.begin(), wl.end());
        a.push_back(p);
        lines.push_back(a);
    }
    for(auto pre: {"apple1", "apple2", "uuid", "firefox", "edge", "proquint16", "proquint128", "my", "nope"})
        for(auto &src: sources) lines.push_back({"-P", "my:[a-f]{9}", "-p", pre, "-r", src});
    for(auto &o: std::vector<std::vector<std::string>>{{"-h"}, {"--help"}, {"-v"}, {"-l"}, {}, {"-Q"}, {"-a", "0", "x"}, {"-M", "0", "x"}, {"-w", "x:missing", "x"}, {"-w", "bad", "x"}, {"-r", "bad", "x"}, {"-r", "file:missing", "x"}, {"a", "b"}, {"-m", "master", "[a-z]{9}"},
                                                       {"-m", "m", "-d", "d", "-t", "t", "[a-z]{9}"}, {"-M", "2", "-w", "big:big.txt", "-r", "zero", "\\m{big}"}, {"-M", "7", "-w", "big:big.txt", "-r", "xorshift:4", "(\\m{big} ){30}"}, {"abc"}, {"-a", "5", "abc"}, {"-j", "x"}}) lines.push_back(o);
    std::string conf = "# comment\npreset a [a-c]{4}\nwordlist w:big.txt\nrandom xorshift:9\n", big;
    big = "\x1d" "3000*preset p%d:[a-z]{9}\n\x1d";
    for(auto &l: lines) for(char k: {'m', 't', 'p', 'f', 'n'}) {
        // output that would block the pipe or the terminal
        bool large = false;
        for(auto &a: l) if(a == "1000" || a.find("000}") != std::string::npos) large = true;
        if(large && (k == 't' || k == 'p')) continue;
        if(k == 't' && l.size() > 1 && l[0] == "-a" && l[1] == "10" && !ctx.thorough) continue;
        ctx.emit(std::string(1, k) + encode(l));
        if(k == 'm' || k == 't') ctx.emit(std::string(1, k) + encode(l, &conf));
        if(k == 'm') ctx.emit(std::string(1, k) + encode(l, &conf, &big));
    }
    for(auto q: {"a", "\\w{w}"}) for(char k: {'m', 't', 'p', 'f', 'n'}) { ctx.emit(std::string(1, k) + encode({q[0] == 'a' ? "-p" : "-a3", q}, &conf)); ctx.emit(std::string(1, k) + encode({q[0] == 'a' ? "-p" : "-a3", q}, NULL, &conf)); if(k == 'm' || k == 'f' || k == 'n') ctx.emit(std::string(1, k) + encode({"-l"}, &conf, &big)); }
    // real system randomness: only that it is not killed
}
static void check_system(Ctx &ctx, const std::string &c) {
    Setup s = decode(c);
    CliResult r = run_cli(s, []() { PROGS.clear(); LOAD = true; });
    ctx.trace();
    ctx.state(hash_str(c));
    ctx.transitions(1);
    if(r.sig || r.code || r.out.empty()) ctx.fail("system " + esc(c), show_args(s) + fmt(": exit %d signal %d under the filter: ", r.code, r.sig) + esc(r.err).substr(0, 300));
}

int main(int argc, char **argv) {
    RENV = refenv();
    for(auto &l: LISTS) write_all(std::string(l.name) + ".txt", l.text);
    std::string big, rnd;
    for(int i = 0; i < 20000; i++) big += fmt("w%x\n", (unsigned) (i * 2654435761u >> 8));
    write_all("big.txt", big);
    uint64_t x = 88172645463325252ull;
    for(int i = 0; i < 1 << 20; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; rnd += (char) x; }
    write_all("random.bin", rnd);
    bool thorough = false;
    for(int i = 1; i < argc; i++) if(!strcmp(argv[i], "--thorough")) thorough = true;
    collect(thorough);
    if(PROGS.empty()) add({"filter", "the filter", [](Ctx &c) { c.emit("filter"); }, [](Ctx &ctx, const std::string &) { ctx.fail("no-filter", "the tool does not install a filter"); }});
    add({"program", "all paths through the captured filter for 2048 / 20000 system call numbers, x32 numbers and boundary numbers on 8 architectures, the argument words it reads being choice points over all its constants and their neighbours, all single bits / pairs of bits, and intended values", calls, check_call});
    add({"kernel", "480 system calls with zero and all-one arguments, natively and as x32; constrained calls with every representative argument; issued for real under the real filter", kernel, check_kernel});
    add({"operation", "about 600 command lines with all deterministic sources, wordlists, presets, configuration files, errors x 5 kinds of standard output: same behaviour with and without the filter", operation, check_operation});
    add({"system", "system randomness under the filter", [](Ctx &c) { for(auto p: {"[a-z]{20}", "[a-z]{3000}", "\\w{big}"}) for(auto m: {"-a1", "-a100", "-ja3", "-ea2"}) for(auto r: {"", "system", "file:/dev/urandom"}) { std::vector<std::string> a = {m, p, "-w", "big:big.txt"}; if(*r) a.insert(a.end(), {"-r", r}); c.emit(encode(a)); } }, check_system});
    return main_(argc, argv);
}
