// Explicit enumeration driver shared by all checks.
//
// A check is a set of "spaces".  A space enumerates a finite, stated set of cases (strings) and
// decides each of them by running the real code.  Cases are sharded over forked workers; a worker
// that crashes, is stopped by a sanitizer, exits, or hangs yields a violation for the case it was
// running and is resumed behind it.  Every violation is re-run alone before it is reported.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <atomic>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

inline double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const uint8_t *b = (const uint8_t *) p;
    for(size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    return h;
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

// printable form of arbitrary bytes (used for replay files and samples)
inline std::string esc(const std::string &s) {
    std::string o;
    char b[8];
    for(unsigned char c: s) {
        if(c >= 0x20 && c < 0x7f && c != '%') o += (char) c;
        else { snprintf(b, sizeof b, "%%%02x", c); o += b; }
    }
    return o;
}
inline std::string unesc(const std::string &s) {
    std::string o;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '%' && i + 2 < s.size()) {
            o += (char) strtol(s.substr(i + 1, 2).c_str(), NULL, 16);
            i += 2;
        } else o += s[i];
    }
    return o;
}

// ---------------------------------------------------------------- shared memory
static const size_t CASE_MAX = 8192, MSG_MAX = 4096, NVIOL = 64, NSAMPLES = 64, NENOUGH = 16;
static const size_t TABLE = 1u << 25;

struct Slot {                         // one per worker
    std::atomic<uint64_t> seq;        // number of cases started by this worker in this space
    std::atomic<uint64_t> beat;       // heartbeat (progress inside long cases)
    std::atomic<int> busy;
    uint32_t case_len;
    char case_text[CASE_MAX];
};
struct Violation {
    std::atomic<int> ready;
    uint32_t case_len;
    char case_text[CASE_MAX];
    char key[512];
    char msg[MSG_MAX];
};
struct Shared {
    std::atomic<uint64_t> cases, transitions, traces, evals, nontrivial, states, table_full, skipped;
    std::atomic<uint32_t> nviol;
    std::atomic<uint32_t> nknown;
    std::atomic<uint32_t> nsamples;
    std::atomic<int> stop;
    Slot slot[64];
    Violation viol[NVIOL];
    char samples[NSAMPLES][512];
    std::atomic<uint32_t> sample_ready[NSAMPLES];
    std::atomic<uint32_t> counters[64];
};

struct Ctx;
struct Space {
    std::string name;
    std::string rule;                                       // what is enumerated
    std::function<void(Ctx &)> gen;                         // calls ctx.emit(case)
    std::function<void(Ctx &, const std::string &)> check;  // decides one case
    double case_timeout = 60;
    int max_workers = 64;
};

struct Ctx {
    Shared *sh = nullptr;
    std::atomic<uint64_t> *table = nullptr;
    const Space *space = nullptr;
    bool thorough = false;
    std::string prop;
    int worker = 0, nworkers = 1;
    uint64_t skip = 0;      // emitted cases of this worker to skip (resume)
    uint64_t emitted = 0, unit = 0;
    bool replay = false;
    bool failed = false;
    std::string current;
    std::string fail_key, fail_msg;
    std::set<std::string> *known = nullptr;
    double deadline = 0;

    // round-robin sharding: returns true if the next unit of work belongs to this worker
    bool take() { return (int) (unit++ % nworkers) == worker; }
    bool stopped() const { return !replay && sh->stop.load(std::memory_order_relaxed); }

    void beat() { sh->slot[worker].beat.fetch_add(1, std::memory_order_relaxed); }

    // record a distinct explored state; true if new
    bool state(uint64_t h) {
        if(!h) h = 1;
        size_t i = (size_t) (h * 0x9E3779B97F4A7C15ull >> 20) & (TABLE - 1);
        for(int probe = 0; probe < 64; probe++) {
            uint64_t v = table[i].load(std::memory_order_relaxed);
            if(v == h) return false;
            if(v == 0) {
                if(table[i].compare_exchange_strong(v, h)) { sh->states++; return true; }
                if(v == h) return false;
            }
            i = (i + 1) & (TABLE - 1);
        }
        sh->table_full++;
        return false;
    }
    void transitions(uint64_t n) { sh->transitions.fetch_add(n, std::memory_order_relaxed); }
    void trace(uint64_t n = 1) { sh->traces.fetch_add(n, std::memory_order_relaxed); }
    void nontrivial(uint64_t n = 1) { sh->nontrivial.fetch_add(n, std::memory_order_relaxed); }
    void evals(uint64_t n = 1) { sh->evals.fetch_add(n, std::memory_order_relaxed); }
    void skipped(uint64_t n = 1) { sh->skipped.fetch_add(n, std::memory_order_relaxed); }

    // a case with sharding by unit (each case is its own unit)
    void emit(const std::string &c) { if(take()) emit_mine(c); }
    // a case that belongs to this worker
    void emit_mine(const std::string &c) {
        if(stopped()) return;
        uint64_t n = emitted++;
        if(n < skip) return;
        run(c);
    }
    void run(const std::string &c) {
        Slot &s = sh->slot[worker];
        current = c;
        s.case_len = c.size() < CASE_MAX ? c.size() : CASE_MAX;
        memcpy(s.case_text, c.data(), s.case_len);
        s.seq.store(emitted, std::memory_order_relaxed);
        s.beat.fetch_add(1, std::memory_order_relaxed);
        s.busy.store(1, std::memory_order_release);
        failed = false;
        space->check(*this, c);
        s.busy.store(0, std::memory_order_release);
        sh->cases.fetch_add(1, std::memory_order_relaxed);
        if(!failed) sample(c);
    }
    void sample(const std::string &c) {
        // keep a spread of cases: powers of two of the running case count
        uint64_t k = sh->cases.load(std::memory_order_relaxed);
        if((k & (k - 1)) == 0) {
            uint32_t i = sh->nsamples++;
            if(i < NSAMPLES) {
                snprintf(sh->samples[i], 512, "%s: %s", space->name.c_str(), esc(c).c_str());
                sh->sample_ready[i] = 1;
            }
        }
    }
    // report a violation of the property by the current case
    void fail(const std::string &key, const std::string &msg) {
        if(failed) return;
        failed = true;
        fail_key = key;
        fail_msg = msg;
        if(replay) return;
        record(sh, current, key, msg);
    }
    void record(Shared *sh, const std::string &c, const std::string &key, const std::string &msg) {
        if(known && known->count(key)) { sh->nknown++; }
        uint32_t i = sh->nviol++;
        if(i >= NVIOL) { sh->stop = 1; return; }
        if(i + 1 >= sh->nknown + NENOUGH) sh->stop = 1;
        Violation &v = sh->viol[i];
        v.case_len = c.size() < CASE_MAX ? c.size() : CASE_MAX;
        memcpy(v.case_text, c.data(), v.case_len);
        snprintf(v.key, sizeof v.key, "%s", key.c_str());
        snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
        v.ready = 1;
    }
};

inline std::string json_str(const std::string &s) {
    std::string o = "\"";
    char b[8];
    for(unsigned char c: s) {
        if(c == '"' || c == '\\') { o += '\\'; o += c; }
        else if(c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

inline std::vector<Space> &spaces() { static std::vector<Space> s; return s; }
inline void add(Space s) { spaces().push_back(s); }

// run one case in a fresh child. Returns "" if it held, else a message
inline std::string run_alone(Shared *sh, std::atomic<uint64_t> *table, const Space &sp, const Ctx &proto,
                             const std::string &c, double timeout, std::string *key, bool quiet) {
    int fds[2];
    if(pipe(fds)) return "";
    fflush(NULL);
    pid_t pid = fork();
    if(pid == 0) {
        close(fds[0]);
        setpgid(0, 0);
        if(quiet) {
            int d = open("/dev/null", O_WRONLY);
            dup2(d, 1); dup2(d, 2);
        }
        Ctx ctx = proto;
        ctx.sh = sh; ctx.table = table; ctx.space = &sp; ctx.replay = true; ctx.worker = 63; ctx.nworkers = 1;
        ctx.current = c;
        sp.check(ctx, c);
        std::string out = ctx.failed ? "F" + ctx.fail_key + "\n" + ctx.fail_msg : "P";
        if(write(fds[1], out.data(), out.size()) < 0) {}
        fflush(NULL);
        _exit(0);
    }
    close(fds[1]);
    std::string res;
    double t0 = now();
    bool to = false;
    int st = 0;
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
    for(;;) {
        char b[4096];
        ssize_t n = read(fds[0], b, sizeof b);
        if(n > 0) { res.append(b, n); continue; }
        pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) {
            while((n = read(fds[0], b, sizeof b)) > 0) res.append(b, n);
            break;
        }
        if(now() - t0 > timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); to = true; break; }
        usleep(2000);
    }
    close(fds[0]);
    if(to) { *key = "hang " + esc(c).substr(0, 200); return "does not finish within " + std::to_string((int) timeout) + " s"; }
    if(!res.empty() && res[0] == 'P') return "";
    if(!res.empty() && res[0] == 'F') {
        size_t nl = res.find('\n');
        *key = res.substr(1, nl - 1);
        return res.substr(nl + 1);
    }
    *key = "crash " + esc(c).substr(0, 200);
    if(WIFSIGNALED(st)) return "terminated by signal " + std::to_string(WTERMSIG(st));
    return "terminated with exit status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or failed assertion)";
}

struct Result { std::string space, c, key, msg; };

inline int main_(int argc, char **argv) {
    bool thorough = false;
    std::string prop = "?", out, replay, only, knownfile;
    int jobs = 8;
    double budget = 0;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(a == "--thorough") thorough = true;
        else if(a == "--prop") prop = argv[++i];
        else if(a == "--out") out = argv[++i];
        else if(a == "--replay") replay = argv[++i];
        else if(a == "--space") only = argv[++i];
        else if(a == "--known") knownfile = argv[++i];
        else if(a == "--jobs") jobs = atoi(argv[++i]);
        else if(a == "--budget") budget = atof(argv[++i]);
    }
    Shared *sh = (Shared *) mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto *table = (std::atomic<uint64_t> *) mmap(NULL, TABLE * 8, PROT_READ | PROT_WRITE,
                                                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::set<std::string> known;
    if(!knownfile.empty()) {
        FILE *f = fopen(knownfile.c_str(), "r");
        char line[2048];
        while(f && fgets(line, sizeof line, f)) {
            size_t n = strlen(line);
            if(n && line[n - 1] == '\n') line[n - 1] = 0;
            known.insert(line);
        }
        if(f) fclose(f);
    }
    Ctx proto;
    proto.thorough = thorough;
    proto.prop = prop;
    proto.known = &known;

    if(!replay.empty()) {
        // file: "<space>\n<escaped case>\n"
        FILE *f = fopen(replay.c_str(), "r");
        if(!f) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        std::string text;
        char b[4096];
        size_t n;
        while((n = fread(b, 1, sizeof b, f)) > 0) text.append(b, n);
        fclose(f);
        size_t p = text.find('\n');
        std::string sname = text.substr(0, p), c = unesc(text.substr(p + 1, text.find('\n', p + 1) - p - 1));
        for(auto &sp: spaces())
            if(sp.name == sname) {
                std::string key, m = run_alone(sh, table, sp, proto, c, 4 * sp.case_timeout, &key, false);
                if(m.empty()) { printf("REPLAY held\n"); return 0; }
                printf("REPLAY violated: key=%s\n%s\n", key.c_str(), m.c_str());
                return 1;
            }
        fprintf(stderr, "unknown space %s\n", sname.c_str());
        return 2;
    }

    std::vector<Result> results;
    std::string spjson;
    uint64_t unrepro = 0;
    double t_start = now();
    bool truncated = false;
    for(auto &sp: spaces()) {
        if(!only.empty() && sp.name.find(only) == std::string::npos) continue;
        uint64_t c0 = sh->cases, s0 = sh->states, tr0 = sh->transitions;
        double t0 = now();
        sh->nviol = 0; sh->nknown = 0; sh->stop = 0;
        for(auto &v: sh->viol) v.ready = 0;
        int nw = jobs < sp.max_workers ? jobs : sp.max_workers;
        std::vector<pid_t> pids(nw, -1);
        std::vector<uint64_t> resume(nw, 0), last_beat(nw, 0);
        std::vector<double> beat_t(nw, now());
        auto start = [&](int w) {
            sh->slot[w].seq = resume[w];
            sh->slot[w].busy = 0;
            fflush(NULL);
            pid_t pid = fork();
            if(pid == 0) {
                setpgid(0, 0);
                int d = open("/dev/null", O_WRONLY);
                if(!getenv("MC_VERBOSE")) { dup2(d, 1); dup2(d, 2); }
                Ctx ctx = proto;
                ctx.sh = sh; ctx.table = table; ctx.space = &sp; ctx.worker = w; ctx.nworkers = nw; ctx.skip = resume[w];
                sp.gen(ctx);
                _exit(77);
            }
            pids[w] = pid;
            beat_t[w] = now();
            last_beat[w] = sh->slot[w].beat;
        };
        for(int w = 0; w < nw; w++) start(w);
        int alive = nw, hangs = 0;
        while(alive) {
            usleep(alive ? 3000 : 0);
            for(int w = 0; w < nw; w++) {
                if(pids[w] < 0) continue;
                int st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                Slot &s = sh->slot[w];
                bool dead = false, hang = false;
                if(r == pids[w]) {
                    if(WIFEXITED(st) && WEXITSTATUS(st) == 77) { pids[w] = -1; alive--; continue; }
                    dead = true;
                } else {
                    uint64_t b = s.beat;
                    if(b != last_beat[w]) { last_beat[w] = b; beat_t[w] = now(); }
                    else if(s.busy && now() - beat_t[w] > sp.case_timeout) {
                        kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL);
                        waitpid(pids[w], &st, 0);
                        dead = hang = true;
                    }
                }
                if(dead) {
                    if(hang && ++hangs >= 4) sh->stop = 1;
                    kill(-pids[w], SIGKILL);
                    std::string c(s.case_text, s.case_len);
                    Ctx tmp = proto;
                    tmp.sh = sh;
                    if(s.busy)
                        tmp.record(sh, c, (hang ? "hang " : "crash ") + esc(c).substr(0, 200),
                               hang ? "case does not finish" : WIFSIGNALED(st) ? "terminated by signal " + std::to_string(WTERMSIG(st))
                                    : "terminated with exit status " + std::to_string(WEXITSTATUS(st)));
                    else
                        fprintf(stderr, "warning: worker ended between cases (status %d)\n", st);
                    resume[w] = s.seq;
                    if(sh->stop) { pids[w] = -1; alive--; }
                    else start(w);
                }
            }
            if(budget > 0 && now() - t_start > budget && !sh->stop) { sh->stop = 1; truncated = true; }
        }
        uint32_t nv = sh->nviol < NVIOL ? sh->nviol.load() : NVIOL;
        std::set<std::string> seen;
        int confirmed = 0;
        double t_confirm = now();
        for(uint32_t i = 0; i < nv && confirmed < 6; i++) {
            if(confirmed && now() - t_confirm > 20) break;
            Violation &v = sh->viol[i];
            if(!v.ready) continue;
            std::string c(v.case_text, v.case_len), key, m;
            // re-run alone, outside the worker that reported it
            double limit = (strncmp(v.key, "hang ", 5) ? 4 : 1.5) * sp.case_timeout;
            m = run_alone(sh, table, sp, proto, c, limit, &key, true);
            if(m.empty()) m = run_alone(sh, table, sp, proto, c, limit, &key, true);
            if(m.empty()) {
                unrepro++;
                fprintf(stderr, "note: not reproduced alone: [%s] %s: %s\n", sp.name.c_str(), esc(c).c_str(), v.msg);
                continue;
            }
            if(!seen.insert(key).second) continue;
            if(!known.count(key)) confirmed++;
            results.push_back({sp.name, c, key, m});
        }
        char b[512];
        snprintf(b, sizeof b, "\"cases\":%llu,\"new_states\":%llu,\"transitions\":%llu,\"wall_s\":%.2f",
                 (unsigned long long) (sh->cases - c0), (unsigned long long) (sh->states - s0),
                 (unsigned long long) (sh->transitions - tr0), now() - t0);
        if(!spjson.empty()) spjson += ",";
        spjson += "{\"space\":" + json_str(sp.name) + ",\"rule\":" + json_str(sp.rule) + "," + b + "}";
        if(getenv("MC_VERBOSE") || isatty(2))
            fprintf(stderr, "[%s] %s %s viol=%u\n", prop.c_str(), sp.name.c_str(), b, nv);
        if(sh->stop) truncated = true;
        // the property is decided: it does not hold
        if(confirmed && !getenv("MC_ALL")) { truncated = true; break; }
    }
    std::string j = "{";
    char b[1024];
    snprintf(b, sizeof b,
             "\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evals\":%llu,\"nontrivial\":%llu,"
             "\"skipped\":%llu,\"table_full\":%llu,\"unreproduced\":%llu,\"truncated\":%s,\"wall_s\":%.3f,",
             (unsigned long long) sh->cases, (unsigned long long) sh->states, (unsigned long long) sh->transitions,
             (unsigned long long) sh->traces, (unsigned long long) sh->evals, (unsigned long long) sh->nontrivial,
             (unsigned long long) sh->skipped, (unsigned long long) sh->table_full, (unsigned long long) unrepro,
             truncated ? "true" : "false", now() - t_start);
    j += b;
    j += "\"spaces\":[" + spjson + "],\"samples\":[";
    bool first = true;
    for(size_t i = 0; i < NSAMPLES; i++)
        if(sh->sample_ready[i]) { if(!first) j += ","; first = false; j += json_str(sh->samples[i]); }
    j += "],\"violations\":[";
    first = true;
    for(auto &r: results) {
        if(!first) j += ",";
        first = false;
        j += "{\"space\":" + json_str(r.space) + ",\"case\":" + json_str(esc(r.c)) + ",\"key\":" + json_str(r.key) + ",\"msg\":" + json_str(r.msg) + "}";
    }
    j += "]}\n";
    if(!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        fputs(j.c_str(), f);
        fclose(f);
    } else fputs(j.c_str(), stdout);
    return 0;
}

// ------------------------------------------------------------ small helpers
// enumerate all strings over an alphabet of symbols up to a length
inline void all_strings(const std::vector<std::string> &alpha, size_t maxlen, const std::function<bool(const std::string &, size_t)> &f,
                        std::string prefix = "", size_t len = 0) {
    if(!f(prefix, len)) return;
    if(len == maxlen) return;
    for(auto &a: alpha) all_strings(alpha, maxlen, f, prefix + a, len + 1);
}

template<class... A> inline std::string fmt(const char *f, A... a) {
    char b[2048];
    snprintf(b, sizeof b, f, a...);
    return b;
}

} // namespace mc
