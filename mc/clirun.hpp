// Runs the real command-line tool (its main function, linked in as passgen_main) in a child process
// with captured output and redirected configuration, and a model of what it is documented to do.
#pragma once
#include "mc.hpp"
#include "patterns.hpp"
#include "ref_json.hpp"
#include <math.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
extern "C" {
#include <passgen/passgen.h>
#include <passgen/generate.h>
#include <passgen/random.h>
#include <passgen/error.h>
#include <passgen/pattern/env.h>
#include <passgen/util/utf8.h>
#include <passgen/wordlist.h>
#include <passgen/parser/parser.h>
passgen_random *passgen_random_chacha20_argon2_open(passgen_random *random, const uint8_t *passphrase, const uint8_t *domain, const uint8_t *token, passgen_argon2_config *config);
int passgen_main(int argc, char **argv);
#ifndef REAL_MLOCK
int mlockall(int) { return 0; }
#endif
}

// ------------------------------------------------------------------ redirection of /etc/passgen.conf
static const char *SYSCONF = "/nonexistent/passgen.conf";
static void (*ON_OPEN)(void);
static const char *redirect(const char *p) { if(ON_OPEN) ON_OPEN(); return p && !strcmp(p, "/etc/passgen.conf") ? SYSCONF : p; }
extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
int __real_openat(int, const char *, int, ...);
FILE *__wrap_fopen(const char *p, const char *m) { return __real_fopen(redirect(p), m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __real_fopen(redirect(p), m); }
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(redirect(p), f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(redirect(p), f, m); }
int __wrap_openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_openat(d, redirect(p), f, m); }
}

static std::string read_all(const char *p) {
    std::string s;
    FILE *f = __real_fopen(p, "r");
    if(!f) return s;
    char b[65536];
    size_t n;
    while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
static void write_all(const std::string &p, const std::string &s) {
    FILE *f = __real_fopen(p.c_str(), "w");
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}

// ------------------------------------------------------------------ running
struct CliResult { int code = -1; int sig = 0; std::string out, err; };
struct Setup {
    std::vector<std::string> args;
    bool has_sys = false, has_user = false;
    std::string sys, user;
};
// $NN*text; repeats a text, to keep cases short
static std::string expand(const std::string &s) {
    std::string o;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '\x1d') {
            size_t star = s.find('*', i), end = s.find('\x1d', i + 1);
            int n = atoi(s.c_str() + i + 1);
            std::string t = s.substr(star + 1, end - star - 1);
            // %d in the text is the running number
            for(int k = 0; k < n; k++) { size_t d = t.find("%d"); o += d == std::string::npos ? t : t.substr(0, d) + fmt("%d", k) + t.substr(d + 2); }
            i = end;
        } else o += s[i];
    }
    return o;
}
static Setup decode(const std::string &c) {
    Setup s;
    size_t at = 0;
    std::string cur;
    for(;;) {
        size_t e = c.find('\x1f', at);
        std::string f = c.substr(at, e == std::string::npos ? e : e - at);
        if(f[0] == 'S') { s.has_sys = true; s.sys = expand(f.substr(1)); }
        else if(f[0] == 'U') { s.has_user = true; s.user = expand(f.substr(1)); }
        else if(f[0] == 'A') s.args.push_back(expand(f.substr(1)));
        if(e == std::string::npos) break;
        at = e + 1;
    }
    return s;
}
static std::string encode(const std::vector<std::string> &args, const std::string *sys = NULL, const std::string *user = NULL) {
    std::string c;
    for(auto &a: args) c += (c.empty() ? "A" : "\x1f" "A") + a;
    if(sys) c += "\x1f" "S" + *sys;
    if(user) c += "\x1f" "U" + *user;
    return c.empty() ? "N" : c;
}
static int CAP[2] = {-1, -1};
static pid_t CAP_OWNER;
static CliResult run_cli(const Setup &s, const std::function<void()> &before = nullptr) {
    if(CAP_OWNER != getpid()) {
        CAP_OWNER = getpid();
        for(auto &c: CAP) c = syscall(SYS_memfd_create, "cap", 0);
        mkdir(fmt("h%d", getpid()).c_str(), 0755);
        mkdir(fmt("h%d/.config", getpid()).c_str(), 0755);
    }
    std::string home = fmt("h%d", CAP_OWNER), sysc = home + "/sys.conf", userc = home + "/.config/passgen.conf";
    if(s.has_sys) write_all(sysc, s.sys);
    if(s.has_user) write_all(userc, s.user);
    else unlink(userc.c_str());
    fflush(NULL);
    pid_t pid = fork();
    if(!pid) {
        alarm(60);
        SYSCONF = s.has_sys ? sysc.c_str() : "/nonexistent/passgen.conf";
        setenv("HOME", home.c_str(), 1);
        unsetenv("XDG_CONFIG_PATH");
        unsetenv("POSIXLY_CORRECT");
        for(int i = 0; i < 2; i++) { if(ftruncate(CAP[i], 0)) {} lseek(CAP[i], 0, SEEK_SET); dup2(CAP[i], 1 + i); }
        close(0);
        __real_open("/dev/null", O_RDONLY, 0);
        std::vector<char *> argv;
        argv.push_back(strdup("passgen"));
        for(auto &a: s.args) argv.push_back(strdup(a.c_str()));
        argv.push_back(NULL);
        if(before) before();
        exit(passgen_main(argv.size() - 1, argv.data()));
    }
    CliResult r;
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(WIFEXITED(st)) r.code = WEXITSTATUS(st);
    else r.sig = WTERMSIG(st);
    for(int i = 0; i < 2; i++) {
        std::string &o = i ? r.err : r.out;
        struct stat sb;
        fstat(CAP[i], &sb);
        o.resize(sb.st_size);
        if(sb.st_size && pread(CAP[i], &o[0], sb.st_size, 0) != sb.st_size) o = "(read error)";
    }
    return r;
}

// ------------------------------------------------------------------ the documented behaviour
struct LongOpt { const char *name; char c; bool arg; };
static const LongOpt LONG[] = {
    {"amount", 'a', true}, {"help", 'h', false}, {"preset", 'p', true}, {"depth", 'D', true}, {"version", 'v', false}, {"null", 'z', false},
    {"entropy", 'e', false}, {"wordlist", 'w', true}, {"random", 'r', true}, {"list", 'l', false}, {"define-preset", 'P', true},
    {"json", 'j', false}, {"markov-length", 'M', true}, {"master", 'm', true}, {"domain", 'd', true}, {"token", 't', true},
};
struct Parsed { std::vector<std::pair<char, std::string>> opts; std::vector<std::string> pos; };
static Parsed parse_args(const std::vector<std::string> &a) {
    Parsed p;
    for(size_t i = 0; i < a.size(); i++) {
        const std::string &s = a[i];
        if(s == "--") { for(i++; i < a.size(); i++) p.pos.push_back(a[i]); break; }
        if(s.size() < 2 || s[0] != '-') { p.pos.push_back(s); continue; }
        if(s[1] == '-') {
            size_t eq = s.find('=');
            std::string n = s.substr(2, eq == std::string::npos ? eq : eq - 2);
            const LongOpt *hit = NULL;
            int hits = 0;
            for(auto &l: LONG) { if(n == l.name) { hit = &l; hits = 1; break; } if(std::string(l.name).compare(0, n.size(), n) == 0) { hit = &l; hits++; } }
            if(hits != 1) { p.opts.push_back({'?', s}); continue; }
            if(!hit->arg) { p.opts.push_back({eq == std::string::npos ? hit->c : '?', ""}); continue; }
            if(eq != std::string::npos) p.opts.push_back({hit->c, s.substr(eq + 1)});
            else if(i + 1 < a.size()) p.opts.push_back({hit->c, a[++i]});
            else p.opts.push_back({'?', s});
            continue;
        }
        for(size_t k = 1; k < s.size(); k++) {
            const LongOpt *hit = NULL;
            for(auto &l: LONG) if(l.c == s[k]) hit = &l;
            if(!hit) { p.opts.push_back({'?', s}); continue; }
            if(!hit->arg) { p.opts.push_back({hit->c, ""}); continue; }
            if(k + 1 < s.size()) p.opts.push_back({hit->c, s.substr(k + 1)});
            else if(i + 1 < a.size()) p.opts.push_back({hit->c, a[++i]});
            else p.opts.push_back({'?', s});
            break;
        }
    }
    return p;
}

static std::map<std::string, std::string> BUILTIN;      // as listed by the tool, judged by C19

struct ListDef { std::string name, path; int order; };
struct Conf {
    std::map<std::string, std::string> presets;
    std::vector<ListDef> lists;
    std::string random;
    bool has_random = false;
};
static bool valid_random(const std::string &d) {
    passgen_random *r = passgen_random_open(NULL, d.c_str());
    if(!r) return false;
    passgen_random_free(r);
    return true;
}
static void apply_config(Conf &c, const std::string &text) {
    size_t at = 0;
    while(at < text.size()) {
        size_t e = text.find('\n', at);
        if(e == std::string::npos) e = text.size();
        std::string l = text.substr(at, e - at);
        at = e + 1;
        size_t b = l.find_first_not_of(" \t");
        if(b == std::string::npos || l[b] == '#') continue;
        size_t k = l.find_first_of(" \t", b);
        if(k == std::string::npos) continue;
        std::string key = l.substr(b, k - b);
        size_t v = l.find_first_not_of(" \t", k);
        if(v == std::string::npos) continue;
        std::string val = l.substr(v);
        if(key == "random") { if(valid_random(val)) c.random = val, c.has_random = true; continue; }
        size_t sep = val.find_first_of(": \t");
        if(sep == std::string::npos) continue;
        std::string name = val.substr(0, sep), def;
        if(val[sep] == ':') def = val.substr(sep + 1);
        else { size_t d = val.find_first_not_of(" \t", sep); def = d == std::string::npos ? "" : val.substr(d); }
        if(key == "preset") c.presets[name] = def;
        if(key == "wordlist") { FILE *f = __real_fopen(def.c_str(), "r"); if(f) { fclose(f); c.lists.push_back({name, def, 3}); } }
    }
}

struct Expect {
    bool help = false, version = false, list = false, error = false;
    std::string why;
    bool immediate() const { return help || version || list; }
    std::map<std::string, std::string> list_must, list_may;
    // otherwise: passwords
    bool json = false, null = false, entropy = false;
    size_t amount = 1;
    bool predictable = true;
    std::string pattern;
    std::vector<Str> pw;
    std::vector<double> ent;
};
static int push_cp(void *d, uint32_t cp) { ((Str *) d)->push_back(cp); return 0; }

static Expect model(const Setup &s) {
    Expect x;
    Conf conf;
    conf.presets = BUILTIN;
    if(s.has_sys) apply_config(conf, s.sys);
    if(s.has_user) apply_config(conf, s.user);
    Parsed p = parse_args(s.args);
    std::string preset, random, master, domain, token;
    bool has_preset = false, has_random = false, has_master = false, has_domain = false, has_token = false;
    int order = 3;
    auto err = [&](const std::string &why) { if(!x.error) x.why = why; x.error = true; };
    for(auto &o: p.opts) {
        const std::string &v = o.second;
        switch(o.first) {
            case 'h': x.help = true; break;
            case 'v': x.version = true; break;
            case 'l': if(!x.list) x.list_must = conf.presets; x.list = true; break;
            case 'a': if(atoi(v.c_str()) < 1) err("illegal amount"); else x.amount = atoi(v.c_str()); break;
            case 'M': if(atoi(v.c_str()) < 1 || atoi(v.c_str()) > 255) err("illegal markov length"); else order = atoi(v.c_str()); break;
            case 'p': preset = v; has_preset = true; break;
            case 'P': { size_t k = v.find(':'); if(k == std::string::npos) err("malformed preset definition"); else conf.presets[v.substr(0, k)] = v.substr(k + 1); break; }
            case 'w': {
                size_t k = v.find(':');
                if(k == std::string::npos) { err("malformed wordlist definition"); break; }
                FILE *f = __real_fopen(v.c_str() + k + 1, "r");
                if(!f) { err("missing wordlist"); break; }
                fclose(f);
                conf.lists.push_back({v.substr(0, k), v.substr(k + 1), order});
                break;
            }
            case 'r': if(!valid_random(v)) err("invalid randomness source"); else random = v, has_random = true; break;
            case 'm': master = v; has_master = true; break;
            case 'd': domain = v; has_domain = true; break;
            case 't': token = v; has_token = true; break;
            case 'z': x.null = true; break;
            case 'e': x.entropy = true; break;
            case 'j': x.json = true; break;
            case 'D': break;
            default: err("unrecognised option"); break;
        }
    }
    x.list_may = conf.presets;
    if(x.immediate()) return x;
    bool has_pattern = false;
    if(p.pos.size() + has_preset > 1) err("several patterns");
    if(has_preset) {
        auto it = conf.presets.find(preset);
        if(it == conf.presets.end()) err("unknown preset");
        else x.pattern = it->second, has_pattern = true;
    } else if(!p.pos.empty()) x.pattern = p.pos[0], has_pattern = true;
    if(x.error) return x;
    if(!has_pattern) { x.help = true; return x; }
    ref::Pattern rp = ref::parse(x.pattern);
    if(!rp.ok()) { err("malformed pattern"); return x; }
    // generate the passwords with the library
    passgen_pattern pat;
    passgen_error pe;
    memset(&pe, 0, sizeof pe);
    if(passgen_parse(&pat, &pe, x.pattern.c_str())) { err("malformed pattern"); passgen_pattern_free(&pat); return x; }
    auto open = [&](int seed) -> passgen_random * {
        if(has_random) return passgen_random_open(NULL, random.c_str());
        if(has_master) return passgen_random_chacha20_argon2_open(NULL, (const uint8_t *) master.c_str(), has_domain ? (const uint8_t *) domain.c_str() : NULL, has_token ? (const uint8_t *) token.c_str() : NULL, NULL);
        if(conf.has_random) return passgen_random_open(NULL, conf.random.c_str());
        x.predictable = false;
        return passgen_random_open(NULL, fmt("xorshift:%d", seed).c_str());
    };
    auto gen = [&](int seed, std::vector<Str> *pw, std::vector<double> *ent) {
        passgen_env env;
        passgen_env_init(&env, open(seed));
        // later definitions of a name replace earlier ones
        std::map<std::string, ListDef> last;
        for(auto &l: conf.lists) last[l.name] = l;
        for(auto &l: last) passgen_env_wordlist_add(&env, strdup(l.first.c_str()), __real_fopen(l.second.path.c_str(), "r"), l.second.order);
        for(size_t i = 0; i < x.amount; i++) {
            Str out;
            double e = 1;
            int r = passgen_generate(&pat, &env, &e, &out, push_cp);
            bool enc = true;
            for(uint32_t c: out) if(c >= 0xd800 && c < 0xe000 || c > 0x10ffff) enc = false;
            if(r || !enc) { err("password can not be produced"); break; }
            pw->push_back(out);
            ent->push_back(log2(e));
        }
        passgen_env_free(&env);
    };
    if(!conf.has_random && !has_random && !has_master) {
        std::vector<double> e;
        bool same = true;
        for(int seed = 1; seed <= 3; seed++) {
            std::vector<Str> pw;
            e.clear();
            gen(seed, &pw, &e);
            if(seed == 1) x.pw = pw, x.ent = e;
            else if(pw != x.pw || e != x.ent) same = false;
        }
        x.predictable = same;
    } else gen(0, &x.pw, &x.ent);
    passgen_pattern_free(&pat);
    return x;
}

static std::string show_args(const Setup &s) {
    std::string o;
    for(auto &a: s.args) o += (o.empty() ? "" : " ") + ("'" + esc(a).substr(0, 120) + "'");
    if(s.has_sys) o += " with system configuration '" + esc(s.sys).substr(0, 300) + "'";
    if(s.has_user) o += " with user configuration '" + esc(s.user).substr(0, 300) + "'";
    return o;
}
static std::string u8(const Str &s) { std::string o; for(uint32_t c: s) o += ref::utf8_put(c); return o; }

// compare one run with the model; "" if it agrees
static std::string compare(const Expect &x, const CliResult &r) {
    std::string shown = fmt("exit %d%s, output '", r.code, r.sig ? fmt(" signal %d", r.sig).c_str() : "") + esc(r.out).substr(0, 300) + "', errors '" + esc(r.err).substr(0, 300) + "'";
    if(r.sig || r.code == 99) return "the tool crashes: " + shown;
    auto is_error = [&]() {
        if(r.code == 0) return false;
        // no password: error messages are plain ASCII except for echoed arguments
        return true;
    };
    std::string both = r.out + r.err;
    auto is_help = [&]() { return r.code == 0 && both.find("--amount") != std::string::npos && both.find("--wordlist") != std::string::npos; };
    auto is_version = [&]() { return r.code == 0 && both.find("version") != std::string::npos && both.find("--amount") == std::string::npos; };
    auto is_list = [&](std::string *why) {
        if(r.code != 0) return false;
        std::map<std::string, std::string> got;
        size_t at = 0;
        while(at < r.out.size()) {
            size_t e = r.out.find('\n', at);
            if(e == std::string::npos) { *why = "listing does not end with a newline"; return false; }
            std::string l = r.out.substr(at, e - at);
            at = e + 1;
            if(l.compare(0, 7, "preset ")) { *why = "unexpected line in listing: " + esc(l).substr(0, 100); return false; }
            size_t sp = l.find(' ', 7);
            if(sp == std::string::npos) { *why = "unexpected line in listing: " + esc(l).substr(0, 100); return false; }
            std::string name = l.substr(7, sp - 7);
            if(got.count(name)) { *why = "preset listed twice: " + esc(name).substr(0, 100); return false; }
            got[name] = l.substr(sp + 1);
        }
        for(auto &m: x.list_must) {
            auto g = got.find(m.first);
            auto may = x.list_may.find(m.first);
            if(g == got.end()) { *why = "preset not listed: " + esc(m.first).substr(0, 100); return false; }
            if(g->second != m.second && g->second != may->second) { *why = "preset " + esc(m.first).substr(0, 100) + " listed as " + esc(g->second).substr(0, 100) + ", expected " + esc(m.second).substr(0, 100); return false; }
        }
        for(auto &g: got) if(!x.list_may.count(g.first)) { *why = "listed preset was never defined: " + esc(g.first).substr(0, 100); return false; }
        return true;
    };
    std::string why;
    if(x.immediate() || x.error) {
        if(x.error && is_error()) return "";
        if(x.help && is_help()) return "";
        if(x.version && is_version()) return "";
        if(x.list && is_list(&why)) return "";
        std::string want = x.error ? "an error (" + x.why + ")" : x.help ? "the help text" : x.version ? "the version" : "the list of presets (" + why + ")";
        return "expected " + want + ", got " + shown;
    }
    if(r.code != 0) return fmt("expected %zu passwords, got ", x.amount) + shown;
    if(!x.predictable) {
        if(r.out.empty() || r.out.back() != '\n') return "output does not end with a newline: " + shown;
        return "";
    }
    if(x.json) {
        ref::Json j;
        ref::JsonReader jr(r.out);
        if(!jr.document(&j)) return "output is not JSON (" + jr.err + fmt(" at byte %zu): ", jr.i) + shown;
        if(r.out.back() != '\n' || (r.out.size() > 1 && r.out[r.out.size() - 2] == '\n')) return "JSON output is not followed by exactly one newline: " + shown;
        if(j.k != ref::Json::ARR) return "output is not a JSON array: " + shown;
        if(j.arr.size() != x.pw.size()) return fmt("array has %zu elements, expected %zu: ", j.arr.size(), x.pw.size()) + shown;
        for(size_t i = 0; i < j.arr.size(); i++) {
            auto &e = j.arr[i];
            if(e.k != ref::Json::OBJ) return fmt("element %zu is not an object: ", i) + shown;
            int no = 0, ne = 0;
            for(auto &m: e.obj) {
                std::string k = u8(m.first);
                if(k == "output") {
                    no++;
                    if(m.second.k != ref::Json::STR || m.second.str != x.pw[i]) return fmt("password %zu decodes to %s, expected %s: ", i, ref::show(m.second.str).substr(0, 200).c_str(), ref::show(x.pw[i]).substr(0, 200).c_str()) + shown;
                } else if(k == "entropy") {
                    ne++;
                    if(m.second.k != ref::Json::NUM || fabs(m.second.num - x.ent[i]) > 1e-5) return fmt("entropy of password %zu is %s, expected %.6f: ", i, m.second.text.c_str(), x.ent[i]) + shown;
                }
            }
            if(no != 1 || ne != (x.entropy ? 1 : 0)) return fmt("element %zu has %d output and %d entropy members: ", i, no, ne) + shown;
        }
        return "";
    }
    std::string want;
    for(size_t i = 0; i < x.pw.size(); i++) { if(i) want += x.null ? '\0' : '\n'; want += u8(x.pw[i]); }
    want += '\n';
    if(r.out != want) return "expected output '" + esc(want).substr(0, 300) + "', got " + shown;
    // entropy lines
    std::vector<double> got;
    size_t at = 0;
    while((at = r.err.find("entropy: ", at)) != std::string::npos) { at += 9; got.push_back(strtod(r.err.c_str() + at, NULL)); }
    if(!x.entropy) { if(!got.empty()) return "entropy reported without being requested: " + shown; return ""; }
    if(got.size() != x.pw.size()) return fmt("%zu entropy lines for %zu passwords: ", got.size(), x.pw.size()) + shown;
    for(size_t i = 0; i < got.size(); i++) if(fabs(got[i] - x.ent[i]) > 0.0051) return fmt("entropy of password %zu reported as %.4f, expected %.4f: ", i, got[i], x.ent[i]) + shown;
    return "";
}
