// C20: patterns x nesting limits x complete trees of random draws; parser limits x token strings.
#include "tree.hpp"
#include "patterns.hpp"

static size_t LEAVES = 1500;

// ------------------------------------------------------------------ generation limit
// case: LIMIT ' ' PATTERN
static void check_depth(Ctx &ctx, const std::string &c) {
    size_t sp = c.find(' ');
    std::string s = c.substr(sp + 1);
    bool dflt = c[0] == 'd';
    uint64_t limit = dflt ? 1024 : strtoull(c.c_str(), NULL, 10);
    ref::Pattern rp = ref::parse(s);
    passgen_pattern pat;
    passgen_error err;
    bool ok = parse_real(s, &pat, &err);
    if(!ok || !rp.ok()) { // acceptance is C01's business
        ctx.skipped();
        passgen_pattern_free(&pat);
        return;
    }
    ref::Denoter d;
    d.env = &RENV;
    d.limit = 4 * LEAVES;
    d.depth_limit = limit;
    if(d.paths(*rp.root) > LEAVES) { ctx.skipped(); passgen_pattern_free(&pat); return; }
    ref::Dist want = d.group(*rp.root, 0);
    if(d.too_big) { ctx.skipped(); passgen_pattern_free(&pat); return; }
    passgen_env env;
    passgen_env_init(&env, &RND);
    if(!dflt) env.depth_limit = limit;
    if(s.find('\\') != std::string::npos)
        for(auto &l: LISTS) passgen_env_wordlist_add(&env, strdup(l.name), mem_file(l.text), l.order);
    uint64_t h = hash_str(c);
    Tree t;
    ref::Dist got;
    size_t leaves = 0;
    bool give_up = false;
    do {
        t.begin();
        T = &t;
        Str out;
        double ent = -1;
        int r = passgen_generate(&pat, &env, leaves & 1 ? &ent : NULL, &out, emit_cb);
        T = NULL;
        leaves++;
        if(t.nondet || t.unsupported || t.zero || leaves > 40 * LEAVES) { give_up = true; break; }
        ctx.state(hash_bytes(t.choice.data(), t.pos * 8, h));
        ctx.beat();
        got.add(r != 0, out, 1, t.prob());
    } while(t.next());
    ctx.transitions(t.draws);
    ctx.trace(leaves);
    if(give_up) ctx.skipped();
    else {
        std::map<Str, double> a, b;
        double fa = 0, fb = 0;
        for(auto &x: want.m) if(x.first.fail) fa += x.second.first; else a[x.first.s] += x.second.first;
        for(auto &x: got.m) if(x.first.fail) fb += x.second.first; else b[x.first.s] += x.second.first;
        if(fabs(fa - fb) > 1e-9)
            ctx.fail("depth " + esc(c).substr(0, 150), fmt("pattern %s with a nesting limit of %llu: generation fails with probability %.9f, expected %.9f",
                esc(s).substr(0, 300).c_str(), (unsigned long long) limit, fb, fa));
        else {
            for(auto &x: a) b[x.first];
            for(auto &x: b) {
                auto w = a.find(x.first);
                double pw = w == a.end() ? 0 : w->second;
                if(fabs(pw - x.second) > 1e-9) {
                    ctx.fail("depth-output " + esc(c).substr(0, 150), fmt("pattern %s with a nesting limit of %llu: output %s has probability %.9f, expected %.9f",
                        esc(s).substr(0, 300).c_str(), (unsigned long long) limit, ref::show(x.first).c_str(), x.second, pw));
                    break;
                }
            }
        }
    }
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pat);
}

static int paren_depth(const std::string &s) {
    int d = 0, m = 0;
    for(char c: s) { if(c == '(') m = std::max(m, ++d); if(c == ')') d--; }
    return m;
}
static void with_limits(Ctx &ctx, const std::string &s) {
    int n = paren_depth(s);
    for(int l = 0; l <= n + 2; l++) ctx.emit(fmt("%d ", l) + s);
}

// group structures: one literal, groups, alternatives, weights, repeats and optionals
static std::vector<std::string> groups(int maxcost) {
    std::vector<std::vector<std::string>> item(maxcost + 1), seq(maxcost + 1), alts(maxcost + 1), walt(maxcost + 1);
    for(int c = 0; c <= maxcost; c++) {
        std::vector<std::string> atom0, atom1;
        if(c == 1) atom0.push_back("a");
        if(c >= 1) for(auto &g: alts[c - 1]) atom0.push_back("(" + g + ")");
        if(c >= 2) { if(c == 2) atom1.push_back("a"); for(auto &g: alts[c - 2]) atom1.push_back("(" + g + ")"); }
        for(auto &a: atom0) item[c].push_back(a);
        for(auto &a: atom1) for(auto p: {"?", "{2}", "{0}", "{0,1}"}) item[c].push_back(a + p);
        if(c == 0) seq[c].push_back("");
        for(int k = 1; k <= c; k++) for(auto &i: item[k]) for(auto &s: seq[c - k]) seq[c].push_back(i + s);
        for(auto &s: seq[c]) walt[c].push_back(s);
        if(c >= 1) for(auto &s: seq[c - 1]) for(auto w: {"{0}", "{2}"}) walt[c].push_back(w + s);
        for(auto &s: walt[c]) alts[c].push_back(s);
        for(int k = 0; k + 1 <= c; k++) for(auto &s: walt[k]) for(auto &r: alts[c - k - 1]) alts[c].push_back(s + "|" + r);
    }
    std::vector<std::string> out;
    for(auto &l: alts) for(auto &s: l) out.push_back(s);
    return out;
}

static void nesting(Ctx &ctx) {
    int N = ctx.thorough ? 200 : 70;
    for(int n = 0; n <= N; n++) {
        std::vector<std::string> pats = {
            rep("(", n) + "a" + rep(")", n),
            rep("(x", n) + "a" + rep("y)", n),
            rep("([ab]", n > 6 ? 6 : n) + rep("(x", n > 6 ? n - 6 : 0) + rep("y)", n),
            rep("(a)", n),
            rep("((a)b)", n),
            "(" + rep("(a)", n) + ")",
            fmt("((a){%d})", n),
            fmt("((a(b)){%d})", n),
            fmt("(a){%d}", n) + rep("(", n) + "b" + rep(")", n),
            rep("(", n) + "b" + rep(")", n) + "(c(d))",
            rep("(x|", n > 8 ? 8 : n) + rep("(", n > 8 ? n - 8 : 0) + "a" + rep(")", n),
            rep("({0}x|", n) + "a" + rep(")", n),
            rep("(", n) + "a" + rep("){1}", n),
            rep("(", n) + "a" + rep("){0}", n),
            rep("(", n) + rep("\\w{one}", 3) + rep(")", n),
            rep("(", n) + "\\m{chain}" + rep(")", n),
            rep("(", n) + "[ab]{2}c?" + rep(")", n),
        };
        if(n <= 8) pats.push_back(rep("(a", n) + "x" + rep(")?", n)), pats.push_back(rep("(", n) + "x" + rep("){0,1}", n));
        if(n <= 6) pats.push_back(rep("(", n) + "x" + rep("){2}", n));
        for(auto &p: pats) {
            int d = paren_depth(p);
            std::set<int> ls = {0, 1, 2, 3, d - 1, d, d + 1, d + 2, d + 5};
            for(int l: ls) if(l >= 0) ctx.emit(fmt("%d ", l) + p);
            ctx.emit("18446744073709551615 " + p);
            ctx.emit("4294967296 " + p);
            ctx.emit("256 " + p);
            ctx.emit("65536 " + p);
        }
    }
    // the default limit and large limits
    for(int n: {1021, 1022, 1023, 1024, 1025}) {
        std::string p = rep("(", n) + "a" + rep(")", n);
        for(auto l: {"d", "1022", "1023", "1024", "1025", "1026"}) for(auto &q: {p, "(a)" + p, p + "(a)", rep("(a)", 5) + p + "b"}) ctx.emit(std::string(l) + " " + q);
    }
    for(auto l: {"d", "1024"}) { ctx.emit(std::string(l) + " " + rep("(a)", 2000)); ctx.emit(std::string(l) + " ((a)b){2500}"); ctx.emit(std::string(l) + " " + rep("()", 2000) + "(a)"); }
    for(int l = 0; l <= 300; l++) for(int n: {l - 2, l - 1, l, l + 1}) if(n >= 0) ctx.emit(fmt("%d ", l) + rep("(", n) + "a" + rep(")", n));
}

// ------------------------------------------------------------------ parser limit
// case: LIMIT ' ' PATTERN.  Feeds the tokens one by one.
static void check_parser(Ctx &ctx, const std::string &c) {
    size_t sp = c.find(' ');
    std::string s = c.substr(sp + 1);
    size_t limit = strtoull(c.c_str(), NULL, 10);
    // "@N PATTERN": PATTERN inside N groups that are not closed
    bool deep = s[0] == '@';
    if(deep) { size_t q = s.find(' '); s = rep("(", atoi(s.c_str() + 1)) + s.substr(q + 1); }
    ref::TokResult tr = ref::tokenize(s);
    if(tr.err != ref::OK) { ctx.skipped(); return; }
    // open constructs in front of every token (the pattern itself is one)
    size_t open = 1, reject = (size_t) -1, syntax = (size_t) -1;
    {
        // (the reference parser is recursive; nothing is wrong with the deep ones)
        ref::Pattern rp = ref::parse(deep ? "" : s);
        if(rp.err == ref::BAD_GRAMMAR) { for(size_t i = 0; i < tr.toks.size(); i++) if(tr.toks[i].off == rp.off) { syntax = i; break; } }
        enum M { GROUP, SET, NUM, NAME };
        std::vector<M> st{GROUP};
        bool expect_name = false;   // an escaped w/m/p opens a construct that continues with its braces
        for(size_t i = 0; i < tr.toks.size() && i < syntax; i++) {
            if(limit && st.size() >= limit) { reject = i; break; }
            auto &t = tr.toks[i];
            M m = st.back();
            if(m == GROUP) {
                if(t.esc) { if(t.cp == 'w' || t.cp == 'm' || t.cp == 'p') { st.push_back(NAME); expect_name = true; } continue; }
                if(t.cp == '(') st.push_back(GROUP);
                else if(t.cp == '[') st.push_back(SET);
                else if(t.cp == '{') st.push_back(NUM);
                else if(t.cp == ')' && st.size() > 1) st.pop_back();
            } else if(m == SET) { if(!t.esc && t.cp == ']') st.pop_back(); }
            else if(m == NUM) { if(!t.esc && t.cp == '}') st.pop_back(); }
            else if(expect_name) expect_name = false;
            else if(!t.esc && t.cp == '}') st.pop_back();
        }
        if(reject == (size_t) -1 && syntax != (size_t) -1) {
            if(limit && st.size() >= limit) reject = syntax; else reject = syntax;
        }
        open = st.size();
    }
    passgen_pattern pat;
    passgen_parser parser;
    passgen_parser_init(&parser, &pat);
    parser.limit = limit;
    size_t got = (size_t) -1;
    passgen_token_parser tp;
    memset(&tp, 0, sizeof tp);
    std::vector<ref::U8> u;
    ref::utf8_all(s, &u);
    size_t k = 0;
    for(auto &x: u) {
        passgen_token tok;
        memset(&tok, 0, sizeof tok);
        if(passgen_token_parse(&tp, &tok, x.width, x.cp) != PASSGEN_TOKEN_INIT) continue;
        if(passgen_parse_token(&parser, &tok) != 0) { got = k; break; }
        k++;
    }
    ctx.transitions(k);
    ctx.trace();
    ctx.state(hash_str(c));
    if(got != reject)
        ctx.fail("parser-limit " + esc(c).substr(0, 150), fmt("parser limit %zu, pattern %s: token %zd rejected, expected %zd (-1: none)", limit, esc(s).substr(0, 200).c_str(), (ssize_t) got, (ssize_t) reject));
    else if(got == (size_t) -1) {
        int f = passgen_parse_finish(&parser);
        bool complete = open == 1;
        if((f == 0) != complete) ctx.fail("parser-finish " + esc(c).substr(0, 150), fmt("parser limit %zu, pattern %s: finishing returns %d with %zu open constructs", limit, esc(s).substr(0, 200).c_str(), f, open));
    }
    passgen_parser_free(&parser);
    passgen_pattern_free(&pat);
}
static void parser_strings(Ctx &ctx) {
    static const std::vector<std::string> al = {"(", ")", "[", "]", "{", "}", "a", "2", "|", "-", ",", "?", "\\w"};
    int max = ctx.thorough ? 6 : 5;
    std::function<void(const std::string &, int, int)> rec = [&](const std::string &p, int len, int dead) {
        if(ctx.stopped()) return;
        if(ctx.take()) for(int l = 0; l <= len + 2; l++) ctx.emit_mine(fmt("%d ", l) + p);
        if(len == max) return;
        int nd = 0;
        if(ref::parse(p).err == ref::BAD_GRAMMAR) nd = dead + 1;
        if(nd > 1) return;
        for(auto &a: al) rec(p + a, len + 1, nd);
    };
    rec("", 0, 0);
}
static void parser_ladder(Ctx &ctx) {
    int N = ctx.thorough ? 1100 : 300;
    for(int n = 0; n <= N; n += n < 60 ? 1 : 7)
        for(int dl = -2; dl <= 4; dl++) {
            if(n + dl < 0) continue;
            for(auto in: {"a", "[a]", "[a-b]", "a{2}", "{2}a", "\\w{one}", "", "(a)(b)", "a|b", "[a]{2}"}) {
                ctx.emit(fmt("%d ", n + dl) + rep("(", n) + in + rep(")", n));
                ctx.emit(fmt("%d ", n + dl) + rep("(x)", n) + in);
                if(n < 60) ctx.emit(fmt("%d ", n + dl) + rep("[x]", n) + in), ctx.emit(fmt("%d ", n + dl) + rep("(x|y", n) + in + rep(")", n));
            }
        }
    // limits far above the nesting
    for(int n: {0, 1, 2, 5, 40, 300})
        for(int b: {8, 16, 31, 32, 33, 63})
            for(int d = -2; d <= 6; d++)
                for(auto in: {"a", "[a-b]{2}", "\\w{one}", "((x|y))"}) ctx.emit(fmt("%llu ", (unsigned long long) ((1ull << b) + d)) + rep("(", n) + in + rep(")", n));
    for(auto in: {"a", "[a-b]{2}", "\\w{one}", "((x|y))"}) for(int d = 1; d < 4; d++) ctx.emit(fmt("%llu ", (unsigned long long) -d) + rep("(", 5) + in + rep(")", 5));
    // and nesting around 2^16
    for(int n = 65530; n <= 65540; n += ctx.thorough ? 1 : 3) for(int dl = 0; dl <= 3; dl++) ctx.emit(fmt("%d @%d [a]", n + dl, n));
}

int main(int argc, char **argv) {
    bool thorough = false;
    for(int i = 1; i < argc; i++) if(!strcmp(argv[i], "--thorough")) thorough = true;
    if(thorough) LEAVES = 6000;
    RENV = refenv();
    RND.read = raw_read;
    RND.close = raw_close;
    add({"groups", "all group structures of cost up to 6 / 7 x every nesting limit from 0 to 2 above their nesting", [](Ctx &c) { for(auto &s: groups(c.thorough ? 7 : 6)) if(s.find('(') != std::string::npos || s.size() < 4) with_limits(c, s); }, check_depth});
    add({"structured", "all patterns of cost up to 6 / 7 with groups, sets and repeats x every nesting limit", [](Ctx &c) { for(auto &s: structured(c.thorough ? 7 : 6)) if(s.find('(') != std::string::npos) with_limits(c, s); }, check_depth});
    add({"nesting", "17 shapes x sizes 0..70 / 200 x limits around them and around 2^8, 2^16, 2^32, 2^64; the default limit", nesting, check_depth});
    add({"parser", "all strings of up to 5 / 6 of 13 tokens x every parser limit", parser_strings, check_parser});
    add({"parser-ladder", "nesting 0..300 / 1100 x 10 inner constructs x limits around it", parser_ladder, check_parser});
    return main_(argc, argv);
}
