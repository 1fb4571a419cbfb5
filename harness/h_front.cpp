// The front end (C22): every logging macro and every start function of the default logger, called the way an application does.
// Modes: macro  generated calls of all macros from several threads against channels with a hook and filters
//        quick  the ready-made set-ups (FastStartDefaultLogger, FastStartDebugLogger) and the start functions
#include "vp_rt.h"
#define FN_LOG_MAX_CHANNEL_SIZE 4
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wclass-memaccess"
#include "fn_log.h"
#pragma GCC diagnostic pop
#include <thread>
#include <mutex>
#include <memory>
#include <regex>
using namespace FNLog;
using namespace vp;
typedef long long ll;

static std::string dir, out_path;
static std::string cur; // the case as text

// ---- all forms ------------------------------------------------------------------------------------------
struct A { int ch, cat; ll id; const char* s; int v; };
static thread_local int evals;
static int ev(int v) { evals++; return v; }
static Logger* other;
static std::string logger_tag; // set per case: the name of the other logger
struct Form
{
    const char* name;
    int prio;
    bool numbered;   // takes channel, category and identify (otherwise 0, 0, 0)
    int content;     // 0: text and number, 1: nothing
    bool printf_like;
    int target;      // 0: default logger, 1: the other one
    unsigned prefix;
    int (*fn)(const A&);
};
#define FN(id, stmt) static int id(const A& a) { (void)a; stmt; return __LINE__; }
#define SEVEN(X) X(0, Trace, TRACE, T) X(1, Debug, DEBUG, D) X(2, Info, INFO, I) X(3, Warn, WARN, W) X(4, Error, ERROR, E) X(5, Alarm, ALARM, A) X(6, Fatal, FATAL, F)
// one line per level: the line number must be that of the macro
#define G(p, n, u, l) FN(m_cpp##p, LOG_##u(a.ch, a.cat, a.id, a.s << ev(a.v)))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_cps##p, LOG##l(a.s << ev(a.v)))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_str##p, Log##n##Stream(a.ch, a.cat, a.id) << a.s << ev(a.v))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_sts##p, Log##n() << a.s << ev(a.v))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_pak##p, Log##n##Pack(a.ch, a.cat, a.id, a.s, ev(a.v)))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_pks##p, Pack##n(a.s, ev(a.v)))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_pke##p, LogTemplatePack(LOG_STREAM_DEFAULT_LOGGER_WITH_PREFIX(a.ch, PRIORITY_##u, a.cat, a.id)))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_fmt##p, LOGFMT_##u(a.ch, a.cat, a.id, "%s%d", a.s, ev(a.v)))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_fms##p, LOGFMT##l("%s%d", a.s, ev(a.v)))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_ori##p, LOG_STREAM_ORIGIN_REF(*other, a.ch, PRIORITY_##u, a.cat, a.id, LOG_PREFIX_DEFAULT | LOG_PREFIX_NAME) << a.s << ev(a.v))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_orp##p, LogTemplatePack(LOG_STREAM_ORIGIN_REF(*other, a.ch, PRIORITY_##u, a.cat, a.id, LOG_PREFIX_DEFAULT | LOG_PREFIX_NAME), a.s, ev(a.v)))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_nop##p, LOG_STREAM_DEFAULT_LOGGER(a.ch, PRIORITY_##u, a.cat, a.id, LOG_PREFIX_NULL) << a.s << ev(a.v))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_fmn##p, LOG_FORMAT(a.ch, PRIORITY_##u, a.cat, a.id, LOG_PREFIX_NULL, "%s%d", a.s, ev(a.v)))
SEVEN(G)
#undef G
// without braces in an if and a loop
#define G(p, n, u, l) FN(m_ife##p, if (a.v >= 0) LOGFMT_##u(a.ch, a.cat, a.id, "%s%d", a.s, ev(a.v)); else LOG_##u(a.ch, a.cat, a.id, a.s << ev(a.v)))
SEVEN(G)
#undef G
#define G(p, n, u, l) FN(m_lop##p, for (int i = 0; i < 1; i++) if (a.v < 0) LOGFMT_##u(a.ch, a.cat, a.id, "%s%d", a.s, ev(a.v)); else LOG_##u(a.ch, a.cat, a.id, a.s << ev(a.v)))
SEVEN(G)
#undef G
static const unsigned PD = LOG_PREFIX_DEFAULT;
static const Form FORMS[] = {
#define G(p, n, u, l) {"m_cpp" #p, p, true, 0, false, 0, PD, m_cpp##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_cps" #p, p, false, 0, false, 0, PD, m_cps##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_str" #p, p, true, 0, false, 0, PD, m_str##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_sts" #p, p, false, 0, false, 0, PD, m_sts##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_pak" #p, p, true, 0, false, 0, PD, m_pak##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_pks" #p, p, false, 0, false, 0, PD, m_pks##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_pke" #p, p, true, 1, false, 0, PD, m_pke##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_fmt" #p, p, true, 0, true, 0, PD, m_fmt##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_fms" #p, p, false, 0, true, 0, PD, m_fms##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_ori" #p, p, true, 0, false, 1, PD | LOG_PREFIX_NAME, m_ori##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_orp" #p, p, true, 0, false, 1, PD | LOG_PREFIX_NAME, m_orp##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_nop" #p, p, true, 0, false, 0, LOG_PREFIX_NULL, m_nop##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_fmn" #p, p, true, 0, true, 0, LOG_PREFIX_NULL, m_fmn##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_ife" #p, p, true, 0, true, 0, PD, m_ife##p},
    SEVEN(G)
#undef G
#define G(p, n, u, l) {"m_lop" #p, p, true, 0, false, 0, PD, m_lop##p},
    SEVEN(G)
#undef G
};
static const int NFORM = (int)(sizeof FORMS / sizeof *FORMS);
static const char* LABEL[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"};
static const char* PN[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};
static std::string short_file()
{
    std::string f = __FILE__;
    int n = 0;
    for (size_t i = f.size(); i-- > 0;)
        if (f[i] == '/')
            if (++n == 3) return f.substr(i + 1);
    return f;
}

// ---- the hook -------------------------------------------------------------------------------------------
struct Got { int ch, prio, cat; ll id; std::string text, file, func; int line; };
static thread_local std::vector<Got> got;
static std::atomic<int> wrong_thread;
static thread_local bool in_call;
static void hook_fn(const LogData& log)
{
    if (!in_call) { wrong_thread++; return; }
    Got g;
    g.ch = log.channel_id_; g.prio = log.priority_; g.cat = log.category_; g.id = log.identify_; g.line = (int)log.code_line_;
    g.text = log.content_;
    g.file = log.code_file_ ? std::string(log.code_file_, (size_t)log.code_file_len_) : "";
    g.func = log.code_func_ ? std::string(log.code_func_, (size_t)log.code_func_len_) : "";
    got.push_back(g);
}

// ---- generated set-ups ----------------------------------------------------------------------------------
struct MChan { bool sync = true; int prio = 0, cat = 0, catn = 0, id = 0, idn = 0; };
struct Setup { std::string name, text; std::vector<MChan> ch; };
static bool admits(const MChan& c, int prio, int cat, ll id)
{
    if (prio < c.prio) return false;
    if (c.catn > 0 && (cat < c.cat || cat >= c.cat + c.catn)) return false;
    if (c.idn > 0 && (id < c.id || id >= (ll)c.id + c.idn)) return false;
    return true;
}
static Setup make_setup(Rng& r, const std::string& name, const std::string& file)
{
    Setup s;
    s.name = name;
    s.text = " - logger_name: " + name + "\n";
    int n = (int)r.range(1, 4);
    for (int c = 0; c < n; c++)
    {
        MChan m;
        m.sync = r.chance(1, 2);
        s.text += fmt(" - channel: %d\n    sync: %s\n", c, m.sync ? "sync" : "async");
        if (r.chance(1, 3)) { m.prio = (int)r.below(7); s.text += std::string("    priority: ") + PN[m.prio] + "\n"; }
        if (r.chance(1, 4)) { m.cat = (int)r.below(4); m.catn = (int)r.range(1, 3); s.text += fmt("    category: %d\n    category_extend: %d\n", m.cat, m.catn); }
        if (r.chance(1, 4)) { m.id = (int)r.below(4); m.idn = (int)r.range(1, 3); s.text += fmt("    identify: %d\n    identify_extend: %d\n", m.id, m.idn); }
        s.text += "    -device: 0\n        disable: false\n        out_type: virtual\n";
        s.text += "    -device: 1\n        disable: false\n        out_type: file\n        path: \"" + dir + "\"\n        file: \"" + file + fmt("%d", c) + "\"\n";
        s.ch.push_back(m);
    }
    return s;
}
static std::mutex mu; // the result counters
static const std::string& this_file() { static const std::string f = __FILE__; return f; }
static bool looks_like_time(const std::string& s) // [20260131 12:00:00.000]
{
    static const char* P = "[dddddddd dd:dd:dd.ddd]";
    if (s.size() < strlen(P)) return false;
    for (size_t i = 0; P[i]; i++) if (P[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != P[i]) return false;
    return true;
}
// one call and its judgement; returns true if the record was admitted
static bool one(Rng& r, const Setup* dflt, const Setup* oth, const std::string& uniq, std::string& content, int& ch_used, int& target)
{
    const Form& f = FORMS[r.below((uint64_t)NFORM)];
    target = f.target;
    const Setup* s = f.target ? oth : dflt;
    A a;
    int nch = s ? (int)s->ch.size() : 1;
    a.ch = r.chance(1, 12) ? (int)r.pick(std::vector<int>{-1, nch, 4, 1000, -2147483647 - 1, 2147483647}) : (int)r.below((uint64_t)nch);
    a.cat = (int)r.below(5);
    a.id = (ll)r.below(5);
    if (r.chance(1, 10)) { a.cat = (int)r.pick(std::vector<int>{2147483647, 63, 64, 1000}); a.id = r.pick(std::vector<ll>{1LL << 40, 9223372036854775807LL, 64, 63}); }
    a.s = uniq.c_str();
    a.v = (int)r.below(100000);
    int ch = f.numbered ? a.ch : 0, cat = f.numbered ? a.cat : 0;
    ll id = f.numbered ? a.id : 0;
    bool want = s && ch >= 0 && ch < nch && admits(s->ch[(size_t)ch], f.prio, cat, id);
    content = f.content ? "" : uniq + std::to_string(a.v);
    ch_used = ch;
    got.clear();
    evals = 0;
    in_call = true;
    int line = f.fn(a);
    in_call = false;
    auto desc = [&] { return fmt("%s(channel %d, category %d, identify %lld, \"%s\", %d): ", f.name, ch, cat, id, a.s, a.v); };
    auto tail = [&] { return " | " + cur; };
    std::lock_guard<std::mutex> g(mu);
    count("calls");
    if (got.size() != (want ? 1u : 0u)) violation("front", std::string("front:calls:") + f.name, desc() + fmt("%d records, expected %d", (int)got.size(), want ? 1 : 0) + tail());
    int emax = f.content ? 0 : 1;
    if (evals > emax || ((want || !f.printf_like) && evals != emax && want)) violation("front", std::string("front:args:") + f.name, desc() + fmt("its argument was evaluated %d times", evals) + tail());
    if (!want) { count("calls_blocked"); return false; }
    if (got.size() != 1) return false;
    const Got& h = got[0];
    count("records_checked");
    distinct(hash_str(std::string(f.name) + fmt("%d|%d|%lld", ch, cat, id)));
    if (h.ch != ch || h.cat != cat || h.id != id || h.prio != f.prio)
        violation("front", std::string("front:fields:") + f.name, desc() + fmt("got channel %d, category %d, identify %lld, priority %d instead of priority %d", h.ch, h.cat, h.id, h.prio, f.prio) + tail());
    if (h.line != line || h.file != this_file() || h.func != f.name)
        violation("front", std::string("front:source:") + f.name, desc() + fmt("source is %s:%d %s instead of line %d", h.file.c_str(), h.line, h.func.c_str(), line) + tail());
    std::string t = h.text;
    while (!t.empty() && t.back() == '\n') t.pop_back();
    std::string w;
    if (f.prefix)
    {
        w = LABEL[f.prio];
        if (f.prefix & LOG_PREFIX_NAME) w += "[" + s->name + "]";
        w += fmt("[%s:%d](%s) ", short_file().c_str(), line, f.name);
    }
    w += content;
    std::string body = t;
    if (f.prefix)
    {
        if (!looks_like_time(t)) violation("front", std::string("front:text:") + f.name, desc() + "no time stamp in: " + t + tail());
        else body = t.substr(23);
    }
    if (body != w) violation("front", std::string("front:text:") + f.name, desc() + "got \"" + body + "\" expected \"" + w + "\"" + tail());
    return true;
}
static int start_default(const Setup& s, int how)
{
    if (how == 0) return patient_start([&] { return FastStartDefaultLogger(s.text); });
    spit(dir + "/dflt.yaml", s.text);
    return patient_start([&] { return LoadAndStartDefaultLogger(dir + "/dflt.yaml"); });
}
static void macro_case(Rng& r)
{
    wipe(dir);
    Logger& lg = GetDefaultLogger();
    std::unique_ptr<Logger> o(new Logger);
    other = o.get();
    int sessions = (int)r.range(1, 3);
    std::map<std::string, int> in_file; // file + content -> expected lines
    for (int k = 0; k < sessions; k++)
    {
        Setup s = make_setup(r, fmt("dflt%d", k), fmt("d%d_", k)), q = make_setup(r, fmt("oth%d", k), fmt("o%d_", k));
        cur = s.text + "\n--- other:\n" + q.text;
        // before the start nothing is taken
        std::string c; int ch, tg;
        if (r.chance(1, 2)) for (int i = 0; i < 5; i++) one(r, nullptr, nullptr, fmt("s%d_none%d_", k, i), c, ch, tg);
        int how = (int)r.below(2);
        int bad = (int)r.below(4);
        if (bad == 0)
        {
            int rc = r.chance(1, 2) ? FastStartDefaultLogger(" - channel: 7\n") : LoadAndStartDefaultLogger(dir + "/nowhere.yaml");
            if (rc == 0) violation("front", "front:bad_start", "an invalid set-up was started | " + cur);
        }
        int rc = start_default(s, how);
        if (rc != 0) { violation("front", "front:start", fmt("start returned %d | ", rc) + cur); return; }
        rc = patient_start([&] { return ParseAndStartLogger(*other, q.text); });
        if (rc != 0) { violation("front", "front:start", fmt("start of the other logger returned %d | ", rc) + cur); return; }
        if (r.chance(1, 3))
        {
            // a running logger cannot be started again
            Setup s2 = make_setup(r, "again", "again_");
            int e = r.chance(1, 2) ? start_default(s2, (int)r.below(2)) : r.chance(1, 2) ? FastStartDefaultLogger() : FastStartDebugLogger();
            if (e == 0) violation("front", "front:second_start", "the running default logger was started again | " + cur);
            count("second_starts");
        }
        SetVirtualDevice(hook_fn);
        int nt = (int)r.range(1, 3);
        std::vector<std::vector<std::pair<std::string, int>>> exp((size_t)nt);
        std::vector<std::thread> th;
        std::vector<uint64_t> seeds;
        for (int t = 0; t < nt; t++) seeds.push_back(r.next());
        for (int t = 0; t < nt; t++)
            th.emplace_back([&, t]
            {
                Rng g(seeds[(size_t)t]);
                int n = (int)g.range(5, 40);
                for (int i = 0; i < n; i++)
                {
                    std::string content; int chn, target;
                    std::string uniq = fmt("s%d_t%d_%d_", k, t, i);
                    if (g.chance(1, 3)) uniq += "%d%s%n{}"; // text that must not be taken for a format
                    if (one(g, &s, &q, uniq, content, chn, target) && !content.empty())
                        exp[(size_t)t].push_back({dir + "/" + fmt("%c%d_%d.log", target ? 'o' : 'd', k, chn), 1}), exp[(size_t)t].back().first += "\n" + content;
                }
            });
        for (auto& t : th) t.join();
        SetVirtualDevice(nullptr);
        if (wrong_thread) violation("front", "front:thread", "the hook ran outside a log call of its thread | " + cur);
        wrong_thread = 0;
        if (StopLogger(lg) != 0 || StopLogger(*other) != 0) violation("front", "front:stop", "stop failed | " + cur);
        if (r.chance(1, 2)) for (int i = 0; i < 5; i++) one(r, nullptr, nullptr, fmt("s%d_after%d_", k, i), c, ch, tg);
        std::map<std::string, std::multiset<std::string>> want;
        for (auto& v : exp) for (auto& e : v) { size_t p = e.first.find('\n'); want[e.first.substr(0, p)].insert(e.first.substr(p + 1)); }
        for (int tg2 = 0; tg2 < 2; tg2++)
            for (size_t c2 = 0; c2 < 4; c2++)
            {
                std::string p = dir + "/" + fmt("%c%d_%d.log", tg2 ? 'o' : 'd', k, (int)c2);
                std::multiset<std::string> have;
                for (auto& l : lines_of(slurp(p)))
                {
                    size_t x = l.rfind(fmt("s%d_", k));
                    if (x != std::string::npos) have.insert(l.substr(x));
                }
                if (have != want[p])
                {
                    std::string d;
                    for (auto& x : want[p]) if (have.count(x) != want[p].count(x)) { d = x; break; }
                    if (d.empty()) for (auto& x : have) if (have.count(x) != want[p].count(x)) { d = x; break; }
                    violation("front", "front:file", "the file " + p + fmt(" holds %d of the %d records expected, first difference \"", (int)have.size(), (int)want[p].size()) + d + "\" | " + cur);
                }
                count("file_lines", (ll)have.size());
            }
    }
    if (r.chance(1, 50)) sample(cur);
}

// ---- the ready-made set-ups -----------------------------------------------------------------------------
static std::string strip_colour(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') { while (i < s.size() && s[i] != 'm') i++; continue; }
        o += s[i];
    }
    return o;
}
static std::string pname()
{
    char b[512];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    b[n > 0 ? n : 0] = 0;
    const char* s = strrchr(b, '/');
    return s ? s + 1 : b;
}
static void quick_case(Rng& r)
{
    wipe(dir);
    if (chdir(dir.c_str()) != 0) return;
    Logger& lg = GetDefaultLogger();
    bool debug = r.chance(1, 2);
    cur = debug ? "FastStartDebugLogger" : "FastStartDefaultLogger";
    fflush(stdout);
    if (ftruncate(1, 0) != 0) return;
    int starters = r.chance(1, 3) ? (int)r.range(2, 4) : 1;
    std::vector<int> rcs((size_t)starters, -99);
    std::vector<std::thread> th;
    std::atomic<int> go{0};
    for (int i = 0; i < starters; i++)
        th.emplace_back([&, i] { go++; while (go < starters) {} rcs[(size_t)i] = patient_start([&] { return debug ? FastStartDebugLogger() : FastStartDefaultLogger(); }); });
    for (auto& t : th) t.join();
    int okn = 0;
    for (int x : rcs) okn += x == 0;
    if (okn != 1) violation("front", "front:fast_start", fmt("%d of %d starts succeeded | ", okn, starters) + cur);
    count("starters", starters);
    struct Rec { int ch, prio; std::string text; };
    std::vector<Rec> all;
    int nt = (int)r.range(1, 3);
    std::vector<std::vector<Rec>> recs((size_t)nt);
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nt; t++) seeds.push_back(r.next());
    th.clear();
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t]
        {
            Rng g(seeds[(size_t)t]);
            int n = (int)g.range(1, 40);
            for (int i = 0; i < n; i++)
            {
                Rec q;
                q.ch = g.chance(1, 12) ? 2 : (int)g.below(2);
                q.prio = (int)g.below(7);
                q.text = fmt("q_t%d_%d_", t, i);
                A a{q.ch, (int)g.below(100), (ll)g.below(100), q.text.c_str(), 5};
                int style = (int)g.below(4);
                for (int f = 0; f < NFORM; f++)
                {
                    static const char* st[] = {"m_cpp", "m_str", "m_pak", "m_fmt"};
                    if (strncmp(FORMS[f].name, st[style], 5) == 0 && FORMS[f].prio == q.prio) { FORMS[f].fn(a); break; }
                }
                q.text += "5";
                recs[(size_t)t].push_back(q);
            }
        });
    for (auto& t : th) t.join();
    for (auto& v : recs) all.insert(all.end(), v.begin(), v.end());
    if (StopLogger(lg) != 0) violation("front", "front:stop", "stop failed | " + cur);
    fflush(stdout);
    // what every output takes
    struct Out { std::string name, data; int ch, prio; };
    std::string pn = pname();
    std::vector<Out> outs = {
        {pn + ".log", slurp(dir + "/" + pn + ".log"), 0, 0},
        {pn + "_error.log", slurp(dir + "/" + pn + "_error.log"), 0, 4},
        {pn + "_sync.log", slurp(dir + "/" + pn + "_sync.log"), 1, 0},
        {pn + "_sync_info.log", slurp(dir + "/" + pn + "_sync_info.log"), 1, debug ? 0 : 2},
        {"screen", strip_colour(slurp(out_path)), -1, debug ? 1 : 2},
    };
    for (auto& o : outs)
    {
        std::multiset<std::string> want, have;
        for (auto& q : all)
            if (q.ch < 2 && (o.ch < 0 || q.ch == o.ch) && q.prio >= o.prio) want.insert(std::string(LABEL[q.prio]) + q.text);
        for (auto& l : lines_of(o.data))
        {
            size_t x = l.rfind(") q_t"), p = l.find("][");
            if (x == std::string::npos || p == std::string::npos) continue;
            have.insert(l.substr(p + 1, 7) + l.substr(x + 2));
        }
        count("lines_checked", (ll)want.size());
        if (have != want)
        {
            std::string d;
            for (auto& x : want) if (have.count(x) != want.count(x)) { d = x; break; }
            if (d.empty()) for (auto& x : have) if (have.count(x) != want.count(x)) { d = x; break; }
            violation("front", "front:fast:" + o.name.substr(o.name.size() > 9 ? o.name.size() - 9 : 0), "output " + o.name + fmt(" holds %d of %d records, first difference \"", (int)have.size(), (int)want.size()) + d + "\" | " + cur);
        }
    }
    std::set<std::string> names;
    for (auto& n : list_dir(dir)) names.insert(n);
    for (auto& n : names)
        if (n != outs[0].name && n != outs[1].name && n != outs[2].name && n != outs[3].name) violation("front", "front:fast_files", "unexpected file " + n + " | " + cur);
    for (int c = 0; c < 2; c++)
        for (int d = 0; d < 2; d++)
            if (GetDeviceConfig(lg, c, d, DEVICE_CFG_FILE_LIMIT_SIZE) != 100LL * 1000 * 1000 || GetDeviceConfig(lg, c, d, DEVICE_CFG_FILE_ROLLBACK) != 4)
                violation("front", "front:fast_limits", fmt("channel %d device %d: limit %lld, %lld backups | ", c, d, (ll)GetDeviceConfig(lg, c, d, DEVICE_CFG_FILE_LIMIT_SIZE), (ll)GetDeviceConfig(lg, c, d, DEVICE_CFG_FILE_ROLLBACK)) + cur);
    distinct(mix(r.next()));
    count("setups");
    if (r.chance(1, 50)) sample(cur + fmt(" threads=%d records=%d starters=%d", nt, (int)all.size(), starters));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    dir = opt().scratch + "/d";
    mkdir(dir.c_str(), 0755);
    out_path = opt().scratch + "/stdout";
    int fd = open(out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 1);
    close(fd);
    run_cases([](long long idx)
    {
        uint64_t seed = case_seed(idx);
        begin_case(idx, seed);
        alarm(60);
        Rng r(seed);
        if (opt().mode == "quick") quick_case(r);
        else macro_case(r);
        alarm(0);
        count("episodes");
        if (idx % 64 == 0) { fflush(stdout); if (ftruncate(1, 0) != 0) {} }
    });
    other = nullptr;
    if (chdir(opt().scratch.c_str()) != 0) {}
    wipe(dir);
    finish();
    _exit(0);
}
