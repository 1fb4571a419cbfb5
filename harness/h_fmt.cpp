// Record text: values (C07), record memory (C08), prefix (C21).  Every record goes through the real pipeline
// (synchronous channel, file device) and is read back from the file; a hook observes the text as well.
#define VP_NO_SCHED
#define VP_PLAIN_ATOMICS
#include "vp_fnlog.h"
#include <thread>
#include <deque>
#include <list>
#include <cmath>
#include <cfloat>

using namespace FNLog;
using namespace vp;

static std::string dir, logfile;
static off_t file_pos;
static const int LOGSZ = LogData::LOG_SIZE;
static std::string hook_text;
static int hook_calls;
static std::string cur_desc;

static void hook_fn(const LogData& log)
{
    hook_calls++;
    hook_text = log.content_; // must be zero-terminated
    int n = log.content_len_;
    if (n < 0 || n > LOGSZ) { violation("memory", "hook_len", fmt("record length %d outside 0..%d | ", n, LOGSZ) + cur_desc); return; }
}

// everything that has been appended to the log file since the last call
static std::string new_text()
{
    std::string s;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, logfile.c_str(), O_RDONLY, 0);
    if (fd < 0) return s;
    char buf[65536];
    long n;
    while ((n = syscall(SYS_pread64, fd, buf, sizeof buf, file_pos)) > 0) { s.append(buf, (size_t)n); file_pos += n; }
    syscall(SYS_close, fd);
    return s;
}

static std::string g_name, g_desc, last_cfg;
static bool start(const std::string& name, const std::string& desc)
{
    Logger& lg = GetDefaultLogger();
    std::string cfg = " - logger_name: \"" + name + "\"\n - logger_desc: \"" + desc + "\"\n"
        " - channel: 0\n   sync: sync\n   -device: 0\n      disable: false\n      out_type: file\n      path: \"" + dir + "/\"\n      file: \"log\"\n      stuff_up: true\n"
        "   -device: 1\n      disable: false\n      out_type: virtual\n"
        " - channel: 1\n   sync: sync\n   -device: 0\n      disable: false\n      out_type: file\n      path: \"" + dir + "/\"\n      file: \"other\"\n";
    last_cfg = cfg;
    g_name = name; g_desc = desc;
    int r = ParseAndStartLogger(lg, cfg);
    if (r != 0) { violation("setup", "start", fmt("start failed: %d", r) + cfg); return false; }
    return true;
}
static void stop() { StopLogger(GetDefaultLogger()); }

// ---- reference renderings ------------------------------------------------------------------------------
typedef std::function<bool(const std::string&, std::string&)> Match; // (actual token, reason)
struct Val
{
    std::function<void(LogStream&)> put;
    std::string exact;   // if !match
    Match match;         // for numbers with tolerance; then the token is delimited by '|'
    std::string desc;
    int need = 30;       // room in the record needed by this operation beyond its text
};
static std::string hex(unsigned long long v) { char b[32]; snprintf(b, sizeof b, "%llX", v); return b; }

static bool match_double(double v, double tol_scale, const std::string& s, std::string& why)
{
    if (std::isnan(v)) { why = "nan"; return s == "nan" || s == "-nan"; }
    if (std::isinf(v)) { why = v < 0 ? "-inf" : "inf"; return s == why; }
    if (v == 0 || std::fpclassify(v) == FP_SUBNORMAL) { why = "0"; return s == "0"; }
    if (s.empty()) { why = "empty"; return false; }
    char* end = nullptr;
    long double got = strtold(s.c_str(), &end);
    if (*end) { why = "not a number"; return false; }
    for (char c : s) if (!strchr("0123456789+-.eE", c)) { why = "not decimal"; return false; }
    double a = std::fabs(v), tol;
    if (a > 1152921504606846976.0 /*2^60*/ || a <= 1e-7) tol = a * 2e-15;
    else if (a < 0.0001) tol = 1.1e-8;
    else tol = 0.0001 + a * 4e-16;
    tol *= tol_scale;
    why = fmt("%.17g +-%g", v, tol);
    if (std::fabs((double)(got - (long double)v)) > tol) return false;
    if (v < 0 && s[0] != '-') { why += " (sign)"; return false; }
    if (v > 0 && s[0] == '-') { why += " (sign)"; return false; }
    return true;
}

static const long long EDGE[] = {0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 99999, 100000, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL,
                                 999999999LL, 1000000000LL, 9999999999LL, 10000000000LL, 99999999999999999LL, 100000000000000000LL, 999999999999999999LL, 1000000000000000000LL, 9223372036854775807LL};
static unsigned long long rnd_u64(Rng& r)
{
    switch (r.below(5))
    {
    case 0: return (unsigned long long)EDGE[r.below(sizeof EDGE / sizeof *EDGE)];
    case 1: return 0ULL - (unsigned long long)EDGE[r.below(sizeof EDGE / sizeof *EDGE)];
    case 2: return (1ULL << r.below(64)) - r.below(2);
    case 3: { unsigned long long v = 1; uint64_t k = r.below(20); while (k--) v *= 10; return v - r.below(2); }
    default: return r.next() >> r.below(64);
    }
}
static std::string rnd_str(Rng& r, int maxlen, bool any)
{
    int n = (int)r.below((uint64_t)maxlen + 1);
    std::string s;
    for (int i = 0; i < n; i++)
    {
        int c = any ? (int)r.range(0, 255) : (int)r.range(32, 126);
        if (c == '|' || c == '\n') c = '_';
        s += (char)c;
    }
    return s;
}
static double rnd_double(Rng& r)
{
    double v;
    switch (r.below(9))
    {
    case 0: v = (double)r.range(-1000, 1000); break;
    case 1: v = (double)r.range(-100000000, 100000000) / 10000.0; break;
    case 2: v = (double)rnd_u64(r); break;
    case 3: { uint64_t b = r.next(); memcpy(&v, &b, 8); break; }
    case 4: v = (double)r.below(1000) / 1e7; break;
    case 5: { double s[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, DBL_MIN, DBL_MAX, -DBL_MAX, DBL_MIN / 4, 0.0001, 0.00009999, 1e-7, 1.1e-7, 0.9999, 0.99999, 1152921504606846975.0, 1152921504606846976.0, 2e18, 0.05, 0.005, 0.0005, 1.0001, 9.00009, 99999.9999, 0.1, 0.5, 1e15, 123456789.0123}; v = s[r.below(sizeof s / sizeof *s)]; break; }
    case 6: v = (double)r.range(0, 9999) / 10000.0 + (double)r.below(100); break;
    case 7: v = std::ldexp(1.0 + (double)r.below(1000) / 1000.0, (int)r.range(-60, 70)); break;
    default: v = (double)r.below(1000000) / (double)(1 + r.below(1000000)); break;
    }
    return r.chance(1, 3) ? -v : v;
}
static char pool[4096];

template <class C> static std::string cont(const char* name, const C& c, std::function<std::string(const typename C::value_type&)> f)
{
    std::string s = std::string(name) + "(" + std::to_string(c.size()) + ")[";
    int i = 0;
    for (auto& x : c)
    {
        if (i >= 5) { s += "..., "; break; }
        if (i) s += ", ";
        s += f(x);
        i++;
    }
    return s + "]";
}

// width-templated helpers
template <int W> static void width_vals(Val& v, Rng& r)
{
    unsigned long long u = rnd_u64(r);
    long long n = (long long)u;
    if (r.chance(1, 2))
    {
        char b[64];
        snprintf(b, sizeof b, "%0*lld", W ? W : 1, n);
        v.exact = b;
        v.put = [n](LogStream& ls) { ls.write_longlong<W>(n); };
        v.desc = fmt("write_longlong<%d>(%lld)", W, n);
    }
    else
    {
        char b[64];
        snprintf(b, sizeof b, "%0*llu", W ? W : 1, u);
        v.exact = b;
        v.put = [u](LogStream& ls) { ls.write_ulonglong<W>(u); };
        v.desc = fmt("write_ulonglong<%d>(%llu)", W, u);
    }
}

static std::string dump_ref(const char* p, int len)
{
    std::string s = "\r\n\t[";
    for (int i = 0; i < len / 32 + 1; i++)
    {
        std::string adr = "0x" + hex((unsigned long long)(p + i * 32)) + ": ";
        s += "\r\n\t[" + adr;
        for (int j = i * 32; j < (i + 1) * 32 && j < len; j++)
        {
            unsigned char c = (unsigned char)p[j];
            s += c >= 32 && c < 127 ? std::string(" ") + (char)c + " " : std::string(" . ");
        }
        s += "\r\n\t[" + adr;
        for (int j = i * 32; j < (i + 1) * 32 && j < len; j++) s += fmt("%02X ", (unsigned char)p[j]);
    }
    return s + "\r\n\t]\r\n\t";
}

static Val make_val(Rng& r, bool exact_only, bool big)
{
    Val v;
    int maxs = big ? (r.chance(1, 4) ? LOGSZ * 3 : 200) : 40;
    switch (r.below(exact_only ? 25 : 29))
    {
    case 0: { int x = (int)rnd_u64(r); v.exact = std::to_string(x); v.put = [x](LogStream& l) { l << x; }; v.desc = "int " + v.exact; break; }
    case 1: { unsigned x = (unsigned)rnd_u64(r); v.exact = std::to_string(x); v.put = [x](LogStream& l) { l << x; }; v.desc = "unsigned " + v.exact; break; }
    case 2: { long long x = (long long)rnd_u64(r); v.exact = std::to_string(x); v.put = [x](LogStream& l) { l << x; }; v.desc = "long long " + v.exact; break; }
    case 3: { unsigned long long x = rnd_u64(r); v.exact = std::to_string(x); v.put = [x](LogStream& l) { l << x; }; v.desc = "unsigned long long " + v.exact; break; }
    case 4: { short x = (short)rnd_u64(r); v.exact = std::to_string(x); v.put = [x](LogStream& l) { l << x; }; v.desc = "short " + v.exact; break; }
    case 5: { unsigned short x = (unsigned short)rnd_u64(r); v.exact = std::to_string(x); v.put = [x](LogStream& l) { l << x; }; v.desc = "unsigned short " + v.exact; break; }
    case 6: { long x = (long)rnd_u64(r); v.exact = std::to_string(x); v.put = [x](LogStream& l) { l << x; }; v.desc = "long " + v.exact; break; }
    case 7: { unsigned long x = (unsigned long)rnd_u64(r); v.exact = std::to_string(x); v.put = [x](LogStream& l) { l << x; }; v.desc = "unsigned long " + v.exact; break; }
    case 8: { unsigned char x = (unsigned char)r.next(); v.exact = std::to_string((int)x); v.put = [x](LogStream& l) { l << x; }; v.desc = "unsigned char " + v.exact; break; }
    case 9: { char x = (char)r.range(1, 255); if (x == '\n' || x == '|') x = '_'; v.exact = std::string(1, x); v.put = [x](LogStream& l) { l << x; }; v.desc = "char"; break; }
    case 10: { bool x = r.chance(1, 2); v.exact = x ? "true" : "false"; v.put = [x](LogStream& l) { l << x; }; v.desc = v.exact; break; }
    case 11:
    {
        const void* p = r.chance(1, 6) ? nullptr : (const void*)(uintptr_t)rnd_u64(r);
        v.exact = p ? "0x" + hex((unsigned long long)(uintptr_t)p) : "null";
        v.put = [p](LogStream& l) { l << p; };
        v.desc = "pointer " + v.exact;
        break;
    }
    case 12:
        if (r.chance(1, 3)) { v.exact = "null"; v.put = [](LogStream& l) { l << (const char*)nullptr; }; v.desc = "(char*)null"; }
        else if (r.chance(1, 2)) { v.exact = "null"; v.put = [](LogStream& l) { l << nullptr; }; v.desc = "nullptr"; }
        else { const int* p = (const int*)(uintptr_t)(r.next() >> r.below(60)); v.exact = p ? "0x" + hex((unsigned long long)(uintptr_t)p) : "null"; v.put = [p](LogStream& l) { l << p; }; v.desc = "int*"; }
        break;
    case 13: { std::string s = rnd_str(r, maxs, false); v.exact = s; v.put = [s](LogStream& l) { l << s.c_str(); }; v.desc = fmt("cstr[%d]", (int)s.size()); break; }
    case 14: { std::string s = rnd_str(r, maxs, true); v.exact = s; v.put = [s](LogStream& l) { l << s; }; v.desc = fmt("string[%d]", (int)s.size()); break; }
    case 15: { std::string s = rnd_str(r, maxs, true); v.exact = s; v.put = [s](LogStream& l) { l.write_buffer(s.data(), (int)s.size()); }; v.desc = fmt("buffer[%d]", (int)s.size()); break; }
    case 16:
    {
        std::vector<int> c;
        for (uint64_t i = r.below(9); i > 0; i--) c.push_back((int)rnd_u64(r));
        v.exact = cont("vector:", c, [](const int& x) { return std::to_string(x); });
        v.put = [c](LogStream& l) { l << c; };
        v.desc = fmt("vector(%d)", (int)c.size());
        break;
    }
    case 17:
    {
        std::deque<std::string> c;
        for (uint64_t i = r.below(9); i > 0; i--) c.push_back(rnd_str(r, 6, false));
        if (r.chance(1, 2)) { v.exact = cont("deque:", c, [](const std::string& x) { return x; }); v.put = [c](LogStream& l) { l << c; }; }
        else { std::list<std::string> k(c.begin(), c.end()); v.exact = cont("list:", k, [](const std::string& x) { return x; }); v.put = [k](LogStream& l) { l << k; }; }
        v.desc = fmt("deque/list(%d)", (int)c.size());
        break;
    }
    case 18:
    {
        std::map<int, std::string> c;
        for (uint64_t i = r.below(9); i > 0; i--) c[(int)r.range(-100, 100)] = rnd_str(r, 6, false);
        auto f = [](const std::pair<const int, std::string>& x) { return "<" + std::to_string(x.first) + ":" + x.second + ">"; };
        if (r.chance(1, 2)) { v.exact = cont("map:", c, f); v.put = [c](LogStream& l) { l << c; }; }
        else { std::unordered_map<int, std::string> k(c.begin(), c.end()); v.exact = cont("unordered_map:", k, f); v.put = [k](LogStream& l) { l << k; }; }
        v.desc = fmt("map(%d)", (int)c.size());
        break;
    }
    case 19:
    {
        std::set<unsigned> c;
        for (uint64_t i = r.below(9); i > 0; i--) c.insert((unsigned)rnd_u64(r));
        auto f = [](const unsigned& x) { return std::to_string(x); };
        if (r.chance(1, 2)) { v.exact = cont("set:", c, f); v.put = [c](LogStream& l) { l << c; }; }
        else { std::unordered_set<unsigned> k(c.begin(), c.end()); v.exact = cont("unordered_set:", k, f); v.put = [k](LogStream& l) { l << k; }; }
        v.desc = fmt("set(%d)", (int)c.size());
        break;
    }
    case 20:
    {
        std::vector<std::vector<long long>> c;
        for (uint64_t i = r.below(4); i > 0; i--) { c.push_back({}); for (uint64_t k = r.below(4); k > 0; k--) c.back().push_back((long long)rnd_u64(r)); }
        v.exact = cont("vector:", c, [](const std::vector<long long>& x) { return cont("vector:", x, [](const long long& y) { return std::to_string(y); }); });
        v.put = [c](LogStream& l) { l << c; };
        v.desc = "nested vector";
        break;
    }
    case 21:
    {
        int a = (int)rnd_u64(r);
        std::string b = rnd_str(r, 10, false);
        v.exact = "<" + std::to_string(a) + ":" + b + ">";
        v.put = [a, b](LogStream& l) { l << std::make_pair(a, b); };
        v.desc = "pair";
        break;
    }
    case 22:
        switch (r.below(6))
        {
        case 0: width_vals<0>(v, r); break;
        case 1: width_vals<1>(v, r); break;
        case 2: width_vals<3>(v, r); break;
        case 3: width_vals<8>(v, r); break;
        case 4: width_vals<13>(v, r); break;
        default: width_vals<20>(v, r); break;
        }
        break;
    case 23:
    {
        int len = (int)r.below(big ? 500 : r.chance(1, 4) ? 70 : 20);
        const char* p = pool + r.below(sizeof pool - 600);
        v.exact = dump_ref(p, len);
        v.put = [p, len](LogStream& l) { l.write_binary(p, len); };
        v.desc = fmt("dump[%d]", len);
        break;
    }
    case 24:
    {
        long long a = (long long)rnd_u64(r);
        std::string s = rnd_str(r, maxs, false);
        char c = (char)r.range(33, 120);
        v.exact = std::to_string(a) + s + c;
        v.put = [a, s, c](LogStream& l) { LogTemplatePack(l, a, s, c); };
        v.desc = "pack";
        break;
    }
    case 25:
    case 26:
    {
        double d = rnd_double(r);
        v.match = [d](const std::string& s, std::string& why) { return match_double(d, 1, s, why); };
        v.put = [d](LogStream& l) { l << d; };
        v.desc = fmt("double %.17g", d);
        break;
    }
    case 27:
    {
        float f = (float)rnd_double(r);
        double d = f;
        v.match = [d](const std::string& s, std::string& why) { return match_double(d, 1, s, why); };
        v.put = [f](LogStream& l) { l << f; };
        v.desc = fmt("float %.9g", d);
        break;
    }
    default:
    {
        double d = std::fabs(rnd_double(r));
        if (!(d < 1e9)) d = (double)r.below(10000) / 10000.0;
        if (d < 0.0001) d = 0.25;
        float f = (float)d;
        double w = (double)f * 100.0;
        v.match = [w](const std::string& s, std::string& why) { if (s.empty() || s.back() != '%') { why = "no %"; return false; } return match_double(w, 1.01, s.substr(0, s.size() - 1), why); };
        v.put = [f, d](LogStream& l) { l << LogPercent(f); };
        v.desc = fmt("percent %.9g", d);
        v.need = 40;
        break;
    }
    }
    return v;
}

static std::string strip_nl(std::string s)
{
    if (!s.empty() && s.back() == '\n') s.pop_back();
    return s;
}

// ---- C07 -------------------------------------------------------------------------------------------------
static void case_value(Rng& r)
{
    Logger& lg = GetDefaultLogger();
    for (int rec = 0; rec < 12; rec++)
    {
        std::vector<Val> vs;
        std::string desc;
        int n = (int)r.range(1, 12), used = 0;
        for (int i = 0; i < n; i++)
        {
            Val v = make_val(r, false, false);
            int len = v.match ? 30 : (int)v.exact.size();
            if (used + len + 110 > LOGSZ) break;
            used += len + 1;
            desc += v.desc + ", ";
            vs.push_back(v);
        }
        bool sep_all = r.chance(1, 2);
        cur_desc = desc;
        hook_calls = 0; hook_text.clear();
        std::string expect_hint;
        bool align = r.chance(1, 4);
        int style = (int)r.below(5); // 4: printf style
        if (style == 4)
        {
            // printf-style
            int a = (int)rnd_u64(r);
            unsigned long long b = rnd_u64(r);
            std::string s = rnd_str(r, 60, false);
            double d = (double)r.range(-1000000, 1000000) / 128.0;
            char want[512];
            snprintf(want, sizeof want, "%d/%llx/%s/%.3f/%5d|%-8s|%c%%", a, b, s.c_str(), d, a % 1000, "ab", 'x');
            bool pfx = r.chance(1, 2);
            LOG_FORMAT(0, PRIORITY_INFO, 0, 0, pfx ? LOG_PREFIX_PRIORITY : LOG_PREFIX_NULL, "%d/%llx/%s/%.3f/%5d|%-8s|%c%%", a, b, s.c_str(), d, a % 1000, "ab", 'x');
            std::string w = std::string(pfx ? "[INFO ] " : "") + want;
            std::string g = strip_nl(new_text());
            count("values_checked");
            distinct(hash_str(w));
            if (g != w) violation("value", "printf", "printf-style record: got \"" + g.substr(0, 300) + "\" expected \"" + w + "\"");
            if (hook_calls != 1 || hook_text != w) violation("value", "printf_hook", fmt("hook calls %d text \"", hook_calls) + hook_text.substr(0, 200) + "\" expected \"" + w + "\"");
            continue;
        }
        std::vector<bool> seps;
        std::string head;
        {
            LogStream ls(lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL);
            if (align)
            {
                int k = (int)r.below(40);
                head = std::string((size_t)k, 'x');
                ls << head << LogBlankAlign<24>() << LogBlankAlign<7>();
                if (k < 24) head += std::string((size_t)(24 - k), ' ');
                ls << '|';
            }
            for (size_t i = 0; i < vs.size(); i++)
            {
                vs[i].put(ls);
                bool sep = sep_all || vs[i].match || i + 1 == vs.size() || vs[i + 1].match;
                if (sep) ls << '|';
                seps.push_back(sep);
            }
        }
        std::string raw = new_text(), g = strip_nl(raw);
        uint64_t h = 0;
        size_t pos = 0;
        bool bad = false;
        auto fail = [&](const std::string& what, const std::string& want)
        {
            bad = true;
            violation("value", "value:" + what.substr(0, what.find(' ')), what + ": at byte " + std::to_string(pos) + " got \"" + g.substr(pos, 160) + "\" expected \"" + want.substr(0, 160) + "\" | record: " + desc.substr(0, 400));
        };
        if (raw.empty() || raw.back() != '\n') { violation("value", "value:record", "record missing or unterminated: " + desc); continue; }
        if (align)
        {
            if (g.compare(0, head.size() + 1, head + "|") != 0) { fail("align", head + "|"); continue; }
            pos = head.size() + 1;
        }
        for (size_t i = 0; i < vs.size() && !bad; i++)
        {
            count("values_checked");
            h = mix(h ^ hash_str(vs[i].desc + vs[i].exact));
            if (vs[i].match)
            {
                size_t e = g.find('|', pos);
                if (e == std::string::npos) { fail(vs[i].desc, "a number"); break; }
                std::string why;
                if (!vs[i].match(g.substr(pos, e - pos), why)) { fail(vs[i].desc, why); break; }
                pos = e;
            }
            else
            {
                if (g.compare(pos, vs[i].exact.size(), vs[i].exact) != 0) { fail(vs[i].desc, vs[i].exact); break; }
                pos += vs[i].exact.size();
            }
            if (seps[i])
            {
                if (pos >= g.size() || g[pos] != '|') { fail("separator after " + vs[i].desc, "|"); break; }
                pos++;
            }
        }
        if (!bad && pos != g.size()) fail("end of record", "");
        distinct(h);
        // direct use of the hex / binary / decimal writers with minimum widths
        char buf[256];
        unsigned long long u = rnd_u64(r);
        struct { int got; std::string want; } t[4];
        auto chk = [&](const char* what, int n_, const std::string& want)
        {
            count("values_checked");
            if (std::string(buf, (size_t)std::max(0, std::min(n_, 200))) != want) violation("value", std::string("value:") + what, fmt("%s(%llu): got \"", what, u) + std::string(buf, (size_t)std::max(0, std::min(n_, 200))) + "\" expected \"" + want + "\"");
        };
        (void)t;
        auto pad = [](std::string s, size_t w) { return s.size() < w ? std::string(w - s.size(), '0') + s : s; };
        std::string bin;
        for (unsigned long long k = u; k; k >>= 1) bin = (char)('0' + (k & 1)) + bin;
        if (bin.empty()) bin = "0";
        memset(buf, 'Z', sizeof buf);
        chk("hex<0>", write_hex_unsafe<0>(buf, u), hex(u));
        chk("hex<2>", write_hex_unsafe<2>(buf, u), pad(hex(u), 2));
        chk("hex<7>", write_hex_unsafe<7>(buf, u), pad(hex(u), 7));
        chk("hex<16>", write_hex_unsafe<16>(buf, (long long)u), pad(hex(u), 16));
        chk("bin<0>", write_bin_unsafe<0>(buf, u), bin);
        chk("bin<12>", write_bin_unsafe<12>(buf, u), pad(bin, 12));
        chk("bin<64>", write_bin_unsafe<64>(buf, (long long)u), pad(bin, 64));
        chk("dec<0>", write_dec_unsafe<0>(buf, u), std::to_string(u));
        chk("dec<6>", write_dec_unsafe<6>(buf, u), pad(std::to_string(u), 6));
        chk("dec<20>", write_dec_unsafe<20>(buf, u), pad(std::to_string(u), 20));
    }
    if (r.chance(1, 200)) sample(cur_desc);
}

// ---- C08 -------------------------------------------------------------------------------------------------
struct Shadow
{
    std::string img;
    std::set<int> skip;
    void take(RingBuffer& rb) { img.assign((const char*)&rb, sizeof rb); }
    // memory of the ring that must be as before: all slots but the own ones, and the gaps
    void check(RingBuffer& rb, const std::string& what)
    {
        const char* now = (const char*)&rb;
        auto cmp = [&](const char* b, size_t n, const std::string& where)
        {
            size_t o = (size_t)(b - now);
            if (memcmp(b, img.data() + o, n) == 0) return;
            size_t k = 0;
            while (b[k] == img[o + k]) k++;
            violation("memory", "overrun", what + " changed memory outside its record: " + where + fmt(" byte %d", (int)k) + " | " + cur_desc.substr(0, 600));
        };
        for (int i = 0; i < RingBuffer::BUFFER_LEN; i++)
            if (!skip.count(i)) cmp((const char*)&rb.buffer_[i], sizeof(LogData), fmt("slot %d", i));
        cmp(rb.chunk_6_, sizeof rb.chunk_6_, "gap behind the slots");
        cmp((const char*)&rb.udp_buffer_, sizeof rb.udp_buffer_, "udp buffer");
    }
};

static std::string big_name(Rng& r, char c)
{
    int n;
    switch (r.below(5))
    {
    case 0: n = (int)r.below(5); break;
    case 1: n = (int)r.range(10, 200); break;
    case 2: n = (int)r.range(LOGSZ - 120, LOGSZ + 40); break;
    case 3: n = (int)r.range(LOGSZ, LOGSZ * 4); break;
    default: n = (int)r.range(200, LOGSZ - 150); break;
    }
    std::string s((size_t)n, c);
    for (uint64_t i = r.below(4); i > 0 && n > 0; i--) s[r.below((uint64_t)n)] = '/';
    return s;
}

struct Open
{
    std::unique_ptr<LogStream> ls;
    std::string full;    // what the record would be without a limit (prefix excluded if unknown)
    int slot = -1;
    std::string desc;
    bool printf_used = false;
    size_t first_cut = SIZE_MAX; // full length at which an operation may have been cut or skipped
};

static void case_big(Rng& r)
{
    Logger& lg = GetDefaultLogger();
    RingBuffer& rb = lg.shm_->ring_buffers_[0];
    std::vector<std::string> keep; // owners of name strings
    int nopen = r.chance(1, 2) ? 1 : (int)r.range(2, 5);
    std::vector<Open> op((size_t)nopen);
    std::deque<std::string> names;
    Shadow sh;
    for (int i = 0; i < nopen; i++)
    {
        Open& o = op[(size_t)i];
        bool pfx = r.chance(1, 2);
        unsigned p = pfx ? (unsigned)r.range(1, 127) : LOG_PREFIX_NULL;
        int prio = r.chance(1, 4) ? (int)r.range(-3, 12) : (int)r.range(0, 6);
        if (r.chance(1, 20)) prio = r.chance(1, 2) ? INT32_MAX : 7;
        if (prio < 0) prio = 0; // would be filtered
        int cat = r.chance(1, 8) ? (r.chance(1, 2) ? INT32_MIN : INT32_MAX) : (int)r.range(-200, 200);
        long long ident = r.chance(1, 8) ? (long long)rnd_u64(r) : (long long)r.below(100);
        names.push_back(big_name(r, 'f'));
        const char* fn = r.chance(1, 10) ? nullptr : names.back().c_str();
        int fl = (int)names.back().size();
        names.push_back(big_name(r, 'g'));
        const char* gn = r.chance(1, 10) ? nullptr : names.back().c_str();
        int gl = (int)names.back().size();
        int line = r.chance(1, 6) ? (int)rnd_u64(r) : (int)r.below(10000);
        o.desc = fmt("stream prio=%d prefix=%x file=%d func=%d ", prio, p, fn ? fl : -1, gn ? gl : -1);
        cur_desc = o.desc;
        sh.skip.clear();
        for (auto& x : op) if (x.slot >= 0) sh.skip.insert(x.slot);
        sh.take(rb);
        int next_slot = (int)((long long)rb.hold_idx_.load() % RingBuffer::BUFFER_LEN);
        o.ls.reset(new LogStream(lg, 0, prio, cat, ident, fn, fl, line, gn, gl, p));
        if (!o.ls->log_data_) { violation("memory", "refused", "record refused: " + o.desc); continue; }
        o.slot = o.ls->hold_idx_;
        (void)next_slot;
        sh.skip.clear();
        sh.skip.insert(o.slot);
        sh.check(rb, "starting a record");
        int n = o.ls->log_data_->content_len_;
        if (n < 0 || n > LOGSZ) { violation("memory", "len", fmt("record length %d of %d after the prefix | ", n, LOGSZ) + o.desc); n = std::max(0, std::min(n, LOGSZ)); }
        o.full.assign(o.ls->log_data_->content_, (size_t)n);
        if (n + 45 > LOGSZ) o.first_cut = std::min(o.first_cut, (size_t)n);
        // the prefix itself: known head
        count("records");
    }
    int steps = (int)r.range(1, 40);
    for (int s = 0; s < steps; s++)
    {
        Open& o = op[r.below((uint64_t)nopen)];
        if (!o.ls || !o.ls->log_data_) continue;
        sh.skip.clear();
        sh.skip.insert(o.slot);
        std::string what;
        Val v;
        int form = (int)r.below(12);
        std::string add;
        if (form == 0) { v.put = [](LogStream& l) { l << LogBlankAlign<300>(); }; v.desc = "align 300"; add = o.full.size() < 300 ? std::string(300 - o.full.size(), ' ') : ""; if (o.full.size() + 300 >= (size_t)LOGSZ) { o.first_cut = std::min(o.first_cut, o.full.size()); add.clear(); } }
        else if (form == 1)
        {
            double d = rnd_double(r);
            v.put = [d](LogStream& l) { l << d; l << (float)d; l << LogPercent(d); };
            v.desc = fmt("double %g", d);
            o.first_cut = std::min(o.first_cut, o.full.size()); // text not modelled here
        }
        else if (form == 2)
        {
            long long ts = (long long)rnd_u64(r);
            int ms = (int)rnd_u64(r);
            if (r.chance(1, 2)) ts = (long long)r.below(4000000000ULL);
            v.put = [ts, ms](LogStream& l) { l << LogTimestamp(ts, ms) << LogTimestamp(ts); };
            v.desc = fmt("timestamp %lld %d", ts, ms);
            o.first_cut = std::min(o.first_cut, o.full.size());
        }
        else if (form == 3) { int c = (int)rnd_u64(r); v.put = [c](LogStream& l) { l.set_category(c); }; v.desc = "set_category"; }
        else if (form == 4) { v.put = [](LogStream& l) { for (int i = 0; i < 8; i++) l << (const void*)(uintptr_t)~0ULL << (long long)INT64_MIN; }; v.desc = "wide numbers"; for (int i = 0; i < 8; i++) add += "0xFFFFFFFFFFFFFFFF-9223372036854775808"; }
        else { v = make_val(r, true, true); add = v.exact; }
        cur_desc = o.desc + "... " + v.desc;
        sh.take(rb);
        LogData before_head;
        int prefix_len = o.ls->log_data_->prefix_len_;
        (void)before_head; (void)prefix_len;
        v.put(*o.ls);
        sh.check(rb, v.desc);
        // from here on operations may be cut or skipped for lack of room (a number needs up to 45 bytes of room)
        if (o.full.size() + add.size() + 45 > (size_t)LOGSZ) o.first_cut = std::min(o.first_cut, o.full.size());
        if (o.first_cut == SIZE_MAX) o.full += add;
        int n = o.ls->log_data_->content_len_;
        if (n < 0 || n > LOGSZ) { violation("memory", "len", fmt("record length %d of %d after ", n, LOGSZ) + cur_desc); break; }
        o.desc += v.desc + ", ";
        count("operations");
    }
    // finish in any order; with several open records the earliest blocks the later ones (one queue)
    std::vector<size_t> ord;
    for (size_t i = 0; i < op.size(); i++) ord.push_back(i);
    for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    std::string got;
    std::vector<std::string> want(op.size());
    for (size_t k : ord)
    {
        Open& o = op[k];
        if (!o.ls || !o.ls->log_data_) continue;
        int n = std::max(0, std::min(o.ls->log_data_->content_len_, LOGSZ));
        // the record as it stands before it is handed over
        want[k].assign(o.ls->log_data_->content_, (size_t)n);
        cur_desc = o.desc;
        hook_calls = 0; hook_text.clear();
        sh.skip.clear();
        for (auto& x : op) if (x.slot >= 0) sh.skip.insert(x.slot);
        sh.take(rb);
        o.ls.reset();
        sh.check(rb, "handing over");
        if (hook_calls != 1) violation("memory", "hook", fmt("hook called %d times | ", hook_calls) + cur_desc);
        got += new_text();
    }
    // compare: queue order is creation order
    size_t pos = 0;
    for (size_t k = 0; k < op.size(); k++)
    {
        Open& o = op[k];
        if (o.slot < 0) continue;
        std::string w = want[k];
        size_t full = std::min(w.size(), (size_t)LOGSZ - 2);
        // leading bytes: exactly what was streamed
        size_t lead = std::min(o.full.size(), w.size());
        if (w.compare(0, lead, o.full, 0, lead) != 0 || (o.first_cut == SIZE_MAX && w.size() != o.full.size()))
            violation("memory", "leading", "text of a record differs from what was streamed before it was full | " + o.desc.substr(0, 500));
        if (got.compare(pos, full, w, 0, full) != 0) { violation("memory", "cut", "record delivered differently from its text | " + o.desc.substr(0, 500)); break; }
        pos += full;
        if (pos >= got.size() || got[pos] != '\n')
        {
            // up to two bytes may be cut for the terminator, never less text
            violation("memory", "newline", fmt("record of %d bytes is not followed by a newline after byte %d | ", (int)w.size(), (int)full) + o.desc.substr(0, 500));
            break;
        }
        pos++;
        if (full + 1 > (size_t)LOGSZ) violation("memory", "maximum", "record exceeds the maximum | " + o.desc.substr(0, 500));
        count(w.size() >= (size_t)LOGSZ - 2 ? "records_cut" : "records_fit");
    }
    if (pos != got.size()) violation("memory", "extra", fmt("%d extra bytes delivered | ", (int)(got.size() - pos)) + op[0].desc.substr(0, 500));
    uint64_t h = 0;
    for (auto& o : op) h = mix(h ^ hash_str(o.desc));
    distinct(h);
    // printf-style with oversized arguments
    {
        std::string a = rnd_str(r, LOGSZ * 2, false);
        cur_desc = fmt("printf-style with %d bytes", (int)a.size());
        int w = (int)r.range(-2000, 2000);
        hook_text.clear();
        long long hold = rb.hold_idx_.load();
        sh.skip = {(int)(hold % RingBuffer::BUFFER_LEN)};
        // (slot prediction is only used to exclude the own slot from the comparison)
        sh.take(rb);
        bool pfx = r.chance(1, 2);
        LOG_FORMAT(0, PRIORITY_INFO, 0, 0, pfx ? LOG_PREFIX_PRIORITY : LOG_PREFIX_NULL, "%s%*d%s", a.c_str(), w, 5, a.c_str());
        // which slot was used is visible from the text
        bool pred = memcmp(&rb.buffer_[*sh.skip.begin()], sh.img.data() + ((const char*)&rb.buffer_[*sh.skip.begin()] - (const char*)&rb), sizeof(LogData)) != 0;
        if (pred) sh.check(rb, "printf-style logging");
        std::string g = new_text();
        std::string num = "5";
        std::string e = a + (w < 0 ? num + std::string((size_t)(-w > 1 ? -w - 1 : 0), ' ') : std::string((size_t)(w > 1 ? w - 1 : 0), ' ') + num) + a;
        if (g.empty() || g.back() != '\n' || (int)g.size() > LOGSZ) violation("memory", "printf", fmt("printf-style record of %d bytes delivered as %d bytes", (int)e.size(), (int)g.size()));
        else
        {
            std::string t = strip_nl(g);
            std::string head = pfx ? "[INFO ] " : "";
            size_t off = head.size();
            if (t.compare(0, off, head) != 0) violation("memory", "printf", "printf-style record: prefix missing: " + t.substr(0, 40));
            off = std::min(off, t.size());
            std::string body = t.substr(off);
            if (e.compare(0, body.size(), body) != 0 || ((int)(off + e.size()) < LOGSZ - 2 && body.size() != e.size()) || ((int)(off + e.size()) >= LOGSZ && (int)t.size() < LOGSZ - 3))
                violation("memory", "printf", fmt("printf-style record of %d bytes (prefix %d) delivered as %d bytes with other text", (int)e.size(), (int)off, (int)t.size()));
        }
        count("printf_records");
    }
    // writing after a refused record must do nothing
    {
        LogStream ls(lg, (int)r.pick(std::vector<int>{-1, 2, 99, INT32_MAX, INT32_MIN}), PRIORITY_INFO, 0, 0, "a", 1, 1, "b", 1, LOG_PREFIX_ALL);
        cur_desc = "refused record";
        for (int i = 0; i < 5; i++) make_val(r, true, false).put(ls);
        ls << 1.5 << LogTimestamp(1, 2) << LogPercent(0.5) << LogBlankAlign<10>();
        ls.set_category(4);
    }
    if (!new_text().empty()) violation("memory", "refused_written", "a refused record was written");
    if (r.chance(1, 300)) sample(op[0].desc);
}

// ---- C21 -------------------------------------------------------------------------------------------------
static std::string ref_time(long long ts, int ms)
{
    time_t t = (time_t)ts;
    struct tm b;
    localtime_r(&t, &b);
    char o[128];
    snprintf(o, sizeof o, "[%04d%02d%02d %02d:%02d:%02d.%03d]", b.tm_year + 1900, b.tm_mon + 1, b.tm_mday, b.tm_hour, b.tm_min, b.tm_sec, ms);
    return o;
}
static std::string ref_short(const std::string& f)
{
    int n = 0;
    for (size_t i = f.size(); i-- > 0;)
        if (f[i] == '/' || f[i] == '\\')
            if (++n == 3) return f.substr(i + 1);
    return f;
}
static const char* LABEL[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"};
static std::string ref_prefix(unsigned p, long long ts, int ms, int prio, const std::string& file, unsigned long long line, const std::string& func, long tid)
{
    std::string s;
    if (p & LOG_PREFIX_TIMESTAMP) s += ref_time(ts, ms);
    if (p & LOG_PREFIX_PRIORITY) s += LABEL[prio];
    if (p & LOG_PREFIX_THREAD) s += "[" + std::to_string(tid) + "]";
    if (p & LOG_PREFIX_NAME) s += "[" + g_name + "]";
    if (p & LOG_PREFIX_DESC) s += "[" + g_desc + "]";
    if (p & LOG_PREFIX_FILE) s += "[" + (file.empty() ? "nofile" : ref_short(file)) + ":" + std::to_string(line) + "]";
    if (p & LOG_PREFIX_FUNCTION) s += "(" + (func.empty() ? "null" : func) + ")";
    if (p) s += " ";
    return s;
}
static const std::string THIS_FILE = __FILE__;
struct MacroCase { const char* name; int prio; int (*fn)(); };
#define MF(id, prio, stmt) static int m_##id() { stmt; return __LINE__; }
#define MF7(id, T, D, I, W, E, A, F) MF(id##0, 0, T) MF(id##1, 1, D) MF(id##2, 2, I) MF(id##3, 3, W) MF(id##4, 4, E) MF(id##5, 5, A) MF(id##6, 6, F)
MF7(st, LOGT("msg" << 7), LOGD("msg" << 7), LOGI("msg" << 7), LOGW("msg" << 7), LOGE("msg" << 7), LOGA("msg" << 7), LOGF("msg" << 7))
MF7(fs, LogTrace() << "msg" << 7, LogDebug() << "msg" << 7, LogInfo() << "msg" << 7, LogWarn() << "msg" << 7, LogError() << "msg" << 7, LogAlarm() << "msg" << 7, LogFatal() << "msg" << 7)
MF7(cs, LogTraceStream(0, 1, 2) << "msg" << 7, LogDebugStream(0, 1, 2) << "msg" << 7, LogInfoStream(0, 1, 2) << "msg" << 7, LogWarnStream(0, 1, 2) << "msg" << 7, LogErrorStream(0, 1, 2) << "msg" << 7, LogAlarmStream(0, 1, 2) << "msg" << 7, LogFatalStream(0, 1, 2) << "msg" << 7)
MF7(pk, PackTrace("msg", 7), PackDebug("msg", 7), PackInfo("msg", 7), PackWarn("msg", 7), PackError("msg", 7), PackAlarm("msg", 7), PackFatal("msg", 7))
MF7(pf, LOGFMTT("msg%d", 7), LOGFMTD("msg%d", 7), LOGFMTI("msg%d", 7), LOGFMTW("msg%d", 7), LOGFMTE("msg%d", 7), LOGFMTA("msg%d", 7), LOGFMTF("msg%d", 7))
#define MC7(id) {"m_" #id "0", 0, m_##id##0}, {"m_" #id "1", 1, m_##id##1}, {"m_" #id "2", 2, m_##id##2}, {"m_" #id "3", 3, m_##id##3}, {"m_" #id "4", 4, m_##id##4}, {"m_" #id "5", 5, m_##id##5}, {"m_" #id "6", 6, m_##id##6}
static const MacroCase MACROS[] = {MC7(st), MC7(fs), MC7(cs), MC7(pk), MC7(pf)};

static std::vector<long long> transitions; // clock changes of the process's time zone
static void find_transitions()
{
    long long last = 0;
    struct tm b;
    for (long long t = 0; t < 2100000000LL; t += 3600 * 12)
    {
        time_t x = (time_t)t;
        localtime_r(&x, &b);
        if (t && b.tm_gmtoff != last)
        {
            long long lo = t - 3600 * 12, hi = t;
            while (hi - lo > 1)
            {
                time_t m = (time_t)((lo + hi) / 2);
                struct tm c;
                localtime_r(&m, &c);
                if (c.tm_gmtoff == last) lo = (long long)m; else hi = (long long)m;
            }
            transitions.push_back(hi);
        }
        last = b.tm_gmtoff;
    }
}
static long long rnd_time(Rng& r)
{
    static const long long D = 86400;
    switch (r.below(6))
    {
    case 0: return (long long)r.below(4102444800ULL);
    case 1: if (!transitions.empty()) return std::max(1LL, transitions[r.below(transitions.size())] + (long long)r.range(-D, D)); return (long long)r.below(2000000000);
    case 2: if (!transitions.empty()) return std::max(1LL, transitions[r.below(transitions.size())] + (long long)r.range(-3, 3)); return (long long)r.below(2000000000);
    case 3: return (long long)(r.below(20000)) * D + (long long)r.range(-2, 2) + 2;
    case 4: return (long long)r.below(30000) * 3600 * 13 + (long long)r.range(0, 1);
    default: return 1700000000LL + (long long)r.below(100 * D);
    }
}
static void case_prefix(Rng& r)
{
    Logger& lg = GetDefaultLogger();
    long long ts = rnd_time(r);
    for (int i = 0; i < 10; i++)
    {
        if (r.chance(1, 3)) ts = rnd_time(r);
        else ts += (long long)r.pick(std::vector<int>{0, 0, 1, 59, 60, 3599, 3600, 7200, 86399, 86400, 90000, -1, -3600, -86400});
        if (ts < 1) ts = 1;
        int ms = (int)r.pick(std::vector<int>{0, 1, 9, 10, 99, 100, 999, (int)r.below(1000)});
        clock_set(ts, ms * 1000000LL + (long long)r.below(1000000));
        auto body = [&](long tid)
        {
            if (r.chance(1, 3))
            {
                auto& m = MACROS[r.below(sizeof MACROS / sizeof *MACROS)];
                cur_desc = fmt("macro %s at %lld.%03d TZ=%s", m.name, ts, ms, getenv("TZ"));
                int line = m.fn();
                std::string g = strip_nl(new_text());
                std::string want = ref_prefix(LOG_PREFIX_DEFAULT, ts, ms, m.prio, THIS_FILE, (unsigned long long)line, m.name, tid) + "msg7";
                count("prefixes_checked");
                distinct(hash_str(g));
                if (g != want) violation("prefix", "macro", cur_desc + ": got \"" + g + "\" expected \"" + want + "\"");
                return;
            }
            unsigned p = r.chance(1, 12) ? 0 : (unsigned)r.range(0, 127);
            int prio = (int)r.below(7);
            std::string file, func;
            for (uint64_t k = r.below(6); k > 0; k--) file += rnd_str(r, 8, false) + (r.chance(1, 5) ? "\\" : "/");
            if (r.chance(4, 5)) file += rnd_str(r, 12, false);
            if (r.chance(1, 5)) file = "/" + file;
            for (auto& c : file) if (c == '\n') c = '_';
            func = rnd_str(r, 20, false);
            int line = (int)r.pick(std::vector<int>{0, 1, 10, 99, 12345, INT32_MAX, (int)r.below(100000)});
            std::string content = rnd_str(r, 30, false);
            bool extra = r.chance(1, 4);
            long long ts2 = rnd_time(r);
            int ms2 = (int)r.below(1000);
            cur_desc = fmt("prefix %02x prio %d at %lld.%03d TZ=%s", p, prio, ts, ms, getenv("TZ"));
            {
                LogStream ls(lg, 0, prio, 0, 0, file.c_str(), (int)file.size(), line, func.c_str(), (int)func.size(), p);
                ls << content;
                if (extra) { ls << LogTimestamp(ts2, ms2); ls << LogTimestamp(ts2 * 1000 + ms2); ls << LogTimestamp(); }
            }
            std::string g = strip_nl(new_text());
            std::string want = ref_prefix(p, ts, ms, prio, file, (unsigned long long)line, func, tid) + content;
            if (extra) want += ref_time(ts2, ms2) + ref_time(ts2, ms2) + ref_time(ts, ms);
            count("prefixes_checked");
            distinct(hash_str(g));
            if (g != want) violation("prefix", "prefix", cur_desc + ": got \"" + g + "\" expected \"" + want + "\"");
        };
        if (r.chance(1, 5))
        {
            std::thread t([&] { body((long)syscall(SYS_gettid)); });
            t.join();
            count("threads");
        }
        else body((long)syscall(SYS_gettid));
    }
    if (r.chance(1, 300)) sample(cur_desc);
}

static void run_case(long long idx)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed);
    for (auto& c : pool) c = (char)r.next();
    std::string name = "n", desc = "d";
    auto clean = [](std::string s) { for (auto& c : s) if (strchr("\"#'`,[]{}@:$ \\", c)) c = '-'; return s; };
    if (opt().mode != "value")
    {
        name = clean(rnd_str(r, 40, false)); desc = clean(rnd_str(r, Logger::MAX_LOGGER_DESC_LEN - 1, false));
        if (opt().mode == "big" && r.chance(1, 4)) { name = std::string((size_t)Logger::MAX_LOGGER_NAME_LEN - 1, 'N'); desc = std::string((size_t)Logger::MAX_LOGGER_DESC_LEN - 1, 'D'); }
        if (name.empty()) name = "n";
        if (desc.empty()) desc = "d";
    }
    if (idx % 16 == 0 || opt().single || g_name.empty())
    {
        clock_set(1700000000LL);
        stop();
        syscall(SYS_unlink, logfile.c_str());
        file_pos = 0;
        if (!start(name, desc)) return;
        SetVirtualDevice(hook_fn);
    }
    if (opt().mode == "value") case_value(r);
    else if (opt().mode == "big") case_big(r);
    else case_prefix(r);
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    static const char* zones[] = {"UTC0", "LMT-0:53:28", "CST-8", "EST5EDT,M3.2.0,M11.1.0", "GMT0BST,M3.5.0/1,M10.5.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "<+0545>-5:45", "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01", "<+13>-13<+14>,M9.5.0/3,M4.1.0/4", "<-04>4<-03>,M9.1.6/24,M4.1.6/24"};
    setenv("TZ", zones[opt().seed % (sizeof zones / sizeof *zones)], 1);
    tzset();
    find_transitions();
    dir = opt().scratch + "/d";
    mkdir(dir.c_str(), 0755);
    logfile = dir + "/log.log";
    hooks().guard_paths = true;
    run_cases(run_case);
    stop();
    wipe(dir);
    count("zone_transitions", (long long)transitions.size());
    finish();
    _exit(0);
}
