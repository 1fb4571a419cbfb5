// File devices: size-based rotation (C11), time-based rotation and naming (C12), output failures (C20).
// One logger writes through real files in a scratch directory under a virtual clock; in the modes size and time the
// complete directory tree is compared with an independent model of the device, in the mode fault files are parsed and judged.
#define VP_PLAIN_ATOMICS
#define FN_LOG_MAX_CHANNEL_SIZE 3
#include "vp_fnlog.h"

using namespace FNLog;
using namespace vp;
typedef long long ll;
typedef unsigned long long ull;

static Logger* lg;
static std::string base;   // all files of a case live below
static std::string cur;    // description of the case
static std::string argv0;
static ll T;               // time of the next record (virtual, s)

struct MDev
{
    std::string path, file; // templates
    ll limit = 0, n = 0, append = 0, daily = 0, hourly = 0, able = 1;
    bool via_cfg_limit = false;
    // state
    bool open = false;
    std::string at;
    ll size = 0, opened_at = 0;
    // failures
    ll opens = 0, rotated = 0;
    // delivered since the logger was made, and the counters it began with
    ll lines = 0, bytes = 0, lines0 = 0, bytes0 = 0;
};
struct MChan { bool sync = true; std::vector<MDev> dev; };
static std::vector<MChan> M;
static std::map<std::string, std::string> fs; // the whole tree: path below base -> content
static std::map<std::string, std::string> foreign;

// ---- model ---------------------------------------------------------------------------------------------
static std::string expand(std::string s, ll ts)
{
    time_t t = (time_t)ts;
    struct tm m;
    localtime_r(&t, &m);
    std::string f;
    for (size_t i = 0; i < s.size(); i++) { if (s.compare(i, 2, "%F") == 0) { f += "$YEAR-$MON-$DAY"; i++; } else f += s[i]; }
    std::vector<std::pair<std::string, std::string>> k = {
        {"$PNAME", argv0}, {"$PID", fmt("%06d", (int)getpid())}, {"$YEAR", fmt("%04d", m.tm_year + 1900)}, {"$MON", fmt("%02d", m.tm_mon + 1)},
        {"$MIN", fmt("%02d", m.tm_min)}, {"$DAY", fmt("%02d", m.tm_mday)}, {"$HOUR", fmt("%02d", m.tm_hour)}, {"$SEC", fmt("%02d", m.tm_sec)}};
    std::string o;
    for (size_t i = 0; i < f.size();)
    {
        bool hit = false;
        for (auto& x : k) if (f.compare(i, x.first.size(), x.first) == 0) { o += x.second; i += x.first.size(); hit = true; break; }
        if (!hit) o += f[i++];
    }
    return o;
}
static std::string full_path(const MDev& d, int c, int i, ll ts)
{
    std::string p = expand(d.path, ts);
    for (auto& ch : p) if (ch == '\\') ch = '/';
    if (!p.empty() && p.back() != '/') p += '/';
    std::string f = d.file.empty() ? "$PNAME_$YEAR$MON$DAY_$PID." + std::to_string(c) + std::to_string(i) : d.file;
    return p + expand(f + ".log", ts);
}
// name of the model file: without doubled slashes and ./, relative to the scratch directory
static std::string norm(const std::string& p)
{
    std::string s = p[0] == '/' ? p : opt().scratch + "/" + p;
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] == '/' && !o.empty() && o.back() == '/') continue;
        if (s[i] == '.' && !o.empty() && o.back() == '/' && i + 1 < s.size() && s[i + 1] == '/') { i++; continue; }
        if (s.compare(i, 3, "../") == 0 && o.size() > 1 && o.back() == '/') { o.pop_back(); o.erase(o.rfind('/') + 1); i += 2; continue; }
        o += s[i];
    }
    return o;
}
static struct tm local(ll t) { time_t x = (time_t)t; struct tm m; localtime_r(&x, &m); return m; }
static bool same_day(ll a, ll b) { struct tm x = local(a), y = local(b); return x.tm_year == y.tm_year && x.tm_yday == y.tm_yday; }
// local hours are periods of 3600 s that begin at a full local hour
static bool same_hour(ll a, ll b)
{
    struct tm x = local(a), y = local(b);
    ll ha = a - x.tm_min * 60 - x.tm_sec, hb = b - y.tm_min * 60 - y.tm_sec;
    return ha == hb;
}
static void shift(const std::string& p, const std::string& stem, ll depth, ll max)
{
    if (!fs.count(p)) return;
    if (depth > max) { fs.erase(p); count("backups_discarded"); return; }
    std::string nx = stem + "." + std::to_string(depth);
    shift(nx, stem, depth + 1, max);
    fs[nx] = fs[p];
    fs.erase(p);
}
static void deliver(int c, int i, ll ts, const std::string& text)
{
    MDev& d = M[(size_t)c].dev[(size_t)i];
    if (!d.able) return;
    ll len = (ll)text.size();
    bool out = d.limit > 0 && d.n > 0 && d.open && d.size + len > d.limit;
    bool roll = d.open && !out && ((d.daily && !same_day(d.opened_at, ts)) || (!d.daily && d.hourly && !same_hour(d.opened_at, ts)));
    if (out || roll) d.open = false;
    if (out) count("size_rotations");
    if (roll) count(d.daily ? "daily_rotations" : "hourly_rotations");
    if (!d.open)
    {
        std::string raw = full_path(d, c, i, ts);
        if (raw.size() >= 250) { count("too_long"); return; }
        std::string p = norm(raw);
        if (d.limit > 0 || d.n > 0)
        {
            bool full = d.n > 0 && d.limit > 0 && fs.count(p) && !fs[p].empty() && (ll)fs[p].size() + len > d.limit;
            if (!d.append || full) { if (fs.count(p)) { count("shifts"); d.rotated++; } shift(p, p, 1, d.n > 0 ? d.n : 1); }
            else if (fs.count(p)) count("reopened_in_append_mode");
        }
        else if (fs.count(p)) count("reopened");
        d.open = true;
        d.at = p;
        d.opened_at = ts;
        d.size = (ll)fs[p].size();
        d.opens++;
        count("opens");
    }
    fs[d.at] += text;
    d.size += len;
    d.lines++;
    d.bytes += len;
}

// ---- comparison ------------------------------------------------------------------------------------------
static void tree(const std::string& p, std::map<std::string, std::string>& out)
{
    for (auto& n : list_dir(p))
    {
        std::string q = p + "/" + n;
        struct stat st;
        if (lstat(q.c_str(), &st) != 0) continue;
        if (S_ISDIR(st.st_mode)) tree(q, out);
        else out[q] = slurp(q);
    }
}
static std::string heads(const std::string& s)
{
    std::string o = fmt("%d bytes:", (int)s.size());
    for (auto& l : lines_of(s)) { size_t p = l.find('|'); o += " " + l.substr(0, p == std::string::npos ? 12 : std::min<size_t>(p, 12)); }
    return o.substr(0, 250);
}
static std::string mode_kind;
static bool compare(bool wait)
{
    std::map<std::string, std::string> now;
    bool same = false;
    for (int i = 0; i < (wait ? 3000 : 1); i++)
    {
        now.clear();
        tree(base, now);
        same = now == fs;
        if (same) break;
        if (wait) usleep(20000);
    }
    count("tree_comparisons");
    if (same) return true;
    std::string what;
    std::string key = "content";
    for (auto& f : fs) if (!now.count(f.first)) { what += " missing " + f.first.substr(base.size()) + " (" + heads(f.second) + ")"; key = "missing"; }
    for (auto& f : now) if (!fs.count(f.first)) { what += " extra " + f.first.substr(base.size()) + " (" + heads(f.second) + ")"; key = "extra"; }
    for (auto& f : now) if (fs.count(f.first) && fs[f.first] != f.second) what += " " + f.first.substr(base.size()) + " holds " + heads(f.second) + " instead of " + heads(fs[f.first]);
    for (auto& f : foreign) if (!now.count(f.first) || now[f.first] != f.second) key = "foreign";
    violation(mode_kind, mode_kind + ":" + key, what.substr(0, 700) + " | " + cur.substr(cur.size() > 900 ? cur.size() - 900 : 0));
    return false;
}

// ---- generators --------------------------------------------------------------------------------------------
static ll next_rec;
static void emit(int c, const std::string& text)
{
    LogStream ls(*lg, c, PRIORITY_INFO, 0, 0, "f.cpp", 5, 1, "fn", 2, LOG_PREFIX_NULL);
    ls << text;
}
static const ll LIMCAP = LogData::LOG_SIZE * 7 / 2 + 50;
static std::string make_text(Rng& r, int max)
{
    std::string s = fmt("R%lld|", next_rec++);
    int n = r.chance(1, 6) ? (int)r.range(0, 3) : r.chance(1, 6) ? max : (int)r.range(0, max);
    while ((int)s.size() < n) s += (char)('a' + r.below(26));
    s += "|";
    return s;
}
static std::string config()
{
    std::string s = "hot_update: false\n";
    for (size_t c = 0; c < M.size(); c++)
    {
        s += fmt(" - channel: %d\n    sync: %s\n", (int)c, M[c].sync ? "sync" : "async");
        for (size_t i = 0; i < M[c].dev.size(); i++)
        {
            MDev& d = M[c].dev[i];
            s += fmt("    - device: %d\n        out_type: file\n", (int)i);
            if (d.able) s += "        disable: false\n";
            if (!d.path.empty()) s += "        path: \"" + d.path + "\"\n";
            if (!d.file.empty()) s += "        file: \"" + d.file + "\"\n";
            if (d.n) s += fmt("        rollback: %lld\n", d.n);
            if (d.limit) s += fmt("        limit_size: %lld\n", d.limit / 1000000 ? d.limit / 1000000 : 1);
            if (d.append) s += "        stuff_up: true\n";
            if (d.daily) s += "        rolldaily: true\n";
            if (d.hourly) s += "        rollhourly: true\n";
        }
    }
    return s;
}
static ll counter(size_t c, size_t i, DeviceLogEnum e) { return GetDeviceLog(*lg, (int)c, (int)i, e); }
static bool fresh = true;
static bool start()
{
    std::string c = config();
    int ret = ParseAndStartLogger(*lg, c);
    if (ret != 0) { violation(mode_kind, mode_kind + ":start", fmt("start failed: %d | ", ret) + c); return false; }
    // limits are configured in MB, the tests use smaller ones
    for (size_t k = 0; k < M.size(); k++) for (size_t i = 0; i < M[k].dev.size(); i++) SetDeviceConfig(*lg, (int)k, (int)i, DEVICE_CFG_FILE_LIMIT_SIZE, M[k].dev[i].limit);
    if (fresh)
        for (size_t k = 0; k < M.size(); k++)
            for (size_t i = 0; i < M[k].dev.size(); i++)
            {
                MDev& d = M[k].dev[i];
                d.lines0 = counter(k, i, DEVICE_LOG_TOTAL_WRITE_LINE);
                d.bytes0 = counter(k, i, DEVICE_LOG_TOTAL_WRITE_BYTE);
                d.lines = d.bytes = 0;
            }
    fresh = false;
    return true;
}
// a stopped logger is quiescent: the counters of every device equal what it was given since the logger was made
static void judge_counters()
{
    for (size_t k = 0; k < M.size(); k++)
        for (size_t i = 0; i < M[k].dev.size(); i++)
        {
            MDev& d = M[k].dev[i];
            ll l = counter(k, i, DEVICE_LOG_TOTAL_WRITE_LINE) - d.lines0, b = counter(k, i, DEVICE_LOG_TOTAL_WRITE_BYTE) - d.bytes0, p = counter(k, i, (DeviceLogEnum)(DEVICE_LOG_PRIORITY + PRIORITY_INFO));
            std::string tail = " | " + cur.substr(cur.size() > 900 ? cur.size() - 900 : 0);
            if (l != d.lines || b != d.bytes) violation("stats", "stats:file", fmt("device %d.%d counts %lld lines and %lld bytes instead of %lld and %lld", (int)k, (int)i, l, b, d.lines, d.bytes) + tail);
            if (p - d.bytes0 != b) violation("stats", "stats:file_priority", fmt("device %d.%d counts %lld bytes of its only priority, and %lld in all", (int)k, (int)i, p, b) + tail);
            if (d.open && counter(k, i, DEVICE_LOG_CUR_FILE_SIZE) != d.size) violation("stats", "stats:file_size", fmt("device %d.%d counts %lld bytes in its file of %lld", (int)k, (int)i, counter(k, i, DEVICE_LOG_CUR_FILE_SIZE), d.size) + tail);
            count("device_counters_checked");
        }
}
static void stop()
{
    StopLogger(*lg);
    judge_counters();
    for (auto& c : M) for (auto& d : c.dev) d.open = false;
}
static void restart(Rng& r)
{
    stop();
    if (r.chance(1, 2)) { delete lg; lg = new Logger; fresh = true; count("new_logger"); }
    cur += "; restart";
    count("restarts");
}

static void size_case(Rng& r)
{
    bool templ = r.chance(1, 5);
    int nc = (int)r.range(1, 3);
    for (int c = 0; c < nc; c++)
    {
        MChan ch;
        ch.sync = r.chance(2, 3);
        int nd = (int)r.range(1, 3);
        for (int i = 0; i < nd; i++)
        {
            MDev d;
            d.path = base + (r.chance(1, 3) ? fmt("/p%d/q%d", c, i) : r.chance(1, 2) ? fmt("/p%d/", c) : "");
            d.file = fmt("f%d%d", c, i) + (templ && r.chance(1, 2) ? r.pick(std::vector<std::string>{"_$MIN", ".$SEC", "_$HOUR"}) : r.chance(1, 6) ? r.pick(std::vector<std::string>{".1", ".12", "7", ".log"}) : "");
            d.n = r.chance(1, 8) ? 0 : r.chance(1, 8) ? r.range(9, 12) : r.range(1, 5);
            d.limit = r.chance(1, 10) ? 0 : r.chance(1, 5) ? r.range(1, 120) : r.range(100, LIMCAP);
            d.append = r.chance(1, 3);
            if (r.chance(1, 8)) d.daily = 1;
            else if (r.chance(1, 8)) d.hourly = 1;
            ch.dev.push_back(d);
        }
        M.push_back(ch);
    }
    ll maxlen = r.chance(1, 3) ? 60 : r.chance(1, 2) ? LogData::LOG_SIZE - 10 : 300;
    // earlier files and files of others
    auto put = [&](const std::string& p, const std::string& s, bool alien)
    {
        std::string q = norm(p);
        if (fs.count(q)) return;
        for (size_t k = base.size() + 1; k < q.size(); k++) if (q[k] == '/') mkdir(q.substr(0, k).c_str(), 0755);
        spit(q, s);
        fs[q] = s;
        if (alien) foreign[q] = s;
    };
    for (int c = 0; c < nc; c++)
        for (size_t i = 0; i < M[(size_t)c].dev.size(); i++)
        {
            MDev& d = M[(size_t)c].dev[i];
            std::string p = full_path(d, c, (int)i, T);
            if (r.chance(1, 3))
            {
                int have = (int)r.below(4);
                for (int b = have; b >= 0; b--)
                {
                    std::string s;
                    int k = (int)r.range(1, 6);
                    while (k--) s += make_text(r, (int)maxlen) + "\n";
                    put(b ? p + "." + std::to_string(b) : p, s, false);
                }
            }
            if (r.chance(1, 2))
            {
                static const std::vector<std::string> ext = {".bak", ".1.bak", ".x", ".01", ".", "1", ".gz", "~", ".1~", ".0"};
                int k = (int)r.range(1, 5);
                while (k--) put(p + r.pick(ext), "foreign", true);
                put(p.substr(0, p.size() - 4), "foreign", true);
                put(p.substr(0, p.size() - 4) + ".1", "foreign", true);
                put(p.substr(0, p.size() - 4) + ".1.log", "foreign", true);
                put(p + fmt(".%d", 40 + (int)r.below(10)), "foreign", true);
            }
        }
    for (auto& f : foreign) fs[f.first] = f.second;
    cur = "TZ=" + std::string(getenv("TZ")) + "\n" + config();
    for (auto& c : M) for (auto& d : c.dev) cur += fmt("limit %lld; ", d.limit);
    if (!start()) return;
    int steps = (int)r.range(10, 120);
    while (steps-- && res().violations < res().max_violations)
    {
        int c = (int)r.below(M.size());
        if (r.chance(1, 4)) T += r.chance(1, 6) ? (ll)r.below(100000) : (ll)r.below(4);
        if (r.chance(1, 40)) T -= (ll)r.below(5000);
        if (r.chance(1, 15))
        {
            if (r.chance(1, 3) && !compare(true)) return;
            restart(r);
            if (!M[0].sync || r.chance(1, 2)) { if (!compare(false)) return; }
            if (r.chance(1, 3))
            {
                size_t k = r.below(M.size());
                MDev& d = M[k].dev[r.below(M[k].dev.size())];
                d.append = !d.append;
                if (r.chance(1, 3)) d.limit = r.range(50, LIMCAP);
            }
            if (!start()) return;
        }
        if (r.chance(1, 15))
        {
            if (!M[(size_t)c].sync && !compare(true)) return;
            int i = (int)r.below(M[(size_t)c].dev.size());
            MDev& d = M[(size_t)c].dev[(size_t)i];
            switch (r.below(4))
            {
            case 0: d.limit = r.chance(1, 5) ? 0 : r.range(1, LIMCAP); SetDeviceConfig(*lg, c, i, DEVICE_CFG_FILE_LIMIT_SIZE, d.limit); cur += fmt("; %d.%d limit %lld", c, i, d.limit); break;
            case 1: d.n = r.range(0, 6); SetDeviceConfig(*lg, c, i, DEVICE_CFG_FILE_ROLLBACK, d.n); cur += fmt("; %d.%d rollback %lld", c, i, d.n); break;
            case 2: d.append = !d.append; SetDeviceConfig(*lg, c, i, DEVICE_CFG_FILE_STUFF_UP, d.append); cur += fmt("; %d.%d stuff_up %lld", c, i, d.append); break;
            default: d.able = !d.able; SetDeviceConfig(*lg, c, i, DEVICE_CFG_ABLE, d.able); cur += fmt("; %d.%d able %lld", c, i, d.able); break;
            }
            count("changes");
        }
        clock_step(T, (ll)r.range(1000000, 900000000));
        // now and then a record that just fits or just does not
        std::string s = make_text(r, (int)maxlen);
        if (r.chance(1, 3))
        {
            MDev& d = M[(size_t)c].dev[r.below(M[(size_t)c].dev.size())];
            ll room = d.limit - d.size - 1 + r.range(-1, 1);
            if (d.open && d.limit && room > (ll)s.size() && room < LogData::LOG_SIZE - 10) { s.resize((size_t)room - 1, 'x'); s += "|"; count("exact_fits"); }
        }
        cur += fmt("; %lld+%d to %d", T, (int)s.size() + 1, c);
        emit(c, s);
        for (size_t i = 0; i < M[(size_t)c].dev.size(); i++) deliver(c, (int)i, T, s + "\n");
        count("records");
        if (M[(size_t)c].sync && nc == 1 ? r.chance(1, 2) : r.chance(1, 12)) { if (!compare(true)) return; }
        // sizes: independent of the model
    }
    if (r.chance(1, 2)) { if (!compare(true)) return; stop(); }
    else { stop(); if (!compare(false)) return; }
}

static ll transition(Rng& r, ll around)
{
    // next change of the local offset after `around`
    ll a = around, step = 86400;
    auto off = [](ll t) { struct tm m = local(t); return (ll)m.tm_gmtoff; };
    for (int i = 0; i < 400; i++, a += step)
        if (off(a) != off(a + step))
        {
            ll lo = a, hi = a + step;
            while (hi - lo > 1) { ll m = (lo + hi) / 2; if (off(m) == off(lo)) lo = m; else hi = m; }
            count("clock_changes");
            return hi + r.range(-7300, 7300);
        }
    return around;
}
static void time_case(Rng& r)
{
    int nc = (int)r.range(1, 2);
    static const std::vector<std::string> dirs = {"", "/", "/a", "/$YEAR", "/$YEAR/$MON/$DAY", "/x/$PNAME/", "/$PNAME_$PID", "/%F", "/d$HOUR", "//y//z", "\\w\\v", "/$YEAR$MON$DAY\\$HOUR", "/./k/", "/$FOO/%d", "/one/two/three/four/five/"};
    static const std::vector<std::string> names = {"$PNAME", "$YEAR-$MON-$DAY", "%F", "$HOUR", "$MIN$SEC", "n_$PID", "$DAY", "$MON", "plain", "$$YEAR", "$YEARLY", "$PNAMES", "$", "$P", "%", "%%F", "$MONTH", "$M", "a$HOUR:$MIN:$SEC", "$PIDx", "$pid", "x%d", "%F_%F"};
    for (int c = 0; c < nc; c++)
    {
        MChan ch;
        ch.sync = r.chance(2, 3);
        int nd = (int)r.range(1, 4);
        for (int i = 0; i < nd; i++)
        {
            MDev d;
            d.path = (r.chance(1, 6) ? (r.chance(1, 3) ? ".." + opt().scratch.substr(opt().scratch.rfind('/')) + "/" : "./") + base.substr(opt().scratch.size() + 1) : base) + r.pick(dirs);
            int k = (int)r.range(1, 3);
            while (k--) d.file += r.pick(names);
            d.file += fmt("_%d%d", c, i);
            if (r.chance(1, 8) || d.file.size() > 48) d.file = "";
            if (r.chance(1, 40)) { while (d.path.size() < 190) d.path += "/dddddddd"; }
            switch (r.below(4))
            {
            case 0: case 1: d.daily = 1; break;
            case 2: d.hourly = 1; break;
            }
            if (r.chance(1, 6)) d.n = r.range(1, 3);
            if (r.chance(1, 8)) d.append = 1;
            ch.dev.push_back(d);
        }
        M.push_back(ch);
    }
    cur = "TZ=" + std::string(getenv("TZ")) + "\n" + config();
    if (!start()) return;
    int steps = (int)r.range(8, 60);
    while (steps-- && res().violations < res().max_violations)
    {
        int c = (int)r.below(M.size());
        struct tm m = local(T);
        switch (r.below(12))
        {
        case 0: T += r.range(1, 10); break;
        case 1: T += r.range(60, 4000); break;
        case 2: T += 3600 - m.tm_min * 60 - m.tm_sec + r.range(-2, 2); break;                                    // hour border
        case 3: { ll day = T - m.tm_hour * 3600 - m.tm_min * 60 - m.tm_sec + 86400; T = day + r.range(-2, 2); break; } // day border
        case 4: { ll day = T - m.tm_hour * 3600 - m.tm_min * 60 - m.tm_sec + 86400; T = day + r.range(-9000, 9000); break; }
        case 5: T += r.range(3000, 100000); break;
        case 6: if (r.chance(1, 3)) T = transition(r, T); break;
        case 7: if (r.chance(1, 4)) T -= r.range(1, 100000); break;
        case 8: if (r.chance(1, 4)) T += r.range(1, 500) * 86400; break;
        case 9: if (r.chance(1, 2)) T += r.range(22, 26) * 3600; break;
        default: break;
        }
        if (r.chance(1, 25))
        {
            if (r.chance(1, 2) && !compare(true)) return;
            restart(r);
            if (!start()) return;
        }
        clock_step(T, (ll)r.range(1000000, 900000000));
        std::string s = make_text(r, 80);
        if (r.chance(1, 3)) { struct tm x = local(T); s += fmt(" %04d-%02d-%02d %02d:%02d:%02d|", x.tm_year + 1900, x.tm_mon + 1, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec); }
        cur += fmt("; %lld to %d", T, c);
        emit(c, s);
        for (size_t i = 0; i < M[(size_t)c].dev.size(); i++) deliver(c, (int)i, T, s + "\n");
        count("records");
        if (M[(size_t)c].sync && nc == 1 ? r.chance(1, 3) : r.chance(1, 12)) { if (!compare(true)) return; }
    }
    if (r.chance(1, 2)) { if (!compare(true)) return; stop(); }
    else { stop(); if (!compare(false)) return; }
}

// ---- failures ------------------------------------------------------------------------------------------------
struct FRec { std::string text; ll ts; bool fault; }; // fault: a failure was active or may still hold the device back
struct FDev { bool victim = false; std::string stem; std::vector<FRec> recs; ll clear_ts = -1000000; bool torn = false, faulted_now = false, flush_failed = false; size_t seeded = 0; };
static std::vector<std::vector<FDev>> F;
static std::string f_op, f_prefix;
static int f_rate = 0, f_errno = 0;
static ll f_fired = 0;
static Rng f_rng(1);
static bool fault_hook(const char* op, const std::string& p)
{
    if (f_rate == 0 || f_op != op || p.compare(0, f_prefix.size(), f_prefix) != 0) return false;
    if ((int)f_rng.below(100) >= f_rate) return false;
    f_fired++;
    errno = f_errno;
    return true;
}
static void judge_fault(int c, int i)
{
    FDev& f = F[(size_t)c][(size_t)i];
    MDev& d = M[(size_t)c].dev[(size_t)i];
    std::string id = fmt("device %d.%d (%s)", c, i, f.victim ? "failing" : "unaffected");
    std::vector<std::string> parts;
    std::string all;
    int have = 0;
    bool end_ok = true;
    for (int b = 99; b >= 0; b--)
    {
        bool ok;
        std::string s = slurp(b ? f.stem + "." + std::to_string(b) : f.stem, &ok);
        if (!ok) continue;
        have++;
        if (b == 0 && f.seeded) { if (s.size() < f.seeded) { violation("fault", "fault:seed", id + " lost the earlier content of its file | " + cur); continue; } s = s.substr(f.seeded); }
        all += s;
        if (!s.empty() && s.back() != '\n') end_ok = false;
    }
    // where each record was found
    std::vector<int> found(f.recs.size(), 0);
    ll last = -1;
    ll oldest = -1;
    for (auto& l : lines_of(all))
    {
        // a line ends with a complete record; what may precede it is the rest of a record cut by a failure
        size_t p = l.rfind("R");
        ll k = -1;
        while (p != std::string::npos)
        {
            k = atoll(l.c_str() + p + 1);
            if (k > 0 && k <= (ll)f.recs.size() && l.compare(p, std::string::npos, f.recs[(size_t)k - 1].text) == 0) break;
            k = -1;
            if (p == 0) break;
            p = l.rfind("R", p - 1);
        }
        if (k < 0)
        {
            if (!f.torn) violation("fault", "fault:torn", id + " holds a line that is no record: " + l.substr(0, 100) + " | " + cur);
            continue;
        }
        if (p != 0 && !f.torn) violation("fault", "fault:glued", id + " holds other text before a record: " + l.substr(0, 100) + " | " + cur);
        if (found[(size_t)k - 1]++) { violation("fault", "fault:dup", id + fmt(" holds record %lld twice | ", k) + cur); continue; }
        if (k <= last) violation("fault", "fault:order", id + fmt(" holds record %lld after record %lld | ", k, last) + cur);
        last = k;
        if (oldest < 0) oldest = k;
        count("records_found");
    }
    if (!end_ok && !f.torn) violation("fault", "fault:unterminated", id + " ends within a record | " + cur);
    ll must = 0, missing = 0;
    for (size_t k = 0; k < f.recs.size(); k++)
    {
        if (f.recs[k].fault) continue;
        bool rotated_away = d.n > 0 && ((ll)k + 1 < oldest || (oldest < 0 && f.torn));
        if (rotated_away) continue;
        must++;
        if (!found[k]) { if (!missing++) violation("fault", f.victim ? "fault:lost_after" : "fault:lost_other", id + fmt(" misses record %d of %d (time %lld), which no failure excuses; found %lld..%lld in %d files | ", (int)k + 1, (int)f.recs.size(), f.recs[k].ts, oldest, last, have) + cur); }
    }
    count(f.victim ? "must_on_victims" : "must_on_others", must);
    // the counters: all records of a device that never failed, else all found in its files unless some were cut or discarded
    ll lines = counter((size_t)c, (size_t)i, DEVICE_LOG_TOTAL_WRITE_LINE) - d.lines0, nf = 0;
    ll bytes = counter((size_t)c, (size_t)i, DEVICE_LOG_TOTAL_WRITE_BYTE) - d.bytes0, bf = 0;
    bool exact = !f.victim || (!f.torn && !f.flush_failed && d.n == 0);
    for (size_t k = 0; k < f.recs.size(); k++) if (found[k] || !f.victim) { nf++; bf += (ll)f.recs[k].text.size() + 1; }
    if (exact ? lines != nf || bytes != bf : lines < nf || lines > (ll)f.recs.size() || bytes < bf)
        violation("stats", "stats:fault", id + fmt(" counts %lld lines and %lld bytes instead of %s%lld and %lld; it was given %d records | ", lines, bytes, exact ? "" : "at least ", nf, bf, (int)f.recs.size()) + cur.substr(cur.size() > 900 ? cur.size() - 900 : 0));
    count(exact ? "fault_counters_exact" : "fault_counters_bounded");
    if (d.n > 0 && have > d.n + 1) violation("fault", "fault:backups", id + fmt(" has %d files | ", have) + cur);
}
static void fault_case(Rng& r)
{
    F.clear();
    int nc = (int)r.range(1, 3);
    f_rng = Rng(r.next());
    f_rate = 0;
    std::vector<std::pair<int, int>> victims;
    bool seeded = false;
    for (int c = 0; c < nc; c++)
    {
        MChan ch;
        ch.sync = r.chance(1, 2);
        int nd = (int)r.range(1, 4);
        F.emplace_back();
        for (int i = 0; i < nd; i++)
        {
            MDev d;
            FDev f;
            f.victim = r.chance(1, 2);
            d.path = base + fmt("/v%d%d/s/t/", c, i);
            d.file = "f";
            if (r.chance(1, 2)) { d.n = r.range(1, 4); d.limit = r.range(200, 3000); }
            if (r.chance(1, 3)) d.append = 1;
            if (r.chance(1, 3)) { if (r.chance(1, 2)) d.daily = 1; else d.hourly = 1; }
            f.stem = norm(d.path + "f.log");
            if (f.victim && !seeded && r.chance(1, 3))
            {
                // a large file: a file size limit of the process stops only this one
                d.n = d.limit = 0;
                f.seeded = 300000;
                seeded = true;
                for (size_t k = base.size() + 1; k < f.stem.size(); k++) if (f.stem[k] == '/') mkdir(f.stem.substr(0, k).c_str(), 0755);
                spit(f.stem, std::string(f.seeded - 1, 'x') + "\n");
            }
            ch.dev.push_back(d);
            F.back().push_back(f);
            if (f.victim) victims.push_back({c, i});
        }
        M.push_back(ch);
    }
    if (victims.empty()) { F[0][0].victim = true; victims.push_back({0, 0}); }
    cur = config();
    for (auto& c : M) for (auto& d : c.dev) cur += fmt("limit %lld; ", d.limit);
    if (!start()) return;
    auto pushed = [&](int c)
    {
        if (M[(size_t)c].sync) return;
        for (int k = 0; k < 100000; k++)
        {
            if (GetChannelLog(*lg, c, CHANNEL_LOG_PROCESSED) >= GetChannelLog(*lg, c, CHANNEL_LOG_PUSH)) break;
            if (k == 99999) violation("fault", "fault:stuck", fmt("channel %d does not process its records any more | ", c) + cur);
            usleep(2000);
        }
        usleep(30000);
        // the batch is flushed: the log thread may have been held up between the last record and the flush
        for (size_t i = 0; i < M[(size_t)c].dev.size(); i++)
        {
            FDev& f = F[(size_t)c][i];
            if (f.recs.empty() || f.recs.back().fault) continue;
            for (int k = 0; k < 400; k++)
            {
                bool found = false;
                std::vector<std::string> names = {f.stem};
                for (int b = 1; b <= 4; b++) names.push_back(f.stem + fmt(".%d", b));
                for (auto& n : names) { std::string t = slurp(n); if (t.size() >= f.recs.back().text.size() && t.find(f.recs.back().text, t.size() > 4000 ? t.size() - 4000 : 0) != std::string::npos) { found = true; break; } }
                if (found) break;
                usleep(5000);
            }
        }
    };
    int phases = (int)r.range(2, 5);
    std::pair<int, int> v{-1, -1};
    for (int ph = 0; ph < phases * 2 && res().violations < res().max_violations; ph++)
    {
        bool faulty = ph % 2 == 0 ? r.chance(1, 4) : true;
        std::string broken; // path made unusable
        if (faulty)
        {
            for (size_t c = 0; c < M.size(); c++) pushed((int)c);
            v = victims[r.below(victims.size())];
            FDev& f = F[(size_t)v.first][(size_t)v.second];
            f.faulted_now = true;
            f_prefix = base + fmt("/v%d%d/", v.first, v.second);
            f_errno = r.pick(std::vector<int>{ENOSPC, EACCES, EMFILE, EIO, EROFS, EINTR});
            f_rate = r.chance(1, 2) ? 100 : (int)r.range(10, 80);
            switch (r.below(8))
            {
            case 0: case 1: f_op = "open"; break;
            case 2: f_op = "write"; f.torn = true; break;
            case 3: f_op = "flush"; f.flush_failed = true; break;
            case 4: f_op = "mkdir"; break;
            case 5: f_op = "rename"; break;
            case 6: f_op = "remove"; break;
            default: // a file in the place of the directory
                f_rate = 0;
                f_op = "none";
                if (access((base + fmt("/v%d%d", v.first, v.second)).c_str(), F_OK) != 0) { broken = base + fmt("/v%d%d", v.first, v.second); spit(broken, "in the way"); f_op = "file instead of directory"; }
                break;
            }
            if (f.seeded && r.chance(3, 4))
            {
                f_rate = 0;
                if (!broken.empty()) unlink(broken.c_str());
                broken.clear();
                f_op = "file size limit";
                f.torn = true;
                struct stat st;
                struct rlimit rl{0, 0};
                getrlimit(RLIMIT_FSIZE, &rl);
                rl.rlim_cur = (stat(f.stem.c_str(), &st) == 0 ? (rlim_t)st.st_size : 300000) + r.below(120);
                setrlimit(RLIMIT_FSIZE, &rl);
            }
            cur += fmt("; [%s of %d.%d fails (%d%%)", f_op.c_str(), v.first, v.second, f_rate);
            count("faults:" + f_op);
        }
        int n = (int)r.range(3, 30);
        while (n--)
        {
            int c = (int)r.below(M.size());
            if (r.chance(1, 3)) T += r.chance(1, 20) ? r.range(3000, 90000) : r.range(0, 3);
            if (r.chance(1, 60))
            {
                for (size_t k = 0; k < M.size(); k++) pushed((int)k);
                StopLogger(*lg);
                cur += "; restart";
                count("restarts");
                if (!start()) return;
                // the hold-back after a failed open does not outlive a stop
                for (auto& x : F) for (auto& f : x) if (!f.faulted_now) f.clear_ts = -1000000;
            }
            std::string s = fmt("#%d.", c) + std::string((size_t)(r.chance(1, 8) ? r.range(0, LogData::LOG_SIZE - 60) : r.range(0, 60)), (char)('a' + r.below(26))) + "|";
            clock_step(T, (ll)r.range(1000000, 900000000));
            // every device of a channel numbers the records of its channel
            ll k = (ll)F[(size_t)c][0].recs.size() + 1;
            s = fmt("R%lld", k) + s;
            ll before = (ll)(real_now() * 1000);
            emit(c, s);
            if (M[(size_t)c].sync && (ll)(real_now() * 1000) - before > 5000) violation("fault", "fault:blocked", fmt("a log call to channel %d took %lld ms | ", c, (ll)(real_now() * 1000) - before) + cur);
            for (auto& f : F[(size_t)c]) f.recs.push_back(FRec{s, T, f.faulted_now || T < f.clear_ts + 5});
            cur += fmt("; R%lld@%lld+%d to %d", k, T, (int)s.size() + 1, c);
            count("records");
        }
        if (faulty)
        {
            // the failure may end while records are still in the queue: let the queue run empty first
            for (size_t c = 0; c < M.size(); c++) pushed((int)c);
            f_rate = 0;
            if (!broken.empty()) unlink(broken.c_str());
            struct rlimit rl{0, 0};
            getrlimit(RLIMIT_FSIZE, &rl);
            rl.rlim_cur = rl.rlim_max;
            setrlimit(RLIMIT_FSIZE, &rl);
            FDev& f = F[(size_t)v.first][(size_t)v.second];
            f.faulted_now = false;
            f.clear_ts = T;
            cur += "; over]";
            if (r.chance(1, 2)) T += r.range(0, 9);
        }
    }
    for (size_t c = 0; c < M.size(); c++) pushed((int)c);
    StopLogger(*lg);
    for (size_t c = 0; c < M.size(); c++) for (size_t i = 0; i < M[c].dev.size(); i++) judge_fault((int)c, (int)i);
    count("faults_fired", f_fired);
    f_fired = 0;
}

static void run_case(long long idx)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed);
    SchedCfg sc;
    sc.stick = (int)r.pick(std::vector<int>{50, 90, 97});
    sc.step_cap = 40000000;
    episode_begin(seed, sc);
    M.clear(); fs.clear(); foreign.clear();
    next_rec = 1;
    cur.clear();
    if (!base.empty()) { wipe(base); rmdir(base.c_str()); }
    base = opt().scratch + "/d" + std::to_string(idx % 7);
    mkdir(base.c_str(), 0755);
    T = 1600000000 + (ll)r.below(200000000);
    clock_set(T);
    lg = new Logger;
    fresh = true;
    mode_kind = opt().mode == "size" ? "rotation" : opt().mode == "time" ? "calendar" : "fault";
    if (opt().mode == "size") size_case(r);
    else if (opt().mode == "time") time_case(r);
    else fault_case(r);
    f_rate = 0;
    if (lg->logger_state_ == LOGGER_STATE_RUNNING) StopLogger(*lg);
    delete lg;
    lg = nullptr;
    episode_end();
    distinct(hash_str(cur));
    if (r.chance(1, 200)) sample(cur.substr(0, 900));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    argv0 = argv[0];
    argv0 = argv0.substr(argv0.rfind('/') + 1);
    static const std::vector<std::string> zones = {"UTC0", "LMT-0:53:28", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-03>3<-02>,M10.3.0/0,M2.3.0/0", "<+0545>-5:45", "<-1130>11:30", "IST-2IDT,M3.4.4/26,M10.5.0", "<+14>-14", "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01"};
    setenv("TZ", zones[opt().seed % zones.size()].c_str(), 1);
    tzset();
    if (chdir(opt().scratch.c_str()) != 0) return 3;
    signal(SIGXFSZ, SIG_IGN);
    hooks().guard_paths = true;
    hooks().fault = fault_hook;
    run_cases(run_case);
    if (!base.empty()) wipe(base);
    finish();
    _exit(0);
}
