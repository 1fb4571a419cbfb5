// Hot update (C13): histories of configuration file versions (valid, unparsable, missing, structurally incompatible, hot update switched off)
// against a virtual clock, records, stops and restarts.  The settings a channel may have at a moment form a set (checks happen somewhere within an
// interval); one interval after a change with activity in the channel only the settings of the file remain.
#define VP_PLAIN_ATOMICS
#define FN_LOG_MAX_CHANNEL_SIZE 3
#include "vp_fnlog.h"
#include <sys/stat.h>
#include <fcntl.h>
using namespace FNLog;
using namespace vp;
typedef long long ll;
typedef unsigned long long ull;

static Logger* lg;
static std::string dir, conf, cur;
static ll T;
static const ll IVL = 5;

struct Rules
{
    ll f[7] = {0, 0, 0, 0, 0, 0, 0}; // priority, category, extend, mask, identify, extend, mask
    bool operator==(const Rules& o) const { return memcmp(f, o.f, sizeof f) == 0; }
    bool pass(ll p, ll c, ll i) const
    {
        if (p < f[0]) return false;
        if (f[2] > 0 && (c < f[1] || c >= f[1] + f[2])) return false;
        if (f[5] > 0 && (i < f[4] || i >= f[4] + f[5])) return false;
        if (f[3] && !((ull)f[3] >> (c & 63) & 1)) return false;
        if (f[6] && !((ull)f[6] >> (i & 63) & 1)) return false;
        return true;
    }
};
struct MDev
{
    int out = DEVICE_OUT_FILE;
    std::string file; // file devices
    ll able = 1, limit = 0, n = 0, append = 0, daily = 0, hourly = 0, ip = 0, port = 0;
    Rules r;
    bool operator==(const MDev& o) const
    {
        return out == o.out && file == o.file && able == o.able && limit == o.limit && n == o.n && append == o.append && daily == o.daily && hourly == o.hourly && ip == o.ip && port == o.port && r == o.r;
    }
};
struct MChan
{
    bool sync = true;
    Rules r;
    std::vector<MDev> dev;
    bool operator==(const MChan& o) const { return sync == o.sync && r == o.r && dev == o.dev; }
};
struct Ver // content of the file
{
    bool exists = true, valid = true, hot = true;
    ll mtime = 0, since = 0;
    std::vector<MChan> ch;
};
struct State { MChan c; ll mtime; bool operator==(const State& o) const { return c == o.c && mtime == o.mtime; } };

static Ver file;
static std::vector<Ver> in_flight; // valid versions replaced since the log threads were last seen to go round
static std::vector<std::vector<State>> P; // settings every channel may have
static bool hot_may = true, hot_must = true; // hot update may still be on / is surely still on
static ll started, certain_at; // certain_at: every log thread went round after it
static bool running, open_fails;

static const ChannelConfigEnum CF[] = {CHANNEL_CFG_PRIORITY, CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND, CHANNEL_CFG_IDENTIFY_MASK};
static const DeviceConfigEnum DF[] = {DEVICE_CFG_PRIORITY, DEVICE_CFG_CATEGORY, DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_IDENTIFY, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK};
static const char* PRIO[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};

// ---- generator ----------------------------------------------------------------------------------------------
static void gen_rules(Rng& r, Rules& m, int density)
{
    if (r.chance(density, 10)) m.f[0] = (ll)r.below(6);
    for (int k = 0; k < 2; k++)
    {
        if (r.chance(density, 20)) { m.f[1 + 3 * k] = r.range(0, 3); m.f[2 + 3 * k] = r.range(0, 8); }
        if (r.chance(density, 20)) m.f[3 + 3 * k] = r.chance(1, 4) ? 0 : (ll)((r.next() | r.next()) & 0xff) | 1;
    }
}
static std::string text_rules(const Rules& r, const std::string& ind)
{
    std::string s = ind + "priority: " + PRIO[r.f[0]] + "\n";
    for (int k = 0; k < 2; k++)
    {
        std::string n = k ? "identify" : "category";
        s += ind + n + ": " + std::to_string(r.f[1 + 3 * k]) + "\n" + ind + n + "_extend: " + std::to_string(r.f[2 + 3 * k]) + "\n";
        if (r.f[3 + 3 * k]) s += ind + n + "_wmask: " + std::to_string((ull)r.f[3 + 3 * k]) + "\n";
    }
    return s;
}
static int next_file;
static MDev gen_dev(Rng& r, bool allow_virtual)
{
    MDev d;
    switch (r.below(allow_virtual ? 8 : 6))
    {
    case 0: d.out = DEVICE_OUT_UDP; d.ip = 0x0100007f; d.port = r.range(2000, 2004); break;
    case 6: case 7: d.out = DEVICE_OUT_VIRTUAL; break;
    default: d.file = fmt("f%d", next_file++); break;
    }
    d.able = r.chance(4, 5);
    gen_rules(r, d.r, 4);
    return d;
}
static void mutate_dev(Rng& r, MDev& d)
{
    if (r.chance(1, 3)) d.able = !d.able;
    if (r.chance(1, 2)) { if (r.chance(1, 3)) d.r = Rules(); gen_rules(r, d.r, 5); }
    if (d.out == DEVICE_OUT_FILE && r.chance(1, 2))
    {
        d.limit = r.chance(1, 3) ? 0 : r.range(1, 2);
        d.n = r.range(0, 3);
        d.append = r.below(2);
        if (r.chance(1, 4)) d.daily = r.below(2);
        if (r.chance(1, 4)) d.hourly = r.below(2);
    }
    if (d.out == DEVICE_OUT_UDP && r.chance(1, 2)) { d.port = r.range(2000, 2009); if (r.chance(1, 2)) d.ip = 0x0000007f | ((ll)r.range(1, 3) << 24); }
}
// what the text says; limits are given in 1000*1000 bytes
static std::string render(const Ver& v, Rng& r)
{
    std::string s;
    if (v.hot || r.chance(1, 2)) s += fmt("%shot_update: %s\n", r.chance(1, 2) ? " - " : "", v.hot ? "true" : "false");
    for (size_t c = 0; c < v.ch.size(); c++)
    {
        s += fmt(" - channel: %d\n    sync: %s\n", (int)c, v.ch[c].sync ? "sync" : "async");
        s += text_rules(v.ch[c].r, "    ");
        for (size_t i = 0; i < v.ch[c].dev.size(); i++)
        {
            const MDev& d = v.ch[c].dev[i];
            s += fmt("    - device: %d\n        disable: %s\n        out_type: %s\n", (int)i, d.able ? "false" : "true", d.out == DEVICE_OUT_FILE ? "file" : d.out == DEVICE_OUT_UDP ? "udp" : "virtual");
            s += text_rules(d.r, "        ");
            if (d.out == DEVICE_OUT_FILE) s += "        path: \"" + dir + "/\"\n        file: \"" + d.file + fmt("\"\n        rollback: %lld\n        limit_size: %lld\n        stuff_up: %s\n        rolldaily: %s\n        rollhourly: %s\n", d.n, d.limit, d.append ? "true" : "false", d.daily ? "true" : "false", d.hourly ? "true" : "false");
            if (d.out == DEVICE_OUT_UDP) s += fmt("        udp_addr: \"%lld.%lld.%lld.%lld:%lld\"\n", d.ip & 255, d.ip >> 8 & 255, d.ip >> 16 & 255, d.ip >> 24 & 255, d.port);
        }
    }
    return s;
}
// settings of a channel after it has taken up a version of the file
static MChan apply(const MChan& a, size_t c, const Ver& v)
{
    MChan o = a;
    if (!v.exists || !v.valid || c >= v.ch.size()) return o;
    o.r = v.ch[c].r;
    for (size_t i = 0; i < v.ch[c].dev.size(); i++)
    {
        const MDev& s = v.ch[c].dev[i];
        if (i < o.dev.size())
        {
            MDev d = s;
            d.out = o.dev[i].out;
            d.file = o.dev[i].file;
            o.dev[i] = d;
        }
        else o.dev.push_back(s);
    }
    return o;
}
static void add(std::vector<State>& v, const State& s)
{
    for (auto& x : v) if (x == s) return;
    v.push_back(s);
}

// channel c had the occasion to look at the file; sure: it did at least once since "since" if an interval has passed
static void activity(size_t c, bool sure)
{
    if (!hot_may) return;
    bool looked = sure && certain_at >= std::max(file.since, started) + IVL; // unless hot update is off already
    sure = looked && hot_must;
    // an asynchronous channel may have read an earlier version and take it up only now
    if (running && !sure && !P[c].empty() && !P[c][0].c.sync)
        for (auto& v : in_flight)
        {
            std::vector<State> n = P[c];
            if (c < v.ch.size()) for (auto& s : P[c]) if (s.mtime != v.mtime) add(n, State{apply(s.c, c, v), v.mtime});
            P[c] = n;
            if (c < v.ch.size() && !v.hot) hot_must = false;
        }
    bool takes = file.exists && file.valid && !open_fails && c < file.ch.size();
    bool off_sure = takes && !file.hot && looked; // taken up now, or off before
    std::vector<State> n;
    for (auto& s : P[c])
    {
        if (!takes || s.mtime == file.mtime) { add(n, s); continue; }
        // (another channel that took up "hot_update: false" before keeps this one from doing so)
        if (!sure || !file.hot) add(n, s);
        add(n, State{apply(s.c, c, file), file.mtime});
    }
    P[c] = n;
    if (takes && !file.hot) hot_must = false;
    if (off_sure) { hot_may = false; count("turned_off"); }
    if (sure && takes) count("sure_checks");
}
static void all_activity(bool sure) { for (size_t c = 0; c < P.size(); c++) activity(c, sure && running && !P[c][0].c.sync); }

static std::string diff(const MChan& m, size_t c)
{
    auto one = [&](const char* what, ll want, ll got) { return want == got ? std::string() : fmt("%s is %lld instead of %lld", what, got, want); };
    std::string e;
    for (int k = 0; k < 7 && e.empty(); k++) e = one(fmt("channel field %d", k).c_str(), m.r.f[k], (ll)AtomicLoadC(lg->shm_->channels_[c], CF[k]));
    for (size_t i = 0; i < m.dev.size() && e.empty(); i++)
    {
        const MDev& d = m.dev[i];
        auto g = [&](DeviceConfigEnum f) { return GetDeviceConfig(*lg, (int)c, (int)i, f); };
        for (int k = 0; k < 7 && e.empty(); k++) e = one(fmt("device %d field %d", (int)i, k).c_str(), d.r.f[k], g(DF[k]));
        if (e.empty()) e = one(fmt("device %d enabled", (int)i).c_str(), d.able, g(DEVICE_CFG_ABLE));
        if (e.empty()) e = one(fmt("device %d limit", (int)i).c_str(), d.limit * 1000 * 1000, g(DEVICE_CFG_FILE_LIMIT_SIZE));
        if (e.empty()) e = one(fmt("device %d rollback", (int)i).c_str(), d.n, g(DEVICE_CFG_FILE_ROLLBACK));
        if (e.empty()) e = one(fmt("device %d stuff_up", (int)i).c_str(), d.append, g(DEVICE_CFG_FILE_STUFF_UP));
        if (e.empty()) e = one(fmt("device %d daily", (int)i).c_str(), d.daily, g(DEVICE_CFG_FILE_ROLLDAILY));
        if (e.empty()) e = one(fmt("device %d hourly", (int)i).c_str(), d.hourly, g(DEVICE_CFG_FILE_ROLLHOURLY));
        if (e.empty()) e = one(fmt("device %d port", (int)i).c_str(), d.port ? htons((uint16_t)d.port) : 0, g(DEVICE_CFG_UDP_PORT));
        if (e.empty()) e = one(fmt("device %d address", (int)i).c_str(), d.ip, g(DEVICE_CFG_UDP_IP));
    }
    if (e.empty() && GetDeviceConfig(*lg, (int)c, (int)m.dev.size(), DEVICE_CFG_ABLE)) e = fmt("device %d exists", (int)m.dev.size());
    return e;
}
static void observe(size_t c)
{
    std::vector<State> n;
    std::string why;
    for (auto& s : P[c])
    {
        std::string e = diff(s.c, c);
        if (e.empty()) n.push_back(s);
        else why += (why.empty() ? "" : " / ") + e;
    }
    count("observations");
    if (P[c].size() == 1) count("exact_observations");
    if (n.empty())
    {
        violation("hot", "hot:settings", fmt("channel %d, %d possible settings: ", (int)c, (int)P[c].size()) + why.substr(0, 600) + " | " + cur);
        n = P[c];
    }
    P[c] = n;
}

// ---- deliveries -----------------------------------------------------------------------------------------------
static std::set<ll> hooked;
static std::map<ll, std::vector<std::pair<ll, ll>>> sent; // record -> (ip, port)
static ll num_of(const std::string& s) { size_t p = s.rfind("R="); return p == std::string::npos ? -1 : atoll(s.c_str() + p + 2); }
static void hook_fn(const LogData& log) { hooked.insert(num_of(log.content_)); }
static int copies_in(const std::string& f, const std::string& text)
{
    int n = 0;
    for (int b = 0; b <= 4; b++)
    {
        std::string s = slurp(dir + "/" + f + ".log" + (b ? "." + std::to_string(b) : ""));
        for (size_t q = s.size() > 20000 ? s.size() - 20000 : 0; (q = s.find(text, q)) != std::string::npos; q++) n++;
    }
    return n;
}
static void settle()
{
    if (!running) return;
    ll t0 = clock_sec();
    for (int i = 0; i < 60; i++) usleep(10000);
    for (size_t c = 0; c < P.size(); c++)
        for (int k = 0; !P[c][0].c.sync && GetChannelLog(*lg, (int)c, CHANNEL_LOG_PROCESSED) < GetChannelLog(*lg, (int)c, CHANNEL_LOG_PUSH); k++)
        {
            usleep(2000);
            if (k > 100000) { violation("hot", "hot:stuck", fmt("channel %d stopped processing | ", (int)c) + cur); break; }
        }
    for (int i = 0; i < 60; i++) usleep(10000);
    all_activity(false);
    in_flight.clear();
    certain_at = t0;
}
static ll next_rec;
static void log_one(Rng& r)
{
    int c = (int)r.below(P.size());
    bool sync = P[(size_t)c][0].c.sync;
    all_activity(false);
    observe((size_t)c);
    std::vector<State> before = P[(size_t)c];
    ll prio = r.chance(1, 2) ? r.range(4, 6) : (ll)r.below(7), cat = r.range(0, 8), id = r.range(0, 8), rec = next_rec++;
    std::string text = fmt("c%d R=%lld;", c, rec);
    if (sync) certain_at = clock_sec();
    ll pushed = GetChannelLog(*lg, c, CHANNEL_LOG_PUSH);
    { LogStream ls(*lg, c, (int)prio, (int)cat, id, "f", 1, 1, "x", 1, LOG_PREFIX_NULL); ls << text; }
    bool accepted = GetChannelLog(*lg, c, CHANNEL_LOG_PUSH) != pushed;
    cur += fmt("; R%lld@%lld to %d(%lld,%lld,%lld)%s", rec, clock_sec(), c, prio, cat, id, accepted ? "" : " blocked");
    count("records");
    if (!sync)
    {
        settle();
        activity((size_t)c, false);
    }
    std::vector<State> after = P[(size_t)c];
    if (running)
    {
        // which devices have it?
        std::set<std::string> files;
        for (auto& s : before) for (auto& d : s.c.dev) if (d.out == DEVICE_OUT_FILE) files.insert(d.file);
        for (auto& s : after) for (auto& d : s.c.dev) if (d.out == DEVICE_OUT_FILE) files.insert(d.file);
        std::map<std::string, int> got;
        for (auto& f : files) got[f] = copies_in(f, text);
        bool ok = false;
        std::string why;
        for (auto& s1 : before)
        {
            for (auto& s2 : sync ? std::vector<State>{s1} : after)
            {
                bool want_acc = false;
                if (s1.c.r.pass(prio, cat, id)) for (auto& d : s1.c.dev) if (d.able && d.r.pass(prio, cat, id)) want_acc = true;
                std::string e;
                if (want_acc != accepted) e = want_acc ? "rejected" : "accepted";
                bool want_hook = false;
                std::map<std::string, int> want;
                std::vector<std::pair<ll, ll>> udp;
                for (size_t i = 0; i < s2.c.dev.size(); i++)
                {
                    auto& d = s2.c.dev[i];
                    auto& dh = d.out == DEVICE_OUT_VIRTUAL && i < s1.c.dev.size() ? s1.c.dev[i] : d;
                    bool w = accepted && dh.able && dh.r.pass(prio, cat, id) && !(d.out == DEVICE_OUT_VIRTUAL && i >= s1.c.dev.size());
                    if (!w) continue;
                    if (d.out == DEVICE_OUT_VIRTUAL) want_hook = true;
                    else if (d.out == DEVICE_OUT_FILE) want[d.file]++;
                    else if (d.port) udp.push_back({d.ip, htons((uint16_t)d.port)});
                }
                if (e.empty() && want_hook != (hooked.count(rec) > 0)) e = want_hook ? "not seen by the hook" : "seen by the hook";
                for (auto& f : files) if (e.empty() && want[f] != got[f]) e = f + fmt(" has it %d times instead of %d", got[f], want[f]);
                if (e.empty() && udp != sent[rec]) e = fmt("%d datagrams instead of %d, or to other addresses", (int)sent[rec].size(), (int)udp.size());
                if (e.empty()) { ok = true; break; }
                why += (why.empty() ? "" : " / ") + e;
            }
            if (ok) break;
        }
        count("deliveries_judged");
        if (before.size() == 1 && after.size() == 1) count("exact_deliveries");
        if (!ok) violation("hot", "hot:delivery", fmt("record %lld: ", rec) + why.substr(0, 600) + " | " + cur);
    }
    else if (accepted) violation("hot", "hot:stopped", "a stopped logger accepts records | " + cur);
    if (accepted && sync) activity((size_t)c, true);
    observe((size_t)c);
}

// ---- the file --------------------------------------------------------------------------------------------------
static std::set<ll> used_mtimes; // nanoseconds
static ll new_mtime(Rng& r)
{
    for (;;)
    {
        ll m = r.chance(1, 5) ? clock_sec() - r.range(0, 1000000) : r.chance(1, 5) ? clock_sec() + r.range(0, 100) : clock_sec() + r.range(-2, 2);
        if (m <= 0) continue;
        m *= 1000000000;
        if (r.chance(1, 4) && !used_mtimes.empty()) m = file.mtime - file.mtime % 1000000000; // a second change within the second
        if (r.chance(2, 3)) m += r.chance(1, 4) ? r.range(1, 999) : r.range(1, 999999999);
        if (!used_mtimes.insert(m).second) continue;
        if (m / 1000000000 == file.mtime / 1000000000) count("same_second");
        return m;
    }
}
static void put_file(const std::string& text, ll mtime, bool directory)
{
    struct stat st;
    if (lstat(conf.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmdir(conf.c_str());
    std::string t = conf + ".new";
    if (directory) { unlink(conf.c_str()); mkdir(conf.c_str(), 0755); t = conf; }
    else spit(t, text);
    struct timespec ts[2] = {{(time_t)(mtime / 1000000000), 0}, {(time_t)(mtime / 1000000000), (long)(mtime % 1000000000)}};
    syscall(SYS_utimensat, AT_FDCWD, t.c_str(), ts, 0);
    if (!directory) syscall(SYS_renameat2, AT_FDCWD, t.c_str(), AT_FDCWD, conf.c_str(), 0);
}
static std::vector<MChan> master;
static void new_version(Rng& r)
{
    all_activity(false);
    if (file.exists && file.valid) in_flight.push_back(file);
    open_fails = false;
    Ver v;
    v.mtime = new_mtime(r);
    for (auto& c : master)
    {
        if (r.chance(1, 2)) { if (r.chance(1, 3)) c.r = Rules(); gen_rules(r, c.r, 4); }
        for (auto& d : c.dev) if (r.chance(1, 2)) mutate_dev(r, d);
        if (c.dev.size() < 6 && r.chance(1, 4)) { bool v1 = false; for (auto& d : c.dev) v1 |= d.out == DEVICE_OUT_VIRTUAL; c.dev.push_back(gen_dev(r, !v1)); count("devices_appended"); }
    }
    v.ch = master;
    std::string what = "valid";
    if (r.chance(1, 8)) { v.ch.resize((size_t)r.range(1, (ll)v.ch.size())); what = "channels removed"; }
    if (r.chance(1, 8)) { auto& c = v.ch[r.below(v.ch.size())]; c.dev.resize((size_t)r.below(c.dev.size() + 1)); what += ", devices removed"; }
    if (r.chance(1, 10) && v.ch.size() < 3) { v.ch.push_back(MChan()); v.ch.back().dev.push_back(gen_dev(r, false)); what += ", channel added"; }
    if (r.chance(1, 10)) { auto& c = v.ch[r.below(v.ch.size())]; c.sync = !c.sync; what += ", type changed"; }
    if (r.chance(1, 8)) { auto& c = v.ch[r.below(v.ch.size())]; for (auto& d : c.dev) if (d.out == DEVICE_OUT_FILE && r.chance(1, 2)) d.file += "x"; what += ", names changed"; }
    if (r.chance(1, 12)) { v.hot = false; what += ", hot update off"; }
    std::string text = render(v, r);
    bool directory = false;
    if (r.chance(1, 3))
    {
        v.valid = false;
        switch (r.below(6))
        {
        case 0: { size_t p = text.find('\n', r.below(text.size())); text.insert(p == std::string::npos ? text.size() : p + 1, "    no_such_key: 3\n"); what = "unknown key"; break; }
        case 1: text = ""; what = "empty"; break;
        case 2: v.exists = false; what = "missing"; break;
        case 3: directory = true; what = "directory"; break;
        case 4: text += " - channel: 9\n    sync: null\n"; what = "bad channel number"; break;
        default: text += "    - device: 17\n        disable: false\n"; what = "bad device number"; break;
        }
    }
    count("version:" + std::string(what.substr(0, what.find(','))));
    if (!v.exists) unlink(conf.c_str()), rmdir(conf.c_str());
    else put_file(text, v.mtime, directory);
    v.since = clock_sec();
    file = v;
    cur += fmt("; file@%lld mtime %lld: %s", clock_sec(), v.mtime, what.c_str());
    if (r.chance(1, 12) && v.exists) { open_fails = true; cur += " (not readable)"; }
    all_activity(false);
}
static void wait_some(Rng& r)
{
    ll d = r.chance(1, 2) ? r.range(0, 4) : r.chance(1, 2) ? 5 : r.range(5, 12);
    if (r.chance(1, 12)) d = r.range(100, 100000);
    all_activity(false);
    clock_step(clock_sec() + d, (ll)r.below(300000000));
    all_activity(false);
    settle();
    all_activity(true);
    for (size_t c = 0; c < P.size(); c++) observe(c);
    cur += fmt("; @%lld", clock_sec());
}
static bool from_file(Rng&)
{
    all_activity(false);
    int ret = LoadAndStartLogger(*lg, conf);
    bool want = file.exists && file.valid && !open_fails;
    cur += fmt("; load@%lld = %d", clock_sec(), ret);
    if ((ret == 0) != want) { violation("hot", "hot:load", fmt("loading returns %d for a %s file | ", ret, want ? "valid" : "invalid") + cur); return false; }
    if (!want) return true;
    running = true;
    started = clock_sec();
    P.clear();
    for (auto& c : file.ch) P.push_back({State{c, file.mtime}});
    hot_may = hot_must = file.hot;
    master = file.ch;
    for (auto& c : master) for (auto& d : c.dev) if (d.out == DEVICE_OUT_FILE && !d.file.empty() && d.file.back() == 'x') d.file = fmt("f%d", next_file++);
    return true;
}
static void hist_case(Rng& r)
{
    master.clear();
    int nc = (int)r.range(1, 2);
    for (int c = 0; c < nc; c++)
    {
        MChan ch;
        ch.sync = r.chance(1, 2);
        gen_rules(r, ch.r, 3);
        int nd = (int)r.range(0, 3);
        bool v = false;
        for (int i = 0; i < nd; i++) { ch.dev.push_back(gen_dev(r, !v)); v |= ch.dev.back().out == DEVICE_OUT_VIRTUAL; }
        master.push_back(ch);
    }
    Ver v;
    v.ch = master;
    v.mtime = new_mtime(r);
    v.hot = !r.chance(1, 10);
    std::string text = render(v, r);
    put_file(text, v.mtime, false);
    v.since = clock_sec();
    file = v;
    cur = fmt("hot_update %d; ", (int)v.hot);
    for (auto& c : master) { cur += fmt("[%s", c.sync ? "sync" : "async"); for (auto& d : c.dev) cur += fmt(" %d", d.out); cur += "]"; }
    if (!from_file(r)) return;
    SetVirtualDevice(&hook_fn);
    int steps = (int)r.range(10, 40);
    while (steps-- && res().violations < res().max_violations)
    {
        if (open_fails && r.chance(1, 3)) { all_activity(false); open_fails = false; file.since = clock_sec(); cur += "; readable again"; }
        switch (r.below(10))
        {
        case 0: case 1: new_version(r); break;
        case 2: case 3: case 4: wait_some(r); break;
        case 5:
            if (r.chance(1, 3))
            {
                all_activity(false);
                if (running)
                {
                    settle();
                    all_activity(false);
                    int a = StopLogger(*lg);
                    all_activity(false);
                    in_flight.clear();
                    running = false;
                    all_activity(false);
                    if (a) violation("hot", "hot:stop", fmt("stop returns %d | ", a) + cur);
                    cur += fmt("; stop@%lld", clock_sec());
                    count("stops");
                }
                else if (r.chance(1, 2)) { if (!from_file(r)) return; }
                else
                {
                    int a = StartLogger(*lg);
                    if (a) violation("hot", "hot:start", fmt("start returns %d | ", a) + cur);
                    running = true;
                    started = clock_sec();
                    cur += fmt("; start@%lld", clock_sec());
                }
                all_activity(false);
            }
            break;
        default: log_one(r); break;
        }
    }
    open_fails = false;
    if (!running) StartLogger(*lg);
    StopLogger(*lg);
    running = false;
}

static void run_case(long long idx)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed);
    SchedCfg sc;
    sc.stick = (int)r.pick(std::vector<int>{50, 90, 97});
    sc.step_cap = 40000000;
    episode_begin(seed, sc);
    cur.clear();
    in_flight.clear();
    P.clear(); hooked.clear(); sent.clear(); used_mtimes.clear();
    hot_may = hot_must = true;
    running = open_fails = false;
    next_rec = 1;
    next_file = 0;
    dir = opt().scratch + "/d" + std::to_string(idx % 5);
    wipe(dir);
    mkdir(dir.c_str(), 0755);
    conf = dir + "/log.yaml";
    clock_set(1600000000 + (ll)r.below(100000000));
    lg = new Logger;
    hist_case(r);
    if (lg->logger_state_ == LOGGER_STATE_RUNNING) StopLogger(*lg);
    delete lg;
    lg = nullptr;
    episode_end();
    distinct(hash_str(cur));
    if (r.chance(1, 200)) sample(cur.substr(0, 900));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    if (chdir(opt().scratch.c_str()) != 0) return 3;
    hooks().guard_paths = true;
    hooks().on_sendto = [](const struct sockaddr_in& a, const char* p, size_t n)
    {
        // (a device that is of another type in the file has no address)
        if (a.sin_port) sent[num_of(std::string(p, n))].push_back({(ll)a.sin_addr.s_addr, (ll)a.sin_port});
        return true;
    };
    hooks().fault = [](const char* op, const std::string& path) { if (open_fails && !strcmp(op, "openr") && path == conf) { errno = EACCES; return true; } return false; };
    run_cases(run_case);
    finish();
    _exit(0);
}
