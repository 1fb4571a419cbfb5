// Filter rules (C06) and the virtual device hook (C16): generated channels and devices with filters at both levels,
// set in the configuration text or changed at run time; every log call is compared with an independent model of the rules.
#define VP_PLAIN_ATOMICS
#define FN_LOG_MAX_CHANNEL_SIZE 4
#include "vp_fnlog.h"
#include <array>

using namespace FNLog;
using namespace vp;
typedef long long ll;
typedef unsigned long long ull;

static Logger* lg;
static std::string dir;

struct Rules { ll prio = 0, cat = 0, catn = 0, catm = 0, id = 0, idn = 0, idm = 0; };
struct MDev { int out = 0; bool in_udp = false; ll able = 0; Rules r; std::string path; off_t pos = 0; ll lines = 0, bytes0 = 0, cnt[8] = {0}; };
struct MChan { bool sync = true; Rules r; std::vector<MDev> dev; int virt = -1; ll cnt[11] = {0}; };
static std::vector<MChan> M;

static bool pass(const Rules& r, ll prio, ll cat, ll id)
{
    if (prio < r.prio) return false;
    if (r.catn > 0 && (cat < r.cat || cat - r.cat >= r.catn)) return false;
    if (r.idn > 0 && (id < r.id || (ull)id - (ull)r.id >= (ull)r.idn)) return false;
    if (r.catm && !((ull)r.catm >> ((ull)cat % 64) & 1)) return false;
    if (r.idm && !((ull)r.idm >> ((ull)id % 64) & 1)) return false;
    return true;
}
// devices of a channel that receive a record; virtual ones included
static std::vector<int> admitted(int c, ll prio, ll cat, ll id)
{
    std::vector<int> v;
    if (c < 0 || c >= (int)M.size() || !pass(M[(size_t)c].r, prio, cat, id)) return v;
    for (size_t d = 0; d < M[(size_t)c].dev.size(); d++)
    {
        MDev& x = M[(size_t)c].dev[d];
        if (x.able && !x.in_udp && pass(x.r, prio, cat, id)) v.push_back((int)d);
    }
    return v;
}

// ---- observations -------------------------------------------------------------------------------------
typedef std::map<std::pair<int, int>, std::map<ll, int>> Got; // (channel, device) -> record -> times
static Got got;
struct HookCall { ll rec; int chan, prio, cat; ll id; int line; std::string file, func, text; long tid; bool in_call; };
static std::vector<HookCall> hooked;
static bool in_call;
static int fwd_to = -1, fwd_cat;
static ll fwd_id;
static std::string cur;

static ll rec_of(const std::string& s)
{
    size_t p = s.rfind("R=");
    return p == std::string::npos ? -1 : atoll(s.c_str() + p + 2);
}
static void hook_fn(const LogData& log)
{
    HookCall h;
    h.text = log.content_;
    h.rec = rec_of(h.text);
    h.chan = log.channel_id_; h.prio = log.priority_; h.cat = log.category_; h.id = log.identify_; h.line = log.code_line_;
    h.file = log.code_file_ ? std::string(log.code_file_, (size_t)log.code_file_len_) : "";
    h.func = log.code_func_ ? std::string(log.code_func_, (size_t)log.code_func_len_) : "";
    h.tid = (long)syscall(SYS_gettid);
    h.in_call = in_call;
    if (h.text.size() != (size_t)log.content_len_) violation("hook", "hook:text_len", fmt("hook text has %d bytes, length field %d | ", (int)h.text.size(), log.content_len_) + cur);
    hooked.push_back(h);
    if (fwd_to != -1) TransmitChannel(*lg, fwd_to, fwd_cat, fwd_id, log);
}
static std::map<ll, std::string> texts; // record -> full text
static ll len_of(ll rec) // bytes of a record without its line end; -1: no device showed its text
{
    auto t = texts.find(rec);
    return t == texts.end() || t->second.empty() ? -1 : (ll)t->second.size();
}
static void saw_text(ll rec, const std::string& l, const char* where)
{
    auto t = texts.find(rec);
    if (t == texts.end()) return;
    if (t->second.empty()) t->second = l;
    else if (t->second != l) violation("hook", "hook:text_differs", fmt("the same record has different texts (%s): \"", where) + t->second.substr(0, 200) + "\" and \"" + l.substr(0, 200) + "\" | " + cur);
}
// the statistics of one device (or channel) as they are now: 0..6 bytes per priority, 7 bytes in all
static void read_counters(int c, int d, ll* v)
{
    for (int i = 0; i < 7; i++) v[i] = GetDeviceLog(*lg, c, d, (DeviceLogEnum)(DEVICE_LOG_PRIORITY + i));
    v[7] = GetDeviceLog(*lg, c, d, DEVICE_LOG_TOTAL_WRITE_BYTE);
}
static void read_counters(int c, ll* v)
{
    for (int i = 0; i < 7; i++) v[i] = GetChannelLog(*lg, c, (ChannelLogEnum)(CHANNEL_LOG_PRIORITY + i));
    v[7] = GetChannelLog(*lg, c, CHANNEL_LOG_PROCESSED_BYTES);
    v[8] = GetChannelLog(*lg, c, CHANNEL_LOG_HOLD);
    v[9] = GetChannelLog(*lg, c, CHANNEL_LOG_PUSH);
    v[10] = GetChannelLog(*lg, c, CHANNEL_LOG_PROCESSED);
}
static void take_file(int c, int d)
{
    MDev& x = M[(size_t)c].dev[(size_t)d];
    std::string s;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, x.path.c_str(), O_RDONLY, 0);
    if (fd < 0) return;
    char buf[65536];
    long n;
    while ((n = syscall(SYS_pread64, fd, buf, sizeof buf, x.pos)) > 0) { s.append(buf, (size_t)n); x.pos += n; }
    syscall(SYS_close, fd);
    for (auto& l : lines_of(s))
    {
        ll r = rec_of(l);
        got[{c, d}][r]++;
        auto t = texts.find(r);
        if (r < 0 || t == texts.end()) violation("filter", "filter:unknown", "a file holds text of no log call: " + l.substr(0, 200) + " | " + cur);
        else saw_text(r, l, "file");
    }
}
static std::string out_path;
static off_t out_pos;
static std::map<ll, int> screen; // record -> printed
static void take_screen()
{
    fflush(stdout);
    std::string s;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, out_path.c_str(), O_RDONLY, 0);
    char buf[65536];
    long n;
    while ((n = syscall(SYS_pread64, fd, buf, sizeof buf, out_pos)) > 0) { s.append(buf, (size_t)n); out_pos += n; }
    syscall(SYS_close, fd);
    for (size_t p = 0; (p = s.find("R=", p)) != std::string::npos; p += 2) screen[atoll(s.c_str() + p + 2)]++;
    for (auto l : lines_of(s))
    {
        while (l.size() > 2 && l[0] == '\x1b') { size_t m = l.find('m'); if (m == std::string::npos) break; l.erase(0, m + 1); }
        if (rec_of(l) >= 0) saw_text(rec_of(l), l, "screen");
    }
}
static void quiesce(int c)
{
    if (M[(size_t)c].sync) return;
    for (int i = 0; i < 100000; i++)
    {
        bool done = GetChannelLog(*lg, c, CHANNEL_LOG_PROCESSED) >= GetChannelLog(*lg, c, CHANNEL_LOG_PUSH);
        for (size_t d = 0; done && d < M[(size_t)c].dev.size(); d++)
        {
            MDev& x = M[(size_t)c].dev[d];
            if (x.out != DEVICE_OUT_FILE) continue;
            struct stat st;
            ll have = stat(x.path.c_str(), &st) == 0 ? (ll)st.st_size : 0;
            if (have < GetDeviceLog(*lg, c, (int)d, DEVICE_LOG_TOTAL_WRITE_BYTE) - x.bytes0) done = false;
        }
        if (done) return;
        usleep(1000);
    }
    violation("filter", "filter:stuck", "records are not processed | " + cur);
}

// ---- generators ---------------------------------------------------------------------------------------
static ll gen_num(Rng& r, bool cat)
{
    switch (r.below(8))
    {
    case 0: return r.range(-3, 70);
    case 1: return cat ? (r.chance(1, 2) ? INT32_MAX : INT32_MIN) : (r.chance(1, 2) ? LLONG_MAX : LLONG_MIN);
    case 2: return cat ? (ll)(int)r.next() : (ll)(r.next() >> r.below(64));
    case 3: return r.range(60, 66);
    default: return r.range(0, 12);
    }
}
static ll gen_mask(Rng& r)
{
    switch (r.below(5))
    {
    case 0: return 0;
    case 1: return (ll)(1ULL << r.below(64));
    case 2: return (ll)~(1ULL << r.below(64));
    case 3: return (ll)((1ULL << r.below(14)) | (1ULL << r.below(14)) | (1ULL << r.below(64)));
    default: return (ll)(r.next() & 0xfff);
    }
}
static std::string list_of(ull m, Rng& r)
{
    std::string s;
    for (int i = 0; i < 64; i++)
        if (m >> i & 1)
        {
            int e = i;
            while (e + 1 < 64 && (m >> (e + 1) & 1)) e++;
            if (!s.empty()) s += r.chance(1, 2) ? "," : ", ";
            if (e > i && r.chance(2, 3)) { s += r.chance(1, 2) ? fmt("%d-%d", i, e) : fmt("%d - %d", i, e); i = e; }
            else s += std::to_string(i);
        }
    return s;
}
static const char* PRIO[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};
static std::string gen_rules(Rng& r, Rules& m, const std::string& ind, int density)
{
    std::string s;
    if (r.chance(density, 10)) { m.prio = (ll)r.below(7); s += ind + "priority: " + PRIO[m.prio] + "\n"; }
    for (int k = 0; k < 2; k++)
    {
        std::string n = k ? "identify" : "category";
        ll &b = k ? m.id : m.cat, &c = k ? m.idn : m.catn, &mask = k ? m.idm : m.catm;
        if (r.chance(density, 20))
        {
            b = r.chance(1, 6) ? (k ? (ll)r.next() >> 2 : (ll)(int)r.next()) : r.range(-2, 10);
            c = r.chance(1, 6) ? (ll)(r.next() >> r.range(2, 40)) : r.chance(1, 6) ? r.range(-1, 0) : r.range(1, 8);
            s += ind + n + ": " + std::to_string(b) + "\n" + ind + n + "_extend: " + std::to_string(c) + "\n";
        }
        if (r.chance(density, 20))
        {
            ull u = (ull)gen_mask(r);
            if (u == 0) u = 5;
            switch (r.below(4))
            {
            case 0: mask = (ll)u; s += ind + n + "_wlist: [" + list_of(u, r) + "]\n"; break;
            case 1: if (u == ~0ULL) u = 7; mask = (ll)~u; s += ind + n + "_blist: " + list_of(u, r) + "\n"; break;
            case 2: mask = (ll)u; s += ind + n + "_wmask: " + std::to_string(u) + "\n"; break;
            default: if (u == ~0ULL) u = 7; mask = (ll)~u; s += ind + n + "_bmask: " + std::to_string(u) + "\n"; break;
            }
        }
    }
    return s;
}
static std::string rules_str(const Rules& r) { return fmt("prio>=%lld cat[%lld+%lld]&%llx id[%lld+%lld]&%llx", r.prio, r.cat, r.catn, (ull)r.catm, r.id, r.idn, (ull)r.idm); }
static ll safe_count(ll b, ll n) { if (n > 0 && b > 0 && n > LLONG_MAX - b) return LLONG_MAX - b; return n; }

static void set_rule(Rules& m, int f, ll v)
{
    switch (f)
    {
    case 0: m.prio = v; break;
    case 1: m.cat = v; break;
    case 2: m.catn = v; break;
    case 3: m.catm = v; break;
    case 4: m.id = v; break;
    case 5: m.idn = v; break;
    case 6: m.idm = v; break;
    }
}
static ll get_rule(const Rules& m, int f) { ll v[] = {m.prio, m.cat, m.catn, m.catm, m.id, m.idn, m.idm}; return v[f]; }
static const ChannelConfigEnum CF[] = {CHANNEL_CFG_PRIORITY, CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND, CHANNEL_CFG_IDENTIFY_MASK};
static const DeviceConfigEnum DF[] = {DEVICE_CFG_PRIORITY, DEVICE_CFG_CATEGORY, DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_IDENTIFY, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK};
static ll gen_field(Rng& r, int f)
{
    switch (f)
    {
    case 0: return (ll)r.below(7);
    case 1: return r.chance(1, 5) ? (ll)(int)r.next() : r.range(-2, 10);
    case 4: return r.chance(1, 5) ? (ll)r.next() >> 2 : r.range(-2, 10);
    case 2: case 5: return r.chance(1, 3) ? 0 : r.chance(1, 6) ? (ll)(r.next() >> 2) : r.chance(1, 8) ? -5 : r.range(1, 9);
    default: return gen_mask(r);
    }
}

static void change(Rng& r)
{
    for (size_t c = 0; c < M.size(); c++) quiesce((int)c);
    int n = (int)r.range(1, 4);
    while (n--)
    {
        int c = (int)r.below(M.size());
        MChan& ch = M[(size_t)c];
        int f = (int)r.below(7);
        ll v = gen_field(r, f);
        switch (r.below(14))
        {
        case 0: case 1: case 2:
            SetChannelConfig(*lg, c, CF[f], v);
            set_rule(ch.r, f, v);
            cur += fmt("; channel %d field %d = %lld", c, f, v);
            break;
        case 3: case 4: case 5: case 6:
        {
            int d = (int)r.below(ch.dev.size());
            SetDeviceConfig(*lg, c, d, DF[f], v);
            set_rule(ch.dev[(size_t)d].r, f, v);
            cur += fmt("; device %d.%d field %d = %lld", c, d, f, v);
            break;
        }
        case 7: case 8:
        {
            int d = (int)r.below(ch.dev.size());
            ll a = r.chance(2, 3);
            SetDeviceConfig(*lg, c, d, DEVICE_CFG_ABLE, a);
            ch.dev[(size_t)d].able = a;
            cur += fmt("; device %d.%d able = %lld", c, d, a);
            break;
        }
        case 9:
            BatchSetChannelConfig(*lg, CF[f], v);
            for (auto& x : M) set_rule(x.r, f, v);
            cur += fmt("; all channels field %d = %lld", f, v);
            break;
        case 10:
        {
            DeviceOutType t = (DeviceOutType)r.below(6); // DEVICE_OUT_NULL: all
            BatchSetDeviceConfig(*lg, t, DF[f], v);
            for (auto& x : M) for (auto& d : x.dev) if (t == DEVICE_OUT_NULL || d.out == (int)t) set_rule(d.r, f, v);
            cur += fmt("; all devices of type %d field %d = %lld", (int)t, f, v);
            break;
        }
        case 11:
        {
            bool e = r.chance(3, 4);
            int k = (int)r.below(3);
            int t = k == 0 ? DEVICE_OUT_FILE : k == 1 ? DEVICE_OUT_SCREEN : DEVICE_OUT_UDP;
            if (k == 0) EnableAllFileDevice(*lg, e);
            else if (k == 1) EnableAllScreenDevice(*lg, e);
            else EnableAllUDPDevice(*lg, e);
            for (auto& x : M) for (auto& d : x.dev) if (d.out == t) d.able = e;
            cur += fmt("; enable all type %d: %d", t, (int)e);
            break;
        }
        case 12:
        {
            LogPriority p = (LogPriority)r.below(7);
            int k = (int)r.below(4);
            if (k == 0) { SetAllChannelPriority(*lg, p); for (auto& x : M) x.r.prio = p; }
            else
            {
                int t = k == 1 ? DEVICE_OUT_FILE : k == 2 ? DEVICE_OUT_SCREEN : DEVICE_OUT_UDP;
                if (k == 1) SetAllFilePriority(*lg, p);
                else if (k == 2) SetAllScreenPriority(*lg, p);
                else SetAllUDPPriority(*lg, p);
                for (auto& x : M) for (auto& d : x.dev) if (d.out == t) d.r.prio = p;
            }
            cur += fmt("; priority of all (%d) = %d", k, (int)p);
            break;
        }
        default:
        {
            int b = (int)r.range(-2, 10), e = (int)r.range(-1, 8);
            int k = (int)r.below(4);
            if (k == 0) { SetAllChannelCategory(*lg, b, e); for (auto& x : M) { x.r.cat = b; x.r.catn = e; } }
            else
            {
                int t = k == 1 ? DEVICE_OUT_FILE : k == 2 ? DEVICE_OUT_SCREEN : DEVICE_OUT_UDP;
                if (k == 1) SetAllFilePriority(*lg, b, e);
                else if (k == 2) SetAllScreenCategory(*lg, b, e);
                else SetAllUDPCategory(*lg, b, e);
                for (auto& x : M) for (auto& d : x.dev) if (d.out == t) { d.r.cat = b; d.r.catn = e; }
            }
            cur += fmt("; category of all (%d) = [%d+%d]", k, b, e);
            break;
        }
        }
        // changes that do not exist must not do anything
        if (r.chance(1, 6))
        {
            SetChannelConfig(*lg, r.chance(1, 2) ? -1 : (int)M.size(), CF[f], 6);
            SetDeviceConfig(*lg, c, r.chance(1, 2) ? -1 : (int)ch.dev.size(), DF[f], 6);
            SetDeviceConfig(*lg, r.chance(1, 2) ? -1 : (int)M.size(), 0, DF[f], 6);
            SetChannelConfig(*lg, c, CHANNEL_CFG_MAX_ID, 6);
            SetDeviceConfig(*lg, c, 0, DEVICE_CFG_MAX_ID, 6);
        }
        count("changes");
    }
    // counts whose end is not representable are outside of the property
    for (size_t c = 0; c < M.size(); c++)
    {
        Rules& m = M[c].r;
        for (int f : {2, 5}) { ll v = safe_count(get_rule(m, f - 1), get_rule(m, f)); if (v != get_rule(m, f)) { set_rule(m, f, v); SetChannelConfig(*lg, (int)c, CF[f], v); } }
        for (size_t d = 0; d < M[c].dev.size(); d++)
        {
            Rules& k = M[c].dev[d].r;
            for (int f : {2, 5}) { ll v = safe_count(get_rule(k, f - 1), get_rule(k, f)); if (v != get_rule(k, f)) { set_rule(k, f, v); SetDeviceConfig(*lg, (int)c, (int)d, DF[f], v); } }
            for (int f = 0; f < 7; f++)
                if (GetDeviceConfig(*lg, (int)c, (int)d, DF[f]) != get_rule(k, f))
                    violation("filter", "filter:get", fmt("GetDeviceConfig(%d, %d, %d) = %lld, not %lld | ", (int)c, (int)d, f, GetDeviceConfig(*lg, (int)c, (int)d, DF[f]), get_rule(k, f)) + cur);
        }
    }
}

// values at the borders of some rule of the model
static ll border(Rng& r, bool cat)
{
    std::vector<ll> v;
    for (auto& c : M)
    {
        auto add = [&](const Rules& m)
        {
            ll b = cat ? m.cat : m.id, n = cat ? m.catn : m.idn;
            if (n > 0) { v.push_back(b); if (b > LLONG_MIN) v.push_back(b - 1); v.push_back(b + (n - 1)); if (b + (n - 1) < LLONG_MAX) v.push_back(b + n); }
            ull mask = (ull)(cat ? m.catm : m.idm);
            if (mask) { v.push_back(__builtin_ctzll(mask)); v.push_back(63 - __builtin_clzll(mask)); if (~mask) v.push_back(__builtin_ctzll(~mask)); }
        };
        add(c.r);
        for (auto& d : c.dev) add(d.r);
    }
    if (v.empty()) return gen_num(r, cat);
    ll x = v[r.below(v.size())];
    if (cat) x = std::max<ll>(INT32_MIN, std::min<ll>(INT32_MAX, x));
    return x;
}

static ll next_rec;
struct Call { ll rec; int c, prio, cat; ll id; std::vector<int> adm; int fwd = -1, fcat = 0; ll fid = 0; std::vector<int> fadm; bool hook; };
static std::vector<Call> calls;
#define FOR_PRIO(P, X) do { switch (P) { case 0: X(Trace, TRACE); break; case 1: X(Debug, DEBUG); break; case 2: X(Info, INFO); break; case 3: X(Warn, WARN); break; case 4: X(Error, ERROR); break; case 5: X(Alarm, ALARM); break; default: X(Fatal, FATAL); break; } } while (0)

static void one_call(Rng& r, bool deflt)
{
    Call k;
    k.rec = next_rec++;
    k.c = r.chance(1, 25) ? (int)r.pick(std::vector<int>{-1, (int)M.size(), 99, INT32_MAX, INT32_MIN}) : (int)r.below(M.size());
    k.prio = r.chance(1, 30) ? (int)r.pick(std::vector<int>{-1, 7, 100, INT32_MAX, INT32_MIN}) : (int)r.below(7);
    k.cat = (int)(r.chance(1, 2) ? border(r, true) : gen_num(r, true));
    k.id = r.chance(1, 2) ? border(r, false) : gen_num(r, false);
    if (r.chance(1, 6)) { k.cat = 0; k.id = 0; }
    k.adm = admitted(k.c, k.prio, k.cat, k.id);
    k.hook = false;
    if (!k.adm.empty()) for (int d : k.adm) if (M[(size_t)k.c].dev[(size_t)d].out == DEVICE_OUT_VIRTUAL) k.hook = true;
    fwd_to = -1;
    if (k.hook && r.chance(1, 2))
    {
        fwd_to = r.chance(1, 10) ? (int)r.pick(std::vector<int>{(int)M.size(), 99, -7}) : (int)r.below(M.size());
        fwd_cat = k.fcat = (int)(r.chance(1, 2) ? border(r, true) : gen_num(r, true));
        fwd_id = k.fid = r.chance(1, 2) ? border(r, false) : gen_num(r, false);
        k.fwd = fwd_to;
        if (k.hook && fwd_to != k.c) k.fadm = admitted(fwd_to, std::max(0, std::min(6, k.prio)), fwd_cat, fwd_id);
    }
    texts[k.rec] = "";
    size_t h0 = hooked.size();
    std::string tag = fmt("t%llu R=%lld", (ull)(r.next() % 1000), k.rec);
    if (r.chance(1, 12)) tag = std::string((size_t)r.range(1, 900), 'x') + (r.chance(1, 2) ? tag : ""); // oversized ones may lose the tag
    bool tagged = tag.find("R=") != std::string::npos && tag.size() < 500;
    if (!tagged) tag = fmt("R=%lld", k.rec);
    std::string file = "", func = "";
    int line = -1;
    in_call = true;
    int form = deflt && k.prio >= 0 && k.prio < 7 ? (int)r.below(6) : 0;
    int c = k.c, cat = k.cat;
    ll id = k.id;
#define ST(N, U) line = __LINE__; Log##N##Stream(c, cat, id) << tag
#define PK(N, U) line = __LINE__; Log##N##Pack(c, cat, id, tag)
#define MS(N, U) line = __LINE__; LOG_##U(c, cat, id, tag)
#define FM(N, U) line = __LINE__; LOGFMT_##U(c, cat, id, "%s", tag.c_str())
    switch (form)
    {
    case 0: case 1:
    {
        file = "/a/b/c/file.cpp"; func = "function"; line = (int)r.below(10000);
        LogStream ls(*lg, c, k.prio, cat, id, file.c_str(), (int)file.size(), line, func.c_str(), (int)func.size(), r.chance(1, 2) ? LOG_PREFIX_DEFAULT : LOG_PREFIX_NULL);
        if (r.chance(1, 2)) ls << tag;
        else { LogStream moved(std::move(ls)); moved << tag; }
        break;
    }
    case 2: FOR_PRIO(k.prio, ST); file = __FILE__; func = __FUNCTION__; break;
    case 3: FOR_PRIO(k.prio, PK); file = __FILE__; func = __FUNCTION__; break;
    case 4: FOR_PRIO(k.prio, MS); file = __FILE__; func = __FUNCTION__; break;
    default: FOR_PRIO(k.prio, FM); file = __FILE__; func = __FUNCTION__; break;
    }
    in_call = false;
    fwd_to = -1;
    std::string what = fmt("call channel %d prio %d cat %d id %lld", k.c, k.prio, k.cat, k.id);
    // the hook ran before the call returned, exactly once, with the record's data
    size_t n = hooked.size() - h0;
    if (n != (k.hook ? 1u : 0u)) violation("hook", "hook:calls", fmt("the hook ran %d times instead of %d during ", (int)n, (int)k.hook) + what + " | " + cur);
    else if (n == 1)
    {
        HookCall& h = hooked.back();
        count("hook_calls_checked");
        if (h.rec != k.rec || h.chan != k.c || h.prio != std::max(0, std::min(6, k.prio)) || h.cat != k.cat || h.id != k.id || h.line != line || h.file != file || h.func != func || h.tid != (long)syscall(SYS_gettid) || !h.in_call)
            violation("hook", "hook:data", fmt("hook saw record %lld channel %d prio %d cat %d id %lld line %d file %s func %s thread %s in ", h.rec, h.chan, h.prio, h.cat, h.id, h.line, h.file.c_str(), h.func.c_str(), h.tid == (long)syscall(SYS_gettid) ? "same" : "other") + what + fmt(" line %d file %s func %s | ", line, file.c_str(), func.c_str()) + cur);
        texts[k.rec] = h.text;
    }
    calls.push_back(k);
    count("log_calls");
    count("admitted_deliveries", (ll)k.adm.size());
    distinct(mix((ull)k.adm.size() * 1000003 ^ hash_str(what + (k.c >= 0 && k.c < (int)M.size() ? rules_str(M[(size_t)k.c].r) : ""))));
}

static void judge()
{
    for (size_t c = 0; c < M.size(); c++) quiesce((int)c);
    for (size_t c = 0; c < M.size(); c++)
        for (size_t d = 0; d < M[c].dev.size(); d++)
            if (M[c].dev[d].out == DEVICE_OUT_FILE) take_file((int)c, (int)d);
    take_screen();
    std::map<ll, int> want_screen;
    Got want;
    std::map<std::pair<int, int>, ll> want_n;
    auto add = [&](int c, const std::vector<int>& adm, ll rec, bool hook_sees_virtual)
    {
        for (int d : adm)
        {
            int out = M[(size_t)c].dev[(size_t)d].out;
            if (out == DEVICE_OUT_SCREEN) want_screen[rec]++;
            else if (out == DEVICE_OUT_FILE || out == DEVICE_OUT_UDP) want[{c, d}][rec]++;
            if (out == DEVICE_OUT_VIRTUAL && !hook_sees_virtual) continue;
            want_n[{c, d}]++;
        }
    };
    for (auto& k : calls)
    {
        add(k.c, k.adm, k.rec, true);
        add(k.fwd, k.fadm, k.rec, false);
        count("forwarded", (ll)k.fadm.size());
    }
    // the statistics: what every device and channel counted since the last look, against the records it got
    auto prio_of = [](const Call& k) { return std::max(0, std::min(6, k.prio)); };
    std::map<std::pair<int, int>, std::array<ll, 9>> bytes; // per device: bytes by priority, bytes, records of unknown length
    std::map<int, std::array<ll, 10>> chan;                 // per channel: the same and the records
    auto acc = [&](int c, const std::vector<int>& adm, const Call& k, bool hook_sees_virtual)
    {
        if (adm.empty()) return;
        ll n = len_of(k.rec);
        for (int d : adm)
        {
            bool virt = M[(size_t)c].dev[(size_t)d].out == DEVICE_OUT_VIRTUAL;
            if (virt && !hook_sees_virtual) continue;
            auto& b = bytes[{c, d}];
            if (n < 0) b[8]++;
            else { ll l = n + (virt ? 0 : 1); b[(size_t)prio_of(k)] += l; b[7] += l; }
        }
        auto& b = chan[c];
        b[9]++;
        if (n < 0) b[8]++;
        else { b[(size_t)prio_of(k)] += n + 1; b[7] += n + 1; }
    };
    for (auto& k : calls)
    {
        acc(k.c, k.adm, k, true);
        acc(k.fwd, k.fadm, k, false);
    }
    auto compare = [&](const std::string& who, const ll* had, const ll* has, const ll* want_b)
    {
        // a record whose text nobody showed has between 1 and LOG_SIZE bytes, of any priority
        ll u = want_b[8];
        for (int i = 0; i < 8; i++)
        {
            ll got_b = has[i] - had[i];
            bool ok = u == 0 ? got_b == want_b[i] : got_b >= want_b[i] + (i == 7 ? u : 0) && got_b <= want_b[i] + u * (ll)LogData::LOG_SIZE;
            if (!ok) violation("stats", i == 7 ? "stats:bytes" : "stats:priority", who + fmt(" counts %lld bytes %s instead of %lld (records of unknown length: %lld) | ", got_b, i == 7 ? "in all" : fmt("of priority %d", i).c_str(), want_b[i], u) + cur.substr(0, 900));
        }
        count(u ? "byte_counters_bounded" : "byte_counters_exact");
    };
    for (size_t c = 0; c < M.size(); c++)
    {
        ll v[11];
        for (size_t d = 0; d < M[c].dev.size(); d++)
        {
            read_counters((int)c, (int)d, v);
            compare(fmt("device %d.%d (type %d)", (int)c, (int)d, M[c].dev[d].out), M[c].dev[d].cnt, v, bytes[{(int)c, (int)d}].data());
            memcpy(M[c].dev[d].cnt, v, sizeof M[c].dev[d].cnt);
        }
        read_counters((int)c, v);
        compare(fmt("channel %d", (int)c), M[c].cnt, v, chan[(int)c].data());
        static const char* name[] = {"reserved", "pushed", "processed"};
        for (int i = 8; i < 11; i++)
            if (v[i] - M[c].cnt[i] != chan[(int)c][9]) violation("stats", "stats:records", fmt("channel %d counts %lld records %s instead of %lld | ", (int)c, v[i] - M[c].cnt[i], name[i - 8], chan[(int)c][9]) + cur.substr(0, 900));
        memcpy(M[c].cnt, v, sizeof M[c].cnt);
    }
    auto desc = [&](ll rec)
    {
        for (auto& k : calls) if (k.rec == rec) return fmt("channel %d prio %d cat %d id %lld forward to %d cat %d id %lld", k.c, k.prio, k.cat, k.id, k.hook ? k.fwd : -1, k.fcat, k.fid) + (k.c >= 0 && k.c < (int)M.size() ? " channel rules " + rules_str(M[(size_t)k.c].r) : "");
        return std::string("a record of an earlier batch");
    };
    for (size_t c = 0; c < M.size(); c++)
        for (size_t d = 0; d < M[c].dev.size(); d++)
        {
            MDev& x = M[c].dev[d];
            std::pair<int, int> id{(int)c, (int)d};
            if (x.out == DEVICE_OUT_FILE || x.out == DEVICE_OUT_UDP)
            {
                auto &w = want[id], &g = got[id];
                std::set<ll> all;
                for (auto& p : w) all.insert(p.first);
                for (auto& p : g) all.insert(p.first);
                for (ll rec : all)
                {
                    int a = w.count(rec) ? w[rec] : 0, b = g.count(rec) ? g[rec] : 0;
                    if (a == b) continue;
                    bool fwd = false;
                    for (auto& k : calls) if (k.rec == rec && k.c != (int)c) fwd = true;
                    violation(fwd ? "hook" : "filter", std::string(fwd ? "hook:forward" : "filter:device") + (a > b ? ":missing" : ":extra"),
                              fmt("device %d.%d (type %d able %lld %s) received record %lld %d times instead of %d: ", (int)c, (int)d, x.out, x.able, rules_str(x.r).c_str(), rec, b, a) + desc(rec) + " | " + cur.substr(0, 900));
                }
            }
            ll lines = GetDeviceLog(*lg, (int)c, (int)d, DEVICE_LOG_TOTAL_WRITE_LINE);
            ll w = x.lines + want_n[id];
            if (lines != w)
            {
                violation("stats", "stats:lines", fmt("device %d.%d (type %d able %lld %s) counts %lld records instead of %lld | ", (int)c, (int)d, x.out, x.able, rules_str(x.r).c_str(), lines, w) + cur.substr(0, 900));
                if (x.out == DEVICE_OUT_EMPTY) // nothing else shows what an empty device got
                    violation("filter", "filter:lines", fmt("device %d.%d (type %d able %lld %s) counts %lld records instead of %lld | ", (int)c, (int)d, x.out, x.able, rules_str(x.r).c_str(), lines, w) + cur.substr(0, 900));
            }
            x.lines = lines;
        }
    std::set<ll> all;
    for (auto& p : want_screen) all.insert(p.first);
    for (auto& p : screen) all.insert(p.first);
    for (ll rec : all)
        if (want_screen[rec] != screen[rec])
            violation("filter", "filter:screen", fmt("record %lld was printed %d times instead of %d: ", rec, screen[rec], want_screen[rec]) + desc(rec) + " | " + cur.substr(0, 900));
    count("records_judged", (ll)calls.size());
    got.clear(); screen.clear(); calls.clear(); texts.clear(); hooked.clear();
}

static void run_case(long long idx)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed);
    SchedCfg sc;
    sc.stick = 95;
    sc.step_cap = 4000000;
    episode_begin(seed, sc);
    clock_set(1700000000 + (ll)r.below(1000000)); // restart within the same second or much later: both happen
    if (r.chance(1, 4)) clock_set(1700000000);
    bool deflt = r.chance(1, 3);
    std::unique_ptr<Logger> own;
    if (deflt) lg = &GetDefaultLogger();
    else { own.reset(new Logger); lg = own.get(); }
    M.clear(); calls.clear(); got.clear(); screen.clear(); texts.clear(); hooked.clear();
    next_rec = 1;
    wipe(dir);
    int nc = r.chance(1, 20) ? (int)Logger::MAX_CHANNEL_SIZE : (int)r.range(1, 3);
    int density = (int)r.range(0, 8);
    std::string cfg;
    for (int c = 0; c < nc; c++)
    {
        MChan ch;
        ch.sync = r.chance(3, 5);
        cfg += fmt(" - channel: %d\n    sync: %s\n", c, ch.sync ? "sync" : "async");
        cfg += gen_rules(r, ch.r, "    ", r.chance(1, 2) ? density / 2 : 0);
        int nd = r.chance(1, 30) ? (int)Channel::MAX_DEVICE_SIZE : (int)r.range(1, 5);
        for (int d = 0; d < nd; d++)
        {
            MDev x;
            static const int types[] = {DEVICE_OUT_FILE, DEVICE_OUT_FILE, DEVICE_OUT_FILE, DEVICE_OUT_EMPTY, DEVICE_OUT_SCREEN, DEVICE_OUT_UDP, DEVICE_OUT_VIRTUAL, DEVICE_OUT_VIRTUAL};
            x.out = types[r.below(8)];
            if (x.out == DEVICE_OUT_VIRTUAL && ch.virt >= 0) x.out = DEVICE_OUT_FILE;
            static const char* names[] = {"null", "screen", "file", "udp", "virtual", "empty"};
            cfg += fmt("    - device: %d\n", d);
            if (r.chance(1, 20) && x.out == DEVICE_OUT_FILE) { x.in_udp = true; cfg += "        in_type: udp\n"; }
            cfg += fmt("        out_type: %s\n", names[x.out]);
            x.able = r.chance(5, 6);
            if (x.able) cfg += "        disable: false\n";
            else if (r.chance(1, 2)) cfg += "        disable: true\n";
            if (x.out == DEVICE_OUT_FILE) cfg += "        path: \"" + dir + fmt("/\"\n        file: \"c%dd%d\"\n", c, d);
            x.path = dir + fmt("/c%dd%d.log", c, d);
            if (x.out == DEVICE_OUT_UDP || x.in_udp) cfg += fmt("        udp_addr: 127.0.0.1:%d\n", 20000 + c * 32 + d);
            cfg += gen_rules(r, x.r, "        ", density);
            if (x.out == DEVICE_OUT_VIRTUAL) ch.virt = d;
            ch.dev.push_back(x);
        }
        M.push_back(ch);
    }
    cur = cfg;
    for (auto& ch : M)
    {
        for (int f : {2, 5}) set_rule(ch.r, f, safe_count(get_rule(ch.r, f - 1), get_rule(ch.r, f)));
        for (auto& d : ch.dev) for (int f : {2, 5}) set_rule(d.r, f, safe_count(get_rule(d.r, f - 1), get_rule(d.r, f)));
    }
    int ret = ParseAndStartLogger(*lg, cfg);
    if (ret != 0) violation("filter", "filter:start", fmt("start failed: %d | ", ret) + cur);
    else
    {
        for (size_t c = 0; c < M.size(); c++)
        {
            for (size_t d = 0; d < M[c].dev.size(); d++) { M[c].dev[d].lines = GetDeviceLog(*lg, (int)c, (int)d, DEVICE_LOG_TOTAL_WRITE_LINE); M[c].dev[d].bytes0 = GetDeviceLog(*lg, (int)c, (int)d, DEVICE_LOG_TOTAL_WRITE_BYTE); read_counters((int)c, (int)d, M[c].dev[d].cnt); }
            read_counters((int)c, M[c].cnt);
        }
        SetVirtualDevice(hook_fn);
        int phases = (int)r.range(1, 6);
        for (int p = 0; p < phases; p++)
        {
            if (p) change(r);
            int n = (int)r.range(5, 60);
            while (n--) one_call(r, deflt);
            judge();
        }
        SetVirtualDevice(nullptr);
        StopLogger(*lg);
        // stopped: nothing is admitted
        calls.clear();
    }
    SetVirtualDevice(nullptr);
    own.reset();
    episode_end();
    if (r.chance(1, 200)) sample(cur.substr(0, 900));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    setenv("TZ", "UTC0", 1);
    tzset();
    dir = opt().scratch + "/d";
    mkdir(dir.c_str(), 0755);
    out_path = opt().scratch + "/stdout";
    int fd = open(out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 1);
    close(fd);
    hooks().guard_paths = true;
    hooks().fault = [](const char* op, const std::string&) { if (!strcmp(op, "bind")) { errno = EADDRINUSE; return true; } return false; };
    hooks().on_sendto = [](const struct sockaddr_in& a, const char* b, size_t n)
    {
        int p = ntohs(a.sin_port) - 20000;
        std::string l(b, n);
        while (!l.empty() && l.back() == '\n') l.pop_back();
        got[{p / 32, p % 32}][rec_of(l)]++;
        if (rec_of(l) >= 0) saw_text(rec_of(l), l, "datagram");
        return true;
    };
    run_cases(run_case);
    wipe(dir);
    finish();
    _exit(0);
}
