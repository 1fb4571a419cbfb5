// Concurrent use (C17): generated concurrent programs over the public functions, run with real threads under ThreadSanitizer and
// AddressSanitizer.  The sanitizers decide; on top of them every file is checked for lines of other loggers, torn, repeated and lost ones.
#include "vp_rt.h"
#include "vp_resolve.h"
#define FN_LOG_USING_ATOM_CFG
#define FN_LOG_MAX_CHANNEL_SIZE 3
#define FN_LOG_MAX_LOG_SIZE 700
#ifndef FN_LOG_MAX_LOG_QUEUE_SIZE
#define FN_LOG_MAX_LOG_QUEUE_SIZE 11
#define FN_LOG_FORCE_FLUSH_QUE 5
#endif
#define FN_LOG_HOTUPDATE_INTERVEL 0
#define FN_LOG_MAX_ASYNC_SLEEP_MS 1
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wclass-memaccess"
#include "fn_log.h"
#pragma GCC diagnostic pop

using namespace FNLog;
using namespace vp;
typedef long long ll;

// closing what is not open is a violation wherever it happens
extern "C" int close(int fd)
{
    static std::atomic<int (*)(int)> real;
    auto f = real.load(std::memory_order_relaxed);
    if (!f) real.store(f = (int (*)(int))dlsym(RTLD_NEXT, "close"), std::memory_order_relaxed);
    int r = f(fd);
    if (r != 0 && errno == EBADF) violation("double_close", "double_close", fmt("close of descriptor %d that is not open", fd));
    return r;
}

// injected delays: inside log calls (their time stamp), around locks and before file operations
static std::atomic<int> delay_permille;
static void maybe_delay()
{
    int p = delay_permille.load(std::memory_order_relaxed);
    if (!p) return;
    static thread_local uint64_t s = 0;
    if (!s) s = mix((uint64_t)syscall(SYS_gettid) * 77);
    s = mix(s);
    if ((int)(s % 1000) >= p) return;
    if (s >> 40 & 3) ::sched_yield();
    else { struct timespec ts{0, (long)(s >> 20 & (s >> 45 & 7 ? 0x7ffff : 0x7fffff))}; syscall(SYS_nanosleep, &ts, nullptr); }
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    maybe_delay();
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    static std::atomic<int (*)(pthread_mutex_t*)> real; // constant initialisation
    auto f = real.load(std::memory_order_relaxed);
    if (!f) real.store(f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"), std::memory_order_relaxed);
    maybe_delay();
    return f(m);
}
extern "C" time_t time(time_t* out) noexcept
{
    maybe_delay();
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME_COARSE, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}

static std::string dir;
static std::atomic<bool> go, hurry;
static std::atomic<int> boots; // restarting threads that are still at work
static std::mutex cnt_mu;
static std::map<std::string, ll> cnts;
struct Local
{
    std::map<std::string, ll> m;
    void operator()(const char* k, ll n = 1) { m[k] += n; }
    ~Local() { std::lock_guard<std::mutex> l(cnt_mu); for (auto& p : m) cnts[p.first] += p.second; }
};

enum { F_LOG = 1, F_STAT = 2, F_SET = 4, F_HOT = 8, F_RESTART = 16, F_FILTERSET = 32 };
struct Ch { bool sync; int files; };
struct Prog
{
    int id = 0;
    Logger* lg = nullptr;
    std::unique_ptr<Logger> own;
    bool deflt = false, hot = false, restart = false, wild = false; // wild: settings of the reference files change, too
    std::vector<Ch> ch;
    std::string dir, yaml;
    int devs[4] = {0, 0, 0, 0};
    int in_port = 0;
    uint64_t cfg_seed = 0;
    bool named = false;                       // UDP addresses of this logger are given as names to be resolved
    std::vector<std::pair<int, int>> by_name; // devices whose address was given as a name in the last text
    ll mtime = 0;
    ll made = 0; // log calls of a logger used by one thread
};
static std::vector<std::unique_ptr<Prog>> P;
static int recv_fd = -1, recv_port = 0, send_fd = -1;
static std::atomic<int> next_in_port;

// device 0 of every channel is the reference file: it takes everything
static std::string config(Prog& p, Rng& r, bool first)
{
    Rng c(p.cfg_seed);
    std::string s;
    p.by_name.clear();
    s += fmt("logger_name: lg%d\nhot_update: %s\n", p.id, p.hot ? "true" : "false");
    for (size_t k = 0; k < p.ch.size(); k++)
    {
        s += fmt(" - channel: %d\n    sync: %s\n", (int)k, p.ch[k].sync ? "sync" : "async");
        s += fmt("    - device: 0\n        out_type: file\n        disable: false\n        path: \"%s/\"\n        file: \"c%d\"\n", p.dir.c_str(), (int)k);
        if (p.wild && c.chance(1, 2)) s += "        rollback: 3\n";
        int nd = (int)c.range(0, 5);
        if (first) p.devs[k] = 1 + nd;
        bool virt = false;
        for (int d = 1; d <= nd; d++)
        {
            s += fmt("    - device: %d\n", d);
            const char* prio[] = {"trace", "debug", "info", "warn", "error"};
            if (r.chance(1, 2)) s += fmt("        priority: %s\n", prio[r.below(5)]);
            if (r.chance(1, 4)) s += fmt("        category: %d\n        category_extend: %d\n", (int)r.below(4), (int)r.range(0, 6));
            if (r.chance(1, 4)) s += fmt("        identify_wlist: [%d, %d-%d]\n", (int)r.below(10), (int)r.range(10, 20), (int)r.range(21, 60));
            bool able = r.chance(5, 6);
            s += fmt("        disable: %s\n", able ? "false" : "true");
            switch (c.below(7))
            {
            case 0: case 1:
                s += fmt("        out_type: file\n        path: \"%s/\"\n        file: \"x%d_%d%s\"\n", p.dir.c_str(), (int)k, d, c.chance(1, 4) ? "_$YEAR$MON$DAY_$HOUR$MIN$SEC_$PID" : "");
                s += fmt("        limit_size: %d\n        rollback: %d\n", (int)c.range(0, 1), (int)c.below(4));
                if (c.chance(1, 4)) s += "        rolldaily: true\n";
                else if (c.chance(1, 4)) s += "        rollhourly: true\n";
                break;
            case 2: s += "        out_type: screen\n"; break;
            case 3:
                if (p.named) s += fmt("        out_type: udp\n        udp_addr: host%d.example:%d\n", p.id, recv_port);
                else s += fmt("        out_type: udp\n        udp_addr: 127.0.0.1:%d\n", recv_port);
                if (p.named && able) p.by_name.push_back({(int)k, d});
                break;
            case 4: s += "        out_type: empty\n"; break;
            case 5:
                if (virt) { s += "        out_type: empty\n"; break; }
                virt = true;
                s += "        out_type: virtual\n";
                break;
            default:
                if (first && !p.in_port) p.in_port = next_in_port++;
                s += fmt("        in_type: udp\n        out_type: %s\n        udp_addr: 127.0.0.1:%d\n", c.chance(1, 2) ? "screen" : "empty", p.in_port);
                break;
            }
        }
    }
    return s;
}
static void write_yaml(Prog& p, const std::string& text, bool replace)
{
    std::string f = replace ? p.yaml + ".new" : p.yaml;
    spit(f, text);
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = 1600000000 + ++p.mtime;
    ts[0].tv_nsec = ts[1].tv_nsec = 0;
    utimensat(AT_FDCWD, f.c_str(), ts, 0);
    if (replace) rename(f.c_str(), p.yaml.c_str());
}

static std::atomic<ll> hook_calls;
static void hook_fn(const LogData& log)
{
    hook_calls++;
    if (log.content_len_ > 0 && log.content_[0] == 'H') return; // forwarded once
    if (log.identify_ % 3 == 0)
    {
        for (auto& p : P)
            if (p->ch.size() > 1 && log.content_[0] == 'L' && atoi(log.content_ + 1) == p->id)
            {
                // only to a later channel: two channels forwarding to each other through bounded
                // queues can fill both with records that wait for room in the other
                int to = log.channel_id_ + 1;
                if (to >= (int)p->ch.size()) break;
                LogStream s(*p->lg, to, log.priority_, log.category_, log.identify_, "", 0, 0, "", 0, LOG_PREFIX_NULL);
                s.write_buffer("H", 1);
                s.write_buffer(log.content_, std::min(log.content_len_, 100));
            }
    }
}

static void log_one(Prog& p, int t, ll n, Rng& r, Local& l)
{
    // L<logger>.<thread>.<n>:<length>:<payload>
    size_t len = r.chance(1, 10) ? (size_t)r.range(0, 640) : (size_t)r.range(0, 60);
    char c = (char)('a' + (n + t) % 26);
    std::string head = fmt("L%d.%d.%lld:%zu:", p.id, t, n, len);
    std::string body(len, c);
    int ch = (int)r.below(p.ch.size()), prio = (int)r.below(7), cat = (int)r.below(12);
    ll id = (ll)r.below(64);
    if (p.deflt && r.chance(1, 3))
    {
        switch (r.below(4))
        {
        case 0: LogInfoStream(ch, cat, id) << head << body; break;
        case 1: LogWarnStream(ch, cat, id) << head << body; break;
        case 2: LOG_ERROR(ch, cat, id, head << body); break;
        default: LOGFMT_DEBUG(ch, cat, id, "%s%s", head.c_str(), body.c_str()); break;
        }
        l("logs_macro");
        return;
    }
    unsigned prefix = r.chance(1, 4) ? LOG_PREFIX_DEFAULT : LOG_PREFIX_NULL;
    LogStream s(*p.lg, ch, prio, cat, id, "/a/b.cpp", 8, 12, "f", 1, prefix);
    switch (r.below(4))
    {
    case 0: s << head << body; break;
    case 1: { LogStream m(std::move(s)); m << head; m << body.c_str(); break; }
    case 2: s.write_buffer(head.data(), (int)head.size()); s.write_buffer(body.data(), (int)body.size()); break;
    default: s << "L" << p.id << '.' << t << '.' << n << ':' << len << ':' << body; break;
    }
    l("logs");
}
static void read_stats(Prog& p, Rng& r, Local& l)
{
    Logger& g = *p.lg;
    int c = (int)r.range(-1, (ll)p.ch.size()), d = (int)r.range(-1, 6);
    volatile unsigned long long sum = 0;
    switch (r.below(4))
    {
    case 0: for (int k = 0; k < CHANNEL_LOG_MAX_ID; k++) sum = sum + (unsigned long long)GetChannelLog(g, c, (ChannelLogEnum)k); break;
    case 1: for (int k = 0; k < DEVICE_LOG_MAX_ID; k++) sum = sum + (unsigned long long)GetDeviceLog(g, c, d, (DeviceLogEnum)k); break;
    case 2: for (int k = 0; k < DEVICE_CFG_MAX_ID; k++) sum = sum + (unsigned long long)GetDeviceConfig(g, c, d, (DeviceConfigEnum)k); break;
    default: sum = sum + (unsigned long long)GetChannelLog(g, c, CHANNEL_LOG_PUSH) + GetDeviceLog(g, c, d, DEVICE_LOG_TOTAL_WRITE_LINE); break;
    }
    l("stat_reads");
}
static void change(Prog& p, Rng& r, Local& l)
{
    Logger& g = *p.lg;
    int c = (int)r.below(p.ch.size());
    int d = p.devs[c] > 1 ? (int)r.range(1, p.devs[c] - 1) : 7;
    if (p.wild) d = (int)r.below((uint64_t)p.devs[c] + 1);
    l("setting_changes");
    switch (r.below(p.wild ? 15 : 8))
    {
    case 0: SetDeviceConfig(g, c, d, DEVICE_CFG_ABLE, r.chance(3, 4)); break;
    case 1: SetDeviceConfig(g, c, d, DEVICE_CFG_PRIORITY, r.below(7)); break;
    case 2: SetDeviceConfig(g, c, d, DEVICE_CFG_CATEGORY, r.below(5)); SetDeviceConfig(g, c, d, DEVICE_CFG_CATEGORY_EXTEND, r.below(5)); break;
    case 3: SetDeviceConfig(g, c, d, DEVICE_CFG_CATEGORY_MASK, (ll)r.next()); break;
    case 4: SetDeviceConfig(g, c, d, DEVICE_CFG_IDENTIFY_MASK, (ll)r.next()); break;
    case 5: SetDeviceConfig(g, c, d, DEVICE_CFG_IDENTIFY, r.below(5)); SetDeviceConfig(g, c, d, DEVICE_CFG_IDENTIFY_EXTEND, r.below(5)); break;
    case 6: SetDeviceConfig(g, c, d, DEVICE_CFG_FILE_LIMIT_SIZE, r.range(500, 4000)); SetDeviceConfig(g, c, d, DEVICE_CFG_FILE_ROLLBACK, r.below(4)); break;
    case 7: SetDeviceConfig(g, c, d, DEVICE_CFG_UDP_IP, htonl(0x7f000001)); SetDeviceConfig(g, c, d, DEVICE_CFG_UDP_PORT, htons((uint16_t)recv_port)); break;
    case 8: SetChannelConfig(g, c, (ChannelConfigEnum)r.pick(std::vector<int>{CHANNEL_CFG_PRIORITY, CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND}), (ll)r.below(4)); break;
    case 9: BatchSetDeviceConfig(g, DEVICE_OUT_FILE, DEVICE_CFG_PRIORITY, r.below(4)); break;
    case 10: EnableAllScreenDevice(g, r.chance(1, 2)); EnableAllUDPDevice(g, r.chance(1, 2)); EnableAllFileDevice(g, r.chance(3, 4)); break;
    case 11: SetAllChannelPriority(g, (LogPriority)r.below(4)); break;
    case 12: SetAllFileLimitSize(g, (int)r.range(500, 4000)); SetAllFileRollbackCount(g, (int)r.below(4)); break;
    case 13: SetAllChannelCategory(g, (int)r.below(3), (int)r.below(9)); SetAllScreenCategory(g, 0, (int)r.below(9)); break;
    default: SetAllFilePriority(g, 0, (int)r.below(12)); SetAllUDPCategory(g, 0, (int)r.below(12)); SetAllScreenPriority(g, PRIORITY_INFO); SetAllUDPPriority(g, PRIORITY_DEBUG); break;
    }
}

static int start(Prog& p, Rng& r, bool first)
{
    std::string text = config(p, r, first);
    if (!p.hot) return patient_start([&] { return ParseAndStartLogger(*p.lg, text); });
    write_yaml(p, text, true);
    return patient_start([&] { return LoadAndStartLogger(*p.lg, p.yaml); });
}

static void producer(int t, uint64_t seed, int ops, std::vector<Prog*> mine, bool may_set, bool may_stat)
{
    Rng r(seed);
    Local l;
    ll n = 0;
    while (!go.load(std::memory_order_relaxed)) ::sched_yield();
    for (int i = 0; (i < ops || (i < ops * 30 && boots.load(std::memory_order_relaxed))) && !hurry.load(std::memory_order_relaxed); i++)
    {
        Prog& p = *r.pick(mine);
        int k = (int)r.below(20);
        if (k < 14) { int m = r.chance(1, 5) ? (int)r.range(1, 20) : 1; while (m--) log_one(p, t, n++, r, l); }
        else if (k < 17) { if (may_stat) read_stats(p, r, l); }
        else if (k < 19) { if (may_set) change(p, r, l); }
        else if (r.chance(1, 3)) usleep((useconds_t)r.below(400));
        else ::sched_yield();
    }
}
static void updater(Prog* p, uint64_t seed, int n)
{
    Rng r(seed);
    Local l;
    while (!go.load(std::memory_order_relaxed)) ::sched_yield();
    while (n-- && !hurry.load(std::memory_order_relaxed))
    {
        write_yaml(*p, r.chance(1, 12) ? std::string(" - channel: 0\n   sync: nonsense\n") : config(*p, r, false), r.chance(3, 4));
        l("yaml_versions");
        usleep((useconds_t)r.below(3000));
    }
}
static void rebooter(Prog* p, uint64_t seed, int n, std::mutex* m, int pause)
{
    Rng r(seed);
    Local l;
    while (!go.load(std::memory_order_relaxed)) ::sched_yield();
    while (n-- && !hurry.load(std::memory_order_relaxed))
    {
        if (r.chance(1, 2)) usleep((useconds_t)r.below((uint64_t)pause));
        int ret = StopLogger(*p->lg);
        l(ret == 0 ? "stops" : "stops_refused");
        if (r.chance(1, 2)) usleep((useconds_t)r.below(1000));
        std::string text;
        {
            std::lock_guard<std::mutex> g(*m); // the text is generated once at a time; the starts themselves may collide
            if (r.chance(1, 4)) for (auto& c : p->ch) if (r.chance(1, 2)) c.sync = !c.sync;
            text = config(*p, r, false);
            if (p->hot) write_yaml(*p, text, true);
        }
        ret = patient_start([&] { return p->hot ? LoadAndStartLogger(*p->lg, p->yaml) : ParseAndStartLogger(*p->lg, text); });
        l(ret == 0 ? "restarts" : "restarts_refused");
        if (r.chance(2, 3)) usleep((useconds_t)r.below((uint64_t)pause));
    }
    boots--;
}
static void sender(std::vector<int> ports, uint64_t seed, int n)
{
    Rng r(seed);
    while (!go.load(std::memory_order_relaxed)) ::sched_yield();
    while (n-- && !hurry.load(std::memory_order_relaxed))
    {
        sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET; a.sin_port = htons((uint16_t)r.pick(ports)); a.sin_addr.s_addr = htonl(0x7f000001);
        std::string s((size_t)r.range(1, 900), 'u');
        sendto(send_fd, s.data(), s.size(), 0, (sockaddr*)&a, sizeof a);
        usleep((useconds_t)r.below(700));
    }
}

struct Seen { std::map<std::pair<int, ll>, int> n; std::map<int, ll> last; };
static void check_line(Prog& p, const std::string& file, std::string s, Seen* seen, bool ordered, ll& lines)
{
    bool fwd = false;
    if (!s.empty() && s[0] == 'H') { fwd = true; s.erase(0, 1); }
    if (!s.empty() && s[0] == '[')
    {
        size_t q = s.find("(f) ");
        if (q == std::string::npos) q = s.find(") "); // macros
        else q += 2;
        q = s.find(" L", q == std::string::npos ? 0 : q);
        if (q != std::string::npos) s.erase(0, q + 1);
    }
    int lg = 0, t = 0, used = 0;
    ll n = 0;
    unsigned long len = 0;
    std::string where = file + " of logger " + std::to_string(p.id);
    if (sscanf(s.c_str(), "L%d.%d.%lld:%lu:%n", &lg, &t, &n, &len, &used) < 4 || used == 0)
    {
        if (fwd) return; // a forwarded prefix of 100 bytes
        violation("torn", "torn", "a line of " + where + " is no record: \"" + s.substr(0, 200) + "\"");
        return;
    }
    if (lg != p.id) { violation("interfere", "interfere", "a record of another logger in " + where + ": \"" + s.substr(0, 100) + "\""); return; }
    lines++;
    std::string body = s.substr((size_t)used);
    char c = (char)('a' + (n + t) % 26);
    if (body.find_first_not_of(c) != std::string::npos || (!fwd && body.size() != len && body.size() + (size_t)used < 560))
        violation("torn", "torn", "a record is damaged in " + where + ": \"" + s.substr(0, 300) + "\"");
    if (!seen || fwd) return;
    if (++seen->n[{t, n}] > 1) violation("dup", "dup", fmt("record %d.%lld twice in ", t, n) + where);
    if (ordered)
    {
        auto it = seen->last.find(t);
        if (it != seen->last.end() && it->second >= n) violation("order", "order", fmt("record %d.%lld after %d.%lld in ", t, n, t, it->second) + where);
        seen->last[t] = n;
    }
}

static void run_case(long long idx)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed);
    wipe(dir);
    P.clear();
    go = false; hurry = false; boots = 0;
    next_in_port = 20000 + (int)((getpid() * 16) % 8000);
    bool many = opt().mode == "many";  // every thread has its own logger
    int nl = many ? (int)r.range(2, 6) : r.chance(1, 3) ? 2 : 1;
    std::string what;
    for (int i = 0; i < nl; i++)
    {
        std::unique_ptr<Prog> p(new Prog);
        p->id = i + 1;
        p->deflt = i == 0 && r.chance(1, 4);
        if (p->deflt) p->lg = &GetDefaultLogger();
        else { p->own.reset(new Logger); p->lg = p->own.get(); }
        p->hot = r.chance(1, 3);
        p->restart = opt().mode == "restart" || (many && r.chance(1, 2));
        p->wild = r.chance(1, 2);
        p->named = many && r.chance(2, 3);
        int nc = (int)r.range(1, 3);
        while (nc--) p->ch.push_back(Ch{r.chance(1, 2), 0});
        p->dir = dir + fmt("/l%d", p->id);
        p->yaml = dir + fmt("/l%d.yaml", p->id);
        p->cfg_seed = r.next();
        what += fmt("logger %d: channels=%d", p->id, (int)p->ch.size());
        for (auto& c : p->ch) what += c.sync ? " sync" : " async";
        what += fmt(" default=%d hot=%d restart=%d wild=%d; ", (int)p->deflt, (int)p->hot, (int)p->restart, (int)p->wild);
        P.push_back(std::move(p));
    }
    SetVirtualDevice(hook_fn);
    delay_permille = r.chance(1, 3) ? 0 : (int)r.pick(std::vector<int>{3, 20, 100, 300});
    int nt = (int)r.range(2, 6);
    int ops = (int)r.range(20, 120);
    std::vector<std::thread> th;
    std::mutex boot_mu;
    ll expected = 0;
    if (many)
    {
        go = true;
        for (auto& p : P)
        {
            Prog* q = p.get();
            uint64_t s = r.next();
            th.emplace_back([q, s, ops]
            {
                Rng r(s);
                Local l;
                int rounds = q->restart ? (int)r.range(2, 4) : 1;
                ll n = 0;
                for (int k = 0; k < rounds; k++)
                {
                    int ret = start(*q, r, k == 0);
                    if (ret != 0) violation("retcode", "start", fmt("start of logger %d failed: %d", q->id, ret));
                    for (auto& d : q->by_name)
                    {
                        ll ip = GetDeviceConfig(*q->lg, d.first, d.second, DEVICE_CFG_UDP_IP), want = htonl(0x7f000000u + (unsigned)q->id);
                        l("names_resolved");
                        if (ip != want) violation("interfere", "interfere:address", fmt("device <%d,%d> of logger %d has the address %08llx, its name means %08llx", d.first, d.second, q->id, ip, want));
                    }
                    for (int i = 0; i < ops; i++)
                    {
                        log_one(*q, 0, n++, r, l);
                        if (r.chance(1, 10)) read_stats(*q, r, l);
                        if (r.chance(1, 20)) change(*q, r, l);
                        if (q->hot && r.chance(1, 25)) write_yaml(*q, config(*q, r, false), true);
                    }
                    StopLogger(*q->lg);
                    l("restarts");
                    q->made = n;
                }
                if (!q->deflt && r.chance(1, 2)) q->own.reset();
            });
        }
        for (auto& t : th) t.join();
    }
    else
    {
        for (auto& p : P)
        {
            int ret = start(*p, r, true);
            if (ret != 0) violation("retcode", "start", fmt("start failed: %d | ", ret) + what);
        }
        std::vector<Prog*> all;
        std::vector<int> ports;
        for (auto& p : P) { all.push_back(p.get()); if (p->in_port) ports.push_back(p->in_port); }
        bool restart = P[0]->restart;
        for (int t = 0; t < nt; t++) th.emplace_back(producer, t, r.next(), ops, all, !restart && r.chance(2, 3), !restart || true);
        size_t producers = th.size();
        (void)producers;
        if (r.chance(1, 2)) { uint64_t s = r.next(); Prog* p = all[0]; th.emplace_back([s, p, ops] { Rng q(s); Local l; while (!go.load(std::memory_order_relaxed)) ::sched_yield(); for (int i = 0; i < ops * 4 && !hurry.load(std::memory_order_relaxed); i++) read_stats(*p, q, l); }); }
        for (auto& p : P)
        {
            if (p->hot && !p->restart) th.emplace_back(updater, p.get(), r.next(), (int)r.range(2, 12));
            if (p->restart)
            {
                int nb = r.chance(1, 4) ? 2 : 1;
                boots += nb;
                while (nb--) th.emplace_back(rebooter, p.get(), r.next(), (int)r.range(1, 6), &boot_mu, 3000);
            }
        }
        if (!ports.empty()) th.emplace_back(sender, ports, r.next(), 20);
        what += fmt("%d producers x %d, threads=%d", nt, ops, (int)th.size());
        go = true;
        for (auto& t : th) t.join();
        for (auto& p : P)
        {
            int ret = StopLogger(*p->lg);
            if (ret != 0 && !p->restart) violation("retcode", "stop", fmt("stop failed: %d | ", ret) + what);
            if (r.chance(1, 3)) StopLogger(*p->lg); // refused or harmless
        }
    }
    for (auto& p : P) if (!p->deflt) p->own.reset();
    SetVirtualDevice(nullptr);
    // what the files hold
    ll lines = 0;
    for (auto& p : P)
    {
        std::map<std::string, Seen> seen;
        for (auto& f : list_dir(p->dir))
        {
            std::string base = f.substr(0, f.find(".log"));
            bool rolled = p->restart || p->wild || base[0] == 'x';
            bool term = true;
            auto v = lines_of(slurp(p->dir + "/" + f), &term);
            if (!term) violation("torn", "torn:end", "the file " + f + " does not end with a whole record | " + what);
            for (auto& s : v) check_line(*p, f, s, base[0] == 'x' && base.size() > 6 ? nullptr : &seen[base], !rolled, lines);
        }
        for (size_t c = 0; c < p->ch.size(); c++) expected += (ll)seen["c" + std::to_string(c)].n.size();
        if (many && !p->restart && !p->wild)
        {
            ll have = 0;
            for (size_t c = 0; c < p->ch.size(); c++) for (auto& k : seen["c" + std::to_string(c)].n) have += k.first.first == 0;
            if (have != p->made) violation("missing", "missing", fmt("logger %d, used by one thread: %lld of %lld records are in its reference files | ", p->id, have, p->made) + what);
            count("records_exact", have);
        }
        // without restarts and without changes of the reference files nothing may be missing
        if (!p->restart && !p->wild && !many)
        {
            std::map<int, std::set<ll>> have;
            for (size_t c = 0; c < p->ch.size(); c++) for (auto& k : seen["c" + std::to_string(c)].n) have[k.first.first].insert(k.first.second);
            (void)have;
            if (P.size() == 1)
                for (auto& h : have)
                {
                    ll want = *h.second.rbegin() + 1;
                    if ((ll)h.second.size() != want) violation("missing", "missing", fmt("thread %d: %d of %lld records are in the reference files | ", h.first, (int)h.second.size(), want) + what);
                    count("records_exact", (ll)h.second.size());
                }
        }
    }
    count("lines_checked", lines);
    count("threads", (ll)th.size());
    { std::lock_guard<std::mutex> l(cnt_mu); for (auto& c : cnts) count(c.first, c.second); cnts.clear(); }
    count("hook_calls", hook_calls.exchange(0));
    distinct(mix(seed) ^ (uint64_t)lines);
    char buf[2000];
    while (recv(recv_fd, buf, sizeof buf, MSG_DONTWAIT) >= 0) count("datagrams");
    if (r.chance(1, 50)) sample(what);
    P.clear();
    (void)expected;
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    dir = opt().scratch + "/d";
    mkdir(dir.c_str(), 0755);
    recv_fd = socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001);
    bind(recv_fd, (sockaddr*)&a, sizeof a);
    socklen_t l = sizeof a;
    getsockname(recv_fd, (sockaddr*)&a, &l);
    recv_port = ntohs(a.sin_port);
    send_fd = socket(AF_INET, SOCK_DGRAM, 0);
    resolver() = [](const std::string& n, unsigned char* ip)
    {
        maybe_delay();
        int k = 0;
        if (sscanf(n.c_str(), "host%d.example", &k) != 1) return false;
        ip[0] = 127; ip[1] = 0; ip[2] = 0; ip[3] = (unsigned char)k;
        return true;
    };
    run_cases(run_case);
    wipe(dir);
    finish();
    _exit(0);
}
