// Screen and UDP devices (C19): generated channels with a reference file, screens, UDP outputs and UDP inputs, logged to from
// several threads under the scheduler.  Datagrams travel over the loopback network to receivers of the harness, stdout is a file.
// Every datagram and every printed byte is compared with the records in the reference file of the channel.
#define FN_LOG_MAX_CHANNEL_SIZE 3
#include "vp_fnlog.h"

using namespace FNLog;
using namespace vp;
typedef long long ll;

// ---- stdio calls on stdout are scheduling points ------------------------------------------------------
extern "C"
{
    int vprintf(const char* f, va_list ap)
    {
        static int (*real)(FILE*, const char*, va_list) = (decltype(real))dlsym(RTLD_NEXT, "vfprintf");
        vp::point(vp::P_STDIO);
        return real(stdout, f, ap);
    }
    int printf(const char* f, ...) { va_list ap; va_start(ap, f); int n = vprintf(f, ap); va_end(ap); return n; }
    int __printf_chk(int, const char* f, ...) { va_list ap; va_start(ap, f); int n = vprintf(f, ap); va_end(ap); return n; }
    int __vprintf_chk(int, const char* f, va_list ap) { return vprintf(f, ap); }
    int fputs(const char* s, FILE* f)
    {
        static int (*real)(const char*, FILE*) = (decltype(real))dlsym(RTLD_NEXT, "fputs");
        if (f == stdout) vp::point(vp::P_STDIO);
        return real(s, f);
    }
    int puts(const char* s)
    {
        static int (*real)(const char*) = (decltype(real))dlsym(RTLD_NEXT, "puts");
        vp::point(vp::P_STDIO);
        return real(s);
    }
    int putchar(int c)
    {
        static int (*real)(int) = (decltype(real))dlsym(RTLD_NEXT, "putchar");
        vp::point(vp::P_STDIO);
        return real(c);
    }
}

static const size_t MAXREC = LogData::LOG_SIZE - 2; // bytes of a record that are kept before the newline
static Logger* lg;
static std::string dir, cur;
static uint32_t base_ip; // host order

// ---- sockets of the harness (raw system calls: not subject to the injected failures) ------------------
struct Recv { int fd = -1; uint32_t ip; uint16_t port; }; // network order
static int raw_socket() { return (int)syscall(SYS_socket, AF_INET, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); }
static sockaddr_in addr_of(uint32_t ip, uint16_t port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = port; return a; }
static bool raw_bind(int fd, uint32_t ip, uint16_t port) { sockaddr_in a = addr_of(ip, port); return syscall(SYS_bind, fd, &a, sizeof a) == 0; }
static Recv make_recv(uint32_t host_ip)
{
    Recv r;
    r.fd = raw_socket();
    int sz = 4 << 20;
    setsockopt(r.fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
    r.ip = htonl(host_ip);
    raw_bind(r.fd, r.ip, 0);
    sockaddr_in a; socklen_t l = sizeof a;
    getsockname(r.fd, (sockaddr*)&a, &l);
    r.port = a.sin_port;
    return r;
}
static std::vector<std::string> drain(Recv& r)
{
    std::vector<std::string> v;
    static char buf[70000];
    long n;
    while ((n = recv(r.fd, buf, sizeof buf, 0)) >= 0) v.push_back(std::string(buf, (size_t)n));
    return v;
}
static bool is_bound(uint32_t ip, uint16_t port)
{
    int s = raw_socket();
    bool ok = raw_bind(s, ip, port);
    close(s);
    return !ok;
}
static uint16_t free_port(Rng& r, uint32_t ip)
{
    for (int i = 0; i < 1000; i++) { uint16_t p = htons((uint16_t)r.range(10000, 30000)); if (!is_bound(ip, p)) return p; }
    return 0;
}

// ---- model ----------------------------------------------------------------------------------------------
struct MDev
{
    int out = 0; bool in = false; bool able = true; ll prio = 0;
    std::vector<Recv> rc; int at = 0;          // UDP out: receivers, the configured one
    uint32_t ip = 0; uint16_t port = 0;        // UDP in
    std::string path;                          // file
    ll lose0 = 0, lines0 = 0, bytes0 = 0;
    std::vector<std::string> want;             // UDP in -> file: datagrams in order
};
struct MChan { bool sync = true; ll prio = 0; std::vector<MDev> dev; int ref = -1; std::string ref_path; off_t pos = 0; };
static std::vector<MChan> M;
struct Rec { int chan, prio; std::string text; bool plain; bool seen = false; };
static std::vector<Rec> recs;   // by id
static std::vector<std::deque<std::string>> scr; // expected chunks per source of the screen
static int f_socket, f_sendto, f_bind; // permille
static Rng* frng;
static ll last_fault = -1000000;   // virtual second of the last injected failure
static ll faults_fired, fired_before_step;

static const char* COLOR[] = {"", "", "\x1b[34m\x1b[1m", "\x1b[33m", "\x1b[31m", "\x1b[32m", "\x1b[35m"};
static std::string screen_chunk(int prio, const std::string& bytes)
{
    std::string t(bytes.c_str());
    if (prio < PRIORITY_INFO) return t;
    return std::string(COLOR[prio]) + t + "\x1b[0m";
}

// waiting for the threads of the logger: after a while the scheduler has to be fair
struct Patience
{
    bool was = S().fair;
    int n = 0;
    void nap(useconds_t us) { if (++n > 40) S().fair = true; usleep(us); }
    ~Patience() { S().fair = was; }
};

static std::string gen_text(Rng& r, size_t id, bool& plain)
{
    std::string t = fmt("r%zu;", id);
    plain = r.chance(1, 3);
    size_t n;
    switch (r.below(6))
    {
    case 0: n = 0; break;
    case 1: n = (size_t)r.range(1, 8); break;
    case 2: n = (size_t)r.range((ll)MAXREC - 14, (ll)MAXREC + 10); break;
    case 3: n = (size_t)r.range(600, 1500); break;
    default: n = (size_t)r.range(5, 120); break;
    }
    int kind = (int)r.below(4);
    for (size_t i = 0; i < n; i++)
    {
        if (plain || kind == 0) t += (char)r.range(32, 126);
        else if (kind == 1) t += (char)r.below(256);
        else if (kind == 2) t += r.pick(std::vector<char>{'\0', '\n', '\r', '%', 's', 'n', '\x1b', '[', '0', 'm', ';', 'r'});
        else t += (char)(r.chance(1, 30) ? 0 : r.range(97, 122));
    }
    return t;
}
static std::string full_bytes(const std::string& t) { return t.substr(0, MAXREC) + "\n"; }

static std::string read_from(const std::string& path, off_t& pos)
{
    std::string s;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return s;
    char buf[65536];
    long n;
    while ((n = syscall(SYS_pread64, fd, buf, sizeof buf, pos)) > 0) { s.append(buf, (size_t)n); pos += n; }
    syscall(SYS_close, fd);
    return s;
}
static std::string out_path;
static off_t out_pos;

// takes whole records off the front of `s`; false: something that is no record
static bool parse_ref(int c, std::string& s, std::vector<std::pair<size_t, std::string>>& out)
{
    size_t p = 0;
    while (p < s.size())
    {
        if (s[p] == 'r')
        {
            if (s.find(';', p) == std::string::npos && s.size() - p < 8) break; // the number is not complete yet
            size_t id = (size_t)atoll(s.c_str() + p + 1);
            if (id >= recs.size() || recs[id].chan != c || recs[id].plain) return false;
            std::string b = full_bytes(recs[id].text);
            if (s.size() - p < b.size()) { if (b.compare(0, s.size() - p, s, p, std::string::npos) != 0) return false; break; }
            if (s.compare(p, b.size(), b) != 0) return false;
            out.push_back({id, b});
            p += b.size();
        }
        else
        {
            size_t e = s.find('\n', p);
            if (e == std::string::npos) break;
            std::string l = s.substr(p, e - p + 1);
            size_t q = l.find("(fn) r"); // the end of the prefix
            size_t id = q == std::string::npos ? SIZE_MAX : (size_t)atoll(l.c_str() + q + 6);
            if (id >= recs.size() || !recs[id].plain || recs[id].chan != c) return false;
            q += 3;
            std::string body = l.substr(q + 2, l.size() - q - 3);
            if (recs[id].text.compare(0, body.size(), body) != 0 || (body.size() != recs[id].text.size() && l.size() != MAXREC + 1)) return false;
            out.push_back({id, l});
            p = e + 1;
        }
    }
    s.erase(0, p);
    return true;
}

static void log_one(Rng& r, int c, int prio)
{
    bool plain;
    size_t id = recs.size();
    recs.push_back(Rec());
    std::string t = gen_text(r, id, plain);
    recs[id].chan = c; recs[id].prio = prio; recs[id].text = t; recs[id].plain = plain;
    if (plain) LogStream(*lg, c, prio, 0, 0, "/x/f.cpp", 8, 77, "fn", 2, LOG_PREFIX_DEFAULT) << t;
    else LogStream(*lg, c, prio, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL) << t;
    count("log_calls");
}

struct ChanState { std::string rest; };
static std::vector<ChanState> cs;
struct Batch { std::vector<std::pair<size_t, std::string>> ref; };
static std::vector<Batch> batch;      // records of this step by channel, in the order of the reference file
static std::vector<std::vector<std::vector<std::string>>> dgrams; // [chan][dev * 8 + receiver]
static size_t step_from;
static size_t next_dgram;
static bool bad; // the case cannot be judged further

static void take_refs()
{
    for (size_t c = 0; c < M.size(); c++)
    {
        cs[c].rest += read_from(M[c].ref_path, M[c].pos);
        if (!parse_ref((int)c, cs[c].rest, batch[c].ref))
        {
            violation("reference", "reference", fmt("the file of channel %d holds text of no record: \"", (int)c) + esc(cs[c].rest.substr(0, 300)) + "\" | " + cur);
            bad = true;
            return;
        }
    }
}
static void take_dgrams()
{
    for (size_t c = 0; c < M.size(); c++)
        for (size_t d = 0; d < M[c].dev.size(); d++)
            for (size_t k = 0; k < M[c].dev[d].rc.size(); k++)
                for (auto& s : drain(M[c].dev[d].rc[k])) dgrams[c][d * 8 + k].push_back(s);
}
static bool all_there()
{
    std::vector<size_t> want(M.size(), 0);
    for (size_t i = step_from; i < recs.size(); i++) if (recs[i].prio >= M[(size_t)recs[i].chan].prio) want[(size_t)recs[i].chan]++;
    for (size_t c = 0; c < M.size(); c++) if (batch[c].ref.size() < want[c]) return false;
    return true;
}
static std::string screen_text;
static void take_screen()
{
    fflush(stdout);
    screen_text += read_from(out_path, out_pos);
}
static size_t screen_left() { size_t n = 0; for (auto& q : scr) n += q.size(); return n; }
// the printed text has to be a merge of whole chunks of the sources, each source in its order
static bool match_screen(std::string& s, std::vector<std::deque<std::string>>& q)
{
    size_t p = 0;
    while (p < s.size())
    {
        bool hit = false;
        // the longest head that fits: heads begin with different record or datagram numbers
        size_t best = 0, bi = 0;
        for (size_t i = 0; i < q.size(); i++)
        {
            if (q[i].empty()) continue;
            const std::string& h = q[i].front();
            if (s.compare(p, h.size(), h) == 0 && h.size() >= best) { best = h.size(); bi = i; hit = true; }
        }
        if (!hit)
        {
            // the beginning of a record that is just being printed is left for the next look
            for (auto& k : q) if (!k.empty() && k.front().size() > s.size() - p && k.front().compare(0, s.size() - p, s, p, std::string::npos) == 0) { s.erase(0, p); return true; }
            s.erase(0, p);
            return false;
        }
        p += best;
        q[bi].pop_front();
        count("screen_chunks");
    }
    s.clear();
    return true;
}

// compares everything the devices delivered since the last call; stopped: the logger has been stopped
static void base_counters(MDev& x, int c, int d)
{
    x.lose0 = GetDeviceLog(*lg, c, d, DEVICE_LOG_TOTAL_LOSE_LINE);
    x.lines0 = GetDeviceLog(*lg, c, d, DEVICE_LOG_TOTAL_WRITE_LINE);
    x.bytes0 = GetDeviceLog(*lg, c, d, DEVICE_LOG_TOTAL_WRITE_BYTE);
}
static void judge(bool stopped, bool was_faulty)
{
    if (bad) return;
    Patience pa;
    bool any_async = false;
    for (auto& c : M) if (!c.sync) any_async = true;
    take_refs();
    if (bad) return;
    for (int i = 0; any_async && !stopped && !all_there() && i < 3000; i++) { pa.nap(5000); take_refs(); if (bad) return; }
    if (any_async && !stopped)
        for (int i = 0; i < 3000; i++)
        {
            bool done = true;
            for (size_t c = 0; c < M.size(); c++) if (GetChannelLog(*lg, (int)c, CHANNEL_LOG_PROCESSED) < GetChannelLog(*lg, (int)c, CHANNEL_LOG_PUSH)) done = false;
            if (done) break;
            pa.nap(5000);
        }
    take_refs();
    if (bad) return;
    if (!all_there()) { violation("reference", "reference:missing", "records are missing in the reference file | " + cur); bad = true; return; }
    bool faulty = was_faulty || faults_fired != fired_before_step;
    take_dgrams();
    for (size_t c = 0; c < M.size(); c++)
        for (size_t d = 0; d < M[c].dev.size(); d++)
        {
            MDev& x = M[c].dev[d];
            if (x.out != DEVICE_OUT_UDP) continue;
            std::vector<std::string> want;
            std::vector<size_t> ids;
            if (x.able) for (auto& k : batch[c].ref) if (recs[k.first].prio >= x.prio) { want.push_back(k.second); ids.push_back(k.first); }
            auto& g = dgrams[c][d * 8 + (size_t)x.at];
            std::string who = fmt("UDP device %d.%d: ", (int)c, (int)d);
            size_t w = 0, lost = 0, i = 0;
            for (; i < g.size(); i++)
            {
                size_t k = w;
                while (k < want.size() && want[k] != g[i]) k++;
                if (k == want.size())
                {
                    bool dup = false;
                    for (size_t q = 0; q < w; q++) if (want[q] == g[i]) dup = true;
                    violation("udp", dup ? "udp:repeated" : "udp:unknown", who + fmt("datagram %zu of %zu (%zu bytes) is %s: \"", i + 1, g.size(), g[i].size(), dup ? "a repetition or out of order" : "no record of the channel") + esc(g[i].substr(0, 120)) + "\" | " + cur);
                    break;
                }
                lost += k - w;
                w = k + 1;
                count("datagrams_exact");
            }
            lost += want.size() - w;
            if (i == g.size())
            {
                if (lost && !faulty) violation("udp", stopped ? "udp:missing_at_stop" : "udp:missing", who + fmt("%zu of %zu records were not sent although no socket call failed, e.g. record %zu | ", lost, want.size(), w < ids.size() ? ids[w] : ids[0]) + cur);
                ll lose = GetDeviceLog(*lg, (int)c, (int)d, DEVICE_LOG_TOTAL_LOSE_LINE);
                if (lose - x.lose0 != (ll)lost)
                    violation("udp", "udp:lose_count", who + fmt("%zu of %zu records were not sent, the counter of lost lines grew by %lld | ", lost, want.size(), lose - x.lose0) + cur);
                if (lost) count("datagrams_lost_counted", (ll)lost);
                if (!faulty && !lost)
                {
                    ll l = GetDeviceLog(*lg, (int)c, (int)d, DEVICE_LOG_TOTAL_WRITE_LINE) - x.lines0, b = GetDeviceLog(*lg, (int)c, (int)d, DEVICE_LOG_TOTAL_WRITE_BYTE) - x.bytes0, sum = 0;
                    for (auto& t : want) sum += (ll)t.size();
                    if (l != (ll)want.size() || b != sum) violation("stats", "stats:udp", who + fmt("counts %lld lines and %lld bytes instead of %zu and %lld | ", l, b, want.size(), sum) + cur);
                    count("udp_counters_exact");
                }
            }
            base_counters(x, (int)c, (int)d);
            for (size_t k = 0; k < x.rc.size(); k++)
                if ((int)k != x.at && !dgrams[c][d * 8 + k].empty()) violation("udp", "udp:address", who + fmt("%zu datagrams arrived at another address than the configured one | ", dgrams[c][d * 8 + k].size()) + cur);
            for (size_t k = 0; k < x.rc.size(); k++) dgrams[c][d * 8 + k].clear();
        }
    // screens
    for (size_t c = 0; c < M.size(); c++)
        for (size_t d = 0; d < M[c].dev.size(); d++)
        {
            MDev& x = M[c].dev[d];
            if (x.out != DEVICE_OUT_SCREEN || x.in || !x.able) continue;
            for (auto& k : batch[c].ref) if (recs[k.first].prio >= x.prio) scr[c * 32 + d].push_back(screen_chunk(recs[k.first].prio, k.second));
        }
    take_screen();
    bool fits = match_screen(screen_text, scr);
    for (int i = 0; fits && (screen_left() || !screen_text.empty()) && any_async && !stopped && i < 600; i++) { pa.nap(5000); take_screen(); fits = match_screen(screen_text, scr); }
    if (!fits)
    {
        std::string heads;
        for (auto& q : scr) if (!q.empty()) heads += " \"" + esc(q.front().substr(0, 60)) + "\"";
        violation("screen", "screen:text", "the screen shows \"" + esc(screen_text.substr(0, 160)) + "\" where one of these is due:" + heads.substr(0, 400) + " | " + cur);
        bad = true;
        return;
    }
    if (screen_left())
    {
        std::string heads;
        for (auto& q : scr) if (!q.empty()) heads += " \"" + esc(q.front().substr(0, 60)) + "\"";
        violation("screen", "screen:missing", fmt("%zu records or datagrams were not printed:", screen_left()) + heads.substr(0, 300) + " | " + cur);
        bad = true;
        return;
    }
    for (auto& b : batch) { count("records_judged", (ll)b.ref.size()); b.ref.clear(); }
    step_from = recs.size();
}

// makes a synchronous channel poll its inputs; asynchronous ones do it by themselves
static void kick(Rng& r, int c, Patience& pa)
{
    if (M[(size_t)c].sync) { log_one(r, c, PRIORITY_FATAL); clock_advance_ns(700000000); }
    else pa.nap(200000);
}

// sends datagrams to a UDP input
static void feed(Rng& r, int c, int d)
{
    MDev& x = M[(size_t)c].dev[(size_t)d];
    Patience pa;
    for (int i = 0; i < 100 && is_bound(x.ip, x.port) != x.able; i++) kick(r, c, pa);
    if (is_bound(x.ip, x.port) != x.able)
    {
        violation("input", x.able ? "input:not_bound" : "input:not_closed", fmt("UDP input %d.%d (enabled: %d) %s its address | ", c, d, (int)x.able, x.able ? "does not listen on" : "still listens on") + cur);
        bad = true;
        return;
    }
    int n = (int)r.range(1, 12);
    static int out = raw_socket();
    sockaddr_in a = addr_of(x.ip, x.port);
    ll lines0 = GetDeviceLog(*lg, c, d, DEVICE_LOG_TOTAL_WRITE_LINE);
    cur += fmt("; %d datagrams to %d.%d", n, c, d);
    std::deque<std::string> exp;
    for (int i = 0; i < n; i++)
    {
        std::string s = fmt("d%zu;", next_dgram++);
        size_t len;
        switch (r.below(6))
        {
        case 0: len = s.size(); break;
        case 1: len = (size_t)r.range((ll)MAXREC - 4, (ll)MAXREC + 1); break;
        case 2: len = (size_t)r.range((ll)MAXREC + 2, (ll)MAXREC + 900); break;
        default: len = (size_t)r.range(8, MAXREC > 2000 && r.chance(1, 4) ? (ll)MAXREC : 300); break;
        }
        bool bin = r.chance(1, 2);
        while (s.size() < len) s += bin ? (char)r.below(256) : (char)r.range(32, 126);
        if (r.chance(1, 3)) s.back() = '\n';
        if (s.size() < 4 || r.chance(1, 60)) { }
        syscall(SYS_sendto, out, s.data(), s.size(), 0, &a, sizeof a);
        count("datagrams_in");
        if (!x.able) continue;
        if (x.out == DEVICE_OUT_FILE) x.want.push_back(s);
        else
        {
            // beyond the maximum a datagram is cut and ends with a newline
            std::string b = s.size() > MAXREC + 1 ? s.substr(0, MAXREC) + "\n" : s;
            exp.push_back(screen_chunk(PRIORITY_INFO, b));
        }
        if (!M[(size_t)c].sync && r.chance(1, 3)) usleep((useconds_t)r.below(15000));
    }
    // (an oversized datagram may be cut a few bytes earlier: see match)
    for (auto& e : exp) scr[(size_t)c * 32 + (size_t)d].push_back(e);
    if (M[(size_t)c].sync) kick(r, c, pa);
    else
        for (int i = 0; i < 1500; i++)
        {
            if (GetDeviceLog(*lg, c, d, DEVICE_LOG_TOTAL_WRITE_LINE) - lines0 >= (x.able ? n : 1)) break;
            pa.nap(x.able ? 10000 : 3000);
            if (!x.able && i > 60) break;
        }
    if (!x.able) { kick(r, c, pa); count("datagrams_to_disabled", n); }
}
static void judge_inputs() // after a stop
{
    if (bad) return;
    for (size_t c = 0; c < M.size(); c++)
        for (size_t d = 0; d < M[c].dev.size(); d++)
        {
            MDev& x = M[c].dev[d];
            if (!x.in || x.out != DEVICE_OUT_FILE) continue;
            std::string s = slurp(x.path);
            size_t p = 0, i = 0;
            for (; i < x.want.size(); i++)
            {
                const std::string& w = x.want[i];
                if (s.compare(p, w.size(), w) == 0 && w.size() <= MAXREC + 2) { p += w.size(); count("datagrams_forwarded"); continue; }
                bool hit = false;
                if (w.size() > MAXREC + 1)
                    for (size_t k = MAXREC + 1; !hit && k + 2 >= MAXREC; k--)
                        if (s.compare(p, k, w, 0, k) == 0 && p + k < s.size() && s[p + k] == '\n' ) { p += k + 1; hit = true; count("datagrams_cut"); }
                if (!hit) break;
            }
            if (i < x.want.size() || p < s.size())
                violation("input", i < x.want.size() ? "input:file" : "input:file_extra", fmt("UDP input %d.%d: datagram %zu of %zu (%zu bytes) \"", (int)c, (int)d, i + 1, x.want.size(), i < x.want.size() ? x.want[i].size() : (size_t)0) + esc(i < x.want.size() ? x.want[i].substr(0, 60) : "") + "\" is not what follows in the file at " + std::to_string(p) + " of " + std::to_string(s.size()) + ": \"" + esc(s.substr(p, 80)) + "\" | " + cur);
        }
}

static std::string ip_str(uint32_t ip_net) { const unsigned char* b = (const unsigned char*)&ip_net; return fmt("%d.%d.%d.%d", b[0], b[1], b[2], b[3]); }
static int incarnation;
static const char* PRIO[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};
static std::string build(Rng& r, bool first)
{
    std::string cfg;
    incarnation++;
    std::string d0 = dir + fmt("/%d/", incarnation);
    for (size_t c = 0; c < M.size(); c++)
    {
        MChan& ch = M[c];
        ch.pos = 0;
        cfg += fmt(" - channel: %d\n    sync: %s\n", (int)c, ch.sync ? "sync" : "async");
        if (ch.prio) cfg += fmt("    priority: %s\n", PRIO[ch.prio]);
        for (size_t d = 0; d < ch.dev.size(); d++)
        {
            MDev& x = ch.dev[d];
            if (first || r.chance(1, 3)) x.at = x.rc.empty() ? 0 : (int)r.below(x.rc.size());
            x.want.clear();
            x.lose0 = 0;
            cfg += fmt("    - device: %d\n", (int)d);
            if (x.in) cfg += "        in_type: udp\n";
            cfg += fmt("        out_type: %s\n        disable: %s\n", x.out == DEVICE_OUT_FILE ? "file" : x.out == DEVICE_OUT_SCREEN ? "screen" : x.out == DEVICE_OUT_UDP ? "udp" : "empty", x.able ? "false" : "true");
            if (x.prio) cfg += fmt("        priority: %s\n", PRIO[x.prio]);
            if (x.out == DEVICE_OUT_FILE)
            {
                cfg += "        path: \"" + d0 + "\"\n" + fmt("        file: \"c%dd%d\"\n", (int)c, (int)d);
                x.path = d0 + fmt("c%dd%d.log", (int)c, (int)d);
                if ((int)d == ch.ref) ch.ref_path = x.path;
            }
            if (x.in) cfg += "        udp_addr: " + ip_str(x.ip) + fmt(":%d\n", ntohs(x.port));
            else if (x.out == DEVICE_OUT_UDP) cfg += "        udp_addr: " + ip_str(x.rc[(size_t)x.at].ip) + fmt(":%d\n", ntohs(x.rc[(size_t)x.at].port));
        }
    }
    return cfg;
}

static void run_case(long long idx)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed), fr(seed ^ 77);
    frng = &fr;
    SchedCfg sc = random_cfg(r);
    sc.step_cap = 3000000;
    wipe(dir);
    M.clear(); recs.clear(); bad = false; next_dgram = 1; incarnation = 0; step_from = 0;
    f_socket = f_sendto = f_bind = 0; last_fault = -1000000;
    int nc = (int)r.range(1, 3);
    bool multi = r.chance(1, 2); // several threads
    for (int c = 0; c < nc; c++)
    {
        MChan ch;
        ch.sync = r.chance(1, 2);
        if (r.chance(1, 6)) ch.prio = (ll)r.below(5);
        int nu = (int)r.below(3), ns = r.chance(3, 5), ni = r.chance(1, 2) ? (int)r.range(1, 2) : 0;
        std::vector<int> kinds{0};
        while (nu--) kinds.push_back(1);
        while (ns--) kinds.push_back(2);
        while (ni--) kinds.push_back(3);
        if (r.chance(1, 5)) kinds.push_back(4);
        for (size_t i = kinds.size(); i > 1; i--) std::swap(kinds[i - 1], kinds[r.below(i)]);
        for (int k : kinds)
        {
            MDev x;
            x.able = k == 0 || r.chance(5, 6);
            if (k == 0) { ch.ref = (int)ch.dev.size(); x.out = DEVICE_OUT_FILE; }
            else if (k == 4) x.out = DEVICE_OUT_EMPTY;
            else if (k == 1)
            {
                x.out = DEVICE_OUT_UDP;
                int n = (int)r.range(1, 3);
                for (int i = 0; i < n; i++) x.rc.push_back(make_recv(base_ip + (uint32_t)r.below(3)));
            }
            else if (k == 2) x.out = DEVICE_OUT_SCREEN;
            else
            {
                x.in = true;
                x.out = r.chance(2, 3) ? DEVICE_OUT_FILE : DEVICE_OUT_SCREEN;
                x.ip = htonl(base_ip + (uint32_t)r.below(3));
                x.port = free_port(r, x.ip);
            }
            if ((k == 1 || k == 2) && r.chance(1, 3)) x.prio = (ll)r.below(7);
            ch.dev.push_back(x);
        }
        M.push_back(ch);
    }
    scr.assign(M.size() * 32, {});
    cs.assign(M.size(), {});
    batch.assign(M.size(), {});
    dgrams.assign(M.size(), std::vector<std::vector<std::string>>(32 * 8));
    fflush(stdout);
    if (ftruncate(1, 0) == 0) out_pos = 0;
    screen_text.clear();
    episode_begin(seed, sc);
    clock_set(1700000000 + (ll)r.below(1000000));
    std::unique_ptr<Logger> own(new Logger);
    lg = own.get();
    lg->hot_update_ = false;
    watch_rings(&lg);
    std::string cfg = build(r, true);
    cur = cfg + fmt(" threads=%d ", (int)multi);
    int ret = ParseAndStartLogger(*lg, cfg);
    bool up = ret == 0;
    if (!up) violation("start", "start", fmt("start failed: %d | ", ret) + cur);
    int steps = (int)r.range(3, 14);
    size_t max_recs = 260;
    for (int s = 0; up && !bad && s < steps && recs.size() < max_recs; s++)
    {
        switch (r.below(12))
        {
        case 0: case 1: // failures begin, change or end
            f_socket = r.chance(1, 2) ? (int)r.pick(std::vector<int>{1000, 300}) : 0;
            f_sendto = r.chance(1, 2) ? (int)r.pick(std::vector<int>{1000, 500, 50}) : 0;
            f_bind = r.chance(1, 3) ? (int)r.pick(std::vector<int>{1000, 400}) : 0;
            cur += fmt("; failures socket=%d sendto=%d bind=%d", f_socket, f_sendto, f_bind);
            break;
        case 2: case 3:
            if (f_socket || f_sendto || f_bind) { f_socket = f_sendto = f_bind = 0; cur += "; no failures"; }
            { int d = (int)r.range(1, 12); clock_advance_ns(d * 1000000000LL); cur += fmt("; %d s pass", d); }
            break;
        case 4: // another address
        case 5: // enabled or disabled
        {
            int c = (int)r.below(M.size()), d = (int)r.below(M[(size_t)c].dev.size());
            MDev& x = M[(size_t)c].dev[(size_t)d];
            if (d == M[(size_t)c].ref) break;
            if (x.rc.size() > 1 && r.chance(1, 2))
            {
                x.at = (x.at + 1) % (int)x.rc.size();
                SetDeviceConfig(*lg, c, d, DEVICE_CFG_UDP_IP, x.rc[(size_t)x.at].ip);
                SetDeviceConfig(*lg, c, d, DEVICE_CFG_UDP_PORT, x.rc[(size_t)x.at].port);
                cur += fmt("; device %d.%d sends to another address", c, d);
                count("address_changes");
            }
            else
            {
                if (x.in && (f_socket || f_bind)) break;
                x.able = !x.able;
                SetDeviceConfig(*lg, c, d, DEVICE_CFG_ABLE, x.able);
                cur += fmt("; device %d.%d %s", c, d, x.able ? "on" : "off");
                count("switches");
            }
            break;
        }
        case 6: case 7: // datagrams
        {
            if (f_socket || f_bind) { f_socket = f_sendto = f_bind = 0; cur += "; no failures"; }
            int c = (int)r.below(M.size());
            std::vector<int> in;
            for (size_t d = 0; d < M[(size_t)c].dev.size(); d++) if (M[(size_t)c].dev[d].in) in.push_back((int)d);
            if (in.empty()) break;
            bool faulty = f_sendto || (ll)clock_sec() <= last_fault + 4;
            fired_before_step = faults_fired;
            feed(r, c, r.pick(in));
            judge(false, faulty);
            break;
        }
        case 8: // stop and start
        {
            if (!r.chance(1, 2)) break;
            bool faulty = (ll)clock_sec() <= last_fault + 4;
            fired_before_step = faults_fired;
            cur += "; records and stop";
            int n = (int)r.range(0, 15);
            std::vector<int> inn;
            while (n--) log_one(r, (int)r.below(M.size()), (int)r.below(7));
            StopLogger(*lg);
            judge(true, faulty);
            if (bad) break;
            judge_inputs();
            count("stops_judged");
            if (r.chance(1, 3)) clock_advance_ns((ll)r.range(0, 5) * 1000000000LL);
            cfg = build(r, false);
            cur = cfg + fmt(" threads=%d (restarted) ", (int)multi);
            if (f_socket || f_sendto || f_bind) cur += fmt("; failures socket=%d sendto=%d bind=%d", f_socket, f_sendto, f_bind);
            ret = ParseAndStartLogger(*lg, cfg);
            if (ret != 0) { violation("start", "restart", fmt("restart failed: %d | ", ret) + cur); up = false; break; }
            for (size_t c = 0; c < M.size(); c++) for (size_t d = 0; d < M[c].dev.size(); d++) base_counters(M[c].dev[d], (int)c, (int)d);
            count("restarts");
            break;
        }
        default: // records
        {
            bool faulty = (ll)clock_sec() <= last_fault + 4;
            fired_before_step = faults_fired;
            if (multi)
            {
                int nt = (int)r.range(2, 4);
                cur += fmt("; %d threads log", nt);
                std::vector<std::thread> th;
                for (int t = 0; t < nt; t++)
                {
                    uint64_t s2 = r.next();
                    th.emplace_back([s2]
                    {
                        Rng q(s2);
                        int n = (int)q.range(1, 14);
                        while (n--) { log_one(q, (int)q.below(M.size()), (int)q.below(7)); if (q.chance(1, 5)) vp::yield(); }
                    });
                }
                for (auto& t : th) t.join();
            }
            else
            {
                int n = (int)r.range(1, 30);
                cur += fmt("; %d records", n);
                while (n--) log_one(r, (int)r.below(M.size()), (int)r.below(7));
            }
            judge(false, faulty);
            if (!faulty && faults_fired == fired_before_step && last_fault > 0) count("resumed_steps");
            break;
        }
        }
    }
    if (up)
    {
        StopLogger(*lg);
        fired_before_step = faults_fired;
        if (!bad) { judge(true, false); judge_inputs(); }
    }
    own.reset();
    lg = nullptr;
    distinct(S().trace_hash ^ hash_str(cfg));
    count("sched_switches", (ll)S().switches);
    episode_end();
    for (auto& c : M) for (auto& d : c.dev) for (auto& k : d.rc) close(k.fd);
    if (r.chance(1, 300)) sample(cur.substr(0, 1000));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    setenv("TZ", "UTC0", 1);
    tzset();
    dir = opt().scratch + "/d";
    mkdir(dir.c_str(), 0755);
    out_path = opt().scratch + "/stdout";
    int fd = open(out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 1);
    close(fd);
    uint32_t pid = (uint32_t)getpid();
    base_ip = (127u << 24) | ((100 + ((pid >> 14) & 63)) << 16) | (((pid >> 6) & 255) << 8) | ((pid & 63) * 4 + 1);
    hooks().guard_paths = true;
    hooks().fault = [](const char* op, const std::string&)
    {
        int p = !strcmp(op, "socket") ? f_socket : !strcmp(op, "sendto") ? f_sendto : !strcmp(op, "bind") ? f_bind : 0;
        if (!p || (int)frng->below(1000) >= p) return false;
        static const int se[] = {EMFILE, ENOBUFS, EACCES}, te[] = {EAGAIN, ENOBUFS, ENETUNREACH, EPERM, ECONNREFUSED, EINTR}, be[] = {EADDRINUSE, EADDRNOTAVAIL};
        errno = !strcmp(op, "socket") ? se[frng->below(3)] : !strcmp(op, "sendto") ? te[frng->below(6)] : be[frng->below(2)];
        faults_fired++;
        count(std::string("faults_") + op);
        last_fault = clock_sec();
        return true;
    };
    run_cases(run_case);
    wipe(dir);
    finish();
    _exit(0);
}
