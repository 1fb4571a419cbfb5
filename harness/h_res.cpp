// Resources (C23): descriptors, threads, memory and processor time of a logger through long and eventful lives.
// Modes: cycle  generated sessions with rotations, failures, configuration changes, hot updates and restarts; descriptors and threads are
//               counted after every step, live heap bytes after every repetition of the same session
//        steady one long session; live heap bytes may not grow with the number of records and rotations
//        idle   processor time used while nothing is logged
// Real threads on a virtual clock; the heap is counted by the malloc functions below.
#define FN_LOG_MAX_CHANNEL_SIZE 3
#define VP_PLAIN_ATOMICS
#include "vp_fnlog.h"
#include <malloc.h>
#include <sys/resource.h>
#include <utime.h>
using namespace FNLog;
using namespace vp;
typedef long long ll;

// ---- the heap -------------------------------------------------------------------------------------------
static std::atomic<ll> live_bytes, live_blocks;
extern "C"
{
    void* __libc_malloc(size_t);
    void __libc_free(void*);
    void* __libc_calloc(size_t, size_t);
    void* __libc_realloc(void*, size_t);
    void* __libc_memalign(size_t, size_t);
    static void* took(void* p) { if (p) { live_bytes += (ll)malloc_usable_size(p); live_blocks++; } return p; }
    static void gone(void* p) { if (p) { live_bytes -= (ll)malloc_usable_size(p); live_blocks--; } }
    void* malloc(size_t n) { return took(__libc_malloc(n)); }
    void free(void* p) { gone(p); __libc_free(p); }
    void* calloc(size_t a, size_t b) { return took(__libc_calloc(a, b)); }
    void* realloc(void* p, size_t n)
    {
        ll old = p ? (ll)malloc_usable_size(p) : 0;
        void* q = __libc_realloc(p, n);
        if (q || !n) { if (p) { live_bytes -= old; live_blocks--; } took(q); }
        return q;
    }
    void* memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
    void* aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
    int posix_memalign(void** out, size_t a, size_t n) { *out = took(__libc_memalign(a, n)); return *out ? 0 : ENOMEM; }
}

static int count_dir(const char* p, std::string* what = nullptr)
{
    int n = 0;
    DIR* d = opendir(p);
    if (!d) return -1;
    while (dirent* e = readdir(d))
    {
        if (e->d_name[0] == '.') continue;
        if (what)
        {
            char b[512];
            ssize_t k = readlink((std::string(p) + "/" + e->d_name).c_str(), b, sizeof b - 1);
            *what += std::string(" ") + e->d_name + "=" + std::string(b, (size_t)(k > 0 ? k : 0));
        }
        n++;
    }
    closedir(d);
    return n;
}
static int nfds(std::string* what = nullptr) { return count_dir("/proc/self/fd", what) - 1; }
static int nthreads() { return count_dir("/proc/self/task"); }

static std::string dir, cur;
static const char* const BROKEN = " - channel: 0\n    nokey: 3\n";
static int f_permille;
static Rng* frng;
static std::atomic_flag frng_busy = ATOMIC_FLAG_INIT;
static in_port_t sink_port;
static int free_udp_port()
{
    int s = socket(AF_INET, SOCK_DGRAM, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    ::bind(s, (struct sockaddr*)&a, sizeof a);
    socklen_t l = sizeof a;
    getsockname(s, (struct sockaddr*)&a, &l);
    close(s);
    return ntohs(a.sin_port);
}

struct Plan
{
    int chans = 1, files = 0, udps = 0, async = 0;
    bool hot = false, shm = false;
    bool sync[3];
    std::vector<int> kind[3]; // 0 file, 1 udp, 2 screen, 3 empty, 4 virtual, 5 udp input to a file
};
static Plan make_plan(Rng& r)
{
    Plan p;
    p.chans = (int)r.range(1, 3);
    p.hot = r.chance(1, 2);
    p.shm = r.chance(1, 4);
    for (int c = 0; c < p.chans; c++)
    {
        p.sync[c] = r.chance(1, 2);
        p.async += !p.sync[c];
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; i++)
        {
            int k = r.chance(3, 5) ? 0 : (int)r.range(1, 5);
            p.kind[c].push_back(k);
            if (k == 0 || k == 5) p.files++;
            if (k == 1 || k == 5) p.udps++;
        }
    }
    return p;
}
static std::string text_of(const Plan& p, Rng& r, int in_port)
{
    static const char* names[] = {"f", "f_$HOUR", "sub/f_$YEAR$MON$DAY", "f_$PID_$MIN"};
    std::string t = p.hot ? " - hot_update: true\n" : "";
    if (p.shm) t += " - shm_key: 4711\n";
    for (int c = 0; c < p.chans; c++)
    {
        t += fmt(" - channel: %d\n    sync: %s\n", c, p.sync[c] ? "sync" : "async");
        for (size_t d = 0; d < p.kind[c].size(); d++)
        {
            int k = p.kind[c][d];
            t += fmt("    -device: %d\n        disable: %s\n", (int)d, r.chance(1, 8) ? "true" : "false");
            if (k == 0 || k == 5)
            {
                const char* nm = names[r.below(4)];
                t += "        out_type: file\n        path: \"" + dir + (nm[0] == 's' ? "/sub" : "/log") + fmt("%d", c) + "\"\n        file: \"" + (nm[0] == 's' ? nm + 4 : nm) + fmt("_%d_%d", c, (int)d) + "\"\n";
                t += fmt("        rollback: %d\n        stuff_up: %s\n", (int)r.below(4), r.chance(1, 2) ? "true" : "false");
                if (r.chance(1, 4)) t += "        rolldaily: true\n";
                if (r.chance(1, 4)) t += "        rollhourly: true\n";
            }
            if (k == 1) t += fmt("        out_type: udp\n        udp_addr: 127.0.0.1:%d\n", (int)sink_port);
            if (k == 2) t += "        out_type: screen\n";
            if (k == 3) t += "        out_type: empty\n";
            if (k == 4) t += "        out_type: virtual\n";
            if (k == 5) t += fmt("        in_type: udp\n        udp_addr: 127.0.0.1:%d\n", in_port + c * 10 + (int)d);
            if (r.chance(1, 4)) t += "        priority: warn\n";
        }
    }
    return t;
}
static void log_some(Logger& lg, Rng& r, int chans, int n)
{
    std::string s((size_t)r.range(1, 200), 'x');
    for (int i = 0; i < n; i++)
    {
        LogStream ls(lg, (int)r.below((uint64_t)chans), (int)r.below(PRIORITY_MAX), 0, 0, "f.cpp", 5, 1, "fn", 2, LOG_PREFIX_DEFAULT);
        ls << s << i;
    }
}
static void ms(int n) { struct timespec ts{n / 1000, (n % 1000) * 1000000L}; syscall(SYS_nanosleep, &ts, nullptr); }
static bool settle(Logger& lg, const Plan& p)
{
    for (int i = 0; i < 20000; i++)
    {
        bool done = true;
        for (int c = 0; c < p.chans; c++)
        {
            RingBuffer& b = lg.shm_->ring_buffers_[c];
            done = done && b.read_idx_ == b.hold_idx_;
        }
        if (done) return true;
        ms(1);
    }
    return false;
}
// bookkeeping of the harness itself
static void forget_closed() { FtGuard g; files().closed.clear(); }
static bool failed;
static void check(const char* when, int fd0, int th0, int fd_more, int th_more)
{
    int fd = 0, th = 0;
    std::string w;
    // (a thread that was joined may be listed for another moment; a look at the configuration file ends)
    for (int i = 0; i < 2000; i++)
    {
        w.clear();
        fd = nfds(&w) - fd0;
        th = nthreads() - th0;
        if (fd <= fd_more && th <= th_more) break;
        ms(i < 20 ? 1 : 5);
    }
    count("counts");
    maxi("descriptors", fd);
    maxi("threads", th);
    if (fd > fd_more && !failed) { failed = true; violation("resource", "descriptors", fmt("%s: %d descriptors, at most %d expected:", when, fd, fd_more) + w + " | " + cur); }
    if (th > th_more && !failed) { failed = true; violation("resource", "threads", fmt("%s: %d threads, at most %d expected | ", when, th, th_more) + cur); }
}
static void make_dirs()
{
    for (int c = 0; c < 3; c++) { ::mkdir((dir + fmt("/log%d", c)).c_str(), 0755); ::mkdir((dir + fmt("/sub%d", c)).c_str(), 0755); }
}
static void put_config(const std::string& path, const std::string& text)
{
    spit(path, text);
    struct utimbuf u;
    u.actime = u.modtime = (time_t)clock_sec();
    utime(path.c_str(), &u);
}
// a segment that must be refused: the failed start may not keep it attached
static void refused_segment(Logger& lg, Rng& r, const std::string& path, int fd0, int th0)
{
    int how = (int)r.below(3);
    size_t size = how == 0 ? sizeof(SHMLogger) / 2 : sizeof(SHMLogger);
    int id = ::shmget(4711, size, IPC_CREAT | 0600);
    int* h = (int*)::shmat(id, nullptr, 0);
    if (id < 0 || (void*)h == (void*)-1) { violation("resource", "harness", "no segment"); return; }
    SHMLogger* s = (SHMLogger*)h;
    if (how < 2) { s->shm_size_ = (int)r.range(1, 100000); s->shm_id_ = id; }
    else
    {
        s->shm_size_ = sizeof(SHMLogger);
        s->shm_id_ = id;
        s->channel_size_ = 2;
        new (&s->ring_buffers_[1].read_idx_) std::atomic<long long>(-(ll)r.range(1, 1000));
    }
    ::shmdt(h);
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; i++)
    {
        int rc = LoadAndStartLogger(lg, path);
        if (rc == 0) { violation("resource", "start", "a foreign segment was used"); failed = true; return; }
        check("after a start that met a foreign segment", fd0, th0, 0, 0);
        struct shmid_ds ds;
        memset(&ds, 0, sizeof ds);
        ::shmctl(id, IPC_STAT, &ds);
        if (ds.shm_nattch != 0 && !failed) { failed = true; violation("resource", "attached", fmt("%d failed starts left the refused segment attached %d times", i + 1, (int)ds.shm_nattch)); }
        count("refused_segments");
    }
    ::shmctl(id, IPC_RMID, nullptr);
}
// one life of a logger; the same seed gives the same life
static void session(uint64_t seed, int in_port)
{
    Rng r(seed);
    Rng fr(seed ^ 99);
    frng = &fr;
    f_permille = 0;
    cur.clear();
    wipe(dir);
    clock_set(1700000000LL + (ll)r.below(1000000));
    int fd0 = nfds(), th0 = nthreads();
    {
        std::unique_ptr<Logger> own(new Logger);
        Logger& lg = *own;
        Plan p = make_plan(r);
        std::string path = dir + "/cfg.yaml";
        int lives = (int)r.range(1, 3);
        for (int life = 0; life < lives && !failed; life++)
        {
            make_dirs();
            int bad = (int)r.below(10);
            if (bad == 0)
            {
                put_config(path, r.chance(1, 2) ? " - channel: 3\n" : BROKEN);
                if (r.chance(1, 2)) ParseAndStartLogger(lg, slurp(path));
                else LoadAndStartLogger(lg, r.chance(1, 2) ? path : dir + "/missing.yaml");
                check("after a failed start", fd0, th0, 0, 0);
                count("failed_starts");
            }
            std::string text = text_of(p, r, in_port);
            put_config(path, text);
            if (life == 0 && p.shm && r.chance(1, 2)) refused_segment(lg, r, path, fd0, th0);
            cur += "start " + text;
            int thread_fault = (int)r.below(6) == 0 && p.async ? 1 : 0;
            if (thread_fault)
            {
                f_permille = -1;
                int rc = LoadAndStartLogger(lg, path);
                f_permille = 0;
                if (rc == 0) violation("resource", "start", "a start without threads succeeded | " + cur);
                check("after a start without threads", fd0, th0, 0, 0);
                count("failed_starts");
                cur += "; no threads";
            }
            bool from_file = p.hot || r.chance(1, 2);
            int rc = patient_start([&] { return from_file ? LoadAndStartLogger(lg, path) : ParseAndStartLogger(lg, text); });
            if (rc != 0) { violation("resource", "start", fmt("start returned %d | ", rc) + cur); failed = true; break; }
            for (int c = 0; c < p.chans; c++)
                for (size_t d = 0; d < p.kind[c].size(); d++)
                    if (p.kind[c][d] == 0 && r.chance(2, 3)) SetDeviceConfig(lg, c, (int)d, DEVICE_CFG_FILE_LIMIT_SIZE, r.range(100, 4000));
            int steps = (int)r.range(4, 16);
            for (int s = 0; s < steps && !failed; s++)
            {
                switch (r.below(14))
                {
                case 0: clock_advance_ns((ll)r.range(1, 12) * 1000000000LL); cur += "; seconds pass"; break;
                case 1: clock_advance_ns((ll)(r.chance(1, 2) ? 3600 : 86400) * 1000000000LL); cur += "; hours pass"; break;
                case 2: case 3:
                {
                    clock_advance_ns(6 * 1000000000LL);
                    int k = (int)r.below(4);
                    if (k == 0) { put_config(path, BROKEN); cur += "; broken file"; }
                    else if (k == 1) { ::unlink(path.c_str()); cur += "; no file"; }
                    else { put_config(path, text_of(p, r, in_port)); cur += "; new file"; }
                    log_some(lg, r, p.chans, 6);
                    if (p.hot) count("config_rewrites");
                    break;
                }
                case 4:
                {
                    int c = (int)r.below((uint64_t)p.chans), d = (int)r.below(p.kind[c].size());
                    SetDeviceConfig(lg, c, d, DEVICE_CFG_ABLE, r.chance(1, 2));
                    cur += fmt("; device %d.%d switched", c, d);
                    break;
                }
                case 5: f_permille = r.chance(1, 2) ? (int)r.range(50, 1000) : 0; cur += fmt("; faults %d", f_permille); break;
                case 6: f_permille = 0; clock_advance_ns(6 * 1000000000LL); cur += "; no faults"; break;
                case 7: wipe(dir); if (r.chance(1, 2)) make_dirs(); cur += "; files removed"; break;
                case 8:
                {
                    int e = r.chance(1, 2) ? ParseAndStartLogger(lg, text) : LoadAndStartLogger(lg, path);
                    if (e == 0) violation("resource", "start", "a running logger was started | " + cur);
                    cur += "; started again";
                    break;
                }
                case 9:
                {
                    std::thread a([&] { Rng q(seed + 1); log_some(lg, q, p.chans, 40); }), b([&] { Rng q(seed + 2); log_some(lg, q, p.chans, 40); });
                    a.join(); b.join();
                    cur += "; threads log";
                    count("records", 80);
                    break;
                }
                default:
                {
                    int n = (int)r.range(1, 60);
                    log_some(lg, r, p.chans, n);
                    cur += fmt("; %d records", n);
                    count("records", n);
                }
                }
                if (!settle(lg, p)) { violation("resource", "stuck", "the queues were not emptied in 20 s | " + cur); failed = true; break; }
                check("while running", fd0, th0, p.files + p.udps, p.async);
            }
            f_permille = r.chance(1, 4) ? f_permille : 0;
            StopLogger(lg);
            f_permille = 0;
            check("after the stop", fd0, th0, 0, 0);
            count("stops");
            cur += "; stop\n";
        }
    }
    check("after the destruction", fd0, th0, 0, 0);
    if (shm_find_key(4711) >= 0) { violation("resource", "segment", "the shared memory outlives the logger | " + cur); failed = true; }
    shm_reset();
}
static void cycle_case(Rng& r)
{
    uint64_t s = r.next();
    int port = 0;
    static const int N = 7;
    ll b[N], k[N];
    port = free_udp_port();
    if (port > 65000) port = 40000;
    for (int i = 0; i < N && !failed; i++)
    {
        session(s, port);
        if (i == 0 && s % 20 == 0) sample("cycle: " + cur);
        cur.clear(); cur.shrink_to_fit();
        forget_closed();
        b[i] = live_bytes; k[i] = live_blocks;
        count("sessions");
    }
    if (failed) return;
    bool grows = true;
    for (int i = 3; i < N; i++) grows = grows && b[i] > b[i - 1] && k[i] > k[i - 1];
    if (grows)
    {
        cur = "";
        violation("resource", "memory", fmt("every repetition of the same session leaves more memory in use: %lld %lld %lld %lld %lld bytes in %lld %lld %lld %lld %lld blocks", b[2], b[3], b[4], b[5], b[6], k[2], k[3], k[4], k[5], k[6]));
    }
    distinct(s);
}
static void steady_case(Rng& r)
{
    wipe(dir);
    make_dirs();
    clock_set(1700000000LL + (ll)r.below(1000000));
    Rng fr(1);
    frng = &fr;
    f_permille = 0;
    int fd0 = nfds(), th0 = nthreads();
    std::unique_ptr<Logger> own(new Logger);
    Logger& lg = *own;
    Plan p = make_plan(r);
    std::string path = dir + "/cfg.yaml", text = text_of(p, r, free_udp_port() % 60000 + 1024);
    put_config(path, text);
    cur = text;
    int rc = patient_start([&] { return LoadAndStartLogger(lg, path); });
    if (rc != 0) { violation("resource", "start", fmt("start returned %d | ", rc) + cur); return; }
    for (int c = 0; c < p.chans; c++)
        for (size_t d = 0; d < p.kind[c].size(); d++)
            if (p.kind[c][d] == 0) SetDeviceConfig(lg, c, (int)d, DEVICE_CFG_FILE_LIMIT_SIZE, r.range(300, 6000));
    int churn = (int)r.below(4); // what else happens in every block
    static const int N = 9;
    ll b[N], k[N];
    uint64_t bs = r.next();
    for (int i = 0; i < N && !failed; i++)
    {
        Rng q(bs); // every block does the same
        for (int j = 0; j < 4; j++)
        {
            log_some(lg, q, p.chans, 60);
            settle(lg, p);
            if (churn == 1) clock_advance_ns(3601LL * 1000000000LL);
            if (churn == 2) { clock_advance_ns(6LL * 1000000000LL); put_config(path, j % 2 ? BROKEN : text); }
            if (churn == 3) for (int c = 0; c < p.chans; c++) for (size_t d = 0; d < p.kind[c].size(); d++) SetDeviceConfig(lg, c, (int)d, DEVICE_CFG_ABLE, j % 2);
            count("records", 60);
        }
        settle(lg, p);
        ms(3);
        check("while running", fd0, th0, p.files + p.udps, p.async);
        forget_closed();
        b[i] = live_bytes; k[i] = live_blocks;
    }
    if (!failed)
    {
        bool grows = true;
        for (int i = 3; i < N; i++) grows = grows && b[i] > b[i - 1] && k[i] > k[i - 1];
        if (grows) violation("resource", "memory_running", fmt("memory in use grows with every block of 240 records: %lld %lld %lld %lld %lld %lld bytes | ", b[3], b[4], b[5], b[6], b[7], b[8]) + cur);
    }
    StopLogger(lg);
    check("after the stop", fd0, th0, 0, 0);
    own.reset();
    shm_reset();
    distinct(bs ^ hash_str(text));
    if (r.chance(1, 20)) sample("steady: " + cur);
    count("steady_sessions");
}
static double cpu_now()
{
    struct rusage u;
    getrusage(RUSAGE_SELF, &u);
    return (double)u.ru_utime.tv_sec + (double)u.ru_stime.tv_sec + (double)(u.ru_utime.tv_usec + u.ru_stime.tv_usec) * 1e-6;
}
static void idle_case(Rng& r)
{
    wipe(dir);
    make_dirs();
    clock_set(1700000000LL + (ll)r.below(1000000));
    Rng fr(1);
    frng = &fr;
    f_permille = 0;
    std::unique_ptr<Logger> own(new Logger);
    Logger& lg = *own;
    Plan p = make_plan(r);
    for (int c = 0; c < p.chans; c++) if (p.sync[c] && r.chance(2, 3)) { p.sync[c] = false; p.async++; }
    std::string path = dir + "/cfg.yaml", text = text_of(p, r, free_udp_port() % 60000 + 1024);
    put_config(path, text);
    cur = text;
    int rc = patient_start([&] { return LoadAndStartLogger(lg, path); });
    if (rc != 0) { violation("resource", "start", fmt("start returned %d | ", rc) + cur); return; }
    int phases = (int)r.range(1, 3);
    for (int i = 0; i < phases; i++)
    {
        switch (r.below(5))
        {
        case 0: f_permille = 1000; cur += "; failures"; break;
        case 1: f_permille = 0; clock_advance_ns(10LL * 1000000000LL); break;
        case 2: put_config(path, BROKEN); clock_advance_ns(10LL * 1000000000LL); cur += "; broken file"; break;
        case 3: { int c = (int)r.below((uint64_t)p.chans); for (size_t d = 0; d < p.kind[c].size(); d++) SetDeviceConfig(lg, c, (int)d, DEVICE_CFG_ABLE, 0); cur += "; disabled"; break; }
        default: break;
        }
        log_some(lg, r, p.chans, (int)r.below(40));
        settle(lg, p);
        ms(2);
        double w0 = real_now(), c0 = cpu_now();
        ms(120);
        double w = real_now() - w0, c = cpu_now() - c0;
        count("idle_ms", (ll)(w * 1000));
        maxi("idle_cpu_percent", (ll)(c / w * 100));
        if (c > 0.5 * w && c > 0.05)
        {
            // once more, in case something unrelated was still going on
            w0 = real_now(); c0 = cpu_now();
            ms(300);
            w = real_now() - w0; c = cpu_now() - c0;
            if (c > 0.5 * w && c > 0.1) { violation("resource", "idle", fmt("with nothing to do the logger used %.0f%% of a processor (%d asynchronous channels) | ", c / w * 100, p.async) + cur); break; }
        }
    }
    f_permille = 0;
    StopLogger(lg);
    own.reset();
    shm_reset();
    distinct(hash_str(text));
    if (r.chance(1, 20)) sample("idle: " + cur);
    count("idle_sessions");
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    setenv("TZ", "UTC0", 1);
    tzset();
    dir = opt().scratch + "/d";
    ::mkdir(dir.c_str(), 0755);
    hooks().guard_paths = true;
    hooks().guard_quiet = true;
    hooks().shm_emulate = true;
    shm_max() = sizeof(SHMLogger) + 65536;
    shm_init();
    int sink = socket(AF_INET, SOCK_DGRAM, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    ::bind(sink, (struct sockaddr*)&a, sizeof a);
    socklen_t l = sizeof a;
    getsockname(sink, (struct sockaddr*)&a, &l);
    sink_port = ntohs(a.sin_port);
    hooks().fault = [](const char* op, const std::string&)
    {
        if (f_permille == 0) return false;
        if (f_permille < 0) { if (strcmp(op, "pthread_create") == 0) { errno = EAGAIN; return true; } return false; }
        if (!strcmp(op, "pthread_create") || !strcmp(op, "shmget")) return false;
        while (frng_busy.test_and_set()) {}
        bool hit = (int)frng->below(1000) < f_permille;
        int e = (int)frng->below(3);
        frng_busy.clear();
        if (hit) errno = e == 0 ? EMFILE : e == 1 ? ENOSPC : EIO;
        return hit;
    };
    run_cases([](long long idx)
    {
        uint64_t seed = case_seed(idx);
        begin_case(idx, seed);
        failed = false;
        alarm(120);
        Rng r(seed);
        if (opt().mode == "steady") steady_case(r);
        else if (opt().mode == "idle") idle_case(r);
        else cycle_case(r);
        alarm(0);
        count("episodes");
    });
    wipe(dir);
    finish();
    _exit(0);
}
