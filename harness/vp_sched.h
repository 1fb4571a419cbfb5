// Deterministic cooperative scheduler over real threads, virtual clock, fault and crash injection.
//
// Everything below works by symbol interposition in the harness executable (libc / pthread entry points) and
// by substituting std::atomic_int & co. in the code under test (see vp_fnlog.h), so no change to the code
// under test is needed.  Threads that belong to an "episode" are serialised: exactly one runs, and at every
// scheduling point (atomic operation, lock, unlock, sleep, thread start/join, stdio call) the scheduler picks
// the next one from a seeded PRNG.  All choices derive from the seed: an episode replays from its seed.
#pragma once
#include "vp_rt.h"
#include <linux/futex.h>

namespace vp
{
    enum PointKind { P_LOAD, P_STORE, P_RMW, P_STAT, P_LOCK, P_UNLOCK, P_SLEEP, P_CREATE, P_JOIN, P_STDIO, P_USER, P_EXIT, P_FS };
    enum ThrState { T_NONE, T_RUNNABLE, T_SLEEPING, T_BLOCKED, T_JOINING, T_CONDWAIT, T_DONE };
    struct Thr
    {
        int id = 0;
        ThrState st = T_NONE;
        std::atomic<uint32_t> go{0};
        uint64_t wake = 0;          // virtual ns
        const void* wait = nullptr; // mutex / cond / Thr*
        bool timed = false;
        uint64_t frozen_until = 0;  // step
        uint32_t prio = 0;
        pthread_t pt = 0;
        uint32_t sleeps = 0;
        uint32_t own = 0, passed = 0; // turns it had; sleepers woken while it could have run
    };
    struct SchedCfg
    {
        int strategy = 0;      // 0 random walk, 1 priority based (PCT)
        int stick = 50;        // % probability of staying on the current thread (random walk)
        int freeze_permyriad = 0; // probability (1/10000) to stall the running thread
        int freeze_max = 2000;
        int pct_depth = 3;
        int pct_len = 600;
        int early_wake = 30;   // 1/n chance to let a sleeper run although others are runnable
        bool stat_points = false;
        uint64_t step_cap = 400000;
        uint64_t ns_per_step = 500;
    };
    struct Sched
    {
        bool on = false;
        SchedCfg cfg;
        Rng rng{1};
        std::vector<Thr*> thr;
        int cur = -1;
        uint64_t step = 0;
        uint64_t switches = 0;
        uint64_t trace_hash = 0;
        uint64_t trace_xor = 0;
        std::vector<uint64_t> change_at;
        bool fair = false, woke = false;
        uint64_t stalls = 0, sleeps_taken = 0, lock_blocks = 0;
        // crash injection
        uint64_t crash_at = 0; // step number, 0 = never
        void (*on_crash)() = nullptr;
        std::vector<std::pair<uint32_t, uint32_t>> recent; // (thread, kind) ring
        size_t recent_pos = 0;
    };
    inline Sched& S() { static Sched* s = new Sched; return *s; }
    extern thread_local Thr* t_self;
    thread_local Thr* t_self = nullptr;

    // ---- clock ----------------------------------------------------------------------------------
    struct Clock
    {
        bool virt = false;
        std::atomic<long long> ns{0}; // virtual time since epoch in ns
    };
    inline Clock& clk() { static Clock* c = new Clock; return *c; }
    inline void clock_set(long long sec, long long ns = 0) { clk().ns = sec * 1000000000LL + ns; clk().virt = true; }
    inline void clock_advance_ns(long long d) { clk().ns += d; }
    inline long long clock_sec() { return clk().ns / 1000000000LL; }

    // ---- hooks for harnesses ------------------------------------------------------------------------
    struct Hooks
    {
        // called before a write reaches a tracked FILE: path, data
        std::function<void(const std::string&, const char*, size_t)> on_write;
        std::function<void(const std::string&)> on_open, on_close;
        // fault injection: return true to fail the call (errno set by hook). op: "open","write","flush","mkdir","rename","remove","socket","sendto","pthread_create","opendir","shmget","bind"
        std::function<bool(const char* op, const std::string& path)> fault;
        // observes (and with true: replaces) a datagram that is sent
        std::function<bool(const struct sockaddr_in&, const char*, size_t)> on_sendto;
        bool guard_quiet = false;   // ... without reporting it
        bool shm_emulate = false;   // System V shared memory is emulated (shared with forked children, see shm_pool)
        bool guard_paths = false;   // deny file-system changes outside the scratch directory
        bool fast_sync = true;      // fsync becomes a no-op
        bool fatal_exit = true;
    };
    inline Hooks& hooks() { static Hooks* h = new Hooks; return *h; }

    inline void fatal(const std::string& kind, const std::string& key, const std::string& detail)
    {
        violation(kind, key, detail);
        finish();
        if (getenv("VP_PAUSE")) for (;;) syscall(SYS_pause); // for a debugger
        syscall(SYS_exit_group, 42);
    }
    inline std::string sched_dump()
    {
        std::string s = fmt("step=%llu ", (unsigned long long)S().step);
        static const char* names[] = {"none", "runnable", "sleeping", "blocked", "joining", "condwait", "done"};
        for (auto t : S().thr) s += fmt("T%d:%s%s ", t->id, names[t->st], t->frozen_until > S().step ? "(stalled)" : "");
        return s;
    }
    inline void futex_wait(std::atomic<uint32_t>* a, uint32_t v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
    inline void futex_wake(std::atomic<uint32_t>* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

    inline void wait_turn(Thr* t)
    {
        int spin = 0;
        while (t->go.load(std::memory_order_acquire) == 0)
        {
            if (spin++ < 200) { __builtin_ia32_pause(); continue; }
            futex_wait(&t->go, 0);
        }
        t->go.store(0, std::memory_order_relaxed);
    }
    inline void resume(Thr* t)
    {
        t->go.store(1, std::memory_order_release);
        futex_wake(&t->go);
    }
    // picks the next thread to run; never returns null (deadlock is fatal)
    inline Thr* pick_any(Thr* self)
    {
        Sched& s = S();
        static std::vector<Thr*> run, slp, frz;
        run.clear(); slp.clear(); frz.clear();
        for (auto t : s.thr)
        {
            if (t->st == T_RUNNABLE) { if (t->frozen_until > s.step && !s.fair) frz.push_back(t); else run.push_back(t); }
            else if (t->st == T_SLEEPING || (t->st == T_CONDWAIT && t->timed))
            {
                if ((uint64_t)clk().ns.load() >= t->wake) { t->st = T_RUNNABLE; run.push_back(t); }
                else slp.push_back(t);
            }
        }
        auto wake_one = [&](Thr* t) -> Thr*
        {
            if ((uint64_t)clk().ns.load() < t->wake) clk().ns = (long long)t->wake;
            t->st = T_RUNNABLE;
            s.woke = true;
            return t;
        };
        if (run.empty())
        {
            if (!frz.empty() && (slp.empty() || s.rng.chance(1, 4)))
            {
                Thr* t = frz[s.rng.below(frz.size())];
                t->frozen_until = 0;
                return t;
            }
            if (slp.empty()) 
            {
                fatal("deadlock", "deadlock", "no thread can run: " + sched_dump());
                return self;
            }
            // mostly the earliest sleeper, sometimes any
            Thr* best = slp[0];
            for (auto t : slp) if (t->wake < best->wake) best = t;
            if (s.rng.chance(1, 4)) best = slp[s.rng.below(slp.size())];
            return wake_one(best);
        }
        if (!slp.empty() && s.rng.below((uint64_t)s.cfg.early_wake) == 0) return wake_one(slp[s.rng.below(slp.size())]);
        if (s.fair || s.cfg.strategy == 0)
        {
            if (!s.fair && self && self->st == T_RUNNABLE && self->frozen_until <= s.step && (int)s.rng.below(100) < s.cfg.stick) return self;
            return run[s.rng.below(run.size())];
        }
        Thr* best = run[0];
        for (auto t : run) if (t->prio > best->prio) best = t;
        return best;
    }
    // a new thread gets its first turns before much (virtual) time has passed: a start that waits a second for it may give up otherwise
    inline Thr* pick(Thr* self)
    {
        Sched& s = S();
        for (auto t : s.thr)
            if (t->own < 6 && t->passed >= 4 && t->st == T_RUNNABLE) { t->own++; t->passed = 0; t->frozen_until = 0; return t; }
        s.woke = false;
        Thr* n = pick_any(self);
        if (s.woke)
            for (auto t : s.thr) if (t != n && t->st == T_RUNNABLE) t->passed++;
        if (n != self) { n->own++; n->passed = 0; }
        return n;
    }
    inline void hand_over(Thr* self)
    {
        Sched& s = S();
        Thr* n = pick(self);
        s.trace_hash = s.trace_hash * 1099511628211ULL + (uint64_t)n->id + 1;
        if (n == self) return;
        s.switches++;
        s.cur = n->id;
        resume(n);
        if (self->st != T_DONE) wait_turn(self);
    }
    inline void point(PointKind k)
    {
        Thr* self = t_self;
        if (!self) return;
        Sched& s = S();
        if (k == P_STAT && !s.cfg.stat_points) return;
        s.step++;
        clk().ns += (long long)s.cfg.ns_per_step;
        if (s.crash_at && s.step >= s.crash_at && s.on_crash) s.on_crash();
        if (s.recent.size() < 64) s.recent.push_back({(uint32_t)self->id, (uint32_t)k});
        else { s.recent[s.recent_pos++ % 64] = {(uint32_t)self->id, (uint32_t)k}; }
        if (s.step > s.cfg.step_cap)
        {
            if (!s.fair) { s.fair = true; s.cfg.step_cap *= 2; }
            else fatal("livelock", "livelock", "no completion within the step budget under fair scheduling: " + sched_dump());
        }
        if (!s.fair)
        {
            if (s.cfg.strategy == 1)
                for (auto c : s.change_at) if (c == s.step) { uint32_t lo = UINT32_MAX; for (auto t : s.thr) lo = std::min(lo, t->prio); self->prio = lo ? lo - 1 : 0; }
            if (s.cfg.freeze_permyriad && (int)s.rng.below(10000) < s.cfg.freeze_permyriad)
            {
                uint64_t d = 1ULL << s.rng.below(14);
                d = std::min<uint64_t>(d + s.rng.below(d + 1), (uint64_t)s.cfg.freeze_max);
                self->frozen_until = s.step + d;
                s.stalls++;
            }
        }
        hand_over(self);
    }
    inline void block_on(ThrState st, const void* w)
    {
        Thr* self = t_self;
        self->st = st;
        self->wait = w;
        S().step++;
        if (st == T_BLOCKED) S().lock_blocks++;
        hand_over(self);
    }
    inline void wake_waiters(ThrState st, const void* w)
    {
        for (auto t : S().thr)
            if (t->st == st && t->wait == w) { t->st = T_RUNNABLE; t->wait = nullptr; }
    }
    inline void vsleep(uint64_t ns)
    {
        Thr* self = t_self;
        self->st = T_SLEEPING;
        self->wake = (uint64_t)clk().ns.load() + std::max<uint64_t>(ns, 1);
        self->sleeps++;
        S().sleeps_taken++;
        S().step++;
        if (S().step > S().cfg.step_cap)
        {
            if (!S().fair) { S().fair = true; S().cfg.step_cap *= 2; }
            else fatal("livelock", "livelock", "no completion within the step budget under fair scheduling: " + sched_dump());
        }
        hand_over(self);
    }
    // 64-bit atomics are both queue indices and statistics: only those in the ring buffers are always scheduling points
    inline std::pair<const char*, const char*>& hot_range() { static std::pair<const char*, const char*> p{nullptr, nullptr}; return p; }
    inline std::function<void()>& find_hot() { static std::function<void()> f; return f; }
    inline void point(PointKind k, const void* a)
    {
        if (!t_self) return;
        if (k == P_STAT)
        {
            if (find_hot()) find_hot()();
            if ((const char*)a >= hot_range().first && (const char*)a < hot_range().second) k = P_RMW;
        }
        point(k);
    }
    // sets the wall clock (also backwards) without touching how long sleepers still have to sleep
    inline void clock_step(long long sec, long long ns = 0)
    {
        long long old = clk().ns;
        clock_set(sec, ns);
        long long d = clk().ns - old;
        for (auto t : S().thr) if (t->st == T_SLEEPING || (t->st == T_CONDWAIT && t->timed)) t->wake = (uint64_t)((long long)t->wake + d);
    }
    // user level scheduling point in harness code
    inline void yield() { point(P_USER); }
    inline uint64_t now_step() { return S().step; }

    inline Thr* new_thr()
    {
        Sched& s = S();
        Thr* t = new Thr;
        t->id = (int)s.thr.size();
        t->st = T_RUNNABLE;
        t->prio = 1000 + (uint32_t)s.rng.below(100000);
        s.thr.push_back(t);
        return t;
    }
    inline void episode_begin(uint64_t seed, const SchedCfg& cfg)
    {
        Sched& s = S();
        for (auto t : s.thr) delete t;
        s.thr.clear();
        s.cfg = cfg;
        s.rng = Rng(seed ^ 0x5c4ed);
        s.step = 0; s.switches = 0; s.trace_hash = 0; s.stalls = 0; s.sleeps_taken = 0; s.lock_blocks = 0;
        s.fair = false;
        s.crash_at = 0;
        s.recent.clear(); s.recent_pos = 0;
        s.change_at.clear();
        for (int i = 0; i < cfg.pct_depth; i++) s.change_at.push_back(1 + s.rng.below((uint64_t)cfg.pct_len));
        s.on = true;
        t_self = new_thr();
        s.cur = 0;
    }
    // all other managed threads must have been joined
    inline void episode_end()
    {
        S().on = false;
        t_self = nullptr;
    }
    inline SchedCfg random_cfg(Rng& r)
    {
        SchedCfg c;
        switch (r.below(6))
        {
        case 0: c.strategy = 0; c.stick = 0; break;
        case 1: c.strategy = 0; c.stick = 60; break;
        case 2: c.strategy = 0; c.stick = 92; break;
        case 3: c.strategy = 0; c.stick = 97; c.freeze_permyriad = 50; break;
        case 4: c.strategy = 0; c.stick = 80; c.freeze_permyriad = 150; break;
        default: c.strategy = 1; c.pct_depth = (int)r.range(1, 8); c.pct_len = (int)r.range(100, 3000); break;
        }
        if (r.chance(1, 4)) c.early_wake = 4;
        c.stat_points = r.chance(1, 5);
        return c;
    }
    inline std::string cfg_str(const SchedCfg& c)
    {
        return fmt("strategy=%s stick=%d stall=%d/10000 pct_depth=%d stat_points=%d", c.strategy ? "pct" : "walk", c.stick, c.freeze_permyriad, c.strategy ? c.pct_depth : 0, (int)c.stat_points);
    }

    // ---- tracked stdio files -----------------------------------------------------------------------
    struct Tracked { std::string path; bool writing; };
    struct FileTable
    {
        std::map<FILE*, Tracked> open;
        std::set<FILE*> closed; // pointers closed and not handed out again
        std::atomic_flag lock = ATOMIC_FLAG_INIT;
    };
    inline FileTable& files() { static FileTable* f = new FileTable; return *f; }
    struct FtGuard
    {
        FtGuard() { while (files().lock.test_and_set(std::memory_order_acquire)) __builtin_ia32_pause(); }
        ~FtGuard() { files().lock.clear(std::memory_order_release); }
    };
    inline std::string abs_path(const char* p)
    {
        if (p[0] == '/') return p;
        char cwd[1024];
        if (!getcwd(cwd, sizeof cwd)) return p;
        return std::string(cwd) + "/" + p;
    }
    inline bool in_scratch(const std::string& p)
    {
        const std::string& s = opt().scratch;
        //the names up and down the tree resolved by their text (there are no links in the scratch directory)
        std::string q;
        for (size_t i = 0; i < p.size();)
        {
            size_t j = p.find('/', i);
            if (j == std::string::npos) j = p.size();
            std::string part = p.substr(i, j - i);
            if (part == "..") q.erase(q.rfind('/') == std::string::npos ? 0 : q.rfind('/'));
            else if (!part.empty() && part != ".") q += "/" + part;
            i = j + 1;
        }
        return !s.empty() && q.compare(0, s.size(), s) == 0 && (q.size() == s.size() || q[s.size()] == '/' || s.back() == '/');
    }
    inline bool path_denied(const char* op, const char* path)
    {
        if (!hooks().guard_paths) return false;
        std::string a = abs_path(path);
        if (in_scratch(a)) return false;
        errno = EPERM;
        if (hooks().guard_quiet) return true;
        violation("escape", std::string("escape:") + op, std::string(op) + " outside the device's own directory: " + a);
        errno = EPERM;
        return true;
    }
    inline bool faulted(const char* op, const char* path)
    {
        if (!hooks().fault) return false;
        return hooks().fault(op, path ? path : "");
    }
}

// ---- emulated System V shared memory --------------------------------------------------------------
// The table and the segments live in shared anonymous memory made before any fork, so they survive the death of
// the process that created them, like the real ones; every attach maps the segment at another address.
namespace vp
{
    struct ShmSeg { int used; int removed; int attached; int id; int key; size_t size; };
    struct ShmPool
    {
        static const int N = 16;
        ShmSeg seg[N];
        int next_id;
        int created, removed, refused;
        int fail_get, fail_at; // errno to fail with once, 0: none
    };
    inline size_t& shm_max() { static size_t n = 4 << 20; return n; }
    inline ShmPool*& shm_tab() { static ShmPool* p = nullptr; return p; }
    inline char** shm_base() { static char* b[ShmPool::N]; return b; }
    inline std::map<const void*, int>& shm_maps() { static auto* m = new std::map<const void*, int>; return *m; }
    inline void shm_init()
    {
        if (shm_tab()) return;
        shm_tab() = (ShmPool*)mmap(nullptr, sizeof(ShmPool), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset(shm_tab(), 0, sizeof(ShmPool));
        shm_tab()->next_id = 1000;
        for (int i = 0; i < ShmPool::N; i++) shm_base()[i] = (char*)mmap(nullptr, shm_max(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    inline void shm_free(int i)
    {
        madvise(shm_base()[i], shm_max(), MADV_REMOVE);
        shm_tab()->seg[i].used = 0;
    }
    inline void shm_reset()
    {
        shm_init();
        for (int i = 0; i < ShmPool::N; i++) if (shm_tab()->seg[i].used) shm_free(i);
        shm_maps().clear();
        shm_tab()->fail_get = shm_tab()->fail_at = 0;
    }
    inline int shm_find_key(int key) { for (int i = 0; i < ShmPool::N; i++) { auto& s = shm_tab()->seg[i]; if (s.used && !s.removed && s.key == key && key != 0) return i; } return -1; }
    inline int shm_find_id(int id) { for (int i = 0; i < ShmPool::N; i++) { auto& s = shm_tab()->seg[i]; if (s.used && s.id == id) return i; } return -1; }
    // the process that attached it died
    inline void shm_forget_attachments() { for (int i = 0; i < ShmPool::N; i++) { auto& s = shm_tab()->seg[i]; s.attached = 0; if (s.used && s.removed) shm_free(i); } }
}

// ---- interposed symbols ---------------------------------------------------------------------------
#define VP_REAL(name) \
    static decltype(&::name) real_##name = nullptr; \
    if (!real_##name) real_##name = (decltype(&::name))dlsym(RTLD_NEXT, #name)

extern "C"
{
    time_t time(time_t* out) noexcept
    {
        time_t t;
        if (vp::clk().virt) t = (time_t)vp::clock_sec();
        else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
        if (out) *out = t;
        return t;
    }
    int gettimeofday(struct timeval* tv, void*) noexcept
    {
        if (vp::clk().virt) { long long n = vp::clk().ns; tv->tv_sec = n / 1000000000LL; tv->tv_usec = (n % 1000000000LL) / 1000; return 0; }
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    int clock_gettime(clockid_t id, struct timespec* ts) noexcept
    {
        if (vp::clk().virt && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || (id == CLOCK_MONOTONIC && vp::t_self)))
        {
            long long n = vp::clk().ns;
            ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL;
            return 0;
        }
        return (int)syscall(SYS_clock_gettime, id, ts);
    }
    int nanosleep(const struct timespec* rq, struct timespec* rm)
    {
        if (vp::t_self) { vp::vsleep((uint64_t)rq->tv_sec * 1000000000ULL + (uint64_t)rq->tv_nsec); return 0; }
        return (int)syscall(SYS_nanosleep, rq, rm);
    }
    int clock_nanosleep(clockid_t id, int flags, const struct timespec* rq, struct timespec* rm)
    {
        if (vp::t_self)
        {
            uint64_t ns = (uint64_t)rq->tv_sec * 1000000000ULL + (uint64_t)rq->tv_nsec;
            if (flags & TIMER_ABSTIME) { uint64_t n = (uint64_t)vp::clk().ns.load(); ns = ns > n ? ns - n : 1; }
            vp::vsleep(ns);
            return 0;
        }
        return syscall(SYS_clock_nanosleep, id, flags, rq, rm) == 0 ? 0 : errno;
    }
    int usleep(useconds_t us)
    {
        if (vp::t_self) { vp::vsleep((uint64_t)us * 1000ULL); return 0; }
        struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
        return (int)syscall(SYS_nanosleep, &ts, nullptr);
    }
    int sched_yield(void) noexcept
    {
        if (vp::t_self) { vp::point(vp::P_USER); return 0; }
        return (int)syscall(SYS_sched_yield);
    }
    int fsync(int fd)
    {
        if (vp::hooks().fast_sync) return 0;
        return (int)syscall(SYS_fsync, fd);
    }

#ifndef VP_NO_SCHED
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        VP_REAL(pthread_mutex_lock);
        if (!vp::t_self) return real_pthread_mutex_lock(m);
        VP_REAL(pthread_mutex_trylock);
        vp::point(vp::P_LOCK);
        while (true)
        {
            int r = real_pthread_mutex_trylock(m);
            if (r != EBUSY) return r;
            vp::block_on(vp::T_BLOCKED, m);
        }
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        VP_REAL(pthread_mutex_trylock);
        if (vp::t_self) vp::point(vp::P_LOCK);
        return real_pthread_mutex_trylock(m);
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        VP_REAL(pthread_mutex_unlock);
        int r = real_pthread_mutex_unlock(m);
        if (vp::t_self)
        {
            vp::wake_waiters(vp::T_BLOCKED, m);
            vp::point(vp::P_UNLOCK);
        }
        return r;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        VP_REAL(pthread_cond_wait);
        if (!vp::t_self) return real_pthread_cond_wait(c, m);
        VP_REAL(pthread_mutex_unlock);
        real_pthread_mutex_unlock(m);
        vp::wake_waiters(vp::T_BLOCKED, m);
        vp::t_self->timed = false;
        vp::block_on(vp::T_CONDWAIT, c);
        return pthread_mutex_lock(m);
    }
    static int vp_timed_cond(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs)
    {
        VP_REAL(pthread_mutex_unlock);
        real_pthread_mutex_unlock(m);
        vp::wake_waiters(vp::T_BLOCKED, m);
        uint64_t w = (uint64_t)abs->tv_sec * 1000000000ULL + (uint64_t)abs->tv_nsec;
        vp::t_self->timed = true;
        vp::t_self->wake = w;
        vp::block_on(vp::T_CONDWAIT, c);
        pthread_mutex_lock(m);
        return (uint64_t)vp::clk().ns.load() >= w ? ETIMEDOUT : 0;
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs)
    {
        VP_REAL(pthread_cond_timedwait);
        if (!vp::t_self) return real_pthread_cond_timedwait(c, m, abs);
        return vp_timed_cond(c, m, abs);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* abs)
    {
        VP_REAL(pthread_cond_clockwait);
        if (!vp::t_self) return real_pthread_cond_clockwait(c, m, id, abs);
        return vp_timed_cond(c, m, abs);
    }
    int pthread_cond_signal(pthread_cond_t* c) noexcept
    {
        VP_REAL(pthread_cond_signal);
        if (vp::t_self) { vp::wake_waiters(vp::T_CONDWAIT, c); vp::point(vp::P_UNLOCK); return 0; }
        return real_pthread_cond_signal(c);
    }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept
    {
        VP_REAL(pthread_cond_broadcast);
        if (vp::t_self) { vp::wake_waiters(vp::T_CONDWAIT, c); vp::point(vp::P_UNLOCK); return 0; }
        return real_pthread_cond_broadcast(c);
    }

    struct VpStart { void* (*fn)(void*); void* arg; vp::Thr* thr; };
    static void* vp_start(void* p)
    {
        VpStart s = *(VpStart*)p;
        delete (VpStart*)p;
        if (!s.thr) return s.fn(s.arg);
        vp::wait_turn(s.thr);
        vp::t_self = s.thr;
        void* r = s.fn(s.arg);
        vp::t_self = nullptr;
        s.thr->st = vp::T_DONE;
        for (auto t : vp::S().thr) if (t->st == vp::T_JOINING && t->wait == s.thr) { t->st = vp::T_RUNNABLE; t->wait = nullptr; }
        vp::S().step++;
        vp::Thr* n = vp::pick(s.thr);
        vp::S().cur = n->id;
        vp::resume(n);
        return r;
    }
    int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
    {
        VP_REAL(pthread_create);
        if (vp::faulted("pthread_create", nullptr)) return EAGAIN;
        if (!vp::t_self) return real_pthread_create(t, a, fn, arg);
        vp::Thr* n = vp::new_thr();
        int r = real_pthread_create(t, a, vp_start, new VpStart{fn, arg, n});
        if (r != 0) { n->st = vp::T_DONE; return r; }
        n->pt = *t;
        vp::point(vp::P_CREATE);
        return 0;
    }
    int pthread_join(pthread_t t, void** ret)
    {
        VP_REAL(pthread_join);
        if (vp::t_self)
        {
            vp::point(vp::P_JOIN);
            for (auto x : vp::S().thr)
                if (x->pt && pthread_equal(x->pt, t) && x->st != vp::T_DONE)
                {
                    vp::block_on(vp::T_JOINING, x);
                    break;
                }
            for (auto x : vp::S().thr) if (x->pt && pthread_equal(x->pt, t)) x->pt = 0;
        }
        return real_pthread_join(t, ret);
    }
#else
    int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
    {
        VP_REAL(pthread_create);
        if (vp::faulted("pthread_create", nullptr)) return EAGAIN;
        return real_pthread_create(t, a, fn, arg);
    }
#endif

    static FILE* vp_fopen(const char* path, const char* mode, FILE* (*real)(const char*, const char*))
    {
        bool wr = strpbrk(mode, "wa+") != nullptr;
        if (wr && vp::path_denied("fopen", path)) return nullptr;
        std::string ap = vp::abs_path(path);
        bool mine = vp::in_scratch(ap);
        if (mine)
        {
            vp::point(vp::P_STDIO);
            if (vp::faulted(wr ? "open" : "openr", ap.c_str())) return nullptr;
        }
        FILE* f = real(path, mode);
        if (f)
        {
            vp::FtGuard g;
            vp::files().closed.erase(f);
            if (mine) vp::files().open[f] = vp::Tracked{ap, wr};
        }
        if (f && mine && wr && vp::hooks().on_open) vp::hooks().on_open(ap);
        return f;
    }
    FILE* fopen(const char* path, const char* mode)
    {
        VP_REAL(fopen);
        return vp_fopen(path, mode, real_fopen);
    }
    FILE* fopen64(const char* path, const char* mode)
    {
        VP_REAL(fopen64);
        return vp_fopen(path, mode, real_fopen64);
    }
    // 0 untracked, 1 tracked & open, -1 already closed
    static int vp_file_state(FILE* f, std::string& path)
    {
        vp::FtGuard g;
        auto it = vp::files().open.find(f);
        if (it != vp::files().open.end()) { path = it->second.path; return 1; }
        return vp::files().closed.count(f) ? -1 : 0;
    }
    int fclose(FILE* f)
    {
        VP_REAL(fclose);
        std::string path;
        int st = vp_file_state(f, path);
        if (st == 1)
        {
            vp::point(vp::P_STDIO);
            st = vp_file_state(f, path); // may have been closed meanwhile
        }
        if (st == -1) { vp::fatal("use_after_close", "fclose", "fclose on an already closed log file"); }
        if (st == 1)
        {
            bool wr;
            {
                vp::FtGuard g;
                wr = vp::files().open[f].writing;
                vp::files().open.erase(f);
                vp::files().closed.insert(f);
            }
            if (wr && vp::hooks().on_close) vp::hooks().on_close(path);
        }
        return real_fclose(f);
    }
    size_t fwrite(const void* p, size_t sz, size_t n, FILE* f)
    {
        VP_REAL(fwrite);
        std::string path;
        int st = vp_file_state(f, path);
        if (st == 1)
        {
            vp::point(vp::P_STDIO);
            st = vp_file_state(f, path);
        }
        if (st == -1) vp::fatal("use_after_close", "fwrite", "fwrite on an already closed log file");
        if (st == 1)
        {
            if (vp::faulted("write", path.c_str()))
            {
                size_t part = n / 2; // short write
                if (part) real_fwrite(p, sz, part, f);
                return part;
            }
            if (vp::hooks().on_write) vp::hooks().on_write(path, (const char*)p, sz * n);
        }
        return real_fwrite(p, sz, n, f);
    }
    int fflush(FILE* f)
    {
        VP_REAL(fflush);
        if (f)
        {
            std::string path;
            int st = vp_file_state(f, path);
            if (st == 1)
            {
                vp::point(vp::P_STDIO);
                st = vp_file_state(f, path);
            }
            if (st == -1) vp::fatal("use_after_close", "fflush", "fflush on an already closed log file");
            if (st == 1 && vp::faulted("flush", path.c_str())) { errno = EIO; return EOF; }
        }
        return real_fflush(f);
    }
    int rename(const char* a, const char* b) noexcept
    {
        VP_REAL(rename);
        if (vp::path_denied("rename", a) || vp::path_denied("rename", b)) return -1;
        vp::point(vp::P_FS);
        if (vp::faulted("rename", a)) return -1;
        return real_rename(a, b);
    }
    int remove(const char* a) noexcept
    {
        VP_REAL(remove);
        if (vp::path_denied("remove", a)) return -1;
        vp::point(vp::P_FS);
        if (vp::faulted("remove", a)) return -1;
        return real_remove(a);
    }
    int unlink(const char* a) noexcept
    {
        VP_REAL(unlink);
        if (vp::path_denied("unlink", a)) return -1;
        if (vp::faulted("remove", a)) return -1;
        return real_unlink(a);
    }
    int mkdir(const char* a, mode_t m) noexcept
    {
        VP_REAL(mkdir);
        if (vp::path_denied("mkdir", a)) return -1;
        vp::point(vp::P_FS);
        if (vp::faulted("mkdir", a)) return -1;
        return real_mkdir(a, m);
    }
    int socket(int d, int t, int p) noexcept
    {
        VP_REAL(socket);
        if (vp::faulted("socket", nullptr)) return -1;
        return real_socket(d, t, p);
    }
    int bind(int fd, const struct sockaddr* a, socklen_t l) noexcept
    {
        VP_REAL(bind);
        if (vp::faulted("bind", nullptr)) return -1;
        return real_bind(fd, a, l);
    }
    int shmget(key_t key, size_t size, int fl) noexcept
    {
        VP_REAL(shmget);
        if (!vp::hooks().shm_emulate) return real_shmget(key, size, fl);
        vp::shm_init();
        vp::ShmPool& t = *vp::shm_tab();
        if (t.fail_get) { errno = t.fail_get; t.fail_get = 0; return -1; }
        int i = vp::shm_find_key((int)key);
        if (i >= 0)
        {
            if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; }
            if (size > t.seg[i].size) { errno = EINVAL; return -1; }
            return t.seg[i].id;
        }
        if (!(fl & IPC_CREAT)) { errno = ENOENT; return -1; }
        if (size == 0 || size > vp::shm_max()) { errno = EINVAL; return -1; }
        for (i = 0; i < vp::ShmPool::N; i++) if (!t.seg[i].used) break;
        if (i == vp::ShmPool::N) { errno = ENOSPC; return -1; }
        t.seg[i] = vp::ShmSeg{1, 0, 0, t.next_id++, (int)key, size};
        t.created++;
        return t.seg[i].id;
    }
    void* shmat(int id, const void* a, int fl) noexcept
    {
        VP_REAL(shmat);
        if (!vp::hooks().shm_emulate) return real_shmat(id, a, fl);
        vp::ShmPool& t = *vp::shm_tab();
        if (t.fail_at) { errno = t.fail_at; t.fail_at = 0; return (void*)-1; }
        int i = vp::shm_find_id(id);
        if (i < 0) { errno = EINVAL; return (void*)-1; }
        void* p = mremap(vp::shm_base()[i], 0, (t.seg[i].size + 4095) & ~4095ULL, MREMAP_MAYMOVE);
        if (p == MAP_FAILED) return (void*)-1;
        t.seg[i].attached++;
        vp::shm_maps()[p] = i;
        return p;
    }
    int shmdt(const void* p) noexcept
    {
        VP_REAL(shmdt);
        if (!vp::hooks().shm_emulate) return real_shmdt(p);
        auto it = vp::shm_maps().find(p);
        if (it == vp::shm_maps().end()) { errno = EINVAL; return -1; }
        vp::ShmSeg& s = vp::shm_tab()->seg[it->second];
        munmap((void*)p, (s.size + 4095) & ~4095ULL);
        if (--s.attached == 0 && s.removed) vp::shm_free(it->second);
        vp::shm_maps().erase(it);
        return 0;
    }
    int shmctl(int id, int cmd, struct shmid_ds* b) noexcept
    {
        VP_REAL(shmctl);
        if (!vp::hooks().shm_emulate) return real_shmctl(id, cmd, b);
        int i = vp::shm_find_id(id);
        if (i < 0) { errno = EINVAL; return -1; }
        vp::ShmSeg& s = vp::shm_tab()->seg[i];
        if (cmd == IPC_RMID)
        {
            if (!s.removed) vp::shm_tab()->removed++;
            s.removed = 1;
            if (s.attached == 0) vp::shm_free(i);
            return 0;
        }
        if (cmd == IPC_STAT && b) { memset(b, 0, sizeof *b); b->shm_segsz = s.size; b->shm_nattch = (shmatt_t)s.attached; return 0; }
        errno = EINVAL;
        return -1;
    }
    ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l)
    {
        VP_REAL(sendto);
        if (vp::faulted("sendto", nullptr)) return -1;
        if (vp::hooks().on_sendto && a && vp::hooks().on_sendto(*(const struct sockaddr_in*)a, (const char*)b, n)) return (ssize_t)n;
        return real_sendto(fd, b, n, fl, a, l);
    }
}

// ---- instrumented atomics ----------------------------------------------------------------------------
namespace vp
{
    template <class T, PointKind L, PointKind W, PointKind R>
    struct AtomicT : public std::atomic<T>
    {
        using B = std::atomic<T>;
        AtomicT() noexcept : B() {}
        constexpr AtomicT(T v) noexcept : B(v) {}
        AtomicT(const AtomicT&) = delete;
        AtomicT& operator=(const AtomicT&) = delete;
        T load(std::memory_order o = std::memory_order_seq_cst) const noexcept { point(L, this); return B::load(o); }
        void store(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { point(W, this); B::store(v, o); }
        operator T() const noexcept { return load(); }
        T operator=(T v) noexcept { store(v); return v; }
        T exchange(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { point(R, this); return B::exchange(v, o); }
        T fetch_add(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { point(R, this); return B::fetch_add(v, o); }
        T fetch_sub(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { point(R, this); return B::fetch_sub(v, o); }
        T fetch_or(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { point(R, this); return B::fetch_or(v, o); }
        T fetch_and(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { point(R, this); return B::fetch_and(v, o); }
        T operator++() noexcept { return fetch_add(1) + 1; }
        T operator++(int) noexcept { return fetch_add(1); }
        T operator--() noexcept { return fetch_sub(1) - 1; }
        T operator--(int) noexcept { return fetch_sub(1); }
        T operator+=(T v) noexcept { return fetch_add(v) + v; }
        T operator-=(T v) noexcept { return fetch_sub(v) - v; }
        bool compare_exchange_strong(T& e, T d, std::memory_order a = std::memory_order_seq_cst) noexcept { point(R, this); return B::compare_exchange_strong(e, d, a); }
        bool compare_exchange_strong(T& e, T d, std::memory_order a, std::memory_order b) noexcept { point(R, this); return B::compare_exchange_strong(e, d, a, b); }
        bool compare_exchange_weak(T& e, T d, std::memory_order a = std::memory_order_seq_cst) noexcept
        {
            point(R, this);
            if (t_self && S().rng.chance(1, 16)) { e = B::load(); return false; } // spurious failure
            return B::compare_exchange_weak(e, d, a);
        }
        bool compare_exchange_weak(T& e, T d, std::memory_order a, std::memory_order b) noexcept { (void)b; return compare_exchange_weak(e, d, a); }
    };
}
namespace std
{
    using vp_atomic_int = vp::AtomicT<int, vp::P_LOAD, vp::P_STORE, vp::P_RMW>;
    using vp_atomic_uint = vp::AtomicT<unsigned int, vp::P_LOAD, vp::P_STORE, vp::P_RMW>;
    using vp_atomic_llong = vp::AtomicT<long long, vp::P_STAT, vp::P_STAT, vp::P_STAT>;
    struct vp_atomic_bool : public std::atomic<bool>
    {
        using B = std::atomic<bool>;
        vp_atomic_bool() noexcept : B() {}
        constexpr vp_atomic_bool(bool v) noexcept : B(v) {}
        bool load(std::memory_order o = std::memory_order_seq_cst) const noexcept { vp::point(vp::P_LOAD); return B::load(o); }
        void store(bool v, std::memory_order o = std::memory_order_seq_cst) noexcept { vp::point(vp::P_STORE); B::store(v, o); }
        operator bool() const noexcept { return load(); }
        bool operator=(bool v) noexcept { store(v); return v; }
        bool exchange(bool v, std::memory_order o = std::memory_order_seq_cst) noexcept { vp::point(vp::P_RMW); return B::exchange(v, o); }
    };
}
