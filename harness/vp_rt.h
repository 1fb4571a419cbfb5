// Common runtime of the harnesses: PRNG, result file, argument parsing, scratch directories.
#pragma once
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <cstdarg>
#include <cinttypes>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <vector>
#include <array>
#include <string>
#include <algorithm>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <functional>
#include <regex>
#include <atomic>
#include <cmath>
#include <cfloat>
#include <climits>
#include <list>
#include <deque>
#include <queue>
#include <map>
#include <unordered_map>
#include <set>
#include <unordered_set>
#include <memory>
#include <chrono>
#include <fcntl.h>
#include <unistd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <dirent.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <netdb.h>
#include <signal.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>

namespace vp
{
    // ---- PRNG (splitmix64 / xorshift) -------------------------------------------------------------
    inline uint64_t mix(uint64_t x)
    {
        x += 0x9E3779B97F4A7C15ULL;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
        return x ^ (x >> 31);
    }
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
        uint64_t next() { s += 0x9E3779B97F4A7C15ULL; return mix(s); }
        // [0, n)
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        // [a, b]
        long long range(long long a, long long b) { return a + (long long)below((uint64_t)(b - a) + 1); }
        bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
        template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    };
    inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
    {
        const unsigned char* b = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
        return h;
    }
    inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }

    // ---- options -----------------------------------------------------------------------------------
    struct Options
    {
        std::string out;       // result file
        std::string scratch;   // scratch directory (exists, private)
        std::string mode;      // harness specific
        uint64_t seed = 1;
        long long cases = 10;
        long long first = 0;   // index of first case
        bool single = false;   // run only case `first`
        std::map<std::string, std::string> kv;
        long long num(const char* k, long long d) const { auto it = kv.find(k); return it == kv.end() ? d : atoll(it->second.c_str()); }
        std::string str(const char* k, const char* d) const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
    };
    inline Options& opt() { static Options o; return o; }

    // ---- results -----------------------------------------------------------------------------------
    struct Results
    {
        int fd = -1;
        long long cur_case = -1;
        uint64_t cur_seed = 0;
        int violations = 0;
        int max_violations = 20;
        std::map<std::string, long long> counters;
        std::unordered_set<uint64_t> distinct;
        int samples = 0;
    };
    inline Results& res() { static Results* r = new Results; return *r; }
    inline void raw_out(const std::string& s)
    {
        size_t off = 0;
        while (off < s.size())
        {
            long n = syscall(SYS_write, res().fd, s.data() + off, s.size() - off);
            if (n <= 0) break;
            off += (size_t)n;
        }
    }
    inline std::string esc(const std::string& s, size_t lim = 900)
    {
        std::string o;
        for (unsigned char c : s)
        {
            if (o.size() > lim) { o += "..."; break; }
            if (c == '\\') o += "\\\\";
            else if (c == '\n') o += "\\n";
            else if (c == '\r') o += "\\r";
            else if (c == '\t') o += "\\t";
            else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
            else o += (char)c;
        }
        return o;
    }
    inline std::string fmt(const char* f, ...)
    {
        char buf[4096];
        va_list ap; va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return buf;
    }
    // kind: oracle that fired, key: stable identification of the failing input/site/history class
    inline void violation(const std::string& kind, const std::string& key, const std::string& detail)
    {
        static std::atomic_flag busy = ATOMIC_FLAG_INIT; // harnesses with free-running threads
        struct Guard { Guard() { while (busy.test_and_set(std::memory_order_acquire)) {} } ~Guard() { busy.clear(std::memory_order_release); } } guard;
        Results& r = res();
        r.violations++;
        if (r.violations > r.max_violations) return;
        raw_out("V\t" + kind + "\t" + esc(key, 300) + "\t" + std::to_string(r.cur_case) + "\t" + esc(detail, (size_t)(opt().single ? 200000 : 1500)) + "\n");
    }
    inline void inconclusive(const std::string& what) { raw_out("I\t" + std::to_string(res().cur_case) + "\t" + esc(what) + "\n"); }
    inline void count(const std::string& name, long long v = 1) { res().counters[name] += v; }
    inline void maxi(const std::string& name, long long v) { auto& c = res().counters["max:" + name]; if (v > c) c = v; }
    inline void distinct(uint64_t h) { if (res().distinct.size() < 400000) res().distinct.insert(h); }
    inline void sample(const std::string& s) { if (res().samples < 4) { res().samples++; raw_out("M\t" + esc(s, 1200) + "\n"); } }
    inline void begin_case(long long idx, uint64_t seed)
    {
        res().cur_case = idx;
        res().cur_seed = seed;
        raw_out("C\t" + std::to_string(idx) + "\n");
    }
    inline void finish()
    {
        std::string s;
        for (auto& kv : res().counters) s += "N\t" + kv.first + "\t" + std::to_string(kv.second) + "\n";
        std::string hex;
        for (auto h : res().distinct) { char b[20]; snprintf(b, sizeof b, "%016" PRIx64 "\n", h); hex += std::string("D\t") + b; }
        raw_out(s + hex + "OK\n");
    }
    inline uint64_t case_seed(long long idx) { return mix(opt().seed * 0x1000003ULL + (uint64_t)idx * 7919ULL + hash_str(opt().mode)); }

    inline void parse_args(int argc, char** argv)
    {
        Options& o = opt();
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            if (a.compare(0, 2, "--") != 0) continue;
            std::string k = a.substr(2), v;
            auto eq = k.find('=');
            if (eq != std::string::npos) { v = k.substr(eq + 1); k = k.substr(0, eq); }
            if (k == "out") o.out = v;
            else if (k == "scratch") o.scratch = v;
            else if (k == "mode") o.mode = v;
            else if (k == "seed") o.seed = strtoull(v.c_str(), nullptr, 0);
            else if (k == "cases") o.cases = atoll(v.c_str());
            else if (k == "first") o.first = atoll(v.c_str());
            else if (k == "single") o.single = true;
            else o.kv[k] = v;
        }
        if (o.single) o.cases = 1;
        res().fd = o.out.empty() ? dup(1) : open(o.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        if (res().fd < 0) { perror("out"); exit(3); }
        fcntl(res().fd, F_SETFD, FD_CLOEXEC);
        if (o.scratch.empty()) { fprintf(stderr, "--scratch needed\n"); exit(3); }
        if (!o.kv.count("keepout"))
        {
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            close(n);
        }
    }

    // ---- files (raw syscalls: never go through interposed libc functions) --------------------------
    inline std::string slurp(const std::string& path, bool* ok = nullptr)
    {
        std::string s;
        int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
        if (ok) *ok = fd >= 0;
        if (fd < 0) return s;
        char buf[65536];
        long n;
        while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
        syscall(SYS_close, fd);
        return s;
    }
    inline void spit(const std::string& path, const std::string& data)
    {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd < 0) return;
        size_t off = 0;
        while (off < data.size())
        {
            long n = syscall(SYS_write, fd, data.data() + off, data.size() - off);
            if (n <= 0) break;
            off += (size_t)n;
        }
        syscall(SYS_close, fd);
    }
    inline std::vector<std::string> list_dir(const std::string& dir)
    {
        std::vector<std::string> v;
        DIR* d = opendir(dir.c_str());
        if (!d) return v;
        while (dirent* e = readdir(d))
        {
            std::string n = e->d_name;
            if (n != "." && n != "..") v.push_back(n);
        }
        closedir(d);
        std::sort(v.begin(), v.end());
        return v;
    }
    // removes everything below dir (must lie inside the scratch directory)
    inline void wipe(const std::string& dir)
    {
        if (dir.compare(0, opt().scratch.size(), opt().scratch) != 0 || opt().scratch.size() < 6) return;
        for (auto& n : list_dir(dir))
        {
            std::string p = dir + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) != 0) continue;
            if (S_ISDIR(st.st_mode)) { wipe(p); syscall(SYS_rmdir, p.c_str()); }
            else syscall(SYS_unlink, p.c_str());
        }
    }
    inline std::vector<std::string> lines_of(const std::string& s, bool* terminated = nullptr)
    {
        std::vector<std::string> v;
        size_t b = 0;
        while (b < s.size())
        {
            size_t e = s.find('\n', b);
            if (e == std::string::npos) { v.push_back(s.substr(b)); if (terminated) *terminated = false; return v; }
            v.push_back(s.substr(b, e - b));
            b = e + 1;
        }
        if (terminated) *terminated = true;
        return v;
    }

    // fn-log gives a new thread one second to begin; on an overloaded machine that may not be enough
    template <class F>
    inline int patient_start(F f)
    {
        int rc = f();
        for (int i = 0; i < 2 && rc == 8 /* E_CHANNEL_THREAD_FAILED */; i++) { count("slow_starts"); rc = f(); }
        return rc;
    }
    // runs the cases of this process: first, first+1, ... until the number or the time budget is used up
    inline double real_now() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9; }
    template <class F>
    inline void run_cases(F f)
    {
        double end = real_now() + (double)opt().num("budget", 100000);
        long long done = 0;
        for (long long i = opt().first; i < opt().first + opt().cases; i++)
        {
            f(i);
            done++;
            if (res().violations >= res().max_violations) break;
            if (real_now() > end) break;
        }
        count("cases", done);
    }
}
