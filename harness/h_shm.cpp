// Crash recovery of the shared-memory queue.
//
// Every case is a chain of "rounds": a forked child starts the logger on the shared memory left by the round before,
// logs from several threads, stops cleanly or dies at a chosen point without flushing anything.  The parent keeps a
// journal (shared memory of its own) of every log call (invocation and return stamps) and of every write that reached
// a device, and judges the log files against it.  System V shared memory is emulated with the same life time rules.
// Modes: sched  children run under the deterministic scheduler and die at a scheduling point
//        kill   children run freely and are killed (SIGKILL) at a random moment
//        foreign  segments of other layouts, damaged ones and failing system calls are met at start
#include "vp_fnlog.h"
using namespace vp;
using namespace FNLog;

static const int LIM = LogData::LOG_SIZE - 2;
static const int MAXR = 512, MAXH = 8192, MAXI = 64, MAXROUND = 12;
static const char* MARKER = "!!!core recover!!!";

struct JRec { int uid, round, ch, prio, len, prefix, pieces; std::atomic<uint64_t> inv, ret; std::atomic<int> accepted; };
struct JHand { int round, ch, dev, uid, marked; };
struct JStop { int round; std::atomic<uint64_t> inv, end; };
struct Journal
{
    std::atomic<uint64_t> stamp;
    std::atomic<int> nhand, nstop;
    JRec rec[MAXR];
    JHand hand[MAXH];
    JStop stop[MAXI];
    std::atomic<int> start_code[MAXROUND], start_done[MAXROUND], finished[MAXROUND];
    std::atomic<long long> clock_ns;
    std::atomic<uint64_t> steps[MAXROUND];
    std::atomic<uint64_t> trace[MAXROUND];
    std::atomic<int> crashed_in[MAXROUND]; // 1 start, 2 running, 3 stopping
    std::atomic<int> phase;
};
static Journal* J;
struct ChSpec { bool sync; std::vector<int> dev; int screen = -1; }; // screen: least priority of a screen device behind the files
struct Spec
{
    std::vector<ChSpec> ch;
    int nrec = 0, rounds = 0;
    long long key = 0;
    std::vector<std::vector<std::vector<int>>> prog; // round, thread, uids (-1: pause)
    std::vector<int> again;                          // round: stop and start again in the middle
    std::vector<int> stop_with_calls;                // round: stop while calls are in progress
};
static Spec* sp;
static Logger* lg;
static std::string dir;
static int cur_round;

static std::string path_of(int ch, int d) { return dir + "/" + fmt("c%dd%d.log", ch, d); }
static std::string screen_of(int rd) { return dir + "/" + fmt("screen%d.txt", rd); }
static std::string text_of(const JRec& r)
{
    std::string s;
    if (r.prefix) s = fmt("[f%02d.cpp:%d](fn%d) ", r.uid % 7, r.uid, r.uid % 5);
    s += fmt("R%08x|%05d|", r.uid, r.len);
    Rng g((uint64_t)r.uid * 77 + 5);
    for (int i = 0; i < r.len; i++) s += (char)('a' + g.below(26));
    s += fmt("|%08x", (unsigned)hash_str(s));
    if ((int)s.size() > LIM) s.resize((size_t)LIM);
    return s;
}
static int uid_in(const std::string& l)
{
    size_t p = 0;
    if (!l.empty() && l[0] == '[')
    {
        p = l.find(") ");
        if (p == std::string::npos) return -1;
        p += 2;
    }
    if (l.size() < p + 10 || l[p] != 'R' || l[p + 9] != '|') return -1;
    int v = 0;
    for (size_t i = p + 1; i < p + 9; i++)
    {
        char c = l[i];
        int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
        if (d < 0) return -1;
        v = v * 16 + d;
    }
    return v;
}
static bool marked(const std::string& l) { size_t n = strlen(MARKER); return l.size() >= n && l.compare(l.size() - n, n, MARKER) == 0; }
static std::string config_text(long long key, const std::vector<ChSpec>& chs)
{
    static const char* PN[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};
    std::string t = fmt(" - shm_key: %lld\n", key);
    for (size_t c = 0; c < chs.size(); c++)
    {
        t += fmt(" - channel: %d\n    sync: %s\n", (int)c, chs[c].sync ? "sync" : "async");
        for (size_t d = 0; d < chs[c].dev.size(); d++)
            t += fmt("    -device: %d\n        disable: false\n        stuff_up: true\n        out_type: file\n        priority: %s\n", (int)d, PN[chs[c].dev[d]]) +
                 "        path: \"" + dir + "\"\n        file: \"" + fmt("c%dd%d", (int)c, (int)d) + "\"\n";
        if (chs[c].screen >= 0)
            t += fmt("    -device: %d\n        disable: false\n        out_type: screen\n        priority: %s\n", (int)chs[c].dev.size(), PN[chs[c].screen]);
    }
    return t;
}
static uint64_t stamp() { return J->stamp.fetch_add(1) + 1; }

static void do_log(JRec& r)
{
    std::string content = text_of(r);
    static const char* files[] = {"f00.cpp", "f01.cpp", "f02.cpp", "f03.cpp", "f04.cpp", "f05.cpp", "f06.cpp"};
    static const char* fns[] = {"fn0", "fn1", "fn2", "fn3", "fn4"};
    unsigned pfx = LOG_PREFIX_NULL;
    if (r.prefix)
    {
        pfx = LOG_PREFIX_FILE | LOG_PREFIX_FUNCTION;
        size_t p = content.find(") ");
        content = content.substr(p + 2);
    }
    r.round = cur_round;
    r.inv = stamp();
    if (t_self) yield();
    {
        LogStream ls(*lg, r.ch, r.prio, 0, 0, files[r.uid % 7], 7, r.uid, fns[r.uid % 5], 3, pfx);
        r.accepted = ls.log_data_ != nullptr;
        size_t off = 0;
        for (int k = 0; k < r.pieces; k++)
        {
            size_t n = k + 1 == r.pieces ? content.size() - off : std::min(content.size() - off, content.size() / (size_t)r.pieces);
            if (k % 2) ls << content.substr(off, n);
            else ls.write_buffer(content.data() + off, (int)n);
            off += n;
            if (t_self) yield();
        }
    }
    r.ret = stamp();
}
static void pause_here(Rng& g)
{
    int k = (int)g.below(4);
    if (k == 0) std::this_thread::sleep_for(std::chrono::milliseconds(1 + g.below(12)));
    else if (t_self) for (int i = 0; i < k * 5; i++) yield();
}
// the crash may be set relative to the start of a phase
static int crash_phase;
static uint64_t crash_after;
static void phase_set(int p)
{
    J->phase = p;
    // the start gives a new log thread 1 s of polling to come up: no clock jumps while one is runnable
    static int ew = 0;
    if (!ew) ew = S().cfg.early_wake;
    S().cfg.early_wake = p == 1 ? 1 << 30 : ew;
    if (crash_phase == p && t_self) { S().crash_at = S().step + 1 + crash_after; crash_phase = 0; }
}
static void note_crash()
{
    J->crashed_in[cur_round] = J->phase.load();
    J->clock_ns = clk().ns.load();
    J->steps[cur_round] = S().step;
    J->trace[cur_round] = S().trace_hash;
    syscall(SYS_exit_group, 77);
}
// dies between two machine instructions: single steps (trap flag) from a scheduling point on
static volatile long step_left;
static bool step_mode;
static void on_trap(int) { if (--step_left <= 0) note_crash(); }
static void crash_or_step()
{
    if (!step_mode) note_crash();
    step_mode = false;
    S().crash_at = S().step + 300;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_trap;
    sigaction(SIGTRAP, &sa, nullptr);
#if defined(__x86_64__)
    __asm__ volatile("lea -128(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tlea 128(%%rsp), %%rsp" ::: "memory", "cc");
#endif
}
static int slow_ms;
static void child(uint64_t seed, bool sched, uint64_t crash_at, const SchedCfg& sc)
{
    res().counters.clear();
    res().distinct.clear();
    res().violations = 0;
    alarm(60);
    Rng g(seed ^ 0xabcdef);
    for (auto& c : sp->ch)
        if (c.screen >= 0)
        {
            int fd = ::open(screen_of(cur_round).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
            if (fd >= 0) { dup2(fd, 1); ::close(fd); }
            setvbuf(stdout, nullptr, _IONBF, 0); // what was printed before a crash counts
            break;
        }
    if (sched)
    {
        clk().ns = J->clock_ns.load();
        episode_begin(seed, sc);
        S().on_crash = crash_or_step;
        if (crash_at && crash_phase) crash_after = crash_at;
        else S().crash_at = crash_at, crash_phase = 0;
    }
    else J->crashed_in[cur_round] = 2;
    hooks().on_write = [](const std::string& p, const char* data, size_t n)
    {
        std::string s(data, n);
        while (!s.empty() && s.back() == '\n') s.pop_back();
        int i = J->nhand.load();
        if (i >= MAXH) return;
        // (writes of one channel are serialised, those of several are not)
        i = J->nhand.fetch_add(1);
        if (i >= MAXH) return;
        JHand& h = J->hand[i];
        h.uid = uid_in(s);
        h.marked = marked(s);
        h.ch = p[dir.size() + 2] - '0';
        h.dev = p[dir.size() + 4] - '0';
        h.round = cur_round + 1; // 0: not filled in
        if (slow_ms && t_self && S().rng.chance(1, 2)) vsleep(1000000ULL * (1 + S().rng.below((uint64_t)slow_ms)));
    };
    lg = new Logger;
    phase_set(1);
    int code = ParseAndStartLogger(*lg, config_text(sp->key, sp->ch));
    J->start_code[cur_round] = code;
    J->start_done[cur_round] = 1;
    phase_set(2);
    if (code == 0)
    {
        for (int part = 0; part < 1 + sp->again[(size_t)cur_round]; part++)
        {
            std::vector<std::thread> th;
            auto& pr = sp->prog[(size_t)cur_round];
            std::vector<uint64_t> ts;
            for (size_t i = 0; i < pr.size(); i++) ts.push_back(g.next());
            for (size_t i = 0; i < pr.size(); i++)
                th.emplace_back([&pr, i, part, &ts]
                {
                    Rng q(ts[i]);
                    auto& v = pr[i];
                    size_t b = 0, e = v.size();
                    if (sp->again[(size_t)cur_round]) { if (part == 0) e = v.size() / 2; else b = v.size() / 2; }
                    for (size_t k = b; k < e; k++)
                        if (v[k] < 0) pause_here(q);
                        else do_log(J->rec[v[k]]);
                });
            bool early = sp->stop_with_calls[(size_t)cur_round] && g.chance(1, 2);
            if (!early) for (auto& t : th) t.join();
            else for (int i = (int)g.below(40); i > 0 && t_self; i--) yield();
            int si = J->nstop.fetch_add(1);
            if (si < MAXI) { J->stop[si].round = cur_round; J->stop[si].end = 0; J->stop[si].inv = stamp(); }
            phase_set(3);
            int sc2 = StopLogger(*lg);
            if (sc2 != 0) violation("retcode", "stop_failed", fmt("stopping returned %d", sc2));
            if (part == 0 && sp->again[(size_t)cur_round])
            {
                phase_set(1);
                int c = g.chance(1, 2) ? StartLogger(*lg) : ParseAndStartLogger(*lg, config_text(sp->key, sp->ch));
                if (c != 0) violation("retcode", "restart_failed", fmt("restart in the same process returned %d", c));
                if (si < MAXI) J->stop[si].end = stamp();
                phase_set(2);
            }
            if (early) for (auto& t : th) t.join();
        }
    }
    phase_set(3);
    delete lg;
    lg = nullptr;
    J->clock_ns = clk().ns.load();
    J->steps[cur_round] = S().step;
    J->trace[cur_round] = S().trace_hash;
    J->crashed_in[cur_round] = 0;
    J->finished[cur_round] = 1;
    syscall(SYS_exit_group, res().violations ? 10 : 0);
}

static std::string describe()
{
    std::string s = fmt("key=%lld rounds=%d ", sp->key, sp->rounds);
    for (auto& c : sp->ch) { s += c.sync ? "[sync" : "[async"; for (int d : c.dev) s += fmt(" >=%d", d); if (c.screen >= 0) s += fmt(" screen>=%d", c.screen); s += "] "; }
    for (int r = 0; r < sp->rounds; r++)
    {
        size_t n = 0;
        for (auto& t : sp->prog[(size_t)r]) for (int u : t) n += u >= 0;
        static const char* ph[] = {"clean", "died in start", "died while running", "died in stop"};
        s += fmt("r%d:%s threads=%d calls=%d again=%d start=%d; ", r, ph[J->crashed_in[r].load() & 3], (int)sp->prog[(size_t)r].size(), (int)n, sp->again[(size_t)r], J->start_code[r].load());
    }
    return s;
}

// the screen devices of all channels print to one stream per round
static void judge_screen(const std::function<bool(const JRec&)>& must, const std::string& ctx)
{
    bool any = false;
    for (auto& c : sp->ch) any = any || c.screen >= 0;
    if (!any) return;
    std::map<int, int> seen;
    for (int rd = 0; rd < sp->rounds; rd++)
    {
        std::string raw = slurp(screen_of(rd)), s;
        for (size_t i = 0; i < raw.size(); i++)
        {
            if (raw[i] == '\x1b' && i + 1 < raw.size() && raw[i + 1] == '[')
            {
                size_t e = i + 2;
                while (e < raw.size() && (isdigit((unsigned char)raw[e]) || raw[e] == ';')) e++;
                if (e < raw.size() && raw[e] == 'm') { i = e; continue; }
                if (e >= raw.size()) break;
            }
            s += raw[i];
        }
        bool term = true;
        auto lines = lines_of(s, &term);
        for (size_t li = 0; li < lines.size(); li++)
        {
            const std::string& l = lines[li];
            if (li + 1 == lines.size() && !term && !J->finished[rd]) continue; // died while printing it
            if (l.compare(0, 15, "attach shm key:") == 0) continue;
            if (!l.empty() && l[0] == '\x1b') continue;
            count("screen_lines_judged");
            if (marked(l))
            {
                std::string t = l;
                while (marked(t)) t.resize(t.size() - strlen(MARKER));
                bool ok = t.empty();
                for (int i = 0; i < sp->nrec && !ok; i++)
                {
                    JRec& r = J->rec[i];
                    ok = r.inv && !r.ret && r.round < rd && sp->ch[(size_t)r.ch].screen >= 0 && text_of(r).compare(0, t.size(), t) == 0;
                }
                if (!ok) violation("recovered", "recovered_screen", fmt("round %d printed a line marked as recovered whose text is no beginning of a record in progress at a crash: ", rd) + l + ctx);
                count("screen_recovered_lines");
                continue;
            }
            int u = uid_in(l);
            if (u < 0 || u >= sp->nrec || !J->rec[u].inv || text_of(J->rec[u]) != l)
            {
                violation("torn", "torn_screen", fmt("round %d printed a line that is no record: ", rd) + l + ctx);
                continue;
            }
            JRec& r = J->rec[u];
            if (sp->ch[(size_t)r.ch].screen < 0 || r.prio < sp->ch[(size_t)r.ch].screen) violation("unknown", "filtered_screen", fmt("round %d printed record %d of channel %d and priority %d, which its screen device does not take", rd, u, r.ch, r.prio) + ctx);
            auto it = seen.find(u);
            if (it != seen.end() && it->second == rd) violation("dup", "dup_screen", fmt("round %d printed record %d twice", rd, u) + ctx);
            seen[u] = rd;
        }
    }
    for (int i = 0; i < sp->nrec; i++)
    {
        JRec& r = J->rec[i];
        int p = sp->ch[(size_t)r.ch].screen;
        if (p < 0 || r.prio < p || !must(r)) continue;
        count("screen_must");
        if (!seen.count(i)) violation("missing", "missing_screen", fmt("record %d (round %d, channel %d, priority %d) returned and was never printed", i, r.round, r.ch, r.prio) + ctx);
    }
}

static void judge(const std::vector<std::map<std::string, std::pair<size_t, size_t>>>& seg)
{
    std::string ctx = "\n" + describe();
    int nh = std::min((int)J->nhand.load(), MAXH), ns = std::min((int)J->nstop.load(), MAXI);
    // stable: a record that must be delivered
    auto must = [&](const JRec& r)
    {
        if (!r.accepted || !r.ret) return false;
        for (int i = 0; i < ns; i++)
        {
            const JStop& s = J->stop[i];
            if (s.round != r.round || !s.inv) continue;
            if (s.inv < r.ret && (s.end == 0 || s.end > r.inv)) return false;
        }
        return true;
    };
    judge_screen(must, ctx);
    for (int c = 0; c < (int)sp->ch.size(); c++)
    {
        // calls in progress when a round died
        std::vector<int> open_calls((size_t)sp->rounds, 0), last_uid((size_t)sp->rounds, -2);
        for (int i = 0; i < sp->nrec; i++)
        {
            JRec& r = J->rec[i];
            if (r.ch == c && r.inv && !r.ret) open_calls[(size_t)r.round]++;
        }
        for (int i = 0; i < nh; i++)
        {
            JHand& h = J->hand[i];
            if (h.round && h.ch == c) last_uid[(size_t)h.round - 1] = h.marked ? -3 : h.uid;
        }
        for (int d = 0; d < (int)sp->ch[(size_t)c].dev.size(); d++)
        {
            std::string p = path_of(c, d), all = slurp(p);
            int dp = sp->ch[(size_t)c].dev[(size_t)d];
            std::map<int, std::vector<int>> seen; // uid -> rounds
            int marks = 0, crashed_before = 0, open_before = 0;
            int redeliver = -2; // last record handed over in the latest crashed round that handed over any
            uint64_t maxinv = 0; int maxu = -1;
            for (int rd = 0; rd < sp->rounds; rd++)
            {
                auto it = seg[(size_t)rd].find(p);
                size_t b = it == seg[(size_t)rd].end() ? 0 : it->second.first, e = it == seg[(size_t)rd].end() ? 0 : it->second.second;
                std::string s = all.substr(std::min(b, all.size()), e - b);
                bool crashed = !J->finished[rd];
                bool term = true;
                auto lines = lines_of(s, &term);
                for (size_t li = 0; li < lines.size(); li++)
                {
                    const std::string& l = lines[li];
                    bool last = li + 1 == lines.size() && !term;
                    count("lines_judged");
                    if (last)
                    {
                        if (!crashed) { violation("torn", "unterminated", fmt("round %d ended cleanly but channel %d device %d ends with an unterminated line: ", rd, c, d) + l + ctx); continue; }
                        // the buffer was written out in the middle of a record; it must be the start of one of this round's
                        count("cut_lines");
                        continue;
                    }
                    if (marked(l))
                    {
                        std::string t = l;
                        while (marked(t)) t.resize(t.size() - strlen(MARKER)); // (more than once if a recovery died, too)
                        bool ok = false;
                        // (the marker may have replaced the end of a text that filled the record)
                        for (int i = 0; i < sp->nrec && !ok; i++)
                        {
                            JRec& r = J->rec[i];
                            if (r.ch != c || !r.inv || r.ret || r.round > rd || (r.round == rd)) continue;
                            ok = text_of(r).compare(0, t.size(), t) == 0;
                        }
                        if (!ok && t.empty()) for (int k = 0; k < rd; k++) ok = ok || open_calls[(size_t)k] > 0;
                        if (!ok) violation("recovered", "recovered_text", fmt("round %d, channel %d device %d: a line is marked as recovered whose text is no beginning of a record in progress at a crash: ", rd, c, d) + l + ctx);
                        marks++;
                        count("recovered_lines");
                        if (marks > open_before + crashed_before)
                            violation("recovered", "recovered_count", fmt("round %d, channel %d device %d: %d lines marked as recovered, but only %d calls were in progress at the crashes before", rd, c, d, marks, open_before) + ctx);
                        continue;
                    }
                    int u = uid_in(l);
                    if (u < 0 || u >= sp->nrec || !J->rec[u].inv) { violation("unknown", "unknown", fmt("round %d, channel %d device %d holds a line that is no record: ", rd, c, d) + l + ctx); continue; }
                    JRec& r = J->rec[u];
                    if (r.ch != c || text_of(r) != l) { violation("torn", "torn", fmt("round %d, channel %d device %d: record %d is not intact: ", rd, c, d, u) + l + ctx); continue; }
                    if (r.round > rd) { violation("unknown", "early", fmt("record %d of round %d appears in round %d", u, r.round, rd) + ctx); continue; }
                    if (r.prio < dp) violation("unknown", "filtered", fmt("round %d, channel %d device %d (priority >= %d): record %d of priority %d", rd, c, d, dp, u, r.prio) + ctx);
                    auto& sv = seen[u];
                    if (!sv.empty())
                    {
                        if (sv.back() == rd) violation("dup", "dup_round", fmt("round %d, channel %d device %d: record %d twice in one round", rd, c, d, u) + ctx);
                        else if (u != redeliver) violation("dup", "dup", fmt("round %d, channel %d device %d: record %d was delivered in round %d already and was not the last one handed over before a crash", rd, c, d, u, sv.back()) + ctx);
                        else count("redelivered");
                    }
                    sv.push_back(rd);
                    uint64_t ret = r.ret ? r.ret.load() : UINT64_MAX;
                    if (sv.size() == 1)
                    {
                        if (ret < maxinv) violation("order", "order", fmt("round %d, channel %d device %d: record %d (returned at %llu) appears after record %d (called at %llu)", rd, c, d, u, (unsigned long long)ret, maxu, (unsigned long long)maxinv) + ctx);
                        if (r.inv > maxinv) { maxinv = r.inv; maxu = u; }
                        count("order_checked");
                    }
                    if (r.round < rd) count("late_deliveries");
                }
                // a record handed over in a crashed round (it may have been in the stdio buffer) may reappear only if it was the last
                if (crashed)
                {
                    crashed_before++;
                    open_before += open_calls[(size_t)rd];
                    if (last_uid[(size_t)rd] != -2) redeliver = last_uid[(size_t)rd];
                }
            }
            // hand-overs that are not explained by one crash each
            {
                std::map<int, std::set<int>> hr;
                for (int i = 0; i < nh; i++) { JHand& h = J->hand[i]; if (h.round && h.ch == c && h.dev == d && h.uid >= 0 && !h.marked) hr[h.uid].insert(h.round - 1); }
                for (auto& kv : hr)
                    for (int rd : kv.second)
                        if (rd != *kv.second.begin())
                        {
                            int prev = *std::prev(kv.second.find(rd));
                            int lastr = -1;
                            for (int k = rd - 1; k >= 0; k--) if (last_uid[(size_t)k] != -2) { lastr = k; break; }
                            if (lastr < 0 || J->finished[lastr] || last_uid[(size_t)lastr] != kv.first)
                                violation("dup", "dup_hand", fmt("channel %d device %d: record %d was handed over in round %d and again in round %d although it was not the last one before a crash", c, d, kv.first, prev, rd) + ctx);
                        }
            }
            for (int i = 0; i < sp->nrec; i++)
            {
                JRec& r = J->rec[i];
                if (r.ch != c || r.prio < dp || !must(r)) continue;
                count("must_records");
                if (!J->finished[r.round]) count("must_records_of_crashed_rounds");
                if (seen.count(i)) { if (seen[i][0] > r.round) count("recovered_records"); continue; }
                bool buffered = false;
                for (int k = 0; k < nh; k++) { JHand& h = J->hand[k]; if (h.round && h.ch == c && h.dev == d && h.uid == i && !h.marked && !J->finished[h.round - 1]) buffered = true; }
                if (buffered) { count("lost_in_stdio_buffer"); continue; }
                violation("missing", "missing", fmt("record %d (round %d, channel %d, priority %d) returned, was never handed to device %d and is in no file", i, r.round, c, r.prio, d) + ctx);
            }
        }
    }
}

static void gen(Spec& s, Rng& r, bool sched)
{
    int nch = (int)r.range(1, SHMLogger::MAX_CHANNEL_SIZE);
    for (int c = 0; c < nch; c++)
    {
        ChSpec cs;
        cs.sync = r.chance(1, 4);
        int nd = (int)r.range(1, 3);
        for (int d = 0; d < nd; d++) cs.dev.push_back(r.chance(2, 3) ? 0 : (int)r.below(PRIORITY_MAX));
        if (r.chance(1, 3)) cs.screen = r.chance(2, 3) ? 0 : (int)r.below(PRIORITY_MAX);
        s.ch.push_back(cs);
    }
    static const long long keys[] = {1, 0x7ffffffe, 0x1234, 77777, 2147483647};
    s.key = keys[r.below(5)];
    s.rounds = (int)r.range(2, 6);
    if (r.chance(1, 12)) s.rounds = 11;
    for (int rd = 0; rd < s.rounds; rd++)
    {
        std::vector<std::vector<int>> th;
        int nt = (int)r.range(1, 4);
        if (r.chance(1, 10)) nt = 0;
        int left = sched ? 45 : 40;
        for (int t = 0; t < nt; t++)
        {
            std::vector<int> v;
            int n = (int)r.range(1, 14);
            for (int i = 0; i < n && left > 0; i++)
            {
                if (r.chance(1, 6)) v.push_back(-1);
                JRec& q = J->rec[s.nrec];
                q.uid = s.nrec; q.ch = (int)r.below((uint64_t)nch); q.prio = (int)r.below(PRIORITY_MAX); q.prefix = r.chance(1, 3);
                q.pieces = (int)r.range(1, 4);
                q.len = r.chance(1, 12) ? (int)r.range(LogData::LOG_SIZE - 100, LogData::LOG_SIZE + 60) : LogData::LOG_SIZE > 2000 && r.chance(1, 8) ? (int)r.range(60, LogData::LOG_SIZE) : (int)r.below(60);
                q.inv = 0; q.ret = 0; q.accepted = 0; q.round = rd;
                v.push_back(s.nrec++);
                left--;
            }
            th.push_back(v);
        }
        s.prog.push_back(th);
        s.again.push_back(r.chance(1, 6));
        s.stop_with_calls.push_back(r.chance(1, 5));
    }
}
static size_t size_of(const std::string& p) { struct stat st; return ::stat(p.c_str(), &st) == 0 ? (size_t)st.st_size : 0; }

static void chain_case(long long idx, bool sched)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed);
    Spec s;
    sp = &s;
    memset((void*)J, 0, sizeof *J);
    gen(s, r, sched);
    wipe(dir);
    shm_reset();
    if (sched) clock_set(1700000000LL + (long long)r.below(100000), (long long)r.below(1000000000));
    J->clock_ns = clk().ns.load();
    std::vector<std::map<std::string, std::pair<size_t, size_t>>> seg;
    bool bad = false;
    uint64_t h = 1;
    bool prev_clean = true;
    for (int rd = 0; rd < s.rounds && !bad; rd++)
    {
        cur_round = rd;
        bool crash = rd + 1 < s.rounds && r.chance(9, 10);
        static const uint64_t spans[] = {60, 300, 1200, 4000};
        uint64_t at = crash ? 1 + r.below(spans[r.below(4)]) : 0;
        crash_phase = r.chance(1, 2) ? 0 : 2 + (int)r.below(2);
        step_mode = r.chance(1, 3);
        step_left = 1L << r.below(14);
        step_left += (long)r.below((uint64_t)step_left);
        slow_ms = r.chance(1, 5) ? (int)r.range(1, 600) : 0;
        SchedCfg sc = random_cfg(r);
        if (r.chance(1, 3)) sc.stat_points = true; // dies between any two steps of the start, too
        uint64_t cs = r.next();
        long long wait_us = crash ? (r.chance(1, 3) ? (long long)r.below(1500) : (long long)r.below(16000)) : 0;
        std::map<std::string, std::pair<size_t, size_t>> before;
        for (int c = 0; c < (int)s.ch.size(); c++) for (int d = 0; d < (int)s.ch[(size_t)c].dev.size(); d++) before[path_of(c, d)].first = size_of(path_of(c, d));
        if (sched && r.chance(1, 4)) J->clock_ns += (long long)r.below(20) * 1000000000LL;
        bool had_segment = shm_find_key((int)s.key) >= 0;
        (void)had_segment;
        pid_t pid = fork();
        if (pid == 0) { child(cs, sched, at, sc); _exit(11); }
        int st = 0;
        if (!sched && crash)
        {
            struct timespec ts{0, (long)wait_us * 1000};
            syscall(SYS_nanosleep, &ts, nullptr);
            kill(pid, SIGKILL);
        }
        waitpid(pid, &st, 0);
        shm_forget_attachments();
        for (auto& kv : before) kv.second.second = size_of(kv.first);
        seg.push_back(before);
        bool died = sched ? ((WIFEXITED(st) && WEXITSTATUS(st) == 77) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGTRAP)) : (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL);
        bool fin = J->finished[rd];
        if (!died && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !(fin && WIFEXITED(st) && WEXITSTATUS(st) == 10))
        {
            std::string what = WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st)) : fmt("exit code %d", WEXITSTATUS(st));
            if (WIFEXITED(st) && WEXITSTATUS(st) == 42) res().violations++; // reported by the child
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) violation("hang", "hang_child", fmt("round %d did not end in 60 s; ", rd) + describe());
            else violation("crash", "crash_child", fmt("round %d: the process ended with ", rd) + what + "; " + describe());
            bad = true;
            break;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 10) res().violations++;
        if (J->start_done[rd] && J->start_code[rd] != 0)
        {
            violation("recovery", "start_refused", fmt("round %d: starting on the shared memory of the round before returned %d; ", rd, J->start_code[rd].load()) + describe());
            bad = true;
            break;
        }
        if (died && !fin)
        {
            if (WIFSIGNALED(st)) J->crashed_in[rd] = J->phase.load();
            static const char* n[] = {"", "crashes_in_start", "crashes_while_running", "crashes_in_stop"};
            count("crashes");
            if (sched) count(n[J->crashed_in[rd].load() & 3]);
        }
        if (!prev_clean && J->start_done[rd]) count("recoveries");
        prev_clean = fin;
        if (fin)
        {
            count("clean_rounds");
            if (shm_find_key((int)s.key) >= 0) violation("cleanup", "segment_left", fmt("round %d was shut down cleanly but the shared memory still exists; ", rd) + describe());
            for (int i = 0; i < ShmPool::N; i++) if (shm_tab()->seg[i].used) { violation("cleanup", "segment_leak", fmt("round %d: shared memory in use after a clean shutdown; ", rd) + describe()); break; }
        }
        h = mix(h ^ J->trace[rd].load() ^ (uint64_t)J->crashed_in[rd].load() * 77 ^ J->steps[rd].load());
        count("rounds");
    }
    if (!bad) judge(seg);
    count("episodes");
    if (!sched) h = mix(h ^ (uint64_t)J->nhand.load() * 131 ^ J->stamp.load() ^ hash_str(slurp(path_of(0, 0))));
    vp::distinct(h);
    if (idx % 61 == 3) sample(describe());
}

// ---- segments that must not be used -------------------------------------------------------------------
static void foreign_case(long long idx)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed);
    wipe(dir);
    shm_reset();
    clk().virt = false;
    long long key = 1 + (long long)r.below(1000);
    std::vector<ChSpec> chs(1 + r.below(2), ChSpec{r.chance(1, 2), {0}, -1});
    int how = (int)r.below(8);
    size_t size = sizeof(SHMLogger);
    if (how == 0) size = 1 + r.below(sizeof(SHMLogger) - 1);
    if (how == 1) size = sizeof(SHMLogger) + 1 + r.below(100000);
    std::string name, key2;
    int want_id = 0;
    char* base = nullptr;
    bool layout = true, refuse = true;
    int idx_seg = -1;
    if (how <= 6)
    {
        int id = shmget((key_t)key, size, IPC_CREAT | IPC_EXCL | 0600);
        idx_seg = shm_find_id(id);
        base = shm_base()[idx_seg];
        want_id = id;
        SHMLogger* m = (SHMLogger*)base;
        auto sane = [&]
        {
            m->shm_id_ = id; m->shm_size_ = (int)sizeof(SHMLogger); m->channel_size_ = (int)chs.size();
        };
        switch (how)
        {
        case 0: case 1:
            // another program's or another build's memory
            name = how == 0 ? "smaller" : "larger";
            for (size_t i = 0; i < size; i++) base[i] = (char)r.below(256);
            if (size >= 8 && r.chance(1, 2)) { ((int*)base)[0] = id; ((int*)base)[1] = (int)size; }
            else if (size >= 8) { ((int*)base)[1] = (int)size; }
            break;
        case 2:
            name = "same size, other contents";
            for (size_t i = 0; i < size; i++) base[i] = (char)r.below(256);
            if (r.chance(1, 2)) ((int*)base)[0] = id;
            break;
        case 3: name = "other id"; sane(); m->shm_id_ = id + 1 + (int)r.below(5); break;
        case 4: name = "other layout size"; sane(); m->shm_size_ = (int)sizeof(SHMLogger) + (r.chance(1, 2) ? 8 : -8) * (1 + (int)r.below(50)); break;
        case 5: name = "channel count"; sane(); m->channel_size_ = SHMLogger::MAX_CHANNEL_SIZE + 1 + (int)r.below(1000); layout = false; break;
        case 6:
        {
            name = "queue indices"; sane(); layout = false;
            RingBuffer& q = m->ring_buffers_[r.below(chs.size())];
            long long b = (long long)r.below(1000000);
            long long v[3] = {b, b, b};
            switch (r.below(5))
            {
            case 0: v[0] = -1 - (long long)r.below(1000); break;
            case 1: v[1] = v[0] - 1 - (long long)r.below(20); break;
            case 2: v[2] = v[1] - 1 - (long long)r.below(20); break;
            case 3: v[2] = v[0] + RingBuffer::BUFFER_LEN + (long long)r.below(50); break;
            default: v[2] = LLONG_MAX - (long long)r.below(3); break;
            }
            q.read_idx_.std::atomic<long long>::store(v[0]);
            q.write_idx_.std::atomic<long long>::store(v[1]);
            q.hold_idx_.std::atomic<long long>::store(v[2]);
            q.proc_idx_.std::atomic<long long>::store(v[0]);
            break;
        }
        }
    }
    else
    {
        name = "failing system call";
        refuse = true;
        int e[] = {EACCES, ENOMEM, ENOSPC, EINVAL, EIDRM};
        if (r.chance(1, 2)) shm_tab()->fail_get = e[r.below(4)];
        else shm_tab()->fail_at = e[r.below(4)];
    }
    std::string before = base ? std::string(base, size) : "";
    lg = new Logger;
    int tries = 1 + (int)r.below(3);
    for (int t = 0; t < tries; t++)
    {
        if (t > 0 && how == 7) break;
        int code = ParseAndStartLogger(*lg, config_text(key, chs));
        count("foreign_starts");
        if (refuse && code == 0) { violation("foreign", "foreign_used", "a segment that must be refused was used: " + name); break; }
        if (how <= 6 && code != E_SHM_VERSION_WRONG) violation("foreign", "foreign_code", fmt("starting on a foreign segment (%s) returned %d, not E_SHM_VERSION_WRONG", name.c_str(), code));
        // the refused logger must stay harmless
        {
            LogStream ls(*lg, 0, PRIORITY_FATAL, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL);
            if (ls.log_data_) violation("foreign", "foreign_logs", "a log call was accepted after a refused start");
        }
        if (StopLogger(*lg) == 0) violation("foreign", "foreign_stop", "a logger that was not started could be stopped");
    }
    if (how <= 6)
    {
        if (!shm_tab()->seg[idx_seg].used || shm_tab()->seg[idx_seg].id != want_id || shm_tab()->seg[idx_seg].removed) violation("foreign", "foreign_removed", "the foreign segment was removed: " + name);
        else if (layout && memcmp(before.data(), base, size) != 0) violation("foreign", "foreign_changed", "the foreign segment was changed: " + name);
        count("foreign_segments");
    }
    // works again: with another key, or with the same one after the cause is gone
    long long k2 = key;
    if (how <= 6) { if (r.chance(1, 2)) k2 = key + 5000; else shmctl(want_id, IPC_RMID, nullptr); }
    bool del = r.chance(1, 3);
    if (how <= 6 && k2 == key) del = true;
    if (del) { delete lg; if (how <= 6 && k2 == key) shm_forget_attachments(); lg = new Logger; }
    if (how == 7 && shm_find_key((int)key) >= 0)
    {
        // creation went half way: the next start meets an empty segment
        count("half_created");
    }
    int code = ParseAndStartLogger(*lg, config_text(k2, chs));
    if (code != 0) violation("foreign", "foreign_blocks", fmt("after a refused start (%s) starting with a usable key returned %d", name.c_str(), code));
    else
    {
        for (int i = 0; i < 3; i++)
        {
            JRec& q = J->rec[i];
            q.uid = i; q.ch = (int)r.below(chs.size()); q.prio = 3; q.prefix = 0; q.pieces = 1; q.len = 20; q.inv = 0; q.ret = 0;
            do_log(q);
        }
        StopLogger(*lg);
        for (int i = 0; i < 3; i++)
            if (slurp(path_of(J->rec[i].ch, 0)).find(text_of(J->rec[i]) + "\n") == std::string::npos) violation("foreign", "foreign_after", "a record logged after a refused start is missing: " + name);
            else count("records_after_refusal");
    }
    delete lg;
    lg = nullptr;
    if (code == 0 && shm_find_key((int)k2) >= 0) violation("cleanup", "segment_left2", "the segment was left after a clean shutdown");
    count("episodes");
    vp::distinct(mix(hash_str(before) ^ (uint64_t)how ^ seed * 31));
    if (idx % 61 == 3) sample("foreign segment: " + name);
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    dir = opt().scratch + "/d";
    mkdir(dir.c_str(), 0755);
    hooks().guard_paths = true;
    hooks().shm_emulate = true;
    shm_max() = (sizeof(SHMLogger) + 400000) & ~4095ULL;
    shm_init();
    J = (Journal*)mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    watch_rings(&lg);
    { Logger l; (void)l; }
    std::string m = opt().mode;
    run_cases([&](long long i) { if (m == "sched") chain_case(i, true); else if (m == "kill") chain_case(i, false); else foreign_case(i); });
    wipe(dir);
    finish();
    return 0;
}
