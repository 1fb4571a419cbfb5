// Whole programs (C24): a program of two source files that both include fn-log runs in a child process - starting, using and stopping the
// default logger and an ordinary global logger from either file - and ends normally.  Afterwards the parent compares the files with the journal
// (shared memory) of the calls that returned, and looks at the exit status.
#define UNIT unit_a
#include "vp_proc_tu.h"
#include "vp_rt.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <thread>
#include <mutex>
#include <map>
#include <set>
extern Unit unit_b;
using namespace vp;
typedef long long ll;

struct Rec { int id, start, channel, prio, len, thread, returned, phase; };
struct Conf { int channels, sync[2], screen[2], error_file[2], prio[2]; bool named; };
static const int MAXREC = 40000, MAXSTART = 16;
struct Journal
{
    std::atomic<int> n;
    std::atomic<int> starts;
    Conf conf[MAXSTART];
    std::atomic<int> active[2]; // the running start of either logger, -1: none
    std::atomic<int> stage;
    int code;
    char err[600];
    char story[3000];
    Rec rec[MAXREC];
};
static Journal* J;
static Unit* units[2] = {&unit_a, &unit_b};
static std::string dir;

static void complain(const std::string& s) { if (!J->err[0]) snprintf(J->err, sizeof J->err, "%s", s.c_str()); }
static void tell(const std::string& s) { size_t n = strlen(J->story); snprintf(J->story + n, sizeof J->story - n, "%s", s.c_str()); }
static std::string text_of(int id, int len)
{
    std::string t = fmt("@R%d %d:", id, len);
    for (int i = 0; i < len; i++) t += (char)('a' + (id + i) % 26);
    return t + ";";
}
static std::string config(const Conf& c, int start)
{
    std::string t;
    for (int i = 0; i < c.channels; i++)
    {
        static const char* pn[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};
        t += fmt(" - channel: %d\n    sync: %s\n    priority: %s\n", i, c.sync[i] ? "sync" : "async", pn[c.prio[i]]);
        t += fmt("    -device: 0\n        disable: false\n        out_type: file\n        path: \"%s\"\n        file: \"s%d_c%d\"\n", dir.c_str(), start, i);
        if (c.error_file[i]) t += fmt("    -device: 1\n        disable: false\n        out_type: file\n        priority: error\n        path: \"%s\"\n        file: \"s%d_c%d_e\"\n", dir.c_str(), start, i);
        if (c.screen[i]) t += fmt("    -device: %d\n        disable: false\n        out_type: screen\n        priority: info\n", c.error_file[i] ? 2 : 1);
    }
    return t;
}
static void log_one(Rng& r, int thread, int phase)
{
    bool named = r.chance(1, 3);
    int n = J->n++;
    if (n >= MAXREC) { J->n--; return; }
    Rec& e = J->rec[n];
    e.id = n;
    e.start = J->active[named];
    e.channel = (int)r.below(2);
    e.prio = (int)r.below(FNLog::PRIORITY_MAX);
    e.len = r.chance(1, 10) ? (int)r.range(100, 700) : (int)r.below(40);
    e.thread = thread;
    e.phase = phase;
    units[r.below(2)]->log(named, (int)r.below(3), e.channel, e.prio, text_of(e.id, e.len).c_str());
    e.returned = 1;
}
// records logged while the process ends
static void late_work(int how, int arg)
{
    Rng r((uint64_t)arg);
    int n = (int)r.range(1, 30);
    for (int i = 0; i < n; i++) log_one(r, 100 + how, 1 + how);
}
static void program(uint64_t seed)
{
    Rng r(seed);
    J->code = (int)r.below(120);
    J->active[0] = J->active[1] = -1;
    if (unit_a.dflt() != unit_b.dflt()) complain("the two source files have different default loggers");
    int steps = (int)r.range(3, 14);
    int next_thread = 1;
    bool used[2][3] = {};
    for (int i = 0; i < steps; i++)
    {
        Unit& u = *units[r.below(2)];
        bool named = r.chance(1, 3);
        int k = i == 0 ? 0 : (int)r.below(12);
        if (k < 3)
        {
            int s = J->starts;
            if (s >= MAXSTART) continue;
            Conf& c = J->conf[s];
            c.named = named;
            c.channels = (int)r.range(1, 2);
            for (int j = 0; j < 2; j++) { c.sync[j] = r.chance(1, 3); c.screen[j] = r.chance(1, 3); c.error_file[j] = r.chance(1, 2); c.prio[j] = r.chance(2, 3) ? 0 : (int)r.below(5); }
            std::string text = config(c, s);
            int rc;
            if (r.chance(1, 2)) rc = u.fast(named, text);
            else { std::string p = dir + fmt("/cfg%d.yaml", s); spit(p, text); rc = u.load(named, p); }
            bool was = J->active[named] >= 0;
            tell(fmt("%s: start %d of the %s logger%s%s; ", &u == &unit_a ? "A" : "B", s, named ? "named" : "default", was ? " (refused)" : "", c.sync[0] ? " sync" : ""));
            if (was && rc == 0) complain(fmt("start %d: a running logger was started", s));
            if (!was && rc != 0) complain(fmt("start %d returned %d", s, rc));
            if (!was) { J->active[named] = s; J->starts = s + 1; }
        }
        else if (k == 3)
        {
            int rc = u.stop(named);
            bool was = J->active[named] >= 0;
            tell(fmt("%s: stop %s; ", &u == &unit_a ? "A" : "B", named ? "named" : "default"));
            if (was != (rc == 0)) complain(fmt("stopping a %s logger returned %d", was ? "running" : "stopped", rc));
            J->active[named] = -1;
            for (int c = 0; c < 2; c++)
                if (unit_a.written(named, c) != unit_b.written(named, c)) complain("the two source files see different counters");
        }
        else if (k == 4 || k == 5)
        {
            int nt = (int)r.range(1, 3), each = (int)r.range(1, r.chance(1, 4) ? 600 : 60);
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; t++)
            {
                uint64_t q = r.next();
                int id = next_thread++;
                int ends = (int)r.below(3); // 2: none
                ts.emplace_back([q, id, each, ends]
                {
                    Rng p(q);
                    for (int j = 0; j < each; j++) log_one(p, id, 0);
                    if (ends < 2) units[ends]->thread_end(late_work, (int)(q & 0xffffff));
                });
            }
            for (auto& t : ts) t.join();
            tell(fmt("%d threads log %d; ", nt, each));
        }
        else if (k == 6 || k == 7)
        {
            int w = (int)r.below(2), h = (int)r.below(3), a = (int)r.below(1000000);
            if (used[w][h]) continue;
            used[w][h] = true;
            if (h == 0) units[w]->late(late_work, a);
            if (h == 1) units[w]->at_exit(late_work, a);
            if (h == 2) units[w]->thread_end(late_work, a);
            static const char* hn[] = {"static object", "atexit function", "object of the main thread"};
            tell(fmt("%s: %s that logs at its end; ", w ? "B" : "A", hn[h]));
        }
        else
        {
            int n = (int)r.range(1, r.chance(1, 5) ? 500 : 40);
            for (int j = 0; j < n; j++) log_one(r, 0, 0);
            tell(fmt("%d records; ", n));
        }
    }
    J->stage = 1;
    int how = (int)r.below(3);
    tell(how == 2 ? "exit from another thread" : "exit");
    if (how == 2)
    {
        std::thread t([] { exit(J->code); });
        t.join();
    }
    exit(J->code);
}
static void proc_case(long long idx, uint64_t seed)
{
    wipe(dir);
    memset((void*)J, 0, sizeof(Journal) - sizeof J->rec);
    memset(J->rec, 0, sizeof(Rec) * 3000);
    std::string outp = dir + "/stdout", errp = dir + "/stderr";
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        int o = open(outp.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644), e = open(errp.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        dup2(o, 1);
        dup2(e, 2);
        alarm(0);
        program(seed);
    }
    int st = 0;
    double t0 = real_now();
    while (waitpid(p, &st, WNOHANG) == 0)
    {
        struct timespec ts{0, 2000000};
        nanosleep(&ts, nullptr);
        if (real_now() - t0 > 40)
        {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            violation("process", J->stage ? "process:exit_hangs" : "process:hangs", std::string("the program did not end in 40 s: ") + J->story);
            return;
        }
    }
    std::string story = J->story;
    std::string tail = " | " + story;
    if (J->err[0]) { violation("process", "process:calls", J->err + tail); return; }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != J->code)
    {
        std::string err = slurp(errp).substr(0, 500);
        violation("process", "process:status", (WIFEXITED(st) ? fmt("the program ended with %d instead of %d", WEXITSTATUS(st), J->code) : fmt("the program ended with signal %d", WTERMSIG(st))) + tail + " | " + err);
        return;
    }
    // what belongs where
    std::map<std::string, std::vector<int>> want; // file: records
    std::set<int> screen;
    int n = J->n;
    ll late = 0, refused = 0;
    for (int i = 0; i < n; i++)
    {
        Rec& e = J->rec[i];
        if (!e.returned) { violation("process", "process:call_lost", "a log call did not return" + tail); return; }
        const Conf* c = e.start >= 0 ? &J->conf[e.start] : nullptr;
        if (!c || e.channel >= c->channels || e.prio < c->prio[e.channel]) { refused++; continue; }
        want[fmt("s%d_c%d.log", e.start, e.channel)].push_back(e.id);
        if (c->error_file[e.channel] && e.prio >= FNLog::PRIORITY_ERROR) want[fmt("s%d_c%d_e.log", e.start, e.channel)].push_back(e.id);
        if (c->screen[e.channel] && e.prio >= FNLog::PRIORITY_INFO) screen.insert(e.id);
        if (e.phase) late++;
    }
    for (auto& f : list_dir(dir))
        if (f.size() > 4 && f.compare(f.size() - 4, 4, ".log") == 0 && !want.count(f) && !slurp(dir + "/" + f).empty()) { violation("process", "process:file", "unexpected content in " + f + tail); return; }
    for (auto& w : want)
    {
        std::map<int, int> seen;
        std::map<int, int> last;
        bool term = true;
        std::string all = slurp(dir + "/" + w.first);
        for (auto& l : lines_of(all, &term))
        {
            size_t at = l.find("@R");
            int id = at == std::string::npos ? -1 : atoi(l.c_str() + at + 2);
            if (id < 0 || id >= n || l.substr(at) != text_of(id, J->rec[id].len)) { violation("process", "process:torn", w.first + " contains the line '" + l.substr(0, 200) + "'" + tail); return; }
            seen[id]++;
            Rec& e = J->rec[id];
            // (an object of a thread logs after everything else of that thread; it has a number of its own)
            if (e.phase == 0)
            {
                if (last.count(e.thread) && last[e.thread] > id) { violation("process", "process:order", fmt("%s: record %d comes after record %d of the same thread", w.first.c_str(), id, last[e.thread]) + tail); return; }
                last[e.thread] = id;
            }
        }
        for (int id : w.second)
        {
            Rec& e = J->rec[id];
            static const char* ph[] = {"", " (logged by a static object while the process ended)", " (logged by an atexit function)", " (logged by an object of a thread)"};
            if (seen[id] != 1)
            {
                violation("process", seen[id] ? "process:twice" : "process:missing", fmt("record %d%s is %d times in %s; %d of %d records are there", id, ph[e.phase], seen[id], w.first.c_str(), (int)lines_of(all).size(), (int)w.second.size()) + tail);
                return;
            }
            seen.erase(id);
        }
        for (auto& s : seen) if (s.second) { violation("process", "process:invented", fmt("record %d does not belong in %s", s.first, w.first.c_str()) + tail); return; }
        if (!term) { violation("process", "process:torn", w.first + " ends within a line" + tail); return; }
        count("lines_checked", (ll)w.second.size());
    }
    std::map<int, int> on;
    std::string out = slurp(outp);
    for (size_t at = out.find("@R"); at != std::string::npos; at = out.find("@R", at + 2))
    {
        int id = atoi(out.c_str() + at + 2);
        if (id < 0 || id >= n || out.compare(at, text_of(id, J->rec[id].len).size(), text_of(id, J->rec[id].len)) != 0) { violation("process", "process:screen", "the screen shows " + out.substr(at, 100) + tail); return; }
        on[id]++;
    }
    for (int id : screen) if (on[id] != 1) { violation("process", "process:screen", fmt("record %d was shown %d times", id, on[id]) + tail); return; }
    for (auto& s : on) if (s.second && !screen.count(s.first)) { violation("process", "process:screen", fmt("record %d was shown", s.first) + tail); return; }
    count("records", n);
    count("late_records", late);
    count("refused_records", refused);
    count("screen_records", (ll)screen.size());
    count("programs");
    distinct(hash_str(story));
    if (idx % 50 == 3) sample(story);
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    dir = opt().scratch + "/d";
    mkdir(dir.c_str(), 0755);
    J = (Journal*)mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    run_cases([](long long idx)
    {
        uint64_t seed = case_seed(idx);
        begin_case(idx, seed);
        proc_case(idx, seed);
        count("episodes");
    });
    wipe(dir);
    finish();
    _exit(0);
}
