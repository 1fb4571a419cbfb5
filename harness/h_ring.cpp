// Queue, life cycle, synchronous write-through and hook monitors under a controlled scheduler.
//
// Each case is one program (a few threads logging, sometimes starting/stopping/reconfiguring the logger) run under
// one seeded schedule.  What is judged is the recorded history of calls (invocation/return steps) against the bytes
// in the devices' files and the public counters.  Modes: async, full, sync, life, hot, virt, stat.
#include "vp_fnlog.h"
using namespace vp;
using namespace FNLog;

static const int LIM = LogData::LOG_SIZE - 2; // documented cut

enum OpType { OP_LOG, OP_STOP, OP_START, OP_START_BAD, OP_START_NOTHREAD, OP_SLEEP, OP_REWRITE, OP_SETCFG, OP_SAMPLE };
struct Op { OpType t; int a = 0; };
struct DevSpec { int prio; bool rotate; bool late = false; };
struct ChSpec { bool sync; std::vector<DevSpec> dev; };
struct Rec
{
    int uid, ch, prio, len, prefix, pieces;
    uint64_t inv = 0, ret = 0;
    int tid = -1;
    bool called = false, accepted = false;
    int a_inv = 0, b_inv = 0;     // successful starts / stops returned before inv
    int sinv_ret = 0, tinv_ret = 0; // starts / stops invoked before ret
    int slept = 0;
    bool fwd = false;
    int hooks = 0;
};
struct LifeEv { bool start; bool ok; bool valid; uint64_t inv, ret; int code; };
struct Spec
{
    std::string mode;
    std::vector<ChSpec> ch;
    std::vector<std::vector<Op>> prog;
    std::vector<Rec> recs;
    bool virt = false;
    int virt_prio = 0;
    bool stop_early = false;
    int slow = 0;
    bool rotate = false;
    SchedCfg sc;
    bool file_cfg = false;
    bool start_first = true;
};
static Spec* sp;
static Logger* lg;
static std::string dir;
static std::vector<LifeEv> life;
// tentative counters for the life-cycle position of calls
static int n_start_ret, n_stop_ret, n_start_inv, n_stop_inv; // successful ones are fixed up afterwards, see below
static thread_local int cur_uid = -1;
static std::map<std::string, long long> tracked;    // bytes per path seen by on_write
static std::map<int, long long> handed;             // records handed to device 0 of channel
static std::map<int, long long> returned_ok;        // accepted calls returned, per channel
static std::map<int, int> in_progress;
static long long cap_worst;
static std::string cap_msg;
static std::vector<Rec> fwds;
static int cfg_version;

static std::string path_of(int ch, int d) { return dir + "/" + fmt("c%dd%d.log", ch, d); }

static std::string text_of(const Rec& r)
{
    std::string s;
    if (r.prefix) s = fmt("[f%02d.cpp:%d](fn%d) ", r.uid % 7, r.uid, r.uid % 5);
    s += fmt("R%08x|%05d|", r.uid, r.len);
    Rng g((uint64_t)r.uid * 77 + 5);
    for (int i = 0; i < r.len; i++) s += (char)('a' + g.below(26));
    s += fmt("|%08x", (unsigned)hash_str(s));
    return s;
}
static std::string line_of(const Rec& r)
{
    std::string s = text_of(r);
    if ((int)s.size() > LIM) s.resize((size_t)LIM);
    return s;
}
static int uid_in(const std::string& l)
{
    size_t p = 0;
    if (!l.empty() && l[0] == '[')
    {
        p = l.find(") ");
        if (p == std::string::npos) return -1;
        p += 2;
    }
    if (l.size() < p + 10 || l[p] != 'R' || l[p + 9] != '|') return -1;
    int v = 0;
    for (size_t i = p + 1; i < p + 9; i++)
    {
        char c = l[i];
        int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
        if (d < 0) return -1;
        v = v * 16 + d;
    }
    return v;
}
static std::string read_device(int ch, int d)
{
    std::string base = path_of(ch, d), s;
    int n = 1;
    struct stat st;
    while (n < 200 && ::stat((base + "." + std::to_string(n)).c_str(), &st) == 0) n++;
    for (int i = n - 1; i >= 1; i--) s += slurp(base + "." + std::to_string(i));
    s += slurp(base);
    return s;
}
static std::string config_text(int version, bool force_types = false, int typeseed = 0)
{
    static const char* PN[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};
    std::string t;
    if (sp->mode == "hot") t += " - hot_update: true\n";
    for (size_t c = 0; c < sp->ch.size(); c++)
    {
        bool sync = sp->ch[c].sync;
        if (force_types) sync = (typeseed >> c) & 1;
        t += fmt(" - channel: %d\n    sync: %s\n", (int)c, sync ? "sync" : "async");
        if (sp->mode == "hot" && version % 2) t += "    priority: trace\n";
        for (size_t d = 0; d < sp->ch[c].dev.size(); d++)
        {
            auto& dv = sp->ch[c].dev[d];
            if (dv.late && version < 1) continue;
            t += fmt("    -device: %d\n        disable: false\n        out_type: file\n        priority: %s\n", (int)d, PN[dv.prio]);
            t += "        path: \"" + dir + "\"\n        file: \"" + fmt("c%dd%d", (int)c, (int)d) + "\"\n";
        }
        if (sp->virt && c == 0)
            t += fmt("    -device: %d\n        disable: false\n        out_type: virtual\n        priority: %s\n", (int)sp->ch[c].dev.size(), PN[sp->virt_prio]);
    }
    return t;
}

static void hook_fn(const LogData& log)
{
    yield();
    std::string txt = log.content_;
    int uid = uid_in(txt);
    if (uid < 0 || uid >= (int)sp->recs.size()) { violation("hook", "hook_unknown", "hook received unknown text: " + txt); return; }
    Rec& r = sp->recs[(size_t)uid];
    r.hooks++;
    std::string full = text_of(r);
    size_t cmp = std::min<size_t>(full.size(), (size_t)LIM);
    if (txt.compare(0, cmp, full, 0, cmp) != 0 || txt.size() < cmp || ((int)full.size() <= LIM && txt.size() != full.size()))
        violation("hook", "hook_text", "hook text differs for uid " + std::to_string(uid) + ": " + txt.substr(0, 80) + " vs " + full.substr(0, 80));
    if (cur_uid != uid) violation("hook", "hook_thread", "hook for record " + std::to_string(uid) + " ran outside its log call");
    if (log.priority_ != r.prio || log.channel_id_ != r.ch || log.category_ != r.uid % 9 || log.identify_ != r.uid % 11 || log.code_line_ != r.uid)
        violation("hook", "hook_fields", fmt("hook fields of record %d: prio %d/%d channel %d/%d cat %d id %lld line %d", uid, log.priority_, r.prio, log.channel_id_, r.ch, log.category_, (long long)log.identify_, log.code_line_));
    if (sp->ch.size() > 1 && uid % 2 == 0)
    {
        // forward; also try the own channel, which must do nothing
        if (uid % 4 == 0) TransmitChannel(*lg, 0, 1, 1, log);
        Rec f = r;
        f.fwd = true; f.ch = 1; f.called = true;
        f.a_inv = n_start_ret; f.b_inv = n_stop_ret;
        in_progress[1]++;
        f.inv = now_step();
        TransmitChannel(*lg, 1, 1, 1, log);
        f.ret = now_step();
        in_progress[1]--;
        f.sinv_ret = n_start_inv; f.tinv_ret = n_stop_inv;
        fwds.push_back(f);
    }
}

static void sync_check(int ch, const Rec& me)
{
    // every completed, surely accepted record must be readable now
    if (in_progress[ch] != 0) return;
    for (size_t d = 0; d < sp->ch[(size_t)ch].dev.size(); d++)
    {
        if (me.prio < sp->ch[(size_t)ch].dev[d].prio) continue;
        std::string s = read_device(ch, (int)d);
        count("sync_checks");
        std::string want = line_of(me) + "\n";
        if (s.find(want) == std::string::npos)
        {
            violation("write_through", "write_through", fmt("record %d not in file of channel %d device %d after its log call returned and no other call was in progress", me.uid, ch, (int)d));
            continue;
        }
        // all others that returned
        std::unordered_set<int> have;
        for (auto& l : lines_of(s)) have.insert(uid_in(l));
        for (auto& r : sp->recs)
            if (r.called && r.ret && r.ch == ch && r.accepted && r.prio >= sp->ch[(size_t)ch].dev[d].prio && r.a_inv > r.tinv_ret && !have.count(r.uid))
                violation("write_through", "write_through", fmt("record %d (returned earlier) not in file of channel %d device %d while no call is in progress", r.uid, ch, (int)d));
    }
}

static void do_log(Rec& r)
{
    std::string full = text_of(r);
    std::string content = full;
    static const char* files[] = {"f00.cpp", "f01.cpp", "f02.cpp", "f03.cpp", "f04.cpp", "f05.cpp", "f06.cpp"};
    static const char* fns[] = {"fn0", "fn1", "fn2", "fn3", "fn4"};
    unsigned pfx = LOG_PREFIX_NULL;
    if (r.prefix)
    {
        pfx = LOG_PREFIX_FILE | LOG_PREFIX_FUNCTION;
        content = full.substr(full.find(") ") + 2);
    }
    r.tid = t_self->id;
    cur_uid = r.uid;
    uint32_t slept0 = t_self->sleeps;
    r.called = true;
    r.a_inv = n_start_ret; r.b_inv = n_stop_ret;
    in_progress[r.ch]++;
    r.inv = now_step();
    yield();
    {
        LogStream ls(*lg, r.ch, r.prio, r.uid % 9, r.uid % 11, files[r.uid % 7], 7, r.uid, fns[r.uid % 5], 3, pfx);
        r.accepted = ls.log_data_ != nullptr;
        size_t off = 0;
        for (int k = 0; k < r.pieces; k++)
        {
            size_t n = k + 1 == r.pieces ? content.size() - off : std::min(content.size() - off, content.size() / (size_t)r.pieces);
            if (k % 2) ls << content.substr(off, n);
            else ls.write_buffer(content.data() + off, (int)n);
            off += n;
            if (k + 1 < r.pieces) yield();
        }
    }
    r.ret = now_step();
    cur_uid = -1;
    in_progress[r.ch]--;
    r.sinv_ret = n_start_inv; r.tinv_ret = n_stop_inv;
    r.slept = (int)(t_self->sleeps - slept0);
    if (r.accepted)
    {
        returned_ok[r.ch]++;
        if (!sp->ch[(size_t)r.ch].sync && sp->mode != "life")
        {
            long long q = returned_ok[r.ch] - handed[r.ch];
            maxi("queued", q);
            if (q > RingBuffer::BUFFER_LEN && q > cap_worst)
            {
                cap_worst = q;
                cap_msg = fmt("%lld accepted records not yet handed over on channel %d, queue length %d", q, r.ch, (int)RingBuffer::BUFFER_LEN);
            }
        }
    }
    if (sp->ch[(size_t)r.ch].sync && (sp->mode == "sync" || sp->mode == "virt") && r.a_inv > r.tinv_ret && r.accepted) sync_check(r.ch, r);
}

static void do_start(const std::string& cfg, bool valid, bool no_thread, int how = 0) // how: 0 text, 1 restart, 2 file
{
    LifeEv e;
    e.start = true; e.valid = valid && !no_thread;
    // counts are provisional: an unsuccessful call does not count, fixed below
    bool may = e.valid || no_thread; // (a no_thread start may need no more threads than it gets)
    if (may) n_start_inv++;
    e.inv = now_step();
    bool started_before = n_start_ret > 0;
    if (no_thread)
    {
        static int which;
        which++;
        auto budget = std::make_shared<int>(which % 2);
        int self = t_self->id;
        hooks().fault = [budget, self](const char* op, const std::string&) { return t_self && t_self->id == self && strcmp(op, "pthread_create") == 0 && (*budget)-- <= 0; };
    }
    try { e.code = how == 0 ? ParseAndStartLogger(*lg, cfg) : how == 1 ? StartLogger(*lg) : LoadAndStartLogger(*lg, dir + "/cfg.yaml"); }
    catch (const std::exception& x)
    {
        e.code = -999;
        violation("retcode", "start_throws", std::string("starting the logger threw: ") + x.what());
    }
    if (no_thread) hooks().fault = nullptr;
    e.ret = now_step();
    e.ok = e.code == 0;
    if (how == 2 && sp->mode == "hot" && !e.ok && e.code != E_LOGGER_IN_USE) e.valid = false; // (the file is broken now and then)
    if (how == 1 && !started_before && !e.ok && e.code != E_LOGGER_IN_USE) e.valid = false;     // nothing was loaded yet
    if (e.ok) n_start_ret++;
    if (e.ok && !e.valid && !no_thread) violation("retcode", "bad_config_started", "an invalid configuration was started");
    if (!e.ok && may) n_start_inv--;
    life.push_back(e);
    count(e.ok ? "starts_ok" : "starts_refused");
}
static void do_stop()
{
    LifeEv e;
    e.start = false; e.valid = true;
    n_stop_inv++;
    e.inv = now_step();
    e.code = StopLogger(*lg);
    e.ret = now_step();
    e.ok = e.code == 0;
    if (e.ok) n_stop_ret++;
    // a refused stop must not be counted as invoked; calls that returned meanwhile used a conservative (larger) count,
    // which only makes the expectation weaker (may instead of must)
    if (!e.ok) n_stop_inv--;
    life.push_back(e);
    count(e.ok ? "stops_ok" : "stops_refused");
}

static void rewrite_config(int version)
{
    cfg_version = version;
    std::string p = dir + "/cfg.yaml";
    std::string t = config_text(version);
    switch (version % 5)
    {
    case 3: t = " - channel: 0\n   broken ???\n"; break;
    case 4: t = " - channel: 1\n"; break;
    default: break;
    }
    spit(p + ".tmp", t);
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = (time_t)(1000000000 + version);
    ts[0].tv_nsec = ts[1].tv_nsec = 0;
    utimensat(AT_FDCWD, (p + ".tmp").c_str(), ts, 0);
    syscall(SYS_rename, (p + ".tmp").c_str(), p.c_str());
}

static void sample_counters()
{
    static thread_local long long last[SHMLogger::MAX_CHANNEL_SIZE][CHANNEL_LOG_MAX_ID];
    static thread_local uint64_t ep = 0;
    if (ep != res().cur_seed) { memset(last, 0, sizeof last); ep = res().cur_seed; }
    for (int c = 0; c < (int)sp->ch.size(); c++)
    {
        static const int ids[] = {CHANNEL_LOG_PROCESSED, CHANNEL_LOG_PROCESSED_BYTES, CHANNEL_LOG_PUSH, CHANNEL_LOG_HOLD, CHANNEL_LOG_PRIORITY, CHANNEL_LOG_PRIORITY + 3, CHANNEL_LOG_PRIORITY + 6, CHANNEL_LOG_WAIT_COUNT, CHANNEL_LOG_MAX_PROC_QUE_SIZE};
        for (int i : ids)
        {
            long long v = GetChannelLog(*lg, c, (ChannelLogEnum)i);
            count("counter_samples");
            if (v < last[c][i]) violation("stats", "stats_monotone", fmt("channel %d counter %d went from %lld to %lld", c, i, last[c][i], v));
            last[c][i] = v;
        }
    }
}

static void run_ops(const std::vector<Op>& ops)
{
    for (auto& o : ops)
    {
        switch (o.t)
        {
        case OP_LOG: do_log(sp->recs[(size_t)o.a]); break;
        case OP_STOP: do_stop(); break;
        case OP_START:
            if (sp->mode == "hot") do_start("", true, false, o.a % 2 + 1);
            else do_start(config_text(0, true, o.a % 4), true, false, o.a / 4);
            break;
        case OP_START_BAD: do_start(o.a % 2 ? " - channel: 1\n" : " - channel: 0\n   nosuchkey: 3\n", false, false); break;
        case OP_START_NOTHREAD: do_start(config_text(0, true, o.a), true, true); break;
        case OP_SLEEP: vsleep((uint64_t)o.a * 1000000ULL); break;
        case OP_REWRITE: rewrite_config(o.a); break;
        case OP_SETCFG:
            SetDeviceConfig(*lg, o.a % (int)sp->ch.size(), 0, DEVICE_CFG_PRIORITY, PRIORITY_TRACE);
            break;
        case OP_SAMPLE: sample_counters(); break;
        }
    }
}

static void gen(Spec& s, Rng& r)
{
    const std::string& m = s.mode;
    s.sc = random_cfg(r);
    int nch = r.chance(1, 3) ? 2 : 1;
    if (m == "virt") { s.virt = true; nch = 2; s.virt_prio = (int)r.pick(std::vector<int>{0, 0, 2, 4}); }
    for (int c = 0; c < nch; c++)
    {
        ChSpec cs;
        cs.sync = m == "sync" ? (c == 0 || r.chance(1, 2)) : (m == "life" || m == "virt" || m == "hot" || m == "stat") ? r.chance(1, 3) : false;
        int nd = r.chance(1, 2) ? 1 : (int)r.range(2, 3);
        for (int d = 0; d < nd; d++) cs.dev.push_back({d == 0 ? 0 : (int)r.range(0, 5), false});
        if (m == "hot" && r.chance(1, 2)) { DevSpec d{(int)r.range(0, 3), false}; d.late = true; cs.dev.push_back(d); }
        s.ch.push_back(cs);
    }
    s.rotate = (m == "async" || m == "sync") && r.chance(1, 4);
    s.slow = m == "full" ? (int)r.range(2, 6) : r.chance(1, 8) ? 10 : 0;
    s.stop_early = r.chance(1, 2);
    if (m == "full") { s.sc.freeze_permyriad = std::max(s.sc.freeze_permyriad, 40); }
    int nthr = m == "full" ? (int)r.range(2, r.chance(1, 5) ? 14 : 6) : (int)r.range(1, r.chance(1, 4) ? 6 : 4);
    if (m == "sync" && nthr == 1 && r.chance(1, 2)) nthr = 2;
    int total = m == "full" ? (int)r.range(20, 90) : (int)r.range(4, r.chance(1, 3) ? 70 : 30);
    const bool wide = RingBuffer::BUFFER_LEN > 100 || LogData::LOG_SIZE > 2000; //builds with the sizes users have
    if (wide && (m == "full" || r.chance(1, 12))) total = RingBuffer::BUFFER_LEN + (int)r.range(20, RingBuffer::BUFFER_LEN * 2 / 3);
    if (wide) s.rotate = false; //more text than the backups hold
    int lencls = (int)r.below(wide ? 5 : 4);
    s.prog.resize((size_t)nthr);
    s.start_first = m != "life" || r.chance(3, 4);
    for (int i = 0; i < total; i++)
    {
        Rec x;
        x.uid = i;
        x.ch = (int)r.below((uint64_t)nch);
        if (m == "virt" && r.chance(2, 3)) x.ch = 0;
        x.prio = (int)r.range(0, 6);
        x.prefix = r.chance(1, 3);
        x.pieces = r.chance(1, 2) ? 1 : (int)r.range(2, 5);
        switch (lencls == 4 ? (r.chance(1, 3) ? 5 : (int)r.below(4)) : lencls == 3 ? (int)r.below(5) : lencls == 2 ? (int)r.below(3) : 0)
        {
        case 5: x.len = r.chance(1, 3) ? (int)(1 << r.range(9, 13)) + (int)r.range(-40, 40) : (int)r.range(300, LogData::LOG_SIZE); break;
        case 0: x.len = (int)r.range(0, 20); break;
        case 1: x.len = (int)r.range(50, 300); break;
        case 2: x.len = (int)r.range(0, 5); break;
        case 3: x.len = (int)r.range(LogData::LOG_SIZE - 50, LogData::LOG_SIZE + 5); break;
        default: x.len = (int)r.range(LogData::LOG_SIZE, LogData::LOG_SIZE * 3); break;
        }
        s.recs.push_back(x);
        s.prog[r.below((uint64_t)nthr)].push_back({OP_LOG, i});
    }
    auto insert = [&](Op o)
    {
        auto& p = s.prog[r.below((uint64_t)nthr)];
        p.insert(p.begin() + (long)r.below(p.size() + 1), o);
    };
    int nsleep = (int)r.below(6);
    for (int i = 0; i < nsleep; i++) insert({OP_SLEEP, (int)r.range(1, 60)});
    if (m == "life")
    {
        int n = (int)r.range(2, 8);
        for (int i = 0; i < n; i++)
        {
            insert({OP_STOP, 0});
            // from a text, again with the loaded configuration, or from a file
            int how = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : 2;
            insert({OP_START, (int)r.below(4) + 4 * how});
            if (r.chance(1, 4)) insert({OP_START, (int)r.below(4) + 4 * (r.chance(1, 2) ? how : (int)r.below(3))});
        }
        if (r.chance(1, 3)) insert({OP_START_BAD, (int)r.below(2)});
        if (r.chance(1, 6)) insert({OP_START_NOTHREAD, (int)r.below(4)});
    }
    if (m == "hot")
    {
        s.file_cfg = true;
        int n = (int)r.range(1, 5);
        for (int i = 0; i < n; i++)
        {
            insert({OP_REWRITE, i + 1});
            insert({OP_SLEEP, (int)r.range(1000, 7000)});
        }
        for (n = r.chance(1, 2) ? 0 : (int)r.range(1, 3); n > 0; n--)
        {
            insert({OP_STOP, 0});
            insert({OP_START, (int)r.below(2)});
            if (r.chance(1, 2)) insert({OP_START, (int)r.below(2)});
        }
    }
    if (m == "stat") for (int i = 0; i < 6; i++) insert({OP_SAMPLE, 0});
}

static std::string describe()
{
    std::string t;
    for (auto& c : sp->ch)
    {
        t += fmt("[%s prio", c.sync ? "sync" : "async");
        for (auto& d : c.dev) t += fmt(" %d%s", d.prio, d.late ? "late" : "");
        t += "] ";
    }
    t += fmt("threads=%d recs=%d stop_early=%d slow=%d rotate=%d virt=%d %s", (int)sp->prog.size(), (int)sp->recs.size(), (int)sp->stop_early, sp->slow, (int)sp->rotate, (int)sp->virt, cfg_str(sp->sc).c_str());
    return t;
}

static void judge()
{
    std::string ctx = " | " + describe();
    bool lifemode = sp->mode == "life";
    long long total_bytes_files = 0, total_bytes_tracked = 0;
    for (auto& kv : tracked) total_bytes_tracked += kv.second;
    // life-cycle return codes
    for (size_t i = 0; i < life.size(); i++)
    {
        auto& e = life[i];
        bool overlap = false;
        int st = 0, sp_ = 0;
        for (size_t j = 0; j < life.size(); j++)
        {
            if (i == j) continue;
            auto& o = life[j];
            if (!(o.ret <= e.inv || o.inv >= e.ret)) overlap = true;
            if (o.ok && o.ret <= e.inv) (o.start ? st : sp_)++;
        }
        if (overlap) continue;
        bool running = st > sp_;
        if (e.start && e.valid && e.ok == running) violation("retcode", "start_code", fmt("start returned %d while the logger was %s and no other start/stop was in progress", e.code, running ? "running" : "stopped") + ctx);
        if (e.start && !e.valid && e.ok && running) violation("retcode", "start_code", "start succeeded on a running logger" + ctx);
        if (!e.start && e.ok != running) violation("retcode", "stop_code", fmt("stop returned %d while the logger was %s and no other start/stop was in progress", e.code, running ? "running" : "stopped") + ctx);
    }
    {
        // at most one start between two stops
        for (auto& e : life)
        {
            if (!e.ok) continue;
            int sr = 0, ti = 0, si = 0, tr = 0;
            for (auto& o : life)
            {
                if (!o.ok) continue;
                if (o.start && o.ret <= e.ret) sr++;
                if (!o.start && o.inv <= e.ret) ti++;
                if (o.start && o.inv <= e.ret) si++;
                if (!o.start && o.ret <= e.ret) tr++;
            }
            if (sr - ti > 1) violation("retcode", "double_start", fmt("%d starts succeeded with only %d stops called", sr, ti) + ctx);
            if (tr > si) violation("retcode", "double_stop", fmt("%d stops succeeded with only %d starts called", tr, si) + ctx);
        }
    }
    std::vector<Rec> all = sp->recs;
    all.insert(all.end(), fwds.begin(), fwds.end());
    for (int c = 0; c < (int)sp->ch.size(); c++)
    {
        std::map<int, const Rec*> mine;
        for (auto& r : all) if (r.ch == c && r.called) mine[r.uid] = &r; // (uid unique per channel: forwarded ones come from channel 0)
        std::vector<std::vector<int>> seq;
        std::vector<std::map<int, int>> cnt;
        // lo: records that must be accounted for; hi: plus the log calls that were in progress during a start or stop
        long long acc = 0, accb = 0, accp[PRIORITY_MAX] = {0}, hi = 0, hib = 0, hip[PRIORITY_MAX] = {0}, hih = 0;
        std::set<int> delivered_any;
        for (int d = 0; d < (int)sp->ch[(size_t)c].dev.size(); d++)
        {
            std::string s = read_device(c, d);
            total_bytes_files += (long long)s.size();
            bool term = true;
            auto lines = lines_of(s, &term);
            if (!term) violation("torn", "unterminated", fmt("channel %d device %d: file does not end with a newline: ", c, d) + lines.back().substr(0, 100) + ctx);
            std::vector<int> q;
            std::map<int, int> n;
            for (auto& l : lines)
            {
                int u = uid_in(l);
                if (u < 0 || u >= (int)sp->recs.size()) { violation("torn", "garbage_line", fmt("channel %d device %d: unrecognisable line (%d bytes): ", c, d, (int)l.size()) + l.substr(0, 160) + ctx); continue; }
                if (!mine.count(u)) { violation("unknown", "unknown", fmt("channel %d device %d: record %d was never logged to this channel", c, d, u) + ctx); continue; }
                if (l != line_of(*mine[u]))
                {
                    std::string e = line_of(*mine[u]);
                    size_t k = 0;
                    while (k < l.size() && k < e.size() && l[k] == e[k]) k++;
                    violation("torn", "torn", fmt("channel %d device %d: record %d differs from what was logged at byte %d (got %d bytes, expected %d): ...", c, d, u, (int)k, (int)l.size(), (int)e.size()) + l.substr(k > 20 ? k - 20 : 0, 60) + ctx);
                    continue;
                }
                q.push_back(u);
                n[u]++;
                delivered_any.insert(u);
                count("records_checked");
            }
            seq.push_back(q);
            cnt.push_back(n);
        }
        for (int d = 0; d < (int)sp->ch[(size_t)c].dev.size(); d++)
        {
            auto& dv = sp->ch[(size_t)c].dev[(size_t)d];
            long long lines = 0, bytes = 0;
            for (auto& kv : mine)
            {
                const Rec& r = *kv.second;
                int n = cnt[(size_t)d].count(r.uid) ? cnt[(size_t)d][r.uid] : 0;
                lines += n;
                bytes += n * (long long)(line_of(r).size() + 1);
                bool pass = r.prio >= dv.prio;
                bool must = r.a_inv > r.tinv_ret && !(dv.late && sp->mode == "hot");
                bool mustnot = r.sinv_ret <= r.b_inv;
                std::string who = fmt("channel %d (%s) device %d: record %d (prio %d, thread %d, called %llu..%llu%s)", c, sp->ch[(size_t)c].sync ? "sync" : "async", d, r.uid, r.prio, r.tid, (unsigned long long)r.inv, (unsigned long long)r.ret, r.fwd ? ", forwarded" : "");
                if (n > 1) violation("dup", "dup", who + fmt(" written %d times", n) + ctx);
                if (!pass && n) violation("filter", "filter", who + " written although the device's priority excludes it" + ctx);
                if (pass && must && n == 0) violation(r.fwd ? "hook" : "missing", r.fwd ? "forward_missing" : "missing", who + (r.accepted ? " accepted" : " refused") + " while the logger was running but never written" + ctx);
                if (mustnot && n) violation("after_stop", "after_stop", who + " written although the logger was stopped during the whole call" + ctx);
                if (mustnot && r.slept) violation("after_stop", "stopped_call_slept", who + " blocked although the logger was stopped" + ctx);
                if (pass && !must && n == 0 && delivered_any.count(r.uid) && !dv.late) violation("missing", "partial", who + " was written to another device of the channel but not to this one" + ctx);
                if (must) count("must_records");
                else if (!mustnot) count("may_records");
                else count("mustnot_records");
            }
            // real-time order
            uint64_t maxinv = 0;
            int maxu = -1;
            for (int u : seq[(size_t)d])
            {
                const Rec& r = *mine[u];
                if (maxinv > r.ret) violation("order", "order", fmt("channel %d device %d: record %d (returned at %llu) appears after record %d (called at %llu)", c, d, u, (unsigned long long)r.ret, maxu, (unsigned long long)maxinv) + ctx);
                if (r.inv > maxinv) { maxinv = r.inv; maxu = u; }
                count("order_checked");
            }
            // same relative order in all devices
            if (d > 0)
            {
                std::map<int, int> pos;
                for (size_t i = 0; i < seq[0].size(); i++) pos[seq[0][i]] = (int)i;
                int last = -1;
                for (int u : seq[(size_t)d])
                {
                    if (!pos.count(u)) continue;
                    if (pos[u] < last) violation("order", "cross_device", fmt("channel %d: devices 0 and %d disagree on the order of record %d", c, d, u) + ctx);
                    last = pos[u];
                }
            }
            if (!dv.late || sp->mode != "hot")
            {
                long long gl = GetDeviceLog(*lg, c, d, DEVICE_LOG_TOTAL_WRITE_LINE), gb = GetDeviceLog(*lg, c, d, DEVICE_LOG_TOTAL_WRITE_BYTE);
                if (gl != lines || gb != bytes) violation("stats", "device_stats", fmt("channel %d device %d: counters say %lld lines %lld bytes, files hold %lld lines %lld bytes", c, d, gl, gb, lines, bytes) + ctx);
                count("device_counters_checked");
            }
        }
        for (auto& kv : mine)
        {
            const Rec& r = *kv.second;
            bool must = r.a_inv > r.tinv_ret;
            bool seen = delivered_any.count(r.uid) > 0;
            bool in = r.fwd ? seen : r.accepted;
            long long b = (long long)line_of(r).size() + 1;
            if (seen || (in && must)) { acc++; accb += b; accp[r.prio] += b; }
            if (in || (!must && (r.accepted || r.fwd))) { hi++; hib += b; hip[r.prio] += b; }
            if (in || !must) hih++;
        }
        long long h = GetChannelLog(*lg, c, CHANNEL_LOG_HOLD), p = GetChannelLog(*lg, c, CHANNEL_LOG_PUSH), q = GetChannelLog(*lg, c, CHANNEL_LOG_PROCESSED), qb = GetChannelLog(*lg, c, CHANNEL_LOG_PROCESSED_BYTES);
        if (q < acc || q > hi || qb < accb || qb > hib || p < q || p > hi || h < p || h > hih) violation("stats", "channel_stats", fmt("channel %d: %lld..%lld records (%lld..%lld bytes) accepted, counters hold=%lld push=%lld processed=%lld bytes=%lld", c, acc, hi, accb, hib, h, p, q, qb) + ctx);
        if (acc == hih) count("channel_counters_exact");
        for (int k = 0; k < PRIORITY_MAX; k++)
        {
            long long v = GetChannelLog(*lg, c, (ChannelLogEnum)(CHANNEL_LOG_PRIORITY + k));
            if (v < accp[k] || v > hip[k]) violation("stats", "priority_stats", fmt("channel %d priority %d: %lld..%lld bytes accepted, counter %lld", c, k, accp[k], hip[k], v) + ctx);
        }
        count("channel_counters_checked");
    }
    if (sp->virt)
    {
        long long hooked = 0, hb = 0;
        for (auto& r : sp->recs)
        {
            if (!r.called) continue;
            bool want = r.ch == 0 && r.prio >= sp->virt_prio && r.accepted;
            if (r.hooks != (want ? 1 : 0)) violation("hook", "hook_count", fmt("hook called %d times for record %d (channel %d prio %d, virtual device prio %d, accepted %d)", r.hooks, r.uid, r.ch, r.prio, sp->virt_prio, (int)r.accepted) + ctx);
            hooked += r.hooks;
            hb += r.hooks ? 1 : 0;
            count("hooks_checked");
        }
        long long gl = GetDeviceLog(*lg, 0, (int)sp->ch[0].dev.size(), DEVICE_LOG_TOTAL_WRITE_LINE);
        if (gl != hooked) violation("stats", "device_stats", fmt("virtual device: %lld hook calls, counter %lld", hooked, gl) + ctx);
    }
    // (calls cut off by a stop are accepted but never handed over)
    bool restarted = std::count_if(life.begin(), life.end(), [](const LifeEv& e) { return e.start && e.ok; }) > 1;
    if (cap_worst > 0 && !restarted && total_bytes_files == total_bytes_tracked) violation("capacity", "capacity", cap_msg + ctx);
    (void)lifemode;
}

static void run_case(long long idx)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed);
    Spec s;
    s.mode = opt().mode;
    gen(s, r);
    sp = &s;
    wipe(dir);
    life.clear(); tracked.clear(); handed.clear(); returned_ok.clear(); in_progress.clear(); fwds.clear();
    cap_worst = 0; cap_msg.clear();
    n_start_ret = n_stop_ret = n_start_inv = n_stop_inv = 0;
    cfg_version = 0;
    clock_set(1700000000LL + (long long)r.below(100000), (long long)r.below(1000000000));
    hooks().on_write = [](const std::string& p, const char* data, size_t n)
    {
        tracked[p] += (long long)n;
        for (int c = 0; c < (int)sp->ch.size(); c++) if (p == path_of(c, 0)) handed[c] += std::count(data, data + n, '\n');
        if (sp->slow && (int)S().rng.below((uint64_t)sp->slow) == 0 && t_self) vsleep(1000000ULL * (1 + S().rng.below(30)));
    };
    hooks().fault = nullptr;
    SetVirtualDevice(nullptr);
    lg = new Logger;
    episode_begin(seed, s.sc);
    if (s.file_cfg || s.mode == "life") rewrite_config(0);
    if (s.start_first)
    {
        if (s.file_cfg)
        {
            LifeEv e{true, false, true, now_step(), 0, 0};
            n_start_inv++;
            e.code = LoadAndStartLogger(*lg, dir + "/cfg.yaml");
            e.ret = now_step();
            e.ok = e.code == 0;
            n_start_ret++;
            life.push_back(e);
        }
        else do_start(config_text(0), true, false);
        if (!life.back().ok) violation("retcode", "first_start", fmt("first start failed with %d", life.back().code));
    }
    if (s.virt) SetVirtualDevice(hook_fn);
    if (s.rotate)
        for (int c = 0; c < (int)s.ch.size(); c++)
            for (int d = 0; d < (int)s.ch[(size_t)c].dev.size(); d++)
                if (r.chance(2, 3))
                {
                    SetDeviceConfig(*lg, c, d, DEVICE_CFG_FILE_ROLLBACK, 100);
                    SetDeviceConfig(*lg, c, d, DEVICE_CFG_FILE_LIMIT_SIZE, (long long)r.range(200, 2000));
                }
    {
        std::vector<std::thread> th;
        for (auto& p : s.prog) th.emplace_back([&p] { run_ops(p); });
        if (s.stop_early && s.mode != "life" && s.mode != "sync")
        {
            int k = (int)r.below(60);
            for (int i = 0; i < k; i++) yield();
            if (r.chance(1, 3)) vsleep(1000000ULL * r.below(50));
            do_stop();
        }
        for (auto& t : th) t.join();
    }
    if (s.mode == "life")
    {
        // the logger must still work: bring it to a known state, log once more on every channel
        int st = 0;
        for (auto& e : life) if (e.ok) st += e.start ? 1 : -1;
        if (st > 0 && r.chance(1, 2)) do_stop(), st = 0;
        if (st == 0) do_start(config_text(0, true, (int)r.below(4)), true, false);
        size_t base = s.recs.size();
        for (int c = 0; c < (int)s.ch.size(); c++)
        {
            Rec x;
            x.uid = (int)base + c; x.ch = c; x.prio = 6; x.prefix = 0; x.pieces = 1; x.len = 8;
            s.recs.push_back(x);
        }
        for (int c = 0; c < (int)s.ch.size(); c++) do_log(s.recs[base + (size_t)c]);
        do_stop();
    }
    else
    {
        int st = 0;
        for (auto& e : life) if (e.ok) st += e.start ? 1 : -1;
        if (st > 0) do_stop();
    }
    SetVirtualDevice(nullptr);
    uint64_t steps = S().step, sw = S().switches, th = S().trace_hash;
    judge();
    delete lg;
    lg = nullptr;
    episode_end();
    hooks().on_write = nullptr;
    count("episodes");
    count("steps", (long long)steps);
    count("switches", (long long)sw);
    count("stalls_injected", (long long)S().stalls);
    count("lock_waits", (long long)S().lock_blocks);
    vp::distinct(th);
    if (idx % 97 == 3) sample(describe() + fmt(" steps=%llu switches=%llu trace=%016llx", (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)th));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    dir = opt().scratch + "/d";
    mkdir(dir.c_str(), 0755);
    hooks().guard_paths = true;
    watch_rings(&lg);
    // warm up anything lazily initialised outside an episode
    { Logger l; (void)l; }
    run_cases(run_case);
    wipe(dir);
    finish();
    return 0;
}
