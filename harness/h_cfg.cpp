// Configuration text: arbitrary texts are accepted or rejected cleanly (mode fuzz, C09), texts within the documented
// grammar mean what the manual says in every layout and single faults are rejected with their line (mode model, C10).
#define VP_PLAIN_ATOMICS
#define FN_LOG_MAX_CHANNEL_SIZE 4
#include "vp_fnlog.h"
#include "vp_resolve.h"

using namespace FNLog;
using namespace vp;
typedef long long ll;
typedef unsigned long long ull;

static std::string dir, out_path;
static off_t out_pos;
static std::string cur;

// ---- semantic model -----------------------------------------------------------------------------------
struct MDev { int in = 0, out = 0; ll f[DEVICE_CFG_MAX_ID] = {}; std::string path, file; };
struct MChan { int type = CHANNEL_ASYNC; ll f[CHANNEL_CFG_MAX_ID] = {}; std::vector<MDev> dev; };
struct MCfg { bool hot = false; ll shm = 0; std::string name, desc; std::vector<MChan> chan; };

// one line of the configuration: nesting level, key, value (already in its written form), or a comment
struct Item { int level; std::string key, val; bool array = false; bool raw = false; int wrap = -1; };
struct Gen
{
    Rng& r;
    MCfg m;
    std::vector<Item> items;
    std::vector<std::pair<std::string, std::string>> words; // written form -> meaning, usable as a whole value or a list element
    bool with_shm;
    bool over = false; // names longer than they may be
    Gen(Rng& rr, bool shm) : r(rr), with_shm(shm) {}
    void item(int lv, const std::string& k, const std::string& v, bool arr = false, int wrap = -1) { Item i; i.level = lv; i.key = k; i.val = v; i.array = arr; i.wrap = wrap; items.push_back(i); }
    // a number in written form
    std::string num(ll v)
    {
        std::vector<std::string> c;
        for (auto& w : words) if (w.second == std::to_string(v)) c.push_back(w.first);
        if (!c.empty() && r.chance(2, 3)) { count("words_used"); return r.pick(c); }
        return std::to_string(v);
    }
    ll number(bool small = false)
    {
        if (!words.empty() && r.chance(1, 3))
        {
            auto& w = r.pick(words);
            if (w.second.size() < 9 && w.second.find_first_not_of("0123456789") == std::string::npos) return atoll(w.second.c_str());
        }
        switch (r.below(6))
        {
        case 0: return 0;
        case 1: return small ? r.range(0, 100) : (ll)(r.next() >> r.below(64));
        case 2: return small ? r.range(0, 9) : -(ll)(r.next() >> r.range(1, 63));
        default: return r.range(0, 64);
        }
    }
    std::string list(ull& mask)
    {
        mask = 0;
        std::string s;
        int n = (int)r.range(1, 8);
        for (int i = 0; i < n; i++)
        {
            if (i) s += r.pick(std::vector<std::string>{",", ", ", " , ", ",  ", " ,"});
            int a = (int)r.below(64);
            if (!words.empty() && r.chance(1, 3))
            {
                auto& w = r.pick(words);
                if (w.second.find_first_not_of("0123456789, ") == std::string::npos)
                {
                    // a word that stands for numbers of a list
                    std::string t = w.second;
                    bool ok = true;
                    ull mm = 0;
                    size_t p = 0;
                    while (p < t.size())
                    {
                        if (!isdigit((unsigned char)t[p])) { p++; continue; }
                        size_t e = p;
                        while (e < t.size() && isdigit((unsigned char)t[e])) e++;
                        if (e - p > 6) { ok = false; break; }
                        int v = atoi(t.c_str() + p);
                        if (v < 64) mm |= 1ULL << v;
                        p = e;
                    }
                    if (ok) { mask |= mm; s += w.first; count("words_used"); continue; }
                }
            }
            if (r.chance(1, 3))
            {
                int b = (int)r.range(a, 63);
                for (int k = a; k <= b; k++) mask |= 1ULL << k;
                bool back = r.chance(1, 6); // the greater end first
                if (back) count("ranges_backwards");
                s += std::to_string(back ? b : a) + r.pick(std::vector<std::string>{"-", " - ", "- ", " -", "\t-", "-\t", "\t- \t"}) + std::to_string(back ? a : b);
            }
            else if (r.chance(1, 15)) s += std::to_string(r.range(64, 100000)); // no such bit
            else { mask |= 1ULL << a; s += std::to_string(a); }
        }
        return s;
    }
    std::string token(int lo, int hi, bool path = false)
    {
        if (over && r.chance(1, 2)) { lo = r.chance(1, 2) ? hi - 1 : lo; hi += r.chance(1, 2) ? 3 : 400; }
        static const char set[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789__--..%%~:,$";
        static const char pset[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789__--..//";
        int n = (int)r.range(lo, hi);
        std::string s;
        for (int i = 0; i < n; i++)
        {
            char c = path ? pset[r.below(sizeof pset - 1)] : set[r.below(sizeof set - 1)];
            if (i && c == '$' && r.chance(9, 10)) c = 'x';
            s += c;
        }
        if (s[0] == '-' || s[0] == ':') s[0] = 'q';
        // words must not be replaced by accident
        for (auto& w : words) { std::string k = w.first; size_t p; while (!k.empty() && (p = s.find(k[0] == '$' ? std::string("$") : k)) != std::string::npos) s[p] = 'z'; }
        return s;
    }
    std::string bit_word(bool v)
    {
        return v ? r.pick(std::vector<std::string>{"true", "TRUE", "True", "1"}) : r.pick(std::vector<std::string>{"false", "FALSE", "False", "0"});
    }
    std::string prio_word(ll p)
    {
        static const char* w[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};
        std::string s = w[p];
        if (r.chance(1, 5)) for (auto& c : s) c = (char)toupper((unsigned char)c);
        return s;
    }
    void rules(ll* f, int lv, std::vector<Item>& to, bool dev)
    {
        int P = dev ? (int)DEVICE_CFG_PRIORITY : (int)CHANNEL_CFG_PRIORITY;
        auto put = [&](const std::string& k, const std::string& v, int wrap = -1) { Item i; i.level = lv; i.key = k; i.val = v; i.wrap = wrap; to.push_back(i); };
        if (r.chance(1, 2)) { ll p = (ll)r.below(7); f[P] = p; put("priority", prio_word(p)); }
        for (int k = 0; k < 2; k++)
        {
            std::string n = k ? "identify" : "category";
            int F0 = dev ? (k ? (int)DEVICE_CFG_IDENTIFY : (int)DEVICE_CFG_CATEGORY) : (k ? (int)CHANNEL_CFG_IDENTIFY : (int)CHANNEL_CFG_CATEGORY);
            int F1 = dev ? (k ? (int)DEVICE_CFG_IDENTIFY_EXTEND : (int)DEVICE_CFG_CATEGORY_EXTEND) : (k ? (int)CHANNEL_CFG_IDENTIFY_EXTEND : (int)CHANNEL_CFG_CATEGORY_EXTEND);
            int FM = dev ? (k ? (int)DEVICE_CFG_IDENTIFY_MASK : (int)DEVICE_CFG_CATEGORY_MASK) : (k ? (int)CHANNEL_CFG_IDENTIFY_MASK : (int)CHANNEL_CFG_CATEGORY_MASK);
            if (r.chance(1, 3)) { ll v = number(); f[F0] = v; put(n, num(v)); }
            if (r.chance(1, 3)) { ll v = number(); f[F1] = v; put(n + "_extend", num(v)); }
            if (r.chance(1, 3))
            {
                ull u;
                std::string l;
                switch (r.below(4))
                {
                case 0: l = list(u); f[FM] = (ll)u; put(n + "_wlist", l, (int)r.below(4)); break;
                case 1: l = list(u); f[FM] = (ll)~u; put(n + "_blist", l, (int)r.below(4)); break;
                case 2: u = r.next() >> r.below(64); f[FM] = (ll)u; put(n + "_wmask", std::to_string(u)); break;
                default: u = r.next() >> r.below(64); f[FM] = (ll)~u; put(n + "_bmask", std::to_string(u)); break;
                }
            }
        }
    }
    void device(MChan& c, int id)
    {
        MDev d;
        std::vector<Item> v;
        auto put = [&](const std::string& k, const std::string& x, int wrap = -1) { Item i; i.level = 2; i.key = k; i.val = x; i.wrap = wrap; v.push_back(i); };
        static const char* names[] = {"null", "screen", "file", "udp", "virtual", "empty"};
        static const int outs[] = {DEVICE_OUT_NULL, DEVICE_OUT_SCREEN, DEVICE_OUT_FILE, DEVICE_OUT_UDP, DEVICE_OUT_VIRTUAL, DEVICE_OUT_EMPTY};
        bool wr_out = r.chance(9, 10);
        int o = (int)r.below(6);
        if (wr_out)
        {
            d.out = outs[o];
            std::string n = names[o];
            if (r.chance(1, 8)) n[0] = (char)toupper((unsigned char)n[0]);
            put("out_type", n);
        }
        if (r.chance(1, 10)) { d.in = DEVICE_IN_UDP; put("in_type", r.pick(std::vector<std::string>{"udp", "UDP", "Udp"})); }
        else if (r.chance(1, 20)) put("in_type", "null");
        rules(d.f, 2, v, true);
        if (r.chance(1, 4)) { ll n = r.chance(1, 5) ? (ll)r.below(1000000) : r.range(0, 500); d.f[DEVICE_CFG_FILE_LIMIT_SIZE] = n * 1000 * 1000; std::string x = num(n), u = r.chance(1, 3) ? r.pick(std::vector<std::string>{" m", " M", "m", " m byte"}) : ""; if (u == "m" && x.back() != '}' && x.find_first_not_of("0123456789") != std::string::npos) u = " m"; // a letter glued to a word makes another word
            put("limit_size", x + u); }
        if (r.chance(1, 4)) { ll n = r.range(0, 12); d.f[DEVICE_CFG_FILE_ROLLBACK] = n; put("rollback", num(n)); }
        if (r.chance(1, 5)) { bool b = r.chance(1, 2); d.f[DEVICE_CFG_FILE_ROLLDAILY] = b; put("rolldaily", bit_word(b)); }
        if (r.chance(1, 5)) { bool b = r.chance(1, 2); d.f[DEVICE_CFG_FILE_ROLLHOURLY] = b; put("rollhourly", bit_word(b)); }
        if (r.chance(1, 5)) { bool b = r.chance(1, 2); d.f[DEVICE_CFG_FILE_STUFF_UP] = b; put("stuff_up", bit_word(b)); }
        if (r.chance(1, 3)) { d.path = r.chance(1, 3) ? token(1, 198, true) : r.pick(std::vector<std::string>{"./", "./log/$PNAME_$YEAR", "/tmp/x", "a/b/c/"}); if (r.chance(1, 12)) d.path.clear(); put("path", d.path, d.path.empty() ? (int)r.below(3) : -1); }
        if (r.chance(1, 3)) { d.file = r.chance(1, 3) ? token(1, 48) : r.pick(std::vector<std::string>{"$PNAME", "$PNAME_error", "${PNAME}_$YEAR$MON$DAY", "f"}); if (r.chance(1, 12)) d.file.clear(); put("file", d.file, d.file.empty() ? (int)r.below(3) : -1); }
        bool en = r.chance(1, 2);
        bool wr_dis = en || r.chance(1, 2);
        d.f[DEVICE_CFG_ABLE] = en;
        if (wr_dis) put("disable", bit_word(!en));
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
        if (r.chance(1, 5))
        {
            int p = (int)r.range(1, 65535);
            std::string a;
            unsigned char ip[4];
            if (en && r.chance(1, 3)) { a = r.chance(1, 2) ? "localhost" : "host-a.example"; if (a == "localhost") { ip[0] = 127; ip[1] = 0; ip[2] = 0; ip[3] = 1; } else { ip[0] = 10; ip[1] = 11; ip[2] = 12; ip[3] = 13; } }
            else { for (auto& b : ip) b = (unsigned char)r.range(1, 254); a = fmt("%d.%d.%d.%d", ip[0], ip[1], ip[2], ip[3]); }
            unsigned int x;
            memcpy(&x, ip, 4);
            d.f[DEVICE_CFG_UDP_IP] = (ll)x;
            d.f[DEVICE_CFG_UDP_PORT] = (ll)htons((unsigned short)p);
            put("udp_addr", a + r.pick(std::vector<std::string>{":", ": ", " :", " : "}) + std::to_string(p)); // last: a host name is resolved for enabled devices only
        }
        item(1, "device", std::to_string(id), r.chance(3, 4));
        for (auto& i : v) items.push_back(i);
        c.dev.push_back(d);
    }
    void channel(int id)
    {
        MChan c;
        std::vector<Item> v;
        if (r.chance(2, 3)) { bool s = r.chance(1, 2); c.type = s ? CHANNEL_SYNC : CHANNEL_ASYNC; Item i; i.level = 1; i.key = "sync"; i.val = s ? r.pick(std::vector<std::string>{"sync", "SYNC", "sync"}) : r.pick(std::vector<std::string>{"async", "ASYNC", "null"}); v.push_back(i); }
        rules(c.f, 1, v, false);
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
        item(0, "channel", std::to_string(id), r.chance(3, 4));
        for (auto& i : v) items.push_back(i);
        int nd = r.chance(1, 40) ? (int)Channel::MAX_DEVICE_SIZE : (int)r.range(0, 4);
        for (int d = 0; d < nd; d++) device(c, d);
        m.chan.push_back(c);
    }
    void define_words()
    {
        int n = (int)r.range(1, 3);
        for (int k = 0; k < n; k++)
        {
            static const char* names[] = {"LIST_____________", "NUM_________", "TAG_____________", "W___________", "X0_______________"};
            if (r.chance(1, 2))
            {
                std::string name = names[r.below(5)] + std::string(1, (char)('A' + r.below(26)));
                bool dup = false;
                for (auto& w : words) if (w.first.find(name) != std::string::npos || name.find(w.first) != std::string::npos) dup = true;
                if (dup) continue;
                std::string val;
                if (r.chance(1, 2)) val = std::to_string(r.below(1000));
                else for (int i = (int)r.range(1, 4); i; i--) val += std::to_string(r.below(64)) + (i > 1 ? r.pick(std::vector<std::string>{",", ", "}) : "");
                std::string mean = val;
                // through a word that was defined before
                if (!words.empty() && r.chance(1, 4)) { auto& w = r.pick(words); if (w.first.size() <= name.size()) { val = w.first; mean = w.second; } }
                if (val.size() > name.size()) continue;
                item(0, r.chance(1, 2) ? "define" : "def", name + std::string((size_t)r.range(1, 4), ' ') + val, r.chance(3, 4));
                words.push_back({name, mean});
            }
            else
            {
                std::string s;
                int c = (int)r.range(1, 4);
                std::vector<std::pair<std::string, std::string>> nw;
                for (int i = 0; i < c; i++)
                {
                    std::string v = r.pick(std::vector<std::string>{"id", "idx", "idx_1", "tag0", "ai", "ai_trace", "k", "mask_all", "Ab", "Zz9", "_q", "zA_0", "a", "A", "z", "Z"}) ;
                    bool dup = false;
                    for (auto& w : words) if (w.first == "$" + v) dup = true;
                    for (auto& w : nw) if (w.first == "$" + v) dup = true;
                    if (dup) continue;
                    std::string val = std::to_string(r.below(v.size() == 1 ? 64 : 1000)).substr(0, v.size() + 1);
                    if (!s.empty()) s += r.pick(std::vector<std::string>{",", ", ", " , "});
                    s += v + r.pick(std::vector<std::string>{"=", " = ", "= ", " ="}) + val;
                    nw.push_back({"$" + v, val});
                    nw.push_back({"${" + v + "}", val});
                }
                if (s.empty()) continue;
                item(0, r.chance(1, 2) ? "var" : "variable", s, r.chance(3, 4), r.chance(1, 2) ? 0 : 2);
                for (auto& w : nw) words.push_back(w);
            }
        }
    }
    void build()
    {
        if (r.chance(1, 2)) define_words();
        std::vector<int> g;
        if (r.chance(1, 3)) g.push_back(0);
        if (r.chance(1, 3)) g.push_back(1);
        if (r.chance(1, 3)) g.push_back(2);
        if (with_shm && r.chance(1, 6)) g.push_back(3);
        int n = r.chance(1, 10) ? (int)Logger::MAX_CHANNEL_SIZE : (int)r.range(1, 3);
        int c = 0;
        while (c < n || !g.empty())
        {
            if (!g.empty() && (c >= n || r.chance(1, 2)))
            {
                size_t k = r.below(g.size());
                switch (g[k])
                {
                case 0: m.hot = r.chance(1, 2); item(0, "hot_update", bit_word(m.hot), r.chance(1, 2)); break;
                case 1: m.name = token(1, 249); item(0, "logger_name", m.name, r.chance(1, 2), (int)r.below(3) == 0 ? 1 : 0); break;
                case 2: m.desc = token(1, 49); item(0, "logger_desc", m.desc, r.chance(1, 2), (int)r.below(3) == 0 ? 1 : 0); break;
                default: m.shm = r.range(1, INT32_MAX); item(0, "shm_key", r.chance(1, 2) ? fmt("0x%llx", (ull)m.shm) : std::to_string(m.shm), r.chance(1, 2)); break;
                }
                g.erase(g.begin() + (long)k);
                continue;
            }
            if (r.chance(1, 8)) define_words();
            channel(c++);
        }
    }
};

// ---- layout -------------------------------------------------------------------------------------------
struct Layout { int ind[3]; int eol; bool bom, tabs, comments, blanks, final_eol, quotes; };
static Layout gen_layout(Rng& r)
{
    Layout l;
    l.ind[0] = (int)r.below(4);
    l.ind[1] = l.ind[0] + (int)r.range(1, 6);
    l.ind[2] = l.ind[1] + (int)r.range(1, 6);
    l.eol = (int)r.below(4);
    l.bom = r.chance(1, 8);
    l.tabs = r.chance(1, 6);
    l.comments = r.chance(1, 2);
    l.blanks = r.chance(1, 2);
    l.final_eol = r.chance(2, 3);
    l.quotes = r.chance(1, 2);
    return l;
}
static std::string blank(Rng& r, int n, bool tabs)
{
    std::string s;
    while (n-- > 0) s += tabs && r.chance(1, 2) ? '\t' : ' ';
    return s;
}
static std::string eol(Rng& r, const Layout& l)
{
    switch (l.eol)
    {
    case 0: return "\n";
    case 1: return "\r\n";
    case 2: return "\r";
    default: return r.chance(1, 2) ? "\n" : "\r\n";
    }
}
static std::string comment(Rng& r)
{
    return "#" + r.pick(std::vector<std::string>{"", " text", " channel: 7", "# - device: 0", " \"quote", " [ { ", " key: value # more", " \xe5\x8f\x98\xe9\x87\x8f", " disable: false"});
}
// returns the text; line[i] = number of the line of item i
static std::string render(Rng& r, const std::vector<Item>& items, Layout l, std::vector<int>& line)
{
    std::string s;
    int no = 1;
    if (l.bom) s += "\xef\xbb\xbf";
    line.clear();
    for (size_t k = 0; k < items.size(); k++)
    {
        const Item& i = items[k];
        while (r.chance(1, 6) && (l.comments || l.blanks))
        {
            if (l.comments && r.chance(1, 2)) s += blank(r, (int)r.below(12), l.tabs) + comment(r);
            else s += blank(r, (int)r.below(5), l.tabs);
            s += eol(r, l);
            no++;
        }
        line.push_back(no);
        // every channel and every device may have its own indentation
        if (!i.raw && i.key == "channel" && i.level == 0) { l.ind[1] = l.ind[0] + (int)r.range(1, 6); l.ind[2] = l.ind[1] + 1; }
        if (!i.raw && i.key == "device" && i.level == 1) l.ind[2] = l.ind[1] + (int)r.range(1, 6);
        std::string t = blank(r, l.ind[i.level], l.tabs);
        if (i.raw) t += i.val;
        else
        {
            if (i.array) t += "-" + blank(r, (int)r.below(3), l.tabs);
            t += i.key;
            if (r.chance(1, 5)) t += blank(r, (int)r.range(1, 3), l.tabs);
            t += ":";
            t += blank(r, (int)r.below(4), l.tabs);
            int w = i.wrap;
            if (w < 0) w = l.quotes && r.chance(1, 4) && !i.val.empty() ? (int)r.range(1, 3) : 0;
            if (i.val.find_first_of("[]{}\"") != std::string::npos && (w == 2 || w == 3 || w == 1)) w = i.val.find('"') == std::string::npos ? (i.val.find("{") != std::string::npos || i.val.find('[') != std::string::npos ? 1 : w) : 0;
            if (w == 0 && !i.val.empty() && (i.val[0] == '[' || i.val[0] == '{' || i.val[0] == '"')) w = 1;
            switch (w)
            {
            case 1: t += "\"" + blank(r, (int)r.below(2), l.tabs) + i.val + blank(r, (int)r.below(2), l.tabs) + "\""; break;
            case 2: t += "{" + blank(r, (int)r.below(2), l.tabs) + i.val + blank(r, (int)r.below(2), l.tabs) + "}"; break;
            case 3: t += "[" + blank(r, (int)r.below(2), l.tabs) + i.val + blank(r, (int)r.below(2), l.tabs) + "]"; break;
            default: t += i.val;
            }
            if (r.chance(1, 4)) t += blank(r, (int)r.range(1, 4), l.tabs);
            if (l.comments && r.chance(1, 5)) t += (r.chance(1, 2) ? " " : "") + comment(r);
        }
        s += t;
        if (k + 1 < items.size() || l.final_eol) { s += eol(r, l); no++; }
    }
    if (l.final_eol && r.chance(1, 6)) s += comment(r);
    return s;
}

// ---- faults -------------------------------------------------------------------------------------------
static bool has_level(const std::vector<Item>& v, size_t pos, int lv)
{
    // may an item of level lv stand at pos?
    if (lv == 0) return true;
    for (size_t i = pos; i-- > 0;)
    {
        if (v[i].raw) continue;
        if (v[i].level < lv)
        {
            if (lv == 1) return v[i].level == 0 && v[i].key == "channel";
            return v[i].level == 1 && v[i].key == "device";
        }
    }
    return false;
}
// inserts one fault; returns index of the offending item, -1 if not applicable
static int add_fault(Rng& r, Gen& g, std::string& what)
{
    std::vector<Item>& v = g.items;
    Item i;
    int kind = (int)r.below(14);
    i.array = r.chance(1, 3);
    auto place = [&](int lv) -> int
    {
        std::vector<size_t> ok;
        for (size_t p = 0; p <= v.size(); p++) if (has_level(v, p, lv)) ok.push_back(p);
        if (ok.empty()) return -1;
        size_t p = r.pick(ok);
        i.level = lv;
        v.insert(v.begin() + (long)p, i);
        return (int)p;
    };
    auto nth = [&](const char* key) -> int
    {
        std::vector<int> ok;
        for (size_t p = 0; p < v.size(); p++) if (!v[p].raw && v[p].key == key) ok.push_back((int)p);
        return ok.empty() ? -1 : r.pick(ok);
    };
    switch (kind)
    {
    case 0: what = "unknown key"; i.key = r.pick(std::vector<std::string>{"zone", "key", "name", "xpriority", "max", "type", "wmask", "abc", "enable", "ttl"}); i.val = "1"; return place((int)r.below(3));
    case 1: what = "key that does not start with a lower case letter"; i.key = r.pick(std::vector<std::string>{"Priority", "1priority", "_file", "CHANNEL", "$x", "?"}); i.val = "1"; return place((int)r.below(3));
    case 2: what = "device key in a channel"; i.key = r.pick(std::vector<std::string>{"path", "file", "out_type", "in_type", "disable", "rollback", "rolldaily", "rollhourly", "limit_size", "stuff_up", "udp_addr"}); i.val = "file"; return place(1);
    case 3: what = "global or channel key in a device"; i.key = r.pick(std::vector<std::string>{"sync", "hot_update", "logger_name", "logger_desc", "shm_key", "define", "var", "channel", "device"}); i.val = "0"; return place(2);
    case 4: what = "channel or device key at global level"; i.key = r.pick(std::vector<std::string>{"sync", "priority", "category", "disable", "path", "device", "out_type"}); i.val = "0"; return place(0);
    case 5:
    {
        what = "channel number not consecutive";
        int p = nth("channel");
        if (p < 0) return -1;
        int n = atoi(v[(size_t)p].val.c_str());
        int x = r.pick(std::vector<int>{n + 1, n - 1, n + 10, 999, -1});
        v[(size_t)p].val = std::to_string(x);
        return p;
    }
    case 6:
    {
        what = "device number not consecutive";
        int p = nth("device");
        if (p < 0) return -1;
        int n = atoi(v[(size_t)p].val.c_str());
        int x = r.pick(std::vector<int>{n + 1, n - 1, n + 10, 999, -1});
        v[(size_t)p].val = std::to_string(x);
        return p;
    }
    case 7:
    {
        what = "too many channels";
        int at = -1;
        int n = 0;
        for (auto& k : v) if (!k.raw && k.key == "channel") n++;
        while (n <= (int)Logger::MAX_CHANNEL_SIZE)
        {
            Item c;
            c.level = 0; c.key = "channel"; c.val = std::to_string(n++); c.array = true;
            v.push_back(c);
            at = (int)v.size() - 1;
        }
        return at;
    }
    case 8:
    {
        what = "too many devices";
        // at the last channel
        int n = 0;
        for (auto& k : v) { if (k.raw) continue; if (k.key == "channel") n = 0; else if (k.key == "device") n++; }
        int at = -1;
        while (!v.empty() && !v.back().raw && v.back().level == 0 && v.back().key != "channel") v.pop_back();
        if (v.empty() || (v.back().level == 0 && v.back().key != "channel")) return -1;
        while (n <= (int)Channel::MAX_DEVICE_SIZE)
        {
            Item c;
            c.level = 1; c.key = "device"; c.val = std::to_string(n++); c.array = true;
            v.push_back(c);
            at = (int)v.size() - 1;
        }
        return at;
    }
    case 9:
    {
        what = "replacement longer than its name";
        bool d = r.chance(1, 2);
        i.key = d ? "define" : "var";
        i.val = d ? "ABCD 12345" : r.pick(std::vector<std::string>{"id=1234", "a=1,id =12345", "abc = 12345"});
        i.wrap = 0;
        int p = place(0);
        return p;
    }
    case 10:
    {
        what = "unclosed value";
        int p = (int)r.below(v.size());
        if (v[(size_t)p].raw) return -1;
        Item& k = v[(size_t)p];
        std::string val = k.val;
        for (auto& c : val) if (c == '"' || c == ']' || c == '}') c = 'x';
        k.raw = true;
        k.val = k.key + ": " + r.pick(std::vector<std::string>{"\"", "[", "{", "[ ", "\" "}) + val + r.pick(std::vector<std::string>{"", " # comment", "#\"]}", "  "});
        return p;
    }
    case 13:
    {
        // the address comes last in its device, so a device that is enabled is known to be
        what = "enabled device with an address that has no port or host";
        std::vector<int> ok;
        int en = -1;
        bool in_udp = false;
        for (size_t p = 0; p < v.size(); p++)
        {
            if (v[p].raw) continue;
            if (v[p].key == "device" || v[p].key == "channel") { en = -1; in_udp = false; }
            if (v[p].key == "in_type") in_udp = tolower((unsigned char)v[p].val[0]) == 'u';
            if (v[p].key == "disable") en = v[p].val == "0" || tolower((unsigned char)v[p].val[0]) == 'f';
            if (v[p].key == "udp_addr" && en == 1) ok.push_back(in_udp ? -1 - (int)p : (int)p);
        }
        if (ok.empty()) return -1;
        int p = r.pick(ok);
        bool receives = p < 0; // (a receiving device may leave out the host)
        if (p < 0) p = -1 - p;
        std::vector<std::string> bad = {"1.2.3.4", "1.2.3.4:", "10.0.0.1:0", "localhost", "localhost: "};
        if (!receives) for (auto x : {"0.0.0.0:99", ":8080", "no-such-host.example:8080", "0.0.0.0: 1"}) bad.push_back(x);
        v[(size_t)p].val = r.pick(bad);
        v[(size_t)p].wrap = 0;
        return p;
    }
    case 11:
    {
        what = "unknown type";
        int p = nth("out_type");
        if (p < 0) return -1;
        v[(size_t)p].val = r.pick(std::vector<std::string>{"xfile", "", "zzz", "1", "pipe", "-"});
        v[(size_t)p].wrap = 0;
        return p;
    }
    default:
    {
        what = "key without colon or value definition without '='";
        if (r.chance(1, 2))
        {
            i.raw = true;
            i.val = r.pick(std::vector<std::string>{"priority debug", "category", "priority ; x", "category=3"});
            return place((int)r.range(1, 2));
        }
        i.key = "var";
        i.val = r.pick(std::vector<std::string>{"abc", "1x=2", "a=1, b", "=3"});
        i.wrap = 0;
        return place(0);
    }
    }
}

// ---- harness ------------------------------------------------------------------------------------------
static std::string take_out()
{
    fflush(stdout);
    std::string s;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, out_path.c_str(), O_RDONLY, 0);
    char buf[65536];
    long n;
    while ((n = syscall(SYS_pread64, fd, buf, sizeof buf, out_pos)) > 0) { s.append(buf, (size_t)n); out_pos += n; }
    syscall(SYS_close, fd);
    if (out_pos > (8 << 20)) { ftruncate(1, 0); out_pos = 0; }
    return s;
}
static int load(Rng& r, Logger& lg, const std::string& text, bool& file)
{
    file = r.chance(1, 4);
    if (!file) return ParseAndStartLogger(lg, text);
    spit(dir + "/cfg.yaml", text);
    return LoadAndStartLogger(lg, dir + "/cfg.yaml");
}
// calls that must be harmless in any state of the logger
static void poke(Rng& r, Logger& lg)
{
    int c = r.chance(1, 2) ? (int)r.below(5) : (int)r.next(), d = r.chance(1, 2) ? (int)r.below(22) : (int)r.next();
    switch (r.below(9))
    {
    case 0: (void)GetChannelLog(lg, c, (ChannelLogEnum)r.below(CHANNEL_LOG_MAX_ID + 2)); break;
    case 1: (void)GetDeviceLog(lg, c, d, (DeviceLogEnum)r.below(DEVICE_LOG_MAX_ID + 2)); break;
    case 2: (void)GetDeviceConfig(lg, c, d, (DeviceConfigEnum)r.below(DEVICE_CFG_MAX_ID + 2)); break;
    case 3: SetDeviceConfig(lg, c, d, (DeviceConfigEnum)r.range(DEVICE_CFG_PRIORITY, DEVICE_CFG_CATEGORY), r.range(0, 3)); break;
    case 4: SetChannelConfig(lg, c, (ChannelConfigEnum)r.below(CHANNEL_CFG_MAX_ID + 1), r.range(0, 3)); break;
    case 5: BatchSetChannelConfig(lg, CHANNEL_CFG_PRIORITY, r.range(0, 3)); break;
    case 6: BatchSetDeviceConfig(lg, (DeviceOutType)r.below(6), DEVICE_CFG_PRIORITY, r.range(0, 3)); break;
    case 7: { LogStream s(lg, c, (int)r.below(8), (int)r.below(4), (ll)r.below(4), "f.cpp", 5, 1, "fn", 2, LOG_PREFIX_DEFAULT); s << "text " << 42; break; }
    default: if (lg.logger_state_ != LOGGER_STATE_RUNNING && StopLogger(lg) == 0) violation("config", "config:stop_of_stopped", "stopping a logger that was not started succeeded | " + cur); break;
    }
    count("api_calls");
}
static void read_all(const std::string& p, std::string& s) { s = slurp(p); }
// a valid configuration starts normally and logging works
static void works(Logger& lg, const char* when)
{
    std::string p = dir + "/good.log";
    syscall(SYS_unlink, p.c_str());
    std::string good = "- channel: 0\n    sync: sync\n    - device: 0\n        disable: false\n        out_type: file\n        path: \"" + dir + "/\"\n        file: \"good\"\n";
    int ret = ParseAndStartLogger(lg, good);
    if (ret != 0) { violation("config", "config:valid_refused", fmt("a valid configuration is refused (%d) ", ret) + when + " | " + cur); return; }
    { LogStream s(lg, 0, PRIORITY_INFO, 0, 0, "f.cpp", 5, 1, "fn", 2, LOG_PREFIX_NULL); s << "hello"; }
    std::string t;
    read_all(p, t);
    if (t != "hello\n") violation("config", "config:not_usable", std::string("logging does not work ") + when + ": file has \"" + t.substr(0, 100) + "\" | " + cur);
    ret = StopLogger(lg);
    if (ret != 0) violation("config", "config:stop", fmt("stop of a running logger failed (%d) ", ret) + when + " | " + cur);
    count("recoveries_checked");
}

static const std::vector<std::string> DICT = {"#", "\"", "[", "]", "{", "}", "$", "${", "}", ":", "-", ",", "=", " ", "\t", "\r", "\n", "\r\n", "\n\r", std::string(1, '\0'), "\xef\xbb\xbf", "\xff", "\v", "\f",
    "99999999999999999999999", "-1", "0x", "0xffffffffffffffffff", "18446744073709551615", "-9223372036854775808", "9223372036854775807", "2147483648", "1-99999999999", "63-", "0-63", "64", "5-2", "-",
    "channel: 0\n", "channel: 1\n", "- device: 0\n", "device: 1\n", "sync: sync\n", "disable: false\n", "disable: true\n", "out_type: file\n", "out_type: udp\n", "in_type: udp\n", "out_type: virtual\n", "out_type: screen\n", "udp_addr: localhost:99\n", "udp_addr: ", "127.0.0.1:1", "1.2.3.4",
    "path: ", "file: ", "limit_size: ", "rollback: ", "rolldaily: true\n", "rollhourly: true\n", "stuff_up: true\n", "priority: ", "category: ", "category_extend: ", "category_wlist: ", "category_blist: ", "category_wmask: ", "identify_bmask: ", "identify_wlist: ", "identify_",
    "category_", "hot_update: true\n", "logger_name: ", "logger_desc: ", "shm_key: 77\n", "def: a a\n", "def: AB AB\n", "define: ABCDEF ABC\n", "define: A B\ndefine: B A\n", "def: x ", "var: a=1,b=2\n", "var: {ab=1, c=2,}\n", "var: a=a\n", "var: a=$a\n", "variable: id=3\n", "$a", "${a}", "$id", "ABCDEF"};
static std::string mutate(Rng& r, std::string s)
{
    int n = r.chance(1, 2) ? 1 : (int)r.range(1, r.chance(1, 4) ? 40 : 6);
    while (n--)
    {
        size_t p = r.below(s.size() + 1);
        switch (r.below(10))
        {
        case 0: if (!s.empty()) s[p % s.size()] = (char)r.next(); break;
        case 1: s.insert(p, r.pick(DICT)); break;
        case 2: s.insert(p, r.pick(DICT)); break;
        case 3: s.erase(p, r.below(r.chance(1, 4) ? 200 : 8)); break;
        case 4: { size_t q = r.below(s.size() + 1); s.insert(p, s.substr(q, r.below(r.chance(1, 4) ? 400 : 40))); break; }
        case 5: s.insert(p, std::string(r.below(r.chance(1, 8) ? 3000 : 60), r.pick(std::vector<char>{' ', 'a', '0', '9', '\t', '-', '\n', '$', 'A', '.', ','}))); break;
        case 6: { // whole lines
            size_t b = s.rfind('\n', p ? p - 1 : 0), e = s.find('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            e = e == std::string::npos ? s.size() : e + 1;
            if (e <= b) break;
            std::string l = s.substr(b, e - b);
            if (r.chance(1, 2)) s.erase(b, e - b);
            else { size_t q = s.find('\n', r.below(s.size() + 1)); s.insert(q == std::string::npos ? s.size() : q + 1, l); }
            break; }
        case 7: if (r.chance(1, 4)) s.resize(p); break;
        case 8: { size_t q = s.find_first_of("0123456789", p); if (q != std::string::npos) { size_t e = q; while (e < s.size() && isdigit((unsigned char)s[e])) e++; s.replace(q, e - q, r.pick(DICT)); } break; }
        default: { size_t q = s.find(':', p); if (q != std::string::npos) s.insert(q + 1, r.pick(DICT)); break; }
        }
    }
    return s;
}
static std::string random_text(Rng& r)
{
    std::string s;
    int n = (int)r.below(r.chance(1, 5) ? 300 : 40);
    for (int i = 0; i < n; i++)
    {
        if (r.chance(1, 3)) s += (char)r.next();
        else s += r.pick(DICT);
    }
    return s;
}

static void check_model(Logger& lg, const MCfg& m, bool fresh)
{
    std::string bad;
    auto cmp = [&](const std::string& what, ll a, ll b) { if (a != b && bad.empty()) bad = what + fmt(" is %lld, not %lld", a, b); };
    auto cms = [&](const std::string& what, const std::string& a, const std::string& b) { if (a != b && bad.empty()) bad = what + " is \"" + a + "\", not \"" + b + "\""; };
    cmp("number of channels", lg.shm_->channel_size_, (ll)m.chan.size());
    cmp("hot_update", (bool)lg.hot_update_, m.hot);
    cmp("shm_key", lg.shm_key_, m.shm);
    if (fresh && m.name.empty()) cms("logger_name", lg.name_, std::string(program_invocation_short_name).substr(0, Logger::MAX_LOGGER_NAME_LEN - 1)); // the name of the process
    if (fresh && m.desc.empty()) cms("logger_desc", lg.desc_, "");
    if (!m.name.empty()) { cms("logger_name", lg.name_, m.name); cmp("length of logger_name", lg.name_len_, (ll)m.name.size()); }
    if (!m.desc.empty()) { cms("logger_desc", lg.desc_, m.desc); cmp("length of logger_desc", lg.desc_len_, (ll)m.desc.size()); }
    for (size_t c = 0; c < m.chan.size() && bad.empty(); c++)
    {
        Channel& h = lg.shm_->channels_[c];
        std::string C = fmt("channel %d ", (int)c);
        cmp(C + "sync", h.channel_type_, m.chan[c].type);
        cmp(C + "number of devices", h.device_size_, (ll)m.chan[c].dev.size());
        cmp(C + "id", h.channel_id_, (ll)c);
        for (int f = 0; f < CHANNEL_CFG_MAX_ID; f++) cmp(C + fmt("setting %d", f), h.config_fields_[f], m.chan[c].f[f]);
        int virt = -1;
        for (size_t d = 0; d < m.chan[c].dev.size() && bad.empty(); d++)
        {
            const MDev& x = m.chan[c].dev[d];
            Device& v = h.devices_[d];
            std::string D = C + fmt("device %d ", (int)d);
            cmp(D + "id", v.device_id_, (ll)d);
            cmp(D + "out_type", v.out_type_, x.out);
            cmp(D + "in_type", v.in_type_, x.in);
            cms(D + "path", v.out_path_, x.path);
            cms(D + "file", v.out_file_, x.file);
            for (int f = 0; f < DEVICE_CFG_MAX_ID; f++) cmp(D + fmt("setting %d", f), GetDeviceConfig(lg, (int)c, (int)d, (DeviceConfigEnum)f), x.f[f]);
            if (x.out == DEVICE_OUT_VIRTUAL) virt = (int)d;
        }
        (void)virt;
    }
    // settings and counters of channels and devices that do not exist read as zero
    for (int n : {-1, INT32_MIN, INT32_MAX, (int)m.chan.size(), (int)Logger::MAX_CHANNEL_SIZE})
    {
        cmp(fmt("a setting of device 0 of channel %d", n), GetDeviceConfig(lg, n, 0, DEVICE_CFG_ABLE), 0);
        cmp(fmt("a counter of device 0 of channel %d", n), GetDeviceLog(lg, n, 0, DEVICE_LOG_TOTAL_WRITE_LINE), 0);
        cmp(fmt("a counter of channel %d", n), GetChannelLog(lg, n, CHANNEL_LOG_PUSH), 0);
        SetChannelConfig(lg, n, CHANNEL_CFG_PRIORITY, 3);
        SetDeviceConfig(lg, n, 0, DEVICE_CFG_ABLE, 1);
    }
    if (!m.chan.empty())
        for (int n : {-1, INT32_MIN, INT32_MAX, (int)m.chan[0].dev.size(), (int)Channel::MAX_DEVICE_SIZE})
        {
            SetDeviceConfig(lg, 0, n, DEVICE_CFG_PRIORITY, 3);
            cmp(fmt("a setting of device %d", n), GetDeviceConfig(lg, 0, n, DEVICE_CFG_PRIORITY), 0);
            cmp(fmt("a counter of device %d", n), GetDeviceLog(lg, 0, n, DEVICE_LOG_TOTAL_WRITE_LINE), 0);
        }
    if (!bad.empty()) violation("meaning", "meaning:" + bad.substr(0, bad.find(" is ")), bad + " | " + cur.substr(0, 1200));
}

static void model_case(Rng& r)
{
    Logger* lg = new Logger;
    bool fresh = true;
    int n = (int)r.range(1, 6);
    while (n--)
    {
        shm_reset();
        Rng keep = r;
        Gen g(r, lg->shm_ == nullptr);
        g.build();
        std::string what;
        int bad = -1;
        if (r.chance(2, 5)) { bad = add_fault(r, g, what); if (bad < 0) { r.next(); continue; } }
        std::vector<int> line;
        std::string text = render(r, g.items, gen_layout(r), line);
        cur = text;
        count("bytes", (ll)text.size());
        bool file;
        take_out();
        int ret = load(r, *lg, text, file);
        std::string out = take_out();
        distinct(hash_str(text));
        if (bad < 0)
        {
            count("accepted_configs");
            if (ret != 0) { violation("meaning", "meaning:refused", fmt("a valid configuration is refused (%d): ", ret) + out.substr(0, 160) + " | " + text.substr(0, 1200)); continue; }
            if (g.m.shm == 0) g.m.shm = lg->shm_key_; // a restart keeps the memory it has
            check_model(*lg, g.m, fresh);
            fresh = false;
            if (StopLogger(*lg) != 0) violation("config", "config:stop", "stop failed | " + cur);
        }
        else
        {
            count("faulty_configs");
            count("fault:" + what);
            if (ret == 0) { violation("meaning", "meaning:accepted:" + what, "accepted although it has a fault (" + what + fmt(") in line %d | ", line[(size_t)bad]) + text.substr(0, 1200)); StopLogger(*lg); }
            else
            {
                size_t p = out.find("in line:[");
                int at = p == std::string::npos ? -1 : atoi(out.c_str() + p + 9);
                if (at != line[(size_t)bad]) violation("meaning", "meaning:line:" + what, fmt("fault (%s) in line %d reported for line %d | ", what.c_str(), line[(size_t)bad], at) + text.substr(0, 1200));
            }
        }
        if (lg->shm_ && lg->shm_key_ > 0) { delete lg; lg = new Logger; fresh = true; } // else its queue is reused
    }
    delete lg;
    if (r.chance(1, 400)) sample(cur.substr(0, 900));
}

static void fuzz_case(Rng& r)
{
    Logger* lg = new Logger;
    int n = (int)r.range(1, 8);
    if (r.chance(1, 2)) for (int i = (int)r.range(1, 10); i; i--) poke(r, *lg);
    while (n--)
    {
        std::string text;
        if (r.chance(1, 40))
        {
            // files that are none
            std::string p = r.pick(std::vector<std::string>{dir, dir + "/missing.yaml", "", dir + "/cfg.yaml/x", std::string(5000, 'a')});
            cur = "config file " + p;
            alarm(20);
            if (LoadAndStartLogger(*lg, p) == 0) violation("config", "config:no_file", "loading a file that does not exist succeeded | " + cur);
            alarm(0);
            count("texts_rejected");
            if (r.chance(1, 3)) works(*lg, "after a missing file");
            continue;
        }
        if (r.chance(1, 12)) text = random_text(r);
        else
        {
            Gen g(r, true);
            g.over = r.chance(1, 5);
            g.build();
            std::string what;
            if (r.chance(1, 3)) add_fault(r, g, what);
            std::vector<int> line;
            text = render(r, g.items, gen_layout(r), line);
            if (!g.over || r.chance(1, 2)) text = mutate(r, text);
        }
        cur = text;
        count("texts");
        count("bytes", (ll)text.size());
        distinct(hash_str(text));
        bool file;
        if (r.chance(1, 20)) shm_tab()->fail_get = r.pick(std::vector<int>{EACCES, ENOSPC, EINVAL});
        if (r.chance(1, 20)) shm_tab()->fail_at = ENOMEM;
        alarm(20);
        int ret = load(r, *lg, text, file);
        alarm(0);
        shm_tab()->fail_get = shm_tab()->fail_at = 0;
        if (ret == 0)
        {
            count("texts_accepted");
            // the names stay within their buffers
            auto named = [&](const char* what, const char* s, int len, int max)
            {
                if (len < 0 || len >= max || s[len] != 0 || (text.find('\0') == std::string::npos && (int)strnlen(s, (size_t)max) != len))
                    violation("config", "config:name", fmt("accepted with a %s of length %d (text %d, room %d) | ", what, len, (int)strnlen(s, (size_t)max), max) + cur);
            };
            named("name", lg->name_, lg->name_len_, Logger::MAX_LOGGER_NAME_LEN);
            named("description", lg->desc_, lg->desc_len_, Logger::MAX_LOGGER_DESC_LEN);
            int cs = lg->shm_ ? (int)lg->shm_->channel_size_ : -1;
            if (cs < 1 || cs > (int)Logger::MAX_CHANNEL_SIZE) violation("config", "config:channels", fmt("accepted with %d channels | ", cs) + cur);
            else
                for (int c = 0; c < cs; c++)
                {
                    Channel& h = lg->shm_->channels_[(size_t)c];
                    if (h.channel_id_ != c || (h.channel_type_ != CHANNEL_SYNC && h.channel_type_ != CHANNEL_ASYNC)) violation("config", "config:setup", fmt("channel %d accepted with number %d, type %d | ", c, h.channel_id_, (int)h.channel_type_) + cur);
                    if (h.device_size_ < 0 || h.device_size_ > (int)Channel::MAX_DEVICE_SIZE) violation("config", "config:devices", fmt("accepted with %d devices | ", (int)h.device_size_) + cur);
                    else
                        for (int d = 0; d < h.device_size_; d++)
                        {
                            Device& v = h.devices_[d];
                            if (v.device_id_ != d || v.out_type_ > DEVICE_OUT_EMPTY || v.in_type_ > DEVICE_IN_UDP) violation("config", "config:setup", fmt("device %d of channel %d accepted with number %d, types %d %d | ", d, c, v.device_id_, (int)v.out_type_, (int)v.in_type_) + cur);
                            if (!memchr(v.out_path_, 0, sizeof v.out_path_) || !memchr(v.out_file_, 0, sizeof v.out_file_)) violation("config", "config:unterminated", "path or file name without end | " + cur);
                        }
                }
            for (int i = (int)r.range(0, 6); i; i--) poke(r, *lg);
            for (int c = 0; c < cs; c++)
            {
                ll h0 = GetChannelLog(*lg, c, CHANNEL_LOG_PUSH);
                SetChannelConfig(*lg, c, CHANNEL_CFG_PRIORITY, 0);
                bool adm = true;
                Channel& h = lg->shm_->channels_[(size_t)c];
                for (int f = 0; f < CHANNEL_CFG_MAX_ID; f++) if (h.config_fields_[f] != 0) adm = false;
                bool any = false;
                for (int d = 0; d < h.device_size_; d++)
                {
                    bool ok = GetDeviceConfig(*lg, c, d, DEVICE_CFG_ABLE) != 0;
                    for (int f : {DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK}) if (GetDeviceConfig(*lg, c, d, (DeviceConfigEnum)f) != 0) ok = false;
                    if (h.devices_[d].out_type_ == DEVICE_OUT_NULL || h.devices_[d].out_type_ == DEVICE_OUT_VIRTUAL || h.devices_[d].in_type_ != DEVICE_IN_NULL) ok = false;
                    any = any || ok;
                }
                { LogStream s(*lg, c, PRIORITY_FATAL, 0, 0, "f.cpp", 5, 1, "fn", 2, LOG_PREFIX_DEFAULT); s << "record " << c; }
                ll h1 = GetChannelLog(*lg, c, CHANNEL_LOG_PUSH);
                if (adm && any && h1 != h0 + 1) violation("config", "config:not_logging", fmt("channel %d of an accepted configuration takes no record | ", c) + cur);
                count("records");
            }
            ret = StopLogger(*lg);
            if (ret != 0) violation("config", "config:stop", fmt("stop after an accepted configuration failed (%d) | ", ret) + cur);
        }
        else
        {
            count("texts_rejected");
            if (lg->logger_state_ != LOGGER_STATE_UNINIT) violation("config", "config:state", fmt("state %d after a refused configuration | ", (int)lg->logger_state_) + cur);
            for (int i = (int)r.range(0, 4); i; i--) poke(r, *lg);
        }
        alarm(20);
        if (r.chance(1, 3)) works(*lg, ret == 0 ? "after an accepted one was stopped" : "after a refused one");
        alarm(0);
        if (r.chance(1, 4)) { delete lg; lg = new Logger; shm_reset(); }
        wipe(dir);
    }
    delete lg;
    shm_reset();
    if (r.chance(1, 400)) sample(cur.substr(0, 900));
}

static void run_case(long long idx)
{
    uint64_t seed = case_seed(idx);
    begin_case(idx, seed);
    Rng r(seed);
    SchedCfg sc;
    sc.stick = 95;
    sc.step_cap = 4000000;
    episode_begin(seed, sc);
    clock_set(1700000000 + (ll)r.below(1000000));
    wipe(dir);
    if (opt().mode == "fuzz") fuzz_case(r);
    else model_case(r);
    episode_end();
    take_out();
}
static void on_alarm(int)
{
    violation("hang", "hang:load", "loading a configuration did not terminate within 20 s | " + cur);
    syscall(SYS_exit_group, 42);
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    setenv("TZ", "UTC0", 1);
    tzset();
    signal(SIGALRM, on_alarm);
    dir = opt().scratch + "/d";
    mkdir(dir.c_str(), 0755);
    if (chdir(dir.c_str()) != 0) return 3;
    out_path = opt().scratch + "/stdout";
    int fd = open(out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 1);
    close(fd);
    hooks().guard_paths = hooks().guard_quiet = true;
    hooks().shm_emulate = true;
    shm_init();
    resolver() = [](const std::string& n, unsigned char* ip)
    {
        if (n == "localhost") { ip[0] = 127; ip[1] = 0; ip[2] = 0; ip[3] = 1; return true; }
        if (n == "host-a.example") { ip[0] = 10; ip[1] = 11; ip[2] = 12; ip[3] = 13; return true; }
        return false;
    };
    hooks().fault = [](const char* op, const std::string&) { if (!strcmp(op, "bind")) { errno = EADDRINUSE; return true; } return false; };
    hooks().on_sendto = [](const struct sockaddr_in&, const char*, size_t) { return true; };
    run_cases(run_case);
    wipe(dir);
    finish();
    _exit(0);
}
