// C15 and C16: gostsum and gost12sum over simulated files, streams and disks.
#include "../lib.h"
#include "../simio.h"
#include <cerrno>
#include <climits>
#include <map>
namespace {
using simio::World; using simio::File;
enum { NF = 8 };
enum { G94, G12 };
const int errnos[] = { EIO, EACCES, EISDIR, ENOENT, EMFILE, ESTALE, EINTR, EAGAIN };
bool soft(int e) { return e == EINTR || e == EAGAIN; }
struct Fl { bool set = false; std::string name; Bytes data; std::map<int, std::string> memo; };
struct St { World w; Fl f[NF]; std::string list; bool own = false; std::vector<std::pair<std::string, std::string>> ownlines; int ownsb = -1; };

size_t size_of(long long cls, uint64_t r) {
    switch (cls % 8) {
    case 0: return r % 3;
    case 1: return 28 + r % 8;
    case 2: return 60 + r % 8;
    case 3: return r % 400;
    case 4: return r % 5000;
    case 5: return 4090 + r % 12;
    case 6: return r % 16 ? r % 9000 : 262144 - 2 + r / 16 % 5;
    default: return r % 32 ? r % 20000 : 524288 - 1 + r / 32 % 3;
    }
}
std::string name_of(int i, long long kind, uint64_t r) {
    std::string n = std::to_string(i);
    switch (kind % 14) {
    case 0: return "f" + n + ".dat";
    case 1: return "dir/sub/f" + n;
    case 2: return "file " + n + " with  spaces";
    case 3: return " lead" + n;
    case 4: return "*star" + n;
    case 5: return "p%s%n%d" + n;
    case 6: return "\xd1\x84\xff" + n;
    case 7: return "tab\t" + n;
    case 8: return "trail" + n + " ";
    case 9: { size_t l = r % 5 == 0 ? 4090 + r / 5 % 6 : r % 5 == 1 ? 3960 + r / 5 % 10 : r % 5 == 2 ? 4025 + r / 5 % 10 : r % 5 == 3 ? 4095 : 200 + r / 5 % 3000; std::string s = n + "/"; while (s.size() < l) s += (s.size() % 200 == 199 ? '/' : (char)('a' + s.size() % 26)); return s; }
    case 10: { std::string s; for (int k = 0; k < 64; k++) s += "0123456789abcdef"[(r >> (k % 16 * 4)) & 15]; return s + n; }
    case 11: return "-dash" + n;
    case 12: return "\\back" + n;
    default: return "ff " + n;
    }
}
// spec: the digest text of a tool
std::string digest(Fl &f, int tool, int var) { // var: gostsum 0 CryptoPro, 1 test; gost12sum 256/512
    auto &m = f.memo[tool * 1000 + var]; if (!m.empty()) return m;
    Bytes d = tool == G94 ? ref::gost94(f.data, var ? ref::S_TEST94 : ref::S_CP94) : ref::streebog(var, f.data);
    if (tool == G94) std::reverse(d.begin(), d.end());
    return m = hex(d);
}
// 1 readable in full, 0 not, 2 depends on whether interruptions are retried
int readable(const File &f) {
    if (f.open_errno) return 0;
    if (f.fail_at < 0 || f.fail_at > (long long)f.data.size() || f.fail_times == 0) return 1;
    return f.fail_times > 0 && soft(f.fail_errno) ? 2 : 0;
}
void genfile(Rng &r, Plan &p, int i, int maxcls) { p.add("file", { i, (long long)r.below(maxcls), (long long)(r.next() >> 30), (long long)r.below(DK_N), (long long)r.below(r.chance(1, 2) ? 2 : 14), (long long)(r.next() >> 30) }); }
void gen15(Rng &r, Plan &p, bool th) {
    int nf = 1 + r.below(NF), maxcls = r.chance(1, 3) ? 8 : 4;
    for (int i = 0; i < nf; i++) genfile(r, p, i, maxcls);
    int n = 2 + r.below(th ? 12 : 6); bool faults = r.chance(3, 4);
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 8)) genfile(r, p, r.below(NF), maxcls);
        if (faults) for (int k = r.below(4); k-- > 0;) p.add("fault", { (long long)r.below(nf + 1), (long long)r.below(7), (long long)(r.next() >> 40), (long long)r.below(8), (long long)(r.next() >> 40), (long long)(1 + r.below(5000)), (long long)(1 + r.below(3)) });
        p.add("sum", { (long long)r.below(2), (long long)r.below(64), (long long)(r.chance(1, 4) ? r.below(4) : 0), (long long)(r.next() >> 30), r.chance(1, 8) ? (long long)r.below(400) : -1, r.chance(1, 3) ? (long long)(1 + r.below(3)) : -1, (long long)r.below(10) });
    }
}
void gen16(Rng &r, Plan &p, bool th) {
    int nf = 1 + r.below(NF), maxcls = r.chance(1, 6) ? 8 : 4, tool = r.below(2), t2 = r.below(2);
    for (int i = 0; i < nf; i++) genfile(r, p, i, maxcls);
    for (int round = 1 + r.below(th ? 4 : 2); round-- > 0;) {
        p.add("clear");
        for (int k = 1 + r.below(2); k-- > 0;) p.add("list", { r.chance(1, 20) ? (long long)!tool : tool, t2, (long long)(r.next() >> 30), (long long)r.below(10) });
        if (r.chance(1, 4)) p.add("reorder", { (long long)(r.next() >> 30) });
        p.add("verify", { tool, t2, (long long)r.below(8), -1, (long long)(r.next() >> 40), (long long)(1 + r.below(300)), 0 });
        for (int v = 1 + r.below(4); v-- > 0;) {
            for (int k = r.below(3); k-- > 0;) p.add("mod", { (long long)r.below(nf), (long long)r.below(6), (long long)(r.next() >> 30) });
            for (int k = r.below(3); k-- > 0;) p.add("dmg", { (long long)r.below(20), (long long)(r.next() >> 30) });
            if (r.chance(1, 3)) p.add("fault", { (long long)r.below(nf), (long long)r.below(7), (long long)(r.next() >> 40), (long long)r.below(8), (long long)(r.next() >> 40), (long long)(1 + r.below(5000)), (long long)(1 + r.below(3)) });
            p.add("verify", { r.chance(1, 12) ? (long long)!tool : tool, t2, (long long)r.below(8), r.chance(1, 4) ? (long long)(r.next() >> 40) : -1, (long long)(r.next() >> 40), (long long)(1 + r.below(r.chance(1, 2) ? 5000 : 40)), (long long)r.below(8) });
        }
    }
}
void put(St &s, int i) { s.w.files[s.f[i].name].data = s.f[i].data; s.f[i].memo.clear(); }
void common(const Plan &p, Ctx &c, const Op &o, St &s) {
    if (o.k == "file") {
        int i = o.mod(0, NF); Fl &f = s.f[i];
        if (f.set) s.w.files.erase(f.name);
        f = Fl(); f.set = true; f.name = name_of(i, o.mod(4, 14), o.arg(5));
        f.data = mkdata(p.seed, 0x15000 + o.arg(5), size_of(o.mod(1, 8), o.arg(2)), o.mod(3, DK_N));
        put(s, i); s.own = false;
    } else if (o.k == "fault") {
        int i = o.mod(0, NF + 1), kind = o.mod(1, 7); File &f = i < NF && s.f[i].set ? s.w.files[s.f[i].name] : s.w.in;
        f.open_errno = 0; f.fail_at = -1; f.split = 0; int e = errnos[o.mod(3, 8)]; long long sz = f.data.size();
        switch (kind) {
        case 1: f.open_errno = e; break;
        case 2: f.fail_at = o.arg(2) % (sz + 1); f.fail_errno = e; f.fail_times = -1; break;
        case 3: f.fail_at = o.arg(2) % (sz + 1); f.fail_errno = e; f.fail_times = o.arg(6); break;
        case 4: f.fail_at = sz; f.fail_errno = e; f.fail_times = -1; break;
        case 5: f.fail_at = std::min<long long>(sz, 262144); f.fail_errno = e; f.fail_times = o.arg(6); break;
        }
        if (kind != 6) { f.split = 1 + o.arg(4); f.maxread = o.arg(5); }
    }
}
struct Item { std::string line; int r; bool blank = false; };
void finish(Ctx &c, World &w, const char *tool) {
    for (auto &x : w.files) { c.count("fault.short_read", x.second.shorts); c.count("fault.read_error", x.second.fails); if (x.second.open_errno && x.second.opens) c.count("fault.open_error", x.second.opens); x.second.shorts = x.second.fails = x.second.opens = 0; }
    c.count("fault.short_read", w.in.shorts); c.count("fault.stdin_error", w.in.fails); w.in.shorts = w.in.fails = 0;
    c.count("fault.stdout_full", w.out_fails); c.count("fault.descriptor_limit", w.fd_fails); w.out_fails = 0; w.fd_fails = 0;
    if (!w.forbidden.empty()) c.violate("side-effect", "%s attempted %s", tool, w.forbidden[0].c_str());
    if (!w.exited) c.violate("no-exit", "%s returned without a status", tool);
}
void exec15(const Plan &p, Ctx &c) {
    St s;
    for (auto &o : p.ops) {
        c.steps++;
        common(p, c, o, s);
        if (o.k != "sum") continue;
        int tool = o.mod(0, 2), fl = o.arg(1), mode = o.mod(2, 4); uint64_t r = o.arg(3); const char *tn = tool ? "gost12sum" : "gostsum";
        Rng q(r + 7); World &w = s.w; w.out_fail_at = o.arg(4, -1); w.max_fds = o.arg(5, -1) > 0 ? o.arg(5) : -1;
        std::vector<std::string> a{ tn }; int var;
        if (tool == G94) { var = fl & 1; if (fl & 1) a.push_back("-t"); if (fl & 2) a.push_back("-b"); if (fl & 4) a.push_back("-v"); }
        else { var = fl & 1 ? 512 : 256; if (fl & 1) a.push_back("-l"); if (fl & 2) a.push_back("-v"); }
        std::vector<Item> items; bool inok = true, insoft = false, xmode = false;
        Bytes keep = w.in.data;
        auto item = [&](const std::string &n) {
            Item it; auto f = w.files.find(n); it.r = f == w.files.end() ? 0 : readable(f->second);
            for (auto &z : s.f) if (z.set && z.name == n) it.line = digest(z, tool, var) + " " + n + "\n";
            if (it.line.empty()) it.r = 0;
            items.push_back(it);
        };
        std::vector<std::string> names; for (int k = q.below(7) + 1; k-- > 0;) { int i = q.below(NF); names.push_back(s.f[i].set ? s.f[i].name : "missing" + std::to_string(i)); }
        if (mode == 3) mode = tool == G12 ? 2 : 1;
        if (mode == 0) {
            if (o.arg(6) == 9) { a.push_back("-Q"); }
            a.push_back("--"); for (auto &n : names) { a.push_back(n); item(n); }
        } else if (mode == 1) {
            Fl t; t.data = mkdata(p.seed, 0x15f00 + r, size_of(q.below(6), q.next() >> 8), q.below(DK_N)); w.in.data = t.data;
            if (w.in.fail_at > (long long)t.data.size()) w.in.fail_at = t.data.size();
            w.in.open_errno = 0; Item it; it.r = readable(w.in); it.line = digest(t, tool, var) + " -\n"; items.push_back(it);
        } else {
            if (tool == G94) { w.in.data = keep; continue; }
            xmode = true; a.push_back("-x"); std::string txt; std::vector<size_t> ends;
            bool crlf = q.chance(1, 4), last = q.chance(3, 4);
            std::vector<std::string> use;
            for (size_t k = 0; k < names.size(); k++) {
                std::string n = q.chance(1, 12) ? "" : names[k];
                if (n.size() > 4094 && crlf) n = "missing";
                if (n.empty() && k + 1 == names.size() && !last) n = "missing";
                txt += n; if (k + 1 < names.size() || last) txt += crlf ? "\r\n" : "\n"; use.push_back(n); ends.push_back(txt.size());
            }
            w.in.data.assign(txt.begin(), txt.end()); w.in.open_errno = 0;
            if (w.in.fail_at > (long long)txt.size()) w.in.fail_at = txt.size();
            int rd = readable(w.in); inok = rd == 1; insoft = rd == 2;
            for (size_t k = 0; k < use.size(); k++) {
                bool got = inok || (ends[k] <= (size_t)w.in.fail_at && (last || k + 1 < use.size()));
                if (!got && !insoft) break;
                item(use[k]); items.back().blank = use[k].empty(); if (!got) items.back().r = std::min(items.back().r * 2, 2);
            }
        }
        c.op(tool ? "gost12sum" : "gostsum");
        c.mixsig(tool * 8 + mode); c.mixsig(fl & 7); for (auto &i : items) c.mixsig(i.r);
        simio::run(tool ? sim_gost12sum_main : sim_gostsum_main, a, w);
        bool full = w.out_fails > 0; finish(c, w, tn);
        std::string cmd; for (auto &x : a) cmd += x.substr(0, 40) + " ";
        c.log("%s-> %d, %zu bytes", cmd.c_str(), w.status, w.out.size()); c.logb("out", (const uint8_t *)w.out.data(), w.out.size());
        if (o.arg(6) == 9 && mode == 0) { if (w.status == 0 || !w.out.empty()) c.violate("bad-option", "%s: an unknown option gave status %d and %zu bytes of output", tn, w.status, w.out.size()); w.in.data = keep; continue; }
        // walk over what was printed
        size_t pos = 0; bool failed = !inok && !insoft, soft_failed = false, trunc = false; int okn = 0;
        for (auto &i : items) {
            if (trunc) break;
            if (i.r == 0) { if (!i.blank) failed = true; else soft_failed = true; continue; }
            std::string left = w.out.substr(pos);
            if (left.compare(0, i.line.size(), i.line) == 0) { pos += i.line.size(); okn++; continue; }
            if (i.r == 2) { soft_failed = true; continue; }
            if (full && left.size() < i.line.size() && i.line.compare(0, left.size(), left) == 0) { trunc = true; pos = w.out.size(); break; }
            c.violate(left.empty() || items.size() == 1 ? "digest-missing" : "wrong-digest", "%s: expected %s, the output goes on with %s (status %d)", cmd.c_str(), i.line.substr(0, 150).c_str(), left.substr(0, 150).c_str(), w.status);
        }
        if (pos != w.out.size()) {
            if (!(full && insoft)) c.violate("extra-output", "%s: printed %s for something that could not be read in full", cmd.c_str(), w.out.substr(pos, 200).c_str());
        }
        if (insoft && w.status) soft_failed = true;
        if ((failed || trunc || full) && w.status == 0) c.violate("false-success", "%s: exit status 0 although %s", cmd.c_str(), failed ? "an input could not be read" : "the output could not be written");
        if (!failed && !trunc && !full && !soft_failed && w.status != 0) c.violate("false-failure", "%s: exit status %d although everything was readable; stderr %s", cmd.c_str(), w.status, w.err.substr(0, 200).c_str());
        if (failed && w.err.empty()) c.violate("silent-failure", "%s: nothing reported on standard error", cmd.c_str());
        if (okn) { c.nontrivial = true; c.count("digests_printed", okn); } if (failed) c.count("failures_reported");
        w.in.data = keep; w.out_fail_at = -1;
    }
}
// ---- list verification
struct Entry { bool bad = false; std::string hash, name; };
bool ishex(char ch) { return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'); }
void strip(std::string &n) { size_t z = n.find('\0'); if (z != n.npos) n.resize(z); while (!n.empty() && (n.back() == '\n' || n.back() == '\r')) n.pop_back(); }
// what the list demands; false: the text cannot be judged
bool parse(int tool, const std::string &t, std::vector<Entry> &out) {
    size_t i = 0;
    if (tool == G94) {
        while (i < t.size()) {
            size_t j = t.find_first_not_of("\r\n", i); if (j == t.npos && t.size() - i < 64) break;
            Entry e; if (t.size() - i < 66) { e.bad = true; out.push_back(e); return true; }
            e.hash = t.substr(i, 64); for (char ch : e.hash) if (!ishex(ch)) e.bad = true;
            if (t[i + 64] != ' ') e.bad = true;
            if (e.bad) { out.push_back(e); return true; }   // nothing after a malformed entry needs to be looked at
            size_t nl = t.find('\n', i + 65); size_t end = nl == t.npos ? t.size() : nl + 1;
            e.name = t.substr(i + 65, end - i - 65);
            if (e.name.size() > PATH_MAX) { std::string m = e.name; strip(m); if (m.size() < PATH_MAX) return false; e.bad = true; out.push_back(e); return true; }
            strip(e.name); out.push_back(e); i = end;
        }
        return true;
    }
    while (i < t.size()) {
        size_t nl = t.find('\n', i), end = nl == t.npos ? t.size() : nl + 1; std::string l = t.substr(i, end - i); i = end;
        if (l.size() > PATH_MAX - 1) { std::string m = l; size_t b = m.find_first_not_of(' '); if (b == m.npos || l.size() > 128 + PATH_MAX + 1 || b) return false; }
        strip(l); size_t b = l.find_first_not_of(' '); if (b == l.npos) continue; l = l.substr(b);
        size_t sp = l.find(' '); if (sp == l.npos || sp + 1 == l.size()) continue;
        bool hx = true; for (size_t k = 0; k < sp; k++) hx &= ishex(l[k]); if (!hx) continue;
        Entry e; e.hash = l.substr(0, sp); e.name = l.substr(sp + 1); e.bad = sp != 64 && sp != 128; out.push_back(e);
    }
    return true;
}
void damage(std::string &t, int kind, uint64_t r, St &s) {
    size_t n = t.size(); auto at = [&](uint64_t q) { return n ? q % n : 0; };
    size_t p = at(r); std::vector<size_t> ls{ 0 }; for (size_t i = 0; i + 1 < n; i++) if (t[i] == '\n') ls.push_back(i + 1);
    size_t L = ls[r % ls.size()], E = t.find('\n', L); if (E == t.npos) E = n;
    switch (kind) {
    case 0: if (n) t[p] ^= 1 << (r >> 40) % 8; break;
    case 1: t.resize(p); break;
    case 2: t.insert(p, 1, "\n\r \0xg-"[(r >> 40) % 7]); break;
    case 3: if (n) t.erase(p, 1 + (r >> 40) % 80); break;
    case 4: t.insert(L, t.substr(L, E - L) + "\n"); break;
    case 5: t.insert(L, (r >> 41) & 1 ? "\n" : "\r\n"); break;
    case 6: { std::string u; for (char ch : t) { if (ch == '\n') u += '\r'; u += ch; } t = u; break; }
    case 7: for (size_t i = L; i < E && i < L + 64; i++) if (t[i] >= 'a' && t[i] <= 'f') t[i] -= 32; break;
    case 8: if (L < n) t[std::min(L + (r >> 40) % 64, n - 1)] = "0123456789abcdef"[(r >> 20) % 16]; break; // one digit of the hash
    case 9: t.insert(L, std::string(1 + (r >> 40) % 3, ' ')); break;
    case 10: if (n && t.back() == '\n') t.pop_back(); break;
    case 11: t += "\n"; break;
    case 12: t.insert(L, "# comment line\n"); break;
    case 13: if (L + 65 <= n) t.insert(L + 65, "*"); break;
    case 14: t.insert(L, (r >> 40) & 1 ? std::string(64, 'a') + " nosuchfile\n" : std::string(5000, 'b') + "\n"); break;
    case 15: if (L + 64 < n) t.erase(L + (r >> 40) % 64, 1); break;   // one digit lost
    case 16: t += t.substr(L, (r >> 40) % 70); break;                  // torn append
    case 17: if (E < n) t.erase(E, 1); break;                           // two lines joined
    case 18: if (n) t[p] = 0; break;
    case 19: { Rng q(r); t.clear(); for (int i = q.below(300); i-- > 0;) t += "0123456789abcdef \n\r\0zZ"[q.below(22)]; break; }
    }
}
void exec16(const Plan &p, Ctx &c) {
    St s; World &w = s.w;
    for (auto &o : p.ops) {
        c.steps++;
        common(p, c, o, s);
        if (o.k == "clear") { s.list.clear(); s.own = true; s.ownlines.clear(); for (auto &f : w.files) { f.second.open_errno = 0; f.second.fail_at = -1; } w.in = File(); }
        else if (o.k == "list") { // the tool writes the list
            int tool = o.mod(0, 2), t2 = o.mod(1, 2); uint64_t r = o.arg(2); Rng q(r); std::vector<std::string> a{ tool ? "gost12sum" : "gostsum" };
            bool big = tool == G12 && (t2 ^ (o.arg(3) == 0)); if (tool == G94 && t2) a.push_back("-t"); if (big) a.push_back("-l"); a.push_back("--");
            std::vector<int> use; for (int k = 1 + q.below(6); k-- > 0;) { int i = q.below(NF); if (s.f[i].set && w.files.count(s.f[i].name)) { use.push_back(i); a.push_back(s.f[i].name); } }
            if (use.empty()) continue;
            for (int i : use) { File &f = w.files[s.f[i].name]; f.open_errno = 0; f.fail_at = -1; }
            w.out_fail_at = -1; w.max_fds = -1; c.op("make_list");
            simio::run(tool ? sim_gost12sum_main : sim_gostsum_main, a, w); finish(c, w, "tool");
            if (w.status != 0) c.violate("list-not-made", "%s failed on readable files", a[0].c_str());
            s.list += w.out; c.count("lists");
            for (int i : use) s.ownlines.push_back({ std::to_string(tool * 10 + (tool ? 0 : t2)), s.f[i].name });
        } else if (o.k == "reorder") {
            Rng q(o.arg(0)); std::vector<std::string> l; size_t i = 0; while (i < s.list.size()) { size_t e = s.list.find('\n', i); l.push_back(s.list.substr(i, e + 1 - i)); i = e + 1; }
            for (size_t k = l.size(); k > 1; k--) std::swap(l[k - 1], l[q.below(k)]);
            s.list.clear(); for (auto &x : l) s.list += x;
        } else if (o.k == "dmg") { std::string b = s.list; damage(s.list, o.mod(0, 20), o.arg(1), s); if (b != s.list) { s.own = false; c.count("fault.list_damaged"); } }
        else if (o.k == "mod") {
            int i = o.mod(0, NF); Fl &f = s.f[i]; if (!f.set) continue; uint64_t r = o.arg(2); File &d = w.files[f.name];
            Bytes old = f.data; f.data = d.data = d.data.empty() && f.data.size() ? f.data : f.data;
            switch (o.mod(1, 6)) {
            case 0: case 1: if (!f.data.empty()) f.data[r % f.data.size()] ^= 1 << (r >> 40) % 8; break;
            case 2: f.data.push_back(r >> 40); break;
            case 3: if (!f.data.empty()) f.data.resize(r % f.data.size()); break;
            case 4: w.files.erase(f.name); f.set = false; c.count("fault.file_deleted"); s.own = false; continue;
            case 5: { int j = (r >> 8) % NF; if (s.f[j].set) f.data = s.f[j].data; break; }
            }
            if (f.data != old) { s.own = false; c.count("fault.file_modified"); }
            File keep = d; put(s, i);
        } else if (o.k == "verify") {
            int tool = o.mod(0, 2), t2 = o.mod(1, 2), fl = o.arg(2); const char *tn = tool ? "gost12sum" : "gostsum"; std::vector<std::string> a{ tn };
            File lf; lf.data.assign(s.list.begin(), s.list.end()); lf.split = 1 + o.arg(4); lf.maxread = o.arg(5);
            if (o.arg(3, -1) >= 0) { lf.fail_at = o.arg(3) % (lf.data.size() + 1); lf.fail_errno = errnos[o.mod(6, 8)]; lf.fail_times = o.mod(6, 3) == 0 ? -1 : 1; }
            if (tool == G94 && t2) a.push_back("-t");
            if (fl & 1) a.push_back("-v");
            bool viastdin = false; const char *ln = "the.list";
            if (fl / 2 % 3 == 0) { a.push_back("-c"); w.in = lf; viastdin = true; } else if (fl / 2 % 3 == 1) { a.push_back("-c"); a.push_back(ln); w.files[ln] = lf; } else { a.push_back(std::string("-c") + ln); w.files[ln] = lf; }
            int lread = readable(lf); w.out_fail_at = -1; w.max_fds = 2; // the list and one file
            std::vector<Entry> es; bool known = parse(tool, s.list, es);
            int good = 0, badn = 0, maybe = 0;
            for (auto &e : es) {
                auto f = w.files.find(e.name); Fl *z = nullptr; for (auto &y : s.f) if (y.set && y.name == e.name) z = &y;
                int rd = e.bad || f == w.files.end() || !z ? 0 : readable(f->second);
                if (rd) { std::string h = digest(*z, tool, tool == G94 ? t2 : (int)e.hash.size() * 4), l = e.hash; for (auto &ch : l) ch = tolower(ch); if (h != l) rd = 0; }
                if (rd == 0) badn++; else if (rd == 2) maybe++; else good++;
            }
            bool own = s.own && badn == 0 && maybe == 0 && lread == 1 && known && !s.list.empty();
            for (auto &l : s.ownlines) if (l.first != std::to_string(tool * 10 + (tool ? 0 : t2))) own = false;
            c.op(tool ? "gost12sum_check" : "gostsum_check");
            c.mixsig(tool * 64 + fl * 4 + lread); c.mixsig(good * 100 + badn * 10 + maybe); c.mixsig(s.list.size() % 97);
            simio::run(tool ? sim_gost12sum_main : sim_gostsum_main, a, w); finish(c, w, tn);
            w.files.erase(ln);
            c.log("%s -c: %d good %d bad %d maybe, list %zu bytes read %d -> %d", tn, good, badn, maybe, s.list.size(), lread, w.status);
            if (w.status == 0 && known && badn) { std::string what; for (auto &e : es) what += e.name.substr(0, 30) + (e.bad ? "(malformed) " : " "); c.violate("false-ok", "%s -c: exit status 0 with %d of %zu entries not verified: %s", tn, badn, es.size(), what.substr(0, 300).c_str()); }
            if (w.status == 0 && lread == 0) c.violate("false-ok", "%s -c: exit status 0 although reading the list failed after %lld of %zu bytes", tn, lf.fail_at, s.list.size());
            if (own && w.status != 0) c.violate("own-list-fails", "%s -c: status %d for an unchanged list of its own; stderr %s", tn, w.status, w.err.substr(0, 300).c_str());
            if (fl & 1 && known) { int oks = 0; for (size_t i = 0; (i = w.err.find("\tOK\n", i)) != w.err.npos; i++) oks++; if (oks > good + maybe) c.violate("false-ok", "%s -c -v: %d files reported OK, %d are", tn, oks, good + maybe); }
            if (w.status == 0) { c.count("accepted"); if (good) c.nontrivial = true; } else c.count("refused");
        }
    }
}
RegScenario r1({ "C15", "sums", 1, gen15, exec15, false });
RegScenario r2({ "C16", "lists", 1, gen16, exec16, false });
RegProp p15({ "C15", "exploration",
    "A run is a seeded history of gostsum and gost12sum invocations, real main() functions over simulated files, standard streams, descriptors and exit: files of every size around the block and buffer sizes, names of every kind, reads split at random, opens and reads failing permanently or once at any offset, standard output filling up, few descriptors, every option mix, arguments, standard input and -x name lists. Output, status and reports are compared with what an independent digest of the delivered bytes demands. Non-trivial: a digest was printed.",
    { "gostsum.c main", "gost12sum.c main", "gosthash.c", "gosthash2012.c", "gost89.c", "glibc stdio and getopt" }, { "files, standard streams, open/read/close, exit" },
    { "names without newline; an interrupted read (EINTR, EAGAIN) may be retried or reported", "one process image runs the tools in turn, like separate processes" },
    15000, 300000 });
RegProp p16({ "C16", "exploration",
    "A run makes checksum lists with the real tools over simulated files, then modifies, deletes or breaks files, damages the list (bit flips, truncation, lost digits, joined or blank lines, NUL bytes, CRLF, case, comments, very long lines, random text), breaks or splits its delivery, and verifies it from a file or standard input. Status 0 is accepted only if an independent reading of the list finds every entry readable and matching; unchanged own lists must verify. Non-trivial: a verification with matching entries succeeded.",
    { "gostsum.c main and get_line", "gost12sum.c main and get_line", "gosthash.c", "gosthash2012.c", "glibc stdio and getopt" }, { "files, standard streams, open/read/close, exit" },
    { "gost12sum: a line that is not '<hex digits> <name>' is a comment", "file names without newline or trailing carriage return", "gost12sum lines longer than 4225 characters are only checked for crashes" },
    15000, 300000 });
}
