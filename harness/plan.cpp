#include "plan.hpp"
#include <cstdio>
#include <cstdlib>
#include <sstream>

std::vector<Workload>& workloads() { static std::vector<Workload> w; return w; }

Line& Line::set(const char* k, long v) { kv[k] = std::to_string(v); return *this; }
Line& Line::set(const char* k, uint64_t v) { kv[k] = std::to_string(v); return *this; }
Line& Line::set(const char* k, double v) {
    char b[40];
    snprintf(b, sizeof b, "%.9g", v);
    kv[k] = b;
    return *this;
}
Line& Line::set(const char* k, const std::string& v) { kv[k] = v.empty() ? "-" : v; return *this; }
Line& Line::set(const char* k, const std::vector<int>& v) {
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return set(k, s);
}
long Line::i(const char* k, long d) const { auto it = kv.find(k); return it == kv.end() ? d : atol(it->second.c_str()); }
uint64_t Line::u(const char* k, uint64_t d) const { auto it = kv.find(k); return it == kv.end() ? d : strtoull(it->second.c_str(), nullptr, 10); }
double Line::f(const char* k, double d) const { auto it = kv.find(k); return it == kv.end() ? d : atof(it->second.c_str()); }
std::string Line::s(const char* k, const std::string& d) const {
    auto it = kv.find(k);
    if (it == kv.end()) return d;
    return it->second == "-" ? "" : it->second;
}
std::vector<int> Line::v(const char* k) const {
    std::vector<int> out;
    std::stringstream ss(s(k));
    std::string t;
    while (std::getline(ss, t, ',')) out.push_back(atoi(t.c_str()));
    return out;
}
std::string Line::text() const {
    std::string o = kind + " " + verb;
    for (auto& p : kv) o += " " + p.first + "=" + p.second;
    return o;
}
const Line* Plan::find(const std::string& verb) const {
    for (auto& l : lines) if (l.verb == verb) return &l;
    return nullptr;
}
std::string Plan::text() const {
    std::ostringstream o;
    o << "prop " << prop << "\nseed " << seed << "\nenv " << env << "\n";
    for (auto& l : lines) o << l.text() << "\n";
    char b[256];
    snprintf(b, sizeof b, "sched mode=%d seed=%llu pmem=%.9g psync=%.9g threads=%d fewer=%d team=%llu\n", (int)sched.mode,
             (unsigned long long)sched.seed, sched.p_mem, sched.p_sync, sched.max_threads, (int)sched.fewer,
             (unsigned long long)sched.team_seed);
    o << b;
    for (auto& s : sched.replay) o << "sw " << s.tid << " " << s.pts << " " << s.to << "\n";
    return o.str();
}
Plan Plan::parse(const std::string& text) {
    Plan p;
    std::istringstream in(text);
    std::string ln;
    while (std::getline(in, ln)) {
        std::istringstream ls(ln);
        std::string k;
        if (!(ls >> k) || k[0] == '#') continue;
        if (k == "prop") ls >> p.prop;
        else if (k == "seed") ls >> p.seed;
        else if (k == "env") ls >> p.env;
        else if (k == "sw") {
            sim::SwRec r;
            ls >> r.tid >> r.pts >> r.to;
            p.sched.replay.push_back(r);
        } else {
            Line l;
            l.kind = k;
            if (k != "sched") ls >> l.verb;
            std::string t;
            while (ls >> t) {
                auto e = t.find('=');
                if (e != std::string::npos) l.kv[t.substr(0, e)] = t.substr(e + 1);
            }
            if (k == "sched") {
                p.sched.mode = (sim::SchedCfg::Mode)l.i("mode");
                p.sched.seed = l.u("seed");
                p.sched.p_mem = l.f("pmem");
                p.sched.p_sync = l.f("psync");
                p.sched.max_threads = (int)l.i("threads", 1);
                p.sched.fewer = l.i("fewer") != 0;
                p.sched.team_seed = l.u("team");
            } else if (k == "op" || k == "fault" || k == "cfg") p.lines.push_back(l);
        }
    }
    return p;
}
std::string hex_encode(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
std::string hex_decode(const std::string& s) {
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return o;
}
void random_sched(Plan& p, sim::Rng& r, int max_threads) {
    auto& s = p.sched;
    s.max_threads = r.range(1, max_threads);
    if (max_threads > 1 && r.chance(0.7)) s.max_threads = r.range(2, max_threads);
    s.fewer = r.chance(0.15);
    s.team_seed = r.next() >> 8;
    s.seed = r.next() >> 8;
    if (r.chance(0.35)) {
        s.mode = sim::SchedCfg::PCT;
        static const double pm[] = {0, 0.0003, 0.002};
        s.p_mem = pm[r.below(3)];
    } else {
        s.mode = sim::SchedCfg::RANDOM;
        static const double pm[] = {0, 0.0005, 0.003, 0.02, 0.1};
        static const double ps[] = {0.05, 0.3, 0.8};
        s.p_mem = pm[r.below(5)];
        s.p_sync = ps[r.below(3)];
    }
}
