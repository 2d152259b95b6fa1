// A plan is the complete description of one simulated run: operations, faults, schedule.
// It is generated from (property, seed), printed as text, minimised by dropping lines, and executed.
#pragma once
#include "simrt.hpp"
#include <map>
#include <string>
#include <vector>

struct Line {
    std::string kind;                       // "op" or "fault" (droppable), "cfg" (kept)
    std::string verb;
    std::map<std::string, std::string> kv;
    Line() = default;
    Line(std::string k, std::string v) : kind(std::move(k)), verb(std::move(v)) {}
    Line& set(const char* k, long v);
    Line& set(const char* k, int v) { return set(k, (long)v); }
    Line& set(const char* k, uint64_t v);
    Line& set(const char* k, double v);
    Line& set(const char* k, const std::string& v);
    Line& set(const char* k, const std::vector<int>& v);
    bool has(const char* k) const { return kv.count(k) != 0; }
    long i(const char* k, long d = 0) const;
    uint64_t u(const char* k, uint64_t d = 0) const;
    double f(const char* k, double d = 0) const;
    std::string s(const char* k, const std::string& d = "") const;
    std::vector<int> v(const char* k) const;
    std::string text() const;
};

struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::vector<Line> lines;
    sim::SchedCfg sched;
    uint64_t env = 1;                       // seeds the random device and the topological order

    Line& op(const std::string& verb) { lines.emplace_back("op", verb); return lines.back(); }
    Line& fault(const std::string& verb) { lines.emplace_back("fault", verb); return lines.back(); }
    Line& cfg(const std::string& verb) { lines.emplace_back("cfg", verb); return lines.back(); }
    const Line* find(const std::string& verb) const;
    std::string text() const;
    static Plan parse(const std::string& text);
};

std::string hex_encode(const std::string& s);
std::string hex_decode(const std::string& s);

// Default schedule for a run: swarm over scheduler kind, switch rate and thread count.
void random_sched(Plan& p, sim::Rng& r, int max_threads);

struct Workload {
    const char* prop;
    Plan (*gen)(uint64_t seed);
    void (*exec)(const Plan&);
    bool raw;      // exec runs in the coordinator process: it forks the simulated processes itself
};
extern std::vector<Workload>& workloads();
struct Register { Register(Workload w) { workloads().push_back(w); } };
