// C20: tensor handles, views and their geometry against a small model, through histories with failing
// allocations and with threads that share a tensor they only read.
#include "exec.hpp"
#include "proc.hpp"
#include "ser.hpp"
#include <cstring>
#include <sstream>

static const char* kCls = "wrong-tensor";
constexpr int kH = 6;
constexpr size_t kBuf = 4096, kGuard = 64, kOwn = 90000;      // contents are followed up to kOwn elements

static Shp some_shape(sim::Rng& r) {
    Shp s;
    int d = r.range(0, 4);
    if (r.chance(0.05)) d = r.range(5, 8);
    for (int i = 0; i < d; ++i) s.push_back(r.range(1, d < 3 ? 12 : d < 5 ? 5 : 2));
    if (d && r.chance(0.06)) s[r.below(d)] = 0;
    return s;
}
static Shp odd_shape(sim::Rng& r) {
    static const Shp h[] = {{65536, 65536}, {46341, 46341}, {65536, 32768, 2}, {2147483647, 2}, {1073741824, 4}, {65536, 65536, 65536, 65536}, {2147483647, 2147483647, 4}, {65537, 65537},
                            {2147483647, 2147483647, 2147483647}, {0, 2147483647, 2147483647}, {2147483647, 1}, {65536, 65536, 65536, 32768}, {1, 4, 1073741824}};
    return h[r.below(13)];
}
static Shp negative(sim::Rng& r, Shp s) {
    if (s.empty()) return {-1};
    int k = r.chance(0.5) ? 2 : 1;
    for (int i = 0; i < k; ++i) { int& d = s[r.below((uint32_t)s.size())]; d = d ? -d : -1; }
    for (int d : s) if (d < 0) return s;
    s[0] = -1;
    return s;
}
// Another shape with the same number of elements.
static Shp regroup(sim::Rng& r, size_t n) {
    Shp s;
    size_t left = n;
    for (int i = 0; i < 4 && left > 1; ++i) {
        std::vector<int> f;
        for (size_t k = 1; k <= left && k < 64; ++k) if (left % k == 0) f.push_back((int)k);
        int k = f[r.below((uint32_t)f.size())];
        s.push_back(k);
        left /= k;
    }
    if (left > 1 || s.empty() || r.chance(0.3)) s.insert(s.begin() + r.below((uint32_t)s.size() + 1), (int)left);
    return s;
}
static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 120);
    Plan p;
    p.prop = "C20";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 3);
    int n = r.range(4, 26);
    double large = r.chance(0.03) ? 0.4 : 0;       // some histories hold large tensors
    for (int i = 0; i < n; ++i) {
        int c = r.below(24), h = r.below(kH), g = r.below(kH);
        if (r.chance(0.1)) g = h;
        uint64_t salt = r.next() >> 8;
        Shp s = r.chance(0.06) ? odd_shape(r) : some_shape(r);
        if (large && r.chance(large)) s = r.chance(0.5) ? Shp{r.range(1, 80000)} : Shp{r.range(1, 20), r.range(1, 60), r.range(1, 60)};
        if (r.chance(0.06)) s = negative(r, s);
        Line* l;
        if (c < 4) l = &p.op("new").set("h", h).set("shape", s);
        else if (c < 7) l = &p.op("view").set("h", h).set("shape", s).set("at", r.range(0, 900));
        else if (c < 9) l = &p.op("alias").set("h", h).set("g", g);
        else if (c < 12) l = &p.op("allocate").set("h", h).set("shape", s).set("own", r.chance(0.1) ? 1 : 0);
        else if (c < 15) l = &p.op("reshape").set("h", h).set("how", (int)r.below(5)).set("shape", s);
        else if (c < 18) l = &p.op("copy").set("h", h).set("g", g).set("fit", r.chance(0.7) ? 1 : 0);
        else if (c < 20) l = &p.op("write").set("h", h);
        else if (c == 20) l = &p.op("print").set("h", h);
        else if (c == 21) l = &p.op("drop").set("h", h);
        else if (c == 22) l = &p.op("keep").set("h", h);
        else l = &p.op("share").set("h", h).set("n", r.range(2, 3));
        l->set("salt", salt);
        if (c < 18 && r.chance(0.12)) p.fault("oom").set("op", (int)p.lines.size() - 1).set("at", (int)r.below(5)).set("all", r.chance(0.3) ? 1 : 0);
    }
    return p;
}
namespace {
struct Mem { std::vector<float> v; float* base = nullptr; bool external = false; };           // the model of storage
struct TDesc { Shp shape; size_t total = 0; std::shared_ptr<Mem> mem; size_t off = 0; };
static bool followed(const TDesc& m) { return m.mem && m.total && m.total <= kOwn && m.off + m.total <= m.mem->v.size(); }
struct TWorld {
    dw::Tensor t[kH];
    std::shared_ptr<TDesc> d[kH];
    std::vector<dw::Tensor> kept;                   // more handles, never touched again
    std::vector<std::shared_ptr<TDesc>> kept_d;
    std::vector<float> buf;
    std::shared_ptr<Mem> ext{new Mem};
    TWorld() {
        buf.assign(kBuf + 2 * kGuard, 5.5f);
        ext->v = buf;
        ext->base = buf.data();
        ext->external = true;
        for (auto& x : d) x.reset(new TDesc);
    }
    float* where(int h) { return d[h]->mem ? d[h]->mem->base + d[h]->off : nullptr; }
    void check(const char* after) {
        for (int h = 0; h < kH; ++h) {
            TDesc& m = *d[h];
            auto bad = [&](const char* what) { sim::violation(kCls, "after %s: handle %d of shape %s (model: %s, %zu elements): %s", after, h, shape_text(t[h].shape()).c_str(), shape_text(dw::Shape(m.shape)).c_str(), m.total, what); };
            if (Shp(t[h].shape()) != m.shape) bad("wrong shape");
            if (t[h].total() != m.total) bad("wrong number of elements");
            if (t[h].empty() != (m.total == 0)) bad("empty() is wrong");
            auto& st = t[h].strides();
            if (st.size() != m.shape.size()) bad("wrong number of strides");
            size_t want = 1;
            for (size_t i = st.size(); i-- > 0;) {
                if (m.total && st[i] != want) bad("strides are not dense row-major");
                want *= m.shape[i];
            }
            if (m.mem && m.total && t[h].data() != where(h)) bad("data() moved");
            for (int g = 0; g < h; ++g)      // storage is shared exactly when it should be
                if (m.total && d[g]->total && m.mem != d[g]->mem && m.mem && d[g]->mem && t[h].data() == t[g].data()) bad("shares storage with an unrelated tensor");
            if (followed(m) && std::memcmp(t[h].data(), &m.mem->v[m.off], m.total * 4) != 0) bad("wrong contents");
        }
        for (size_t i = 0; i < kept.size(); ++i) {
            TDesc& m = *kept_d[i];
            if (Shp(kept[i].shape()) != m.shape || kept[i].total() != m.total || (m.mem && m.total && kept[i].data() != m.mem->base + m.off) ||
                (followed(m) && std::memcmp(kept[i].data(), &m.mem->v[m.off], m.total * 4) != 0))
                sim::violation(kCls, "after %s: another handle of the same tensor no longer agrees", after);
        }
        if (std::memcmp(buf.data(), ext->v.data(), buf.size() * 4) != 0) sim::violation(kCls, "after %s: memory of the user changed", after);
    }
};
}
// true: valid, false: must be refused; total in *n; *either: refusing it is as good as accepting it
static bool classify(const Shp& s, size_t* n, bool* either) {
    *either = false;
    *n = 1;
    bool over = false, zero = false;
    for (int d : s) {
        if (d < 0) return false;
        if (!d) zero = true;
        else if (!over && *n > (size_t)-1 / 4 / d) over = true;
        else if (!over) *n *= d;
    }
    if (zero) { *n = 0; *either = over; return true; }
    return !over;
}
static void history(const Plan& p) {
    TWorld w;
    int no = 0;
    for (size_t li = 0; li < p.lines.size(); ++li) {
        const Line& ln = p.lines[li];
        if (ln.kind != "op") continue;
        int h = (int)ln.i("h"), g = (int)ln.i("g");
        if (h < 0 || h >= kH || g < 0 || g >= kH) continue;
        std::string v = ln.verb;
        sim::phase("%s (%d)", v.c_str(), ++no);
        sim::AllocFault af;
        // a fault line directly after an operation belongs to it
        if (li + 1 < p.lines.size() && p.lines[li + 1].verb == "oom") { af.index = p.lines[li + 1].i("at"); af.persistent = p.lines[li + 1].i("all") != 0; }
        Shp s = ln.v("shape");
        size_t n = 0;
        bool either = false, threw = false;
        auto attempt = [&](auto f) {
            sim::alloc_arm(af);
            try { f(); } catch (const std::exception&) { threw = true; }
            sim::alloc_disarm();
            return !threw;
        };
        auto judge = [&](bool must_work, bool may_work) {
            if (threw && must_work && !sim::alloc_failures()) sim::violation(kCls, "%s of shape %s was refused", v.c_str(), shape_text(dw::Shape(s)).c_str());
            if (!threw && !may_work) sim::violation(kCls, "%s of shape %s was accepted", v.c_str(), shape_text(dw::Shape(s)).c_str());
            sim::count(threw ? "refused or failed operations" : "operations done");
        };
        if (v == "new" || v == "allocate") {
            if (v == "allocate" && ln.i("own")) s = w.d[h]->shape;
            bool ok = classify(s, &n, &either);
            bool big = n > kOwn;
            dw::Shape sh(s);
            if (ok && n > (size_t)1 << 33) continue;
            bool done = v == "new" ? attempt([&] { dw::Tensor x(sh); w.t[h] = x; }) : attempt([&] { if (ln.i("own")) w.t[h].allocate(w.t[h].shape()); else w.t[h].allocate(sh); });
            judge(ok && !either && !big, ok);
            if (done) {
                if (v == "new") w.d[h].reset(new TDesc);
                TDesc& m = *w.d[h];
                m.shape = s;
                m.total = n;
                m.off = 0;
                m.mem.reset();
                if (n) {
                    if (!w.t[h].data()) sim::violation(kCls, "an allocated tensor has no data");
                    m.mem.reset(new Mem);
                    m.mem->base = w.t[h].data();
                    if (n <= kOwn) { fill(m.mem->base, n, ln.u("salt")); m.mem->v.assign(m.mem->base, m.mem->base + n); }
                }
            }
            if (done && big) { w.check(v.c_str()); w.t[h] = dw::Tensor(); w.d[h].reset(new TDesc); }
        } else if (v == "view") {
            bool ok = classify(s, &n, &either);
            dw::Shape sh(s);
            size_t at = kGuard + ln.i("at");
            bool big = ok && at + n > kGuard + kBuf;
            bool done = attempt([&] { w.t[h] = dw::Tensor(sh, w.buf.data() + at); });
            judge(ok && !either, ok);
            if (done) {
                w.d[h].reset(new TDesc);
                w.d[h]->shape = s;
                w.d[h]->total = n;
                w.d[h]->mem = w.ext;
                w.d[h]->off = at;
                if (w.t[h].data() != w.buf.data() + at) sim::violation(kCls, "a view does not use the memory it was given");
                if (big) { w.check("view"); w.t[h] = dw::Tensor(); w.d[h].reset(new TDesc); }
            }
        } else if (v == "alias") {
            w.t[h] = w.t[g];
            w.d[h] = w.d[g];
        } else if (v == "keep") {           // another handle, never touched again: storage must stay alive and in place
            if (w.d[h]->mem && w.d[h]->total) {
                w.kept.push_back(w.t[h]);
                w.kept_d.push_back(w.d[h]);
            }
        } else if (v == "drop") {
            w.t[h] = dw::Tensor();
            w.d[h].reset(new TDesc);
        } else if (v == "reshape") {
            size_t total = w.d[h]->total;
            sim::Rng r(ln.u("salt"));
            int how = (int)ln.i("how");
            if (how < 3 && total) s = regroup(r, total);
            if (how == 2) s = negative(r, s);
            if (how == 3) s = w.d[h]->shape;
            bool ok = classify(s, &n, &either) && n == total;
            dw::Shape sh(s);
            bool done = attempt([&] { if (how == 3) w.t[h].reshape(w.t[h].shape()); else w.t[h].reshape(sh); });
            if (how == 3) ok = ok || !total;      // an empty tensor may have the shape of a scalar
            judge(ok && !either && how != 3 || ok && how == 3 && total, ok);
            if (done) w.d[h]->shape = s;
        } else if (v == "copy") {
            TDesc& a = *w.d[h];
            if (ln.i("fit") && w.d[g]->shape != a.shape && a.total && a.total <= kOwn) {
                // make the destination fit, in storage of its own
                w.t[g] = dw::Tensor(dw::Shape(a.shape));
                w.d[g].reset(new TDesc);
                w.d[g]->shape = a.shape;
                w.d[g]->total = a.total;
                w.d[g]->mem.reset(new Mem);
                w.d[g]->mem->base = w.t[g].data();
                fill(w.t[g].data(), a.total, ln.u("salt"));
                w.d[g]->mem->v.assign(w.t[g].data(), w.t[g].data() + a.total);
            }
            TDesc& src = *w.d[h];
            TDesc& dst = *w.d[g];
            // overlapping views are the caller's mistake
            if (src.mem == dst.mem && src.mem && src.off != dst.off && src.off < dst.off + dst.total && dst.off < src.off + src.total) continue;
            bool ok = src.shape == dst.shape && src.total == dst.total && dst.total;
            bool may = ok || (src.shape == dst.shape && src.total == 0);
            s = src.shape;
            bool done = attempt([&] { w.t[h].copyTo(w.t[g]); });
            judge(ok, may);
            if (done && ok) {
                std::vector<float> tmp(src.mem->v.begin() + src.off, src.mem->v.begin() + src.off + src.total);
                std::copy(tmp.begin(), tmp.end(), dst.mem->v.begin() + dst.off);
                sim::count("copies");
            }
        } else if (v == "write") {
            TDesc& m = *w.d[h];
            if (!m.mem || !m.total || m.total > kOwn) continue;
            fill(w.t[h].data(), m.total, ln.u("salt"), 3);
            std::copy(w.t[h].data(), w.t[h].data() + m.total, m.mem->v.begin() + m.off);
        } else if (v == "print") {
            TDesc& m = *w.d[h];
            std::ostringstream a, b;
            a << w.t[h];
            b << "[";
            if (!m.total) b << " ";
            for (size_t i = 0; i < m.total; ++i) b << (i ? ", " : "") << m.mem->v[m.off + i];
            b << "]";
            if (a.str() != b.str()) sim::violation(kCls, "printed as %.60s instead of %.60s", a.str().c_str(), b.str().c_str());
        } else if (v == "share") {          // threads that only read one tensor, each through a handle of its own
            TDesc& m = *w.d[h];
            if (!m.mem || !m.total) continue;
            std::vector<sim::ThreadRef> th;
            std::vector<std::string> text((size_t)std::min(4L, ln.i("n", 2)));
            std::vector<std::vector<float>> out(text.size());
            for (size_t i = 0; i < text.size(); ++i) {
                dw::Tensor mine(w.t[h]);
                th.push_back(sim::spawn([&, i, mine]() mutable {
                    dw::Tensor own(mine.shape()), other = mine, view(mine.shape(), own.data());
                    mine.copyTo(own);
                    mine = dw::Tensor();
                    std::ostringstream o;
                    o << other;
                    text[i] = o.str();
                    out[i].assign(view.data(), view.data() + view.total());
                }));
            }
            if (ln.u("salt") % 3 == 0 && !m.mem->external) { w.t[h] = dw::Tensor(); w.d[h].reset(new TDesc); }   // the threads may hold the last handles
            for (auto& t : th) sim::join(t);
            for (size_t i = 1; i < text.size(); ++i)
                if (text[i] != text[0] || out[i].size() != out[0].size() || std::memcmp(out[i].data(), out[0].data(), out[0].size() * 4)) sim::violation(kCls, "two readers of one tensor saw different contents");
            sim::count("shared reads");
        }
        check_races();
        w.check(v.c_str());
        sim::count(("op " + v).c_str());
        for (int i = 0; i < kH; ++i) sim::hash_u64(w.d[i]->total);
    }
    sim::count("histories");
}
static void exec(const Plan& p) {
    history(p);
#ifdef SIM_A
    if (p.find("share")) return;          // simulated threads have memory of their own
    // The first time may allocate things that stay (locales, thread caches); the second time nothing may stay.
    size_t before = sim::live_bytes();
    history(p);
    size_t after = sim::live_bytes();
    if (after > before) sim::violation("tensor-leak", "%zu bytes of tensors are still allocated after the last handle is gone", after - before);
#endif
}
static Register reg({"C20", gen, exec, false});
