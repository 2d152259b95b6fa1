// C06: reading images under damage and disk faults.
#include "img.hpp"

static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 106);
    Plan p;
    p.prop = "C06";
    p.seed = seed;
    p.env = r.next() >> 8;
    int k = r.range(1, 4);
    for (int i = 0; i < k; ++i) img_gen(r, p.op("image"), true, true);
    return p;
}
static void exec(const Plan& p) {
    int no = 0;
    for (auto& l : p.lines) {
        if (l.verb != "image") continue;
        Case k = img_case(l);
        if (k.skip) { sim::count("skipped (too large or transparency)"); continue; }
        sim::phase("image %d: %s, %s", ++no, l.s("fmt").c_str(), k.mut.c_str());
        Outcome o = img_read(l, k, "wrong-pixels");
        if (k.mut != "none") sim::count(("fault.file." + k.mut).c_str());
        sim::count(o.threw ? "reads that threw" : "reads that returned the pixels");
        sim::hash_u64(o.threw);
        if (l.s("fmt") == "png") sim::count(("png type " + l.s("ct") + " depth " + l.s("depth")).c_str());
        else sim::count(("jpeg components " + l.s("c")).c_str());
    }
}
static Register reg({"C06", gen, exec, false});
