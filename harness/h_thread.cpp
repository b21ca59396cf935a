// P20: concurrent threads, each with objects of its own; results equal to the sequential ones, no races (TSan build)
#define VERIF_MAIN
#include <thread>
#include <mutex>
#include <sched.h>
#include <algorithm>
#include "work.hpp"
using namespace MTToolBox;
using work::TaskP;
struct Spec { int kind; bool wide; uint64_t seed; };
struct Span { int kind, thread; uint64_t a, b; };
static std::atomic<uint64_t> clk(0);

static void threads(Case& c) {
    Rng& r = c.rng;
    int T = r.range(2, 8), per = r.range(2, 5);
    std::vector<std::vector<Spec> > sp(static_cast<size_t>(T));
    int same = r.chance(1, 2) ? r.range(0, work::NKIND - 1) : -1;
    bool twins = r.chance(1, 3);                 // all threads the very same work
    uint64_t base = r.next();
    for (int t = 0; t < T; t++) for (int k = 0; k < per; k++) {
        Spec s;
        s.kind = same >= 0 && r.chance(2, 3) ? same : r.range(0, work::NKIND - 1);
        s.wide = r.chance(1, 2);
        s.seed = r.next();
        if (twins) { Rng q(base + static_cast<uint64_t>(k)); s.kind = q.range(0, work::NKIND - 1); s.wide = q.chance(1, 2); s.seed = q.next(); }
        sp[static_cast<size_t>(t)].push_back(s);
    }
    std::vector<std::vector<std::string> > want(sp.size()), got(sp.size());
    std::vector<std::string> err(sp.size());
    for (size_t t = 0; t < sp.size(); t++) { got[t].resize(sp[t].size()); for (size_t k = 0; k < sp[t].size(); k++) { TaskP x = work::makeTask(sp[t][k].kind, sp[t][k].wide, sp[t][k].seed); x->run(); want[t].push_back(x->digest); } }
    std::vector<std::vector<Span> > spans(sp.size());
    std::atomic<int> ready(0);
    std::atomic<long> yields(0);
    int noise = r.range(0, 3);
    std::vector<uint64_t> ns;
    for (int t = 0; t < T; t++) ns.push_back(r.next());
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.push_back(std::thread([&, t]() {
        Rng q(ns[static_cast<size_t>(t)]);
        long gap = 1 + static_cast<long>(q.below(200)), left = gap, y = 0;
        if (noise) work::stepHook() = [&]() {
            if (--left > 0) return;
            left = 1 + static_cast<long>(q.below(static_cast<uint64_t>(gap)));
            y++;
            if (noise == 1 || q.chance(9, 10)) sched_yield(); else usleep(noise == 2 ? 1 : 30);
        };
        ready++;
        while (ready.load() < T) sched_yield();
        try {
            for (size_t k = 0; k < sp[static_cast<size_t>(t)].size(); k++) {
                const Spec& s = sp[static_cast<size_t>(t)][k];
                Span w;
                w.kind = s.kind; w.thread = t;
                w.a = clk++;
                TaskP x = work::makeTask(s.kind, s.wide, s.seed);
                while (!x->done()) { x->step(); clk++; if (noise && q.chance(1, 3)) sched_yield(); }
                w.b = clk++;
                got[static_cast<size_t>(t)][k] = x->digest;
                spans[static_cast<size_t>(t)].push_back(w);
            }
        } catch (std::exception& e) { err[static_cast<size_t>(t)] = e.what(); }
        catch (...) { err[static_cast<size_t>(t)] = "unknown exception"; }
        work::stepHook() = nullptr;
        yields += y;
    }));
    for (size_t t = 0; t < th.size(); t++) th[t].join();
    for (size_t t = 0; t < sp.size(); t++) {
        if (!err[t].empty()) c.fail("exception-in-thread", err[t]);
        for (size_t k = 0; k < sp[t].size(); k++)
            c.check(got[t][k] == want[t][k], std::string("result-differs:") + work::kindName(sp[t][k].kind),
                    "threads " + S(T) + " sequential " + want[t][k].substr(0, 200) + " concurrent " + got[t][k].substr(0, 200));
    }
    std::set<std::string> pairs;
    for (size_t a = 0; a < spans.size(); a++) for (size_t b = a + 1; b < spans.size(); b++)
        for (const Span& x : spans[a]) for (const Span& y : spans[b])
            if (x.a < y.b && y.a < x.b) {
                std::string p = std::string(work::kindName(std::min(x.kind, y.kind))) + "|" + work::kindName(std::max(x.kind, y.kind));
                pairs.insert(p);
                c.count("overlaps");
            }
    for (const std::string& p : pairs) c.eval(p, true);
    c.count("threads", T);
    c.count("noise_yields", yields);
}
void runProperty(Harness& h) { h.group("threads", h.n(240, 12000), threads); }
