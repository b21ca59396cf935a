// P19: analyses leave their inputs alone and are repeatable; objects do not influence each other
#define VERIF_MAIN
#include <algorithm>
#include "work.hpp"
#include <sys/wait.h>
using namespace MTToolBox;
using work::TaskP;

struct Spec { int kind; bool wide; uint64_t seed; };
static std::string alone(const Spec& s) { TaskP t = work::makeTask(s.kind, s.wide, s.seed); t->run(); return t->digest; }
static std::string diffAt(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = i > 60 ? i - 60 : 0;
    return "alone ..." + a.substr(f, 160) + " | together ..." + b.substr(f, 160);
}
static std::vector<Spec> pickSpecs(Rng& r, int n) {
    std::vector<Spec> v;
    int same = r.chance(1, 2) ? r.range(0, work::NKIND - 1) : -1;
    for (int i = 0; i < n; i++) {
        Spec s;
        s.kind = same >= 0 && r.chance(2, 3) ? same : r.range(0, work::NKIND - 1);
        s.wide = r.chance(1, 2);
        s.seed = r.next();
        if (i && r.chance(1, 6)) s = v[0];        // an equal twin
        v.push_back(s);
    }
    return v;
}
static void judge(Case& c, const std::vector<Spec>& sp, const std::vector<TaskP>& ts, const std::vector<std::string>& want, const std::string& how) {
    std::string names;
    for (size_t i = 0; i < sp.size(); i++) names += (i ? "+" : "") + ts[i]->name + (sp[i].wide ? "64" : "32");
    for (size_t i = 0; i < sp.size(); i++)
        c.check(ts[i]->digest == want[i], "influence:" + how + ":" + ts[i]->name, names + ": " + diffAt(want[i], ts[i]->digest));
    c.eval(how + " " + names + " " + hex(sp[0].seed), true);
    c.count("pairs_" + ts[0]->name + "_" + (sp.size() > 1 ? ts[1]->name : ""));
}
static void interleaved(Case& c) {
    Rng& r = c.rng;
    std::vector<Spec> sp = pickSpecs(r, r.range(2, 5));
    std::vector<std::string> want;
    for (size_t i = 0; i < sp.size(); i++) want.push_back(alone(sp[i]));
    for (size_t i = 0; i < sp.size(); i++) if (r.chance(1, 2)) c.check(alone(sp[i]) == want[i], "not-repeatable", work::kindName(sp[i].kind));
    for (int round = 0; round < 2; round++) {
        std::vector<TaskP> ts;
        for (size_t i = 0; i < sp.size(); i++) ts.push_back(work::makeTask(sp[i].kind, sp[i].wide, sp[i].seed));
        std::vector<size_t> live;
        for (size_t i = 0; i < ts.size(); i++) live.push_back(i);
        long sw = 0;
        while (!live.empty()) {
            size_t k = r.below(live.size());
            ts[live[k]]->step();
            sw++;
            if (ts[live[k]]->done()) live.erase(live.begin() + static_cast<long>(k));
        }
        c.count("interleaved_steps", sw);
        judge(c, sp, ts, want, "steps");
    }
}
// steps of the other tasks run inside the generator calls of the first one
static void nested(Case& c) {
    Rng& r = c.rng;
    std::vector<Spec> sp = pickSpecs(r, r.range(2, 4));
    if (sp[0].kind <= 2 || sp[0].kind == 12 || sp[0].kind == 13) sp[0].kind = r.range(3, 11);
    std::vector<std::string> want;
    for (size_t i = 0; i < sp.size(); i++) want.push_back(alone(sp[i]));
    std::vector<TaskP> ts;
    for (size_t i = 0; i < sp.size(); i++) ts.push_back(work::makeTask(sp[i].kind, sp[i].wide, sp[i].seed));
    long gap = r.range(1, 400), left = gap, inside = 0;
    bool busy = false;
    work::stepHook() = [&]() {
        if (busy || --left > 0) return;
        left = gap;
        std::vector<size_t> live;
        for (size_t i = 1; i < ts.size(); i++) if (!ts[i]->done()) live.push_back(i);
        if (live.empty()) return;
        busy = true;
        ts[live[r.below(live.size())]]->step();
        inside++;
        busy = false;
    };
    ts[0]->run();
    work::stepHook() = nullptr;
    for (size_t i = 1; i < ts.size(); i++) ts[i]->run();
    c.count("steps_nested_in_generator_calls", inside);
    judge(c, sp, ts, want, "nested");
}
// one generator, every analysis, any order, repeatedly: same answers, generator as before
template<class U> static void pure(Case& c) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    int mexp = r.pick(std::vector<int>{7, 13, 17, 19, 31, 61});
    int extra = r.chance(1, 2) ? 0 : r.range(1, std::min(12, mexp - 1));
    std::vector<Poly> b;
    Poly f = randPrimMersenne(r, mexp);
    b.push_back(f);
    for (int left = extra; left > 0;) { int d = r.range(1, left); Poly p = randPoly(r, d); if (!p.bit(0)) p.flip(0); b.push_back(d == 1 ? Poly(3) : p); left -= d; }
    GenOpt o;
    o.tparams = 2;
    o.mtstyle = r.chance(1, 2);
    o.mexp = mexp;
    typedef LfsrGen<U> G;
    G g(std::vector<std::shared_ptr<Model<U> > >(1, makeModel<U>(r, b, o)), r.chance(1, 2));
    g.seedState(r.next());
    for (int i = 0; i < 2; i++) if (r.chance(1, 2)) g.setTemperingPattern(~static_cast<U>(0), WordOps<U>::rnd(r), i);
    if (r.chance(1, 2)) g.setUpTempering();
    if (r.chance(1, 3)) g.setReverseOutput();
    std::map<std::string, std::string> answers;
    G before(g);
    std::vector<U> out = record(g, 200);
    int acc1 = r.range(1, B), acc2 = r.range(1, B);
    for (int k = 0; k < 12; k++) {
        int what = r.range(0, 4), acc = r.chance(1, 2) ? acc1 : acc2;
        std::string key = S(what) + "/" + (what == 4 ? "" : S(acc)), ans;
        std::vector<int> v(static_cast<size_t>(acc), -1);
        int s = -1;
        if (extra && what < 2) what += 2;
        switch (what) {
        case 0: { AlgorithmEquidistribution<U> a(g, acc); ans = S(a.get_all_equidist(v.data())); for (int x : v) ans += "," + S(x); break; }
        case 1: { AlgorithmEquidistribution<U> a(g, acc, r.chance(1, 2) ? 0 : mexp); ans = S(a.get_equidist(&s)); ans += "/" + S(s); break; }
        case 2: { AlgorithmReducibleEquidistribution<U, G> a(g, toNTL(f), acc, mexp); ans = S(a.get_all_equidist(v.data())); for (int x : v) ans += "," + S(x); break; }
        case 3: { AlgorithmReducibleEquidistribution<U, G> a(g, toNTL(f), acc, mexp); ans = S(a.get_equidist(&s)); ans += "/" + S(s); break; }
        default: { TestLinearity<U> t; ans = S(t(g)); }
        }
        key = S(what) + "/" + (what == 4 ? "" : S(acc));
        std::string d = "analysis " + key + " n=" + S(g.m().n) + " step " + S(k);
        c.check(g.same(before), "generator-modified:" + S(what), d);
        if (answers.count(key)) { c.check(answers[key] == ans, "answer-changed:" + S(what), d + ": " + answers[key].substr(0, 100) + " then " + ans.substr(0, 100)); c.count("repeated_answers"); }
        answers[key] = ans;
        c.eval(d + " f=" + f.str() + ans, true);
    }
    c.check(record(g, 200) == out, "later-output-changed", "n=" + S(g.m().n));
}
// the same work in a process that has done nothing else: a server forked before the first case forks a child for every request
static int gAsk = -1, gAns = -1;
static void serve(int in, int out) {
    for (;;) {
        Spec s;
        char * q = reinterpret_cast<char *>(&s);
        size_t got = 0;
        while (got < sizeof s) { ssize_t k = read(in, q + got, sizeof s - got); if (k <= 0) _exit(0); got += static_cast<size_t>(k); }
        pid_t p = fork();
        if (p == 0) {
            std::string d;
            try { d = alone(s); } catch (...) { d = "exception"; }
            size_t n = d.size(), at = 0;
            std::string all(reinterpret_cast<char *>(&n), sizeof n);
            all += d;
            while (at < all.size()) { ssize_t k = write(out, all.data() + at, all.size() - at); if (k <= 0) _exit(1); at += static_cast<size_t>(k); }
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(1);      // seen by the reader as an end of file
    }
}
static bool askFresh(const Spec& s, std::string& d) {
    if (write(gAsk, &s, sizeof s) != static_cast<ssize_t>(sizeof s)) return false;
    size_t n = 0, got = 0;
    while (got < sizeof n) { ssize_t k = read(gAns, reinterpret_cast<char *>(&n) + got, sizeof n - got); if (k <= 0) return false; got += static_cast<size_t>(k); }
    d.assign(n, 0);
    got = 0;
    while (got < n) { ssize_t k = read(gAns, &d[got], n - got); if (k <= 0) return false; got += static_cast<size_t>(k); }
    return true;
}
static void fresh(Case& c) {
    std::vector<Spec> sp = pickSpecs(c.rng, c.rng.range(2, 4));
    for (size_t i = 0; i < sp.size(); i++) {
        std::string want, got = alone(sp[i]);
        if (!askFresh(sp[i], want)) { c.count("fresh_process_gave_no_answer"); return; }
        c.check(want == got, std::string("depends-on-history:") + work::kindName(sp[i].kind), diffAt(want, got));
        c.eval(std::string("fresh ") + work::kindName(sp[i].kind) + hex(sp[i].seed), true);
        c.count("compared_with_a_fresh_process");
    }
}
void runProperty(Harness& h) {
    int a[2], b[2];
    if (!h.leaks && pipe(a) == 0 && pipe(b) == 0) {
        pid_t p = fork();
        if (p == 0) { close(a[1]); close(b[0]); signal(SIGPROF, SIG_DFL); serve(a[0], b[1]); }
        close(a[0]);
        close(b[1]);
        signal(SIGPIPE, SIG_IGN);
        gAsk = a[1];
        gAns = b[0];
    }
    h.group("interleaved", h.n(1500, 60000), interleaved);
    h.group("nested", h.n(1500, 60000), nested);
    if (gAsk >= 0) h.group("fresh", h.n(300, 12000), fresh);
    h.group("pure32", h.n(300, 10000), pure<uint32_t>);
    h.group("pure64", h.n(200, 6000), pure<uint64_t>);
}
