// Log delivery monitor: every handler's received sequence is compared with what had to reach it.
#include "hcommon.h"

struct Handler {
    int id; VSLogHandle *h = nullptr;
    std::vector<std::pair<int, std::string>> got;
    int frees = 0; bool removed = false, nest = false; int inside = 0;
    VSCore *core = nullptr;
    std::atomic<int> lateCalls{0};
};
static void VS_CC onMsg(int t, const char *m, void *ud) {
    Handler *h = (Handler *)ud;
    if (h->removed || h->frees) h->lateCalls++;
    h->got.push_back({t, m});
    // a handler may log itself
    if (h->nest && !h->inside && !strncmp(m, "nest", 4)) { h->inside = 1; api()->logMessage(mtInformation, (std::string("inner ") + std::to_string(h->id) + m).c_str(), h->core); h->inside = 0; }
}
static void VS_CC onFree(void *ud) { ((Handler *)ud)->frees++; }

static void oneCase(uint64_t seed) {
    auto a = api();
    Rng r(seed);
    VSCore *core = a->createCore(ccfDisableAutoLoading | (r.chance(30) ? ccfEnableGraphInspection : 0));
    std::vector<std::unique_ptr<Handler>> all;
    std::map<Handler *, std::vector<std::pair<int, std::string>>> want;
    std::vector<Handler *> live;
    std::vector<std::pair<int, std::string>> stored;
    bool nestMode = r.chance(25);
    int seq = 0; uint64_t hist = 0; int delivered = 0;
    { Handler t; t.id = -1; VSLogHandle *h = a->addLogHandler(onMsg, nullptr, &t, core); a->removeLogHandler(h, core); }     // drop what the core itself logged
    auto drop = [&](std::vector<std::pair<int, std::string>> v) {      // our messages only
        std::vector<std::pair<int, std::string>> o;
        for (auto &e : v) if (!e.second.compare(0, 3, "msg") || !e.second.compare(0, 4, "nest") || !e.second.compare(0, 5, "inner")) o.push_back(e);
        return o;
    };
    int steps = r.range(20, 120);
    bool overflow = false;
    for (int i = 0; i < steps; i++) {
        hEvals++;
        int op = r.below(100);
        if (op < 15 && live.size() < 6) {
            all.push_back(std::make_unique<Handler>());
            Handler *h = all.back().get(); h->id = (int)all.size(); h->core = core; h->nest = nestMode && r.chance(40);
            want[h] = {};
            for (auto &m : stored) { want[h].push_back(m); }
            bool hadNest = false;
            if (h->nest) for (auto &m : stored) if (!m.second.compare(0, 4, "nest")) hadNest = true;
            if (hadNest) { h->nest = false; }
            h->h = a->addLogHandler(onMsg, r.chance(80) ? onFree : nullptr, h, core);
            for (auto o : live) if (o->h == h->h) viol("handle", "two handlers have the same handle");
            if (stored.size() >= 500) overflow = true;
            stored.clear();
            live.push_back(h);
            hist = mix(hist, 1);
        } else if (op < 25 && !live.empty()) {
            int k = r.below((int)live.size());
            Handler *h = live[k];
            if (!a->removeLogHandler(h->h, core)) viol("remove", "a registered handler could not be removed");
            h->removed = true;
            live.erase(live.begin() + k);
            if (h->frees > 1) viol("free", "the free callback of a handler ran twice");
            hist = mix(hist, 2 + k);
        } else if (op < 28 && !live.empty()) {
            // an unknown handle
            char fake[64];
            if (a->removeLogHandler((VSLogHandle *)(void *)fake, core)) viol("remove:unknown", "a handle that was never given out was removed");
        } else {
            int n = r.chance(4) ? r.range(100, 320) : r.range(1, 4);
            while (n--) {
                int t = r.below(4);
                std::string m = fmt("%s %d ", nestMode && r.chance(15) ? "nest" : "msg", seq++);
                if (r.chance(10)) m += std::string(r.below(5000), 'z');
                if (r.chance(10)) m += "%s %n %d \xc3\xa9\n";
                a->logMessage(t, m.c_str(), core);
                for (auto h : live) want[h].push_back({t, m});
                if (live.empty() && stored.size() < 500) stored.push_back({t, m});
                if (!m.compare(0, 4, "nest"))
                    for (auto h : live) if (h->nest) for (auto q : live) want[q].push_back({mtInformation, std::string("inner ") + std::to_string(h->id) + m});
            }
            hist = mix(hist, 100 + (int)live.size());
        }
        for (auto h : live) {
            auto g = drop(h->got); auto w = want[h];
            if (nestMode) { std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); }
            if (g != w) {
                size_t k = 0; while (k < g.size() && k < w.size() && g[k] == w[k]) k++;
                viol(g.size() < w.size() ? "lost" : g.size() > w.size() ? "extra" : "order", fmt("handler %d received %d messages instead of %d, first difference at %d: '%.60s' instead of '%.60s'", h->id, (int)g.size(), (int)w.size(), (int)k, k < g.size() ? g[k].second.c_str() : "", k < w.size() ? w[k].second.c_str() : ""));
                h->got.clear(); want[h].clear();
            }
            delivered += (int)g.size();
            if (h->got.size() > 400) { h->got.clear(); want[h].clear(); }
        }
    }
    std::set<Handler *> liveSet(live.begin(), live.end());
    a->freeCore(core);
    for (auto &h : all) {
        if (h->lateCalls) viol("late", "a handler was called after it had been removed");
        if (h->frees > 1) viol("free", "the free callback of a handler ran more than once");
    }
    if (delivered && all.size() > 1) hDistinct.insert(hist);
    count("messages_checked", delivered); if (overflow) count("overflows");
}

// free callbacks: exactly once, at removal or with the core
static void freeCase(uint64_t seed) {
    auto a = api();
    Rng r(seed);
    VSCore *core = a->createCore(ccfDisableAutoLoading);
    std::vector<std::unique_ptr<Handler>> hs;
    int n = r.range(1, 8);
    for (int i = 0; i < n; i++) { hs.push_back(std::make_unique<Handler>()); hs[i]->h = a->addLogHandler(onMsg, onFree, hs[i].get(), core); }
    for (int i = 0; i < n; i++) if (r.chance(50)) {
        if (hs[i]->frees) viol("free:early", "a free callback ran before the handler was removed");
        a->removeLogHandler(hs[i]->h, core); hs[i]->removed = true;
        if (hs[i]->frees != 1) viol("free", fmt("removing a handler ran its free callback %d times", hs[i]->frees));
    }
    for (auto &h : hs) if (!h->removed && h->frees) viol("free:early", "a free callback ran before the handler was removed");
    a->logMessage(mtWarning, "msg", core);
    a->freeCore(core);
    for (auto &h : hs) { if (h->frees != 1) viol("free", fmt("a free callback ran %d times by the time the core was freed", h->frees)); if (h->removed ? !h->got.empty() : h->got.size() != 1) viol("late", "a removed handler was called, or a registered one was not"); }
    hEvals += n; hDistinct.insert(seed);
}

// several threads log while handlers come and go
struct THandler { std::vector<std::pair<int, int>> got; std::atomic<bool> gone{false}; int frees = 0; int bad = 0; };
static std::atomic<int> gFails{0};
static void VS_CC tMsg(int, const char *m, void *ud) {
    THandler *h = (THandler *)ud; int t, s;
    if (h->gone) h->bad++;
    if (sscanf(m, "T%d #%d", &t, &s) == 2) h->got.push_back({t, s});        // unsynchronised on purpose: calls must not overlap
}
static void VS_CC tFree(void *ud) { ((THandler *)ud)->frees++; }
static void threadCase(uint64_t seed) {
    auto a = api();
    Rng r(seed);
    VSCore *core = a->createCore(ccfDisableAutoLoading);
    { THandler t; a->removeLogHandler(a->addLogHandler(tMsg, nullptr, &t, core), core); }
    int nt = r.range(2, 5), per = r.range(20, 80);
    std::vector<std::atomic<int>> sent(nt), begun(nt);
    for (auto &s : sent) s = 0;
    for (auto &s : begun) s = 0;
    bool perm = r.chance(60);
    THandler P; VSLogHandle *ph = perm ? a->addLogHandler(tMsg, tFree, &P, core) : nullptr;
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
        Rng q(mix(seed, t));
        for (int i = 0; i < per; i++) {
            begun[t] = i + 1;
            a->logMessage(q.below(4), fmt("T%d #%d", t, i).c_str(), core);
            sent[t] = i + 1;
            if (q.chance(20)) std::this_thread::yield();
        }
    });
    std::vector<std::unique_ptr<THandler>> hs;
    std::vector<std::vector<int>> lo, hi;          // messages that must have arrived lie in [lo, hi)
    std::vector<bool> firstHandler;
    // somebody else's handlers come and go at the same time
    std::atomic<bool> stop{false};
    std::vector<std::unique_ptr<THandler>> others;
    std::vector<std::thread> oth;
    int no = perm ? r.below(3) : 0;
    std::mutex om;
    for (int t = 0; t < no; t++) oth.emplace_back([&, t] {
        Rng q(mix(seed, 900 + t));
        for (int i = 0; i < 200 && !stop; i++) {
            auto h = std::make_unique<THandler>();
            VSLogHandle *hd = a->addLogHandler(tMsg, tFree, h.get(), core);
            if (q.chance(30)) std::this_thread::yield();
            if (!a->removeLogHandler(hd, core)) { std::lock_guard<std::mutex> g(om); viol("mt:remove", "a registered handler could not be removed"); }
            h->gone = true;
            std::lock_guard<std::mutex> g(om);
            others.push_back(std::move(h));
        }
    });
    int rounds = r.range(2, 10);
    for (int k = 0; k < rounds; k++) {
        hs.push_back(std::make_unique<THandler>());
        THandler *h = hs.back().get();
        VSLogHandle *hd = a->addLogHandler(tMsg, tFree, h, core);
        std::vector<int> l(nt), u(nt);
        for (int t = 0; t < nt; t++) l[t] = begun[t];
        int spins = r.below(200);
        while (spins--) std::this_thread::yield();
        for (int t = 0; t < nt; t++) u[t] = sent[t];
        if (!a->removeLogHandler(hd, core)) viol("mt:remove", "a registered handler could not be removed");
        h->gone = true;
        lo.push_back(l); hi.push_back(u);
    }
    for (auto &t : th) t.join();
    stop = true;
    for (auto &t : oth) t.join();
    for (auto &h : others) {
        if (h->bad) viol("mt:late", "a handler was called after its removal had returned");
        if (h->frees != 1) viol("mt:free", fmt("the free callback ran %d times", h->frees));
    }
    auto byThread = [&](THandler *h, int t) { std::vector<int> v; for (auto &e : h->got) if (e.first == t) v.push_back(e.second); return v; };
    for (int k = 0; k < rounds; k++) {
        THandler *h = hs[k].get();
        if (h->bad) viol("mt:late", "a handler was called after its removal had returned");
        if (h->frees != 1) viol("mt:free", fmt("the free callback ran %d times", h->frees));
        for (int t = 0; t < nt; t++) {
            auto v = byThread(h, t);
            for (size_t i = 1; i < v.size(); i++) if (v[i] != v[i - 1] + 1) { viol("mt:order", fmt("a handler received message %d of a thread right after message %d", v[i], v[i - 1])); break; }
            if (hi[k][t] > lo[k][t]) {
                if (v.empty() || v.front() > lo[k][t] || v.back() < hi[k][t] - 1) viol("mt:lost", fmt("a handler did not receive messages %d..%d of thread %d logged while it was registered", lo[k][t], hi[k][t] - 1, t));
            }
        }
    }
    if (perm) {
        for (int t = 0; t < nt; t++) if ((int)byThread(&P, t).size() != per) viol("mt:lost", "the permanent handler did not receive every message exactly once");
        // every handler sees the same total order
        std::map<std::pair<int, int>, int> pos;
        for (size_t i = 0; i < P.got.size(); i++) pos[P.got[i]] = (int)i;
        for (auto &h : hs) for (size_t i = 1; i < h->got.size(); i++) if (pos[h->got[i]] < pos[h->got[i - 1]]) { viol("mt:total", "two handlers received messages in different orders"); break; }
        a->removeLogHandler(ph, core);
    } else {
        // everything reached a handler or was kept: nothing is lost and nothing is delivered from the store twice
        THandler L; VSLogHandle *lh = a->addLogHandler(tMsg, tFree, &L, core);
        std::map<std::pair<int, int>, int> n;
        for (auto &h : hs) for (auto &e : h->got) n[e]++;
        for (auto &e : L.got) n[e]++;
        int tot = nt * per;
        if (tot < 500) { for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) if (n[{t, i}] != 1) { viol("mt:once", fmt("a message was delivered %d times in all, with one handler registered at a time", n[{t, i}])); t = nt; break; } }
        a->removeLogHandler(lh, core);
    }
    hEvals += nt * per; hDistinct.insert(seed);
    a->freeCore(core);
}

int main(int argc, char **argv) {
    Args ar(argc, argv);
    int mt = ar.geti("mt", 0);
    for (int k = ar.from; k < ar.to; k++) {
        hLine(fmt("CASE %d", k));
        uint64_t s = mix(mix(ar.seed, 0x106), k);
        if (mt) threadCase(s); else if (k % 8 == 7) freeCase(s); else oneCase(s);
    }
    hDone();
    return 0;
}
