// Caches and memory. One request at a time with a controlled clock, so a model of every node's cache predicts
// exactly which filter calls a request makes and how much frame memory is in use afterwards (C05). With --prop C06:
// conservation and the limit under concurrent allocation, pressure sweeps and flushes.
#include "hperturb.h"
#include <malloc.h>

static const VSAPI *vs;

static int64_t used(VSCore *c) { VSCoreInfo2 i; vs->getCoreInfo2(c, &i); return i.usedFramebufferSize; }
// waits for the pool to settle: references are dropped shortly after a completion is delivered
template<class F> static bool settle(F ok, int ms = 6000) {
    int64_t end = realNow() + (hViol > 2 ? ms / 20 : ms) * 1000000ll;
    for (int i = 0;; i++) { if (ok()) return true; if (realNow() > end) return false; if (i < 50) sched_yield(); else realSleepUs(i < 200 ? 20 : 500); }
}

// ---------------------------------------------------------------- C05
struct MNode {
    int id, kind; int numFrames; int dep = -1, dep2 = -1; int off = 0; int pattern = rpGeneral, pattern2 = rpGeneral;
    VSNode *node = nullptr, *depNode = nullptr, *depNode2 = nullptr; VSVideoInfo vi; bool freed = false;
    bool linear = false; int push = 0;
    // model
    std::vector<std::pair<MNode *, int>> consumers;
    bool over = false, enabled = false, lastOnly = false; int maxSize = 20;
    std::vector<std::pair<int, int64_t>> lru;   // front: most recently used. frame number, frame identity
    struct CaseS *c;
};
struct CaseS {
    uint64_t seed; VSCore *core; std::vector<std::unique_ptr<MNode>> n;
    std::mutex m; std::vector<std::pair<int, int>> log;     // real productions, in order
    int64_t nextId = 1; int64_t planeCost = 0;
    std::vector<std::pair<int, int>> want; int64_t wantNext = 1;  // predicted productions
    std::map<int64_t, const VSFrame *> dummy;
};

static const VSFrame *VS_CC gf(int n, int ar, void *inst, void **fd, VSFrameContext *fc, VSCore *core, const VSAPI *) {
    MNode &f = *(MNode *)inst;
    if (ar == arInitial) {
        { std::lock_guard<std::mutex> l(f.c->m); f.c->log.push_back({f.id, n}); }
        if (f.dep >= 0) {
            int m = std::max(0, n + f.off);
            vs->requestFrameFilter(m, f.depNode, fc);
            return nullptr;
        }
    } else if (ar != arAllFramesReady) return nullptr;
    if (f.dep >= 0 && f.kind == 1) { // passes the frame through
        return vs->getFrameFilter(std::max(0, n + f.off), f.depNode, fc);
    }
    const VSFrame *in = f.dep >= 0 ? vs->getFrameFilter(std::max(0, n + f.off), f.depNode, fc) : nullptr;
    int64_t id; { std::lock_guard<std::mutex> l(f.c->m); id = f.c->nextId++; }
    VSFrame *o = vs->newVideoFrame(&f.vi.format, f.vi.width, f.vi.height, in, core);
    vs->mapSetInt(vs->getFramePropertiesRW(o), "id", id, maReplace);
    vs->mapSetInt(vs->getFramePropertiesRW(o), "n", n, maReplace);
    vs->mapSetInt(vs->getFramePropertiesRW(o), "node", f.id, maReplace);
    if (in) vs->freeFrame(in);
    if (f.linear) for (int i = 1; i <= f.push && n + i < f.numFrames; i++) {
        int64_t id2; { std::lock_guard<std::mutex> l(f.c->m); id2 = f.c->nextId++; }
        VSFrame *e = vs->newVideoFrame(&f.vi.format, f.vi.width, f.vi.height, nullptr, core);
        vs->mapSetInt(vs->getFramePropertiesRW(e), "id", id2, maReplace);
        vs->mapSetInt(vs->getFramePropertiesRW(e), "n", n + i, maReplace);
        vs->mapSetInt(vs->getFramePropertiesRW(e), "node", f.id, maReplace);
        vs->cacheFrame(e, n + i, fc);
        vs->freeFrame(e);
    }
    return o;
}
static void VS_CC ff(void *inst, VSCore *, const VSAPI *) { MNode &f = *(MNode *)inst; f.freed = true; vs->freeNode(f.depNode); vs->freeNode(f.depNode2); }

static void mEvict(MNode &m) { while ((int)m.lru.size() > m.maxSize) m.lru.pop_back(); }
static void mState(MNode &m) {
    if (m.over) return;
    m.enabled = m.consumers.size() != 1 || (m.consumers[0].second != rpStrictSpatial && m.consumers[0].second != rpNoFrameReuse);
    m.lastOnly = m.consumers.size() == 1 && m.consumers[0].second == rpFrameReuseLastOnly;
    if (!m.enabled) m.lru.clear();
}
static void mInsert(MNode &m, int n, int64_t id) {
    for (size_t i = 0; i < m.lru.size(); i++) if (m.lru[i].first == n) { m.lru.erase(m.lru.begin() + i); break; }
    m.lru.insert(m.lru.begin(), {n, id});
    mEvict(m);
}
static int64_t mRequest(CaseS &c, MNode &m, int n) {
    n = std::min(n, m.numFrames - 1);
    if (m.enabled) for (size_t i = 0; i < m.lru.size(); i++) if (m.lru[i].first == n) {
        auto e = m.lru[i]; m.lru.erase(m.lru.begin() + i); m.lru.insert(m.lru.begin(), e); return e.second;
    }
    c.want.push_back({m.id, n});
    int64_t id;
    if (m.dep >= 0) {
        int64_t in = mRequest(c, *c.n[m.dep], std::max(0, n + m.off));
        id = m.kind == 1 ? in : c.wantNext++;
    } else id = c.wantNext++;
    if (m.linear) for (int i = 1; i <= m.push && n + i < m.numFrames; i++) mInsert(m, n + i, c.wantNext++);
    if (m.enabled && (!m.lastOnly || n == m.numFrames - 1)) mInsert(m, n, id);
    return id;
}
static MNode *mkNode(CaseS &c, Rng &r, int dep, bool linear) {
    auto p = std::make_unique<MNode>();
    MNode *f = p.get();
    f->c = &c; f->id = (int)c.n.size(); f->dep = dep; f->numFrames = dep >= 0 ? c.n[dep]->numFrames : r.range(3, 60);
    if (dep >= 0 && r.chance(25)) f->numFrames = std::max(1, f->numFrames + r.range(-2, 4));
    f->kind = dep >= 0 && r.chance(35) ? 1 : 0;
    f->pattern = r.chance(40) ? rpGeneral : r.range(1, 3); f->off = f->pattern == rpGeneral && r.chance(50) ? r.range(-3, 3) : 0;
    if (f->pattern == rpStrictSpatial) f->off = 0;
    vs->queryVideoFormat(&f->vi.format, cfGray, stInteger, 8, 0, 0, c.core);
    f->vi.width = 16; f->vi.height = 16; f->vi.fpsNum = f->vi.fpsDen = 1; f->vi.numFrames = f->numFrames;
    VSFilterDependency deps[2]; int nd = 0;
    if (dep >= 0) {
        f->depNode = vs->addNodeRef(c.n[dep]->node); deps[nd++] = {c.n[dep]->node, f->pattern};
        if (r.chance(10)) { f->dep2 = dep; f->pattern2 = r.range(0, 3); deps[nd++] = {c.n[dep]->node, f->pattern2}; } // two uses of one clip
    }
    f->linear = linear;
    f->node = vs->createVideoFilter2(fmt("n%d", f->id).c_str(), &f->vi, gf, ff, linear ? fmUnordered : r.below(4), deps, nd, f, c.core);
    f->enabled = true;
    if (dep >= 0) { auto &d = *c.n[dep]; d.consumers.push_back({f, f->pattern}); mState(d); if (f->dep2 >= 0) { d.consumers.push_back({f, f->pattern2}); mState(d); } }
    if (linear) {
        int extra = vs->setLinearFilter(f->node);
        f->push = std::max(0, std::min(extra, r.range(1, extra)));
        f->over = true; f->enabled = true; f->maxSize = 1 << 30; // bounded below instead
        count("linear_filters");
    }
    c.n.push_back(std::move(p));
    return f;
}

static void caseCache(uint64_t seed) {
    Rng r(seed);
    CaseS c; c.seed = seed;
    clkSet(0);
    c.core = vs->createCore(ccfDisableAutoLoading);
    vs->setThreadCount(r.range(1, 4), c.core);
    { VSVideoFormat g; vs->queryVideoFormat(&g, cfGray, stInteger, 8, 0, 0, c.core); VSFrame *f = vs->newVideoFrame(&g, 16, 16, nullptr, c.core); c.planeCost = used(c.core); vs->freeFrame(f); }
    bool linear = r.chance(12);
    mkNode(c, r, -1, linear);
    int nn = linear ? r.below(2) : r.range(0, 3);
    for (int i = 0; i < nn; i++) { MNode *q = mkNode(c, r, r.below((int)c.n.size()), false); if (linear) q->off = 0; }
    std::vector<std::pair<const VSFrame *, int64_t>> held;
    std::string hist;
    uint64_t sig = 0;
    int hits = 0, misses = 0;
    auto liveNodes = [&] { std::vector<MNode *> v; for (auto &x : c.n) if (x->node) v.push_back(x.get()); return v; };
    int seq = 0;
    int ops = r.range(40, 160);
    int walk = r.below(4);
    bool bad = false;
    for (int op = 0; op < ops && !bad; op++) {
        auto live = liveNodes();
        MNode &m = *live[linear ? live.size() - 1 : r.below((int)live.size())];
        int k = r.below(100);
        if (linear && k >= 84) k = 0;
        if (k < 84) {
            int n;
            switch (walk) { case 0: n = seq++ % m.numFrames; break; case 1: n = r.below(std::min(m.numFrames, 12)); break; case 2: n = (seq++ + (r.chance(30) ? -r.below(5) : 0)); n = std::max(0, n) % m.numFrames; break; default: n = r.below(m.numFrames); }
            if (linear) { n = seq++; if (n >= std::min(m.numFrames, c.n[0]->numFrames)) break; } // one linear pass
            c.want.clear();
            int64_t id = mRequest(c, m, n);
            { std::lock_guard<std::mutex> l(c.m); c.log.clear(); }
            char err[200] = "";
            const VSFrame *f = vs->getFrame(n, m.node, err, sizeof err);
            hist = fmt("request frame %d of node %d (cache of %d frames %s)", n, m.id, m.maxSize, m.enabled ? "on" : "off");
            if (!f) { viol("C05-error", fmt("%s failed: %s", hist.c_str(), err)); bad = true; break; }
            int64_t got = vs->mapGetInt(vs->getFramePropertiesRO(f), "id", 0, nullptr);
            std::vector<std::pair<int, int>> log; { std::lock_guard<std::mutex> l(c.m); log = c.log; }
            (c.want.empty() ? hits : misses)++;
            if (log != c.want) {
                std::string a, b; for (auto &x : log) a += fmt(" %d:%d", x.first, x.second); for (auto &x : c.want) b += fmt(" %d:%d", x.first, x.second);
                viol(log.size() < c.want.size() ? "served-from-cache-unexpectedly" : "produced-again", fmt("case seed %llu op %d: %s: filter calls (node:frame)%s, the cache model says%s", (unsigned long long)seed, op, hist.c_str(), a.c_str(), b.c_str())); bad = true;
            } else if (got != id) { viol("stale-frame", fmt("case seed %llu op %d: %s: delivered frame #%lld instead of #%lld", (unsigned long long)seed, op, hist.c_str(), (long long)got, (long long)id)); bad = true; }
            sig = mix(sig, mix(m.id, n) + c.want.size());
            if (r.chance(8)) held.push_back({f, id}); else vs->freeFrame(f);
            hEvals++;
        } else if (k < 88) {
            if (m.linear) continue;
            int mode = r.range(-1, 1);
            vs->setCacheMode(m.node, mode);
            if (mode == -1) { m.over = false; mState(m); } else { m.over = true; m.enabled = mode == 1; m.lastOnly = false; }
            m.maxSize = 20; mEvict(m); if (!m.enabled) m.lru.clear();
            sig = mix(sig, 1000 + mode); count("mode_changes");
        } else if (k < 93) {
            if (m.linear) continue;
            int fs = r.range(-1, 1), ms = r.chance(20) ? -1 : r.chance(15) ? 0 : r.range(1, 30), mh = r.range(-1, 25);
            vs->setCacheOptions(m.node, fs, ms, mh);
            if (ms >= 0) { m.maxSize = ms; mEvict(m); }
            sig = mix(sig, 2000 + ms); count("option_changes");
        } else if (k < 95) { vs->clearNodeCache(m.node); m.lru.clear(); if (!m.linear) m.maxSize = m.maxSize; count("node_flushes");
            // after a flush an adaptive cache returns to its starting size: give it a definite one again
            if (!m.linear) { vs->setCacheOptions(m.node, -1, 15, -1); m.maxSize = 15; }
            sig = mix(sig, 3000);
        } else if (k < 96) { vs->clearCoreCaches(c.core); for (auto x : live) { x->lru.clear(); if (!x->linear) { vs->setCacheOptions(x->node, -1, 18, -1); x->maxSize = 18; } } count("core_flushes"); sig = mix(sig, 4000);
        } else if (k < 98) { if (c.n.size() < 8) { mkNode(c, r, live[r.below((int)live.size())]->id, false); count("consumers_added"); sig = mix(sig, 5000); }
        } else {
            // a node without consumers goes away
            for (auto x : live) if (x->consumers.empty() && x->id > 0) {
                vs->freeNode(x->node); x->node = nullptr; x->lru.clear();
                if (x->dep >= 0) { auto &d = *c.n[x->dep]; int cnt = x->dep2 >= 0 ? 2 : 1;
                    for (int q = 0; q < cnt; q++) { for (size_t i = 0; i < d.consumers.size(); i++) if (d.consumers[i].first == x && d.consumers[i].second == (q ? x->pattern2 : x->pattern)) { d.consumers.erase(d.consumers.begin() + i); break; } mState(d); } }
                count("consumers_removed"); sig = mix(sig, 6000);
                break;
            }
        }
        // frames alive: those in caches and those held here
        if (!linear && !bad) {
            std::set<int64_t> ids; for (auto &x : c.n) for (auto &e : x->lru) ids.insert(e.second);
            for (auto &h : held) ids.insert(h.second);
            int64_t w = (int64_t)ids.size() * c.planeCost;
            if (!settle([&] { return used(c.core) == w; })) {
                viol("cached-memory", fmt("case seed %llu op %d after %s: %lld bytes of frames in use, the model has %d frames alive = %lld", (unsigned long long)seed, op, hist.c_str(), (long long)used(c.core), (int)ids.size(), (long long)w)); bad = true;
            }
            hEvals++;
        }
        if (r.chance(4)) { while (!held.empty()) { vs->freeFrame(held.back().first); held.pop_back(); } }
        // the clock never moves on its own: with a fixed size, moving it must not matter either
        pEvents++;
    }
    // fixed caches keep their size whatever the clock and the traffic do
    if (!bad && !linear && r.chance(60)) {
        MNode &m = *c.n[0];
        int sz = r.range(1, 25);
        vs->setCacheMode(m.node, 1); vs->setCacheOptions(m.node, 1, sz, r.range(0, 30));
        m.over = true; m.enabled = true; m.lastOnly = false; m.maxSize = 20; mEvict(m); m.maxSize = sz; mEvict(m);
        clkSet(1);
        for (int i = 0; i < 150 && !bad; i++) {
            clkSet(1, 1000000000ll * r.below(2));
            int n = r.chance(50) ? i % m.numFrames : r.below(m.numFrames);
            c.want.clear(); int64_t id = mRequest(c, m, n);
            { std::lock_guard<std::mutex> l(c.m); c.log.clear(); }
            const VSFrame *f = vs->getFrame(n, m.node, nullptr, 0);
            int64_t got = f ? vs->mapGetInt(vs->getFramePropertiesRO(f), "id", 0, nullptr) : -1;
            std::vector<std::pair<int, int>> log; { std::lock_guard<std::mutex> l(c.m); log = c.log; }
            if (log != c.want || got != id) { viol("fixed-size", fmt("case seed %llu: cache fixed at %d frames, request %d for frame %d: %s", (unsigned long long)seed, sz, i, n, log == c.want ? "wrong frame" : log.size() < c.want.size() ? "served a frame that should have been evicted" : "produced a frame that should be cached")); bad = true; }
            vs->freeFrame(f); hEvals++;
        }
        count("fixed_size_runs");
    }
    // a size that was asked for is never undercut by adaption, whatever the traffic was before
    if (!bad && !linear && r.chance(40)) {
        MNode &m = *c.n[0];
        int sz = r.range(3, std::max(3, std::min(40, m.numFrames - 2)));
        vs->setCacheMode(m.node, 1); vs->setCacheOptions(m.node, 0, sz, r.range(0, 50));
        m.over = true;
        clkSet(1);
        int scans = r.range(1, 12), kind = r.below(3);
        for (int k = 0; k < scans && m.numFrames > 2; k++) {
            int len = kind == 1 ? 1 : r.range(25, 45);
            for (int i = 0; i < len; i++) {
                // scanning, repeating one frame, or scanning in steps; the sweep comes at the end
                clkSet(1, i == len - 1 ? 1200000000ll : 0);
                int n = kind == 0 ? (k * 45 + i) % m.numFrames : kind == 1 ? k % 2 : (k * 45 + i * 7) % m.numFrames;
                const VSFrame *f = vs->getFrame(n, m.node, nullptr, 0); vs->freeFrame(f);
            }
        }
        clkSet(1, 0);
        int at = r.below(m.numFrames - sz + 1);
        for (int pass = 0; pass < 2 && sz <= m.numFrames && !bad; pass++)
            for (int i = 0; i < sz && !bad; i++) {
                { std::lock_guard<std::mutex> l(c.m); c.log.clear(); }
                const VSFrame *f = vs->getFrame(at + i, m.node, nullptr, 0);
                bool made; { std::lock_guard<std::mutex> l(c.m); made = !c.log.empty(); }
                if (!f || (int)vs->mapGetInt(vs->getFramePropertiesRO(f), "n", 0, nullptr) != at + i) { viol("wrong-frame", fmt("case seed %llu: request for frame %d after adaption", (unsigned long long)seed, at + i)); bad = true; }
                if (pass && made && !bad) { viol("size-undercut", fmt("case seed %llu: the cache was configured for %d frames, but after adaption frame %d of %d was produced again", (unsigned long long)seed, sz, i, sz)); bad = true; }
                if (f) vs->freeFrame(f);
                hEvals++;
            }
        count("configured_floor_runs");
    }
    // an adaptive cache: never stale, and bounded by what was requested
    if (!bad && r.chance(40)) {
        MNode &m = *c.n[0];
        if (!m.linear) vs->setCacheMode(m.node, r.range(-1, 1));
        clkSet(1);
        std::map<int, int64_t> seen;
        for (int i = 0; i < 200 && !bad; i++) {
            clkSet(1, 600000000ll * (i % 3 == 0));
            int n = r.chance(60) ? i % m.numFrames : r.below(m.numFrames);
            { std::lock_guard<std::mutex> l(c.m); c.log.clear(); }
            const VSFrame *f = vs->getFrame(n, m.node, nullptr, 0);
            int64_t id = f ? vs->mapGetInt(vs->getFramePropertiesRO(f), "id", 0, nullptr) : -1;
            int gn = f ? (int)vs->mapGetInt(vs->getFramePropertiesRO(f), "n", 0, nullptr) : -1;
            std::vector<std::pair<int, int>> log; { std::lock_guard<std::mutex> l(c.m); log = c.log; }
            if (gn != n) { viol("wrong-frame", fmt("case seed %llu: adaptive cache: request for frame %d delivered frame %d", (unsigned long long)seed, n, gn)); bad = true; }
            if (!m.linear && log.empty() && seen.count(n) && seen[n] != id) { viol("stale-frame", fmt("case seed %llu: adaptive cache: frame %d came back as another copy without being produced", (unsigned long long)seed, n)); bad = true; }
            seen[n] = id;
            vs->freeFrame(f); hEvals++;
        }
        count("adaptive_runs");
    }
    clkSet(0);
    // clearing releases the memory of everything nobody holds
    vs->clearCoreCaches(c.core);
    if (!bad && !settle([&] { return used(c.core) == (int64_t)[&] { std::set<int64_t> s; for (auto &h : held) s.insert(h.second); return s.size(); }() * c.planeCost; }))
        viol("flush-keeps-memory", fmt("case seed %llu: %lld bytes in use after clearing all caches with %d frames held", (unsigned long long)seed, (long long)used(c.core), (int)held.size()));
    while (!held.empty()) { vs->freeFrame(held.back().first); held.pop_back(); }
    if (!bad && !settle([&] { return used(c.core) == 0; })) viol("memory-left", fmt("case seed %llu: %lld bytes in use after everything was released", (unsigned long long)seed, (long long)used(c.core)));
    for (int i = (int)c.n.size() - 1; i >= 0; i--) if (c.n[i]->node) vs->freeNode(c.n[i]->node);
    vs->freeCore(c.core);
    count("cases"); count("requests_served_without_production", hits); count("requests_with_production", misses);
    if (hits && misses) hDistinct.insert(sig);
    sample(fmt("case seed %llu: %d nodes, %d operations, last: %s", (unsigned long long)seed, (int)c.n.size(), ops, hist.c_str()));
}

// ---------------------------------------------------------------- C06
struct MemSrc { VSVideoInfo vi; int node; };
static std::atomic<int64_t> produced{0};
static std::mutex prodM; static std::set<int> prodNodes;
static const VSFrame *VS_CC mgf(int n, int ar, void *inst, void **, VSFrameContext *fc, VSCore *core, const VSAPI *) {
    MemSrc &s = *(MemSrc *)inst;
    VSFrame *f = vs->newVideoFrame(&s.vi.format, s.vi.width, s.vi.height, nullptr, core);
    memset(vs->getWritePtr(f, 0), (n * 3 + s.node) & 255, (size_t)vs->getStride(f, 0) * s.vi.height);
    produced++;
    return f;
}
static void VS_CC mff(void *inst, VSCore *, const VSAPI *) { delete (MemSrc *)inst; }
static size_t heapUse() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }

struct Chain { VSNode *up = nullptr; VSVideoInfo vi; };
static const VSFrame *VS_CC cgf(int n, int ar, void *inst, void **, VSFrameContext *fc, VSCore *core, const VSAPI *) {
    Chain &s = *(Chain *)inst;
    if (ar == arInitial) { vs->requestFrameFilter(n, s.up, fc); return nullptr; }
    if (ar != arAllFramesReady) return nullptr;
    const VSFrame *in = vs->getFrameFilter(n, s.up, fc);
    VSFrame *f = vs->newVideoFrame(&s.vi.format, s.vi.width, s.vi.height, in, core);
    for (int y = 0; y < s.vi.height; y++) memcpy(vs->getWritePtr(f, 0) + y * vs->getStride(f, 0), vs->getReadPtr(in, 0) + y * vs->getStride(in, 0), s.vi.width);
    vs->freeFrame(in);
    produced++;
    return f;
}
static void VS_CC cff(void *inst, VSCore *, const VSAPI *) { auto *c = (Chain *)inst; vs->freeNode(c->up); delete c; }

static bool goodFrame(const VSFrame *f, const VSVideoInfo &vi, int n, int node) {
    int v = (n * 3 + node) & 255;
    for (int y = 0; y < vi.height; y += std::max(1, vi.height / 7)) { const uint8_t *p = vs->getReadPtr(f, 0) + y * vs->getStride(f, 0); if (p[0] != v || p[vi.width - 1] != v) return false; }
    return true;
}

static void caseMem(uint64_t seed) {
    Rng r(seed);
    clkSet(1); clkStep = 0; pLevel = 0;
    size_t heap0 = heapUse();
    VSCore *core = vs->createCore(ccfDisableAutoLoading);
    VSVideoFormat g; vs->queryVideoFormat(&g, cfGray, stInteger, 8, 0, 0, core);
    bool large = r.chance(45);
    VSVideoInfo vi = {}; vi.format = g; vi.width = large ? r.range(1100, 1600) : r.range(16, 300); vi.height = large ? r.range(1000, 1200) : r.range(8, 100); vi.fpsNum = vi.fpsDen = 1; vi.numFrames = 1000;
    VSFrame *f0 = vs->newVideoFrame(&g, vi.width, vi.height, nullptr, core);
    int64_t cost = used(core);
    int64_t raw = (int64_t)vs->getStride(f0, 0) * vi.height;
    if (cost < raw || cost > raw + raw / 4 + 8192) viol("cost-of-one-frame", fmt("a %dx%d frame of %lld bytes is accounted as %lld", vi.width, vi.height, (long long)raw, (long long)cost));
    vs->freeFrame(f0);
    if (used(core) != 0) viol("not-zero", "memory in use after the only frame was released");
    int scenario = r.below(4);
    std::string desc;
    wdDescribe = [&] { return desc; };
    if (scenario == 0) {
        // concurrent allocation and release of frames of different sizes; conserved at the end
        int nt = r.range(2, 6); int ops = large ? 60 : 400;
        desc = fmt("case seed %llu: %d threads allocating", (unsigned long long)seed, nt);
        pSeed = r.next(); pLevel = r.below(3);
        if (r.chance(50)) vs->setMaxCacheSize(cost * r.range(1, 20), core);
        std::atomic<int64_t> maxSeen{0}; std::atomic<int> live{0};
        std::vector<std::thread> th; std::vector<uint64_t> sd; for (int i = 0; i < nt; i++) sd.push_back(r.next());
        for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
            Rng q(sd[t]); std::vector<const VSFrame *> mine; std::vector<int> tag;
            for (int i = 0; i < ops; i++) {
                if (mine.size() < 6 && q.chance(60)) {
                    int w = q.chance(50) ? vi.width : std::max(1, vi.width - q.below(vi.width / 8 + 1)), h = q.chance(50) ? vi.height : std::max(1, vi.height - q.below(vi.height / 8 + 1));
                    VSFrame *f = vs->newVideoFrame(&g, w, h, nullptr, core);
                    int v = q.below(256); memset(vs->getWritePtr(f, 0), v, (size_t)vs->getStride(f, 0) * h);
                    mine.push_back(f); tag.push_back(v);
                } else if (!mine.empty()) {
                    int k = q.below((int)mine.size()); const VSFrame *f = mine[k];
                    const uint8_t *p = vs->getReadPtr(f, 0); size_t len = (size_t)vs->getStride(f, 0) * vs->getFrameHeight(f, 0);
                    for (size_t o = 0; o < len; o += 997) if (p[o] != tag[k]) { viol("frame-memory-shared", fmt("case seed %llu: memory of a live frame was changed by another frame (byte %zu of %zu)", (unsigned long long)seed, o, len)); break; }
                    if (q.chance(30)) { const VSFrame *cp = vs->copyFrame(f, core); vs->freeFrame(f); f = cp; }
                    vs->freeFrame(f); mine.erase(mine.begin() + k); tag.erase(tag.begin() + k);
                }
                if (q.chance(5)) vs->setMaxCacheSize(cost * q.range(1, 20), core);
                pEvents++;
            }
            for (auto f : mine) vs->freeFrame(f);
        });
        for (auto &t : th) t.join();
        pLevel = 0;
        if (used(core) != 0) viol("not-conserved", fmt("case seed %llu: %lld bytes in use after %d threads released every frame", (unsigned long long)seed, (long long)used(core), nt));
        // memory kept for reuse is bounded by the limit
        VSCoreInfo2 ci; vs->getCoreInfo2(core, &ci);
        int64_t lim = vs->setMaxCacheSize(cost * r.range(1, 4), core);
        size_t h = heapUse();
        if ((int64_t)(h - heap0) > lim + (4 << 20)) viol("pool-over-limit", fmt("case seed %llu: %lld bytes of heap in use with no frames alive and a limit of %lld", (unsigned long long)seed, (long long)(h - heap0), (long long)lim));
        hEvals += nt * ops; count("concurrent_allocations", nt * ops);
        hDistinct.insert(mix(seed, 1));
    } else {
        int nn = r.range(1, 4); int depth = r.range(0, 2);
        std::vector<VSNode *> nodes; std::vector<int> srcOf; std::vector<VSNode *> all;
        bool fixed = scenario == 2;
        for (int i = 0; i < nn; i++) {
            auto *s = new MemSrc{vi, i};
            VSNode *n = vs->createVideoFilter2("src", &vi, mgf, mff, fmParallel, nullptr, 0, s, core);
            all.push_back(n);
            for (int d = 0; d < depth; d++) { auto *c = new Chain{vs->addNodeRef(n), vi}; VSFilterDependency dep{n, rpGeneral}; n = vs->createVideoFilter2("chain", &vi, cgf, cff, r.below(3), &dep, 1, c, core); all.push_back(n); }
            nodes.push_back(n); srcOf.push_back(i);
        }
        int limFrames = r.range(2 + depth, 12 + depth);
        int64_t lim = cost * limFrames + cost / 2;
        desc = fmt("case seed %llu: %d clips of depth %d, frames of %lld bytes, limit %d frames, %s caches, scenario %d", (unsigned long long)seed, nn, depth, (long long)cost, limFrames, fixed ? "fixed" : "adaptive", scenario);
        for (auto n : all) { vs->setCacheMode(n, 1); if (fixed) vs->setCacheOptions(n, 1, r.range(10, 20), 5); else vs->setCacheOptions(n, 0, r.range(8, 20), 20); }
        vs->setThreadCount(r.range(1, 4), core);
        int64_t got = vs->setMaxCacheSize(lim, core);
        if (got != lim) viol("limit-value", fmt("asked for %lld, set to %lld", (long long)lim, (long long)got));
        auto ask = [&](int i, int n) {
            char e[100]; const VSFrame *f = vs->getFrame(n, nodes[i], e, sizeof e);
            if (!f) viol("request-failed", desc + ": " + e); else if (!goodFrame(f, vi, n, i)) viol("wrong-frame", desc + fmt(": frame %d", n));
            pEvents++; hEvals++;
            return f;
        };
        std::string trace;
        if (scenario == 1) {
            // fill the caches first with the clock standing still: nothing is swept, so use goes over the limit
            clkSet(0);
            int per = r.range(3, 8);
            for (int i = 0; i < nn; i++) for (int n = 0; n < per; n++) vs->freeFrame(ask(i, n));
            int64_t before = used(core);
            // every clock read now advances it, each completed call over the limit sweeps
            clkStep = 200000000ll;
            int held = r.below(3); std::vector<const VSFrame *> h;
            for (int q = 0; q < 12; q++) {
                const VSFrame *f = ask(r.below(nn), per + q);
                if ((int)h.size() < held) h.push_back(f); else vs->freeFrame(f);
                int64_t hb = (int64_t)h.size() * (cost + cost / 8 + 8192);
                // the last call of a request is swept before its frame is delivered, so what is left is under the limit
                if (!settle([&] { return used(core) <= lim + hb; })) { viol("over-limit", desc + fmt(": %lld bytes in use after a request completed, limit %lld, %d frames held by the client (%lld before)", (long long)used(core), (long long)lim, (int)h.size(), (long long)before)); break; }
            }
            clkStep = 0;
            for (auto f : h) vs->freeFrame(f);
            if (before > lim) count("went_over_limit");
            count("pressure_runs");
        } else if (scenario == 2) {
            // fixed caches are not swept: only the flush after two seconds over the limit gets back under it
            clkSet(0);
            int per = r.range(6, 10);
            for (int i = 0; i < nn; i++) for (int n = 0; n < per; n++) vs->freeFrame(ask(i, n));
            int64_t before = used(core);
            if (before > lim) {
                count("went_over_limit");
                bool ok = false;
                for (int q = 0; q < 4 && !ok; q++) { clkSet(0, 2500000000ll); vs->freeFrame(ask(r.below(nn), 500 + q)); ok = settle([&] { return used(core) <= lim; }, q == 3 ? 10000 : 300); }
                if (!ok) viol("not-flushed", desc + fmt(": %lld bytes in use after staying over the limit of %lld for 7 s (%lld before)", (long long)used(core), (long long)lim, (long long)before));
                // and it still works
                for (int q = 0; q < 5; q++) vs->freeFrame(ask(r.below(nn), 100 + q));
                count("flush_runs");
            }
        } else {
            // heavy asynchronous traffic over the limit: everything completes, and the use is bounded by what can be in flight
            clkSet(r.chance(50) ? 1 : 100); pSeed = r.next(); pLevel = r.below(3);
            int reqs = large ? 60 : 300; std::atomic<int> left{reqs};
            struct U { std::atomic<int> *left; int n, i; VSVideoInfo *vi; std::string *d; };
            std::vector<std::unique_ptr<U>> us;
            wdActive = 1;
            for (int q = 0; q < reqs; q++) {
                int i = r.below(nn), n = r.chance(50) ? q % 100 : r.below(100);
                us.push_back(std::make_unique<U>(U{&left, n, i, &vi, &desc}));
                vs->getFrameAsync(n, nodes[i], [](void *ud, const VSFrame *f, int n, VSNode *, const char *) {
                    U *u = (U *)ud; if (!f || !goodFrame(f, *u->vi, n, u->i)) viol("wrong-frame", *u->d + fmt(": asynchronous frame %d", n));
                    vs->freeFrame(f); pEvents++; (*u->left)--; }, us.back().get());
            }
            while (left > 0) realSleepUs(300);
            wdActive = 0; pLevel = 0;
            hEvals += reqs; count("async_runs");
        }
        clkSet(1);
        vs->clearCoreCaches(core);
        if (!settle([&] { return used(core) == 0; })) viol("flush-keeps-memory", desc + fmt(": %lld bytes in use after clearing all caches and releasing all frames", (long long)used(core)));
        size_t h = heapUse();
        if ((int64_t)(h - heap0) > lim + (8 << 20)) viol("pool-over-limit", desc + fmt(": %lld bytes of heap in use with no frames alive", (long long)(h - heap0)));
        hDistinct.insert(mix(seed, mix(nn, depth)));
        sample(desc);
        for (int i = (int)all.size() - 1; i >= 0; i--) vs->freeNode(all[i]);
    }
    // frames may outlive the core
    std::vector<const VSFrame *> late; int nl = r.chance(30) ? r.range(1, 3) : 0;
    for (int i = 0; i < nl; i++) { VSFrame *f = vs->newVideoFrame(&g, vi.width, vi.height, nullptr, core); memset(vs->getWritePtr(f, 0), i, (size_t)vs->getStride(f, 0) * vi.height); late.push_back(f); }
    vs->freeCore(core);
    for (int i = 0; i < nl; i++) { if (*vs->getReadPtr(late[i], 0) != i) viol("late-frame", "contents of a frame changed when the core was freed"); }
    for (auto f : late) vs->freeFrame(f);
    // the threads are gone and everything has been given back
    if (!settle([&] { return (int64_t)heapUse() - (int64_t)heap0 < (3 << 20); }, 3000)) viol("heap-left", fmt("case seed %llu: %lld bytes of heap still in use after the core and every frame was freed", (unsigned long long)seed, (long long)(heapUse() - heap0)));
    count("cases");
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    vs = api();
    clkInit();
    startWatchdog(12000);
    bool mem = a.get("prop") == "C06";
    for (int k = a.from; k < a.to; k++) {
        hLine("CASE " + std::to_string(k));
        if (mem) caseMem(mix(a.seed, k)); else caseCache(mix(a.seed, k));
    }
    hDone();
    _exit(0);
}
