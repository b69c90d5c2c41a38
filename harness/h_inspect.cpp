// What nodes say about themselves: description, dependencies, how they were created (graph inspection) and the time spent in them.
#define VS_GRAPH_API
#include "hcommon.h"

typedef std::chrono::steady_clock Clk;
static int64_t ns(Clk::duration d) { return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }

// The clock of the core may be the one that is adjusted from outside. How far it is ahead of ours tells how much of a difference that makes.
static int64_t clockOffset() {
    int64_t best = 0, bestw = INT64_MAX;
    for (int i = 0; i < 20; i++) {
        auto a = Clk::now(); auto b = std::chrono::high_resolution_clock::now(); auto c = Clk::now();
        int64_t w = ns(c - a); if (w < bestw) { bestw = w; best = std::chrono::duration_cast<std::chrono::nanoseconds>(b.time_since_epoch()).count() - ns(a.time_since_epoch()) - w / 2; }
    }
    return best;
}
struct Adjusted { int64_t at = clockOffset(); int64_t operator()() const { return std::llabs(clockOffset() - at) + 200; } };     // slack for the measuring itself

struct Frame0 { std::string name, id, nspace, args; };
struct Dep { VSNode *src; int pattern; };
struct Model {
    VSNode *node; bool video; std::string name; int mode; VSVideoInfo vi; VSAudioInfo ai; std::vector<Dep> deps;
    std::vector<Frame0> stack;          // innermost last
};
struct World;
struct Inst { World *w; bool video; VSVideoInfo vi; VSAudioInfo ai; int spinUs; std::atomic<int64_t> inside{0}, calls{0}; std::vector<Dep> deps; std::atomic<bool> freed{false}; };
struct Th { Rng rng{1}; std::vector<Frame0> stack; std::vector<Model> made; std::vector<VSNode *> pool; int created = 0; World *w = nullptr; };
static thread_local Th *th;
struct World {
    VSCore *core; VSPlugin *stdp, *textp; bool inspect; std::atomic<int> frees{0}, made{0};
    std::mutex m; std::vector<std::shared_ptr<Inst>> insts; std::map<VSNode *, std::shared_ptr<Inst>> of;
};

static std::string ser(const VSMap *m) {
    auto a = api(); std::string s;
    for (int i = 0; i < a->mapNumKeys(m); i++) {
        const char *k = a->mapGetKey(m, i); int t = a->mapGetType(m, k), n = a->mapNumElements(m, k);
        s += fmt("%s:%d:%d", k, t, n);
        for (int j = 0; j < n; j++) {
            if (t == ptInt) s += fmt(",%lld", (long long)a->mapGetInt(m, k, j, nullptr));
            else if (t == ptFloat) s += fmt(",%a", a->mapGetFloat(m, k, j, nullptr));
            else if (t == ptData) s += "," + std::string(a->mapGetData(m, k, j, nullptr), a->mapGetDataSize(m, k, j, nullptr)) + fmt("/%d", a->mapGetDataTypeHint(m, k, j, nullptr));
            else if (t == ptVideoNode || t == ptAudioNode) { VSNode *n2 = a->mapGetNode(m, k, j, nullptr); s += fmt(",%p", (void *)n2); a->freeNode(n2); }
            else if (t == ptVideoFrame || t == ptAudioFrame) { const VSFrame *f = a->mapGetFrame(m, k, j, nullptr); s += fmt(",%d", a->getFrameWidth(f, 0)); a->freeFrame(f); }
            else s += ",?";
        }
        s += ";";
    }
    return s;
}

static const VSFrame *VS_CC getFrame(int n, int reason, void *d, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *a) {
    auto t0 = Clk::now();
    Inst *in = (Inst *)d;
    const VSFrame *r = nullptr;
    if (in->spinUs) while (ns(Clk::now() - t0) < in->spinUs * 1000ll) {}
    if (reason == arInitial)
        for (auto &e : in->deps) a->requestFrameFilter(n, e.src, ctx);
    if (reason == arAllFramesReady || (reason == arInitial && in->deps.empty())) {
        for (auto &e : in->deps) a->freeFrame(a->getFrameFilter(n, e.src, ctx));
        if (in->video) {
            VSVideoFormat f = in->vi.format;
            if (f.colorFamily == cfUndefined) a->queryVideoFormat(&f, cfGray, stInteger, 8, 0, 0, core);
            int w = in->vi.width ? in->vi.width : 16, h = in->vi.height ? in->vi.height : 16;
            r = a->newVideoFrame(&f, w, h, nullptr, core);
        } else {
            int64_t left = in->ai.numSamples - (int64_t)n * VS_AUDIO_FRAME_SAMPLES;
            r = a->newAudioFrame(&in->ai.format, (int)std::min<int64_t>(left, VS_AUDIO_FRAME_SAMPLES), nullptr, core);
        }
    }
    in->calls++;
    in->inside += ns(Clk::now() - t0);
    return r;
}
static void VS_CC freeInst(void *d, VSCore *, const VSAPI *a) {
    Inst *in = (Inst *)d;
    for (auto &e : in->deps) a->freeNode(e.src);
    in->freed = true; in->w->frees++;
}

static const char *names[] = {"A", "filter", "Some Filter", "", "a very long filter name that does not fit into a short string", "ä\"<>&"};

// a node that was released again may have lived at the same address
static void record(World &w, const Model &m) {
    auto &v = th->made;
    v.erase(std::remove_if(v.begin(), v.end(), [&](const Model &o) { return o.node == m.node; }), v.end());
    v.push_back(m);
    std::lock_guard<std::mutex> l(w.m); w.of.erase(m.node);
}

// creates one node directly and records what it has to say
static VSNode *create(World &w, VSMap *outMap) {
    auto a = api(); Rng &r = th->rng;
    auto in = std::make_shared<Inst>(); Model m;
    in->w = &w; m.video = in->video = r.chance(70); m.name = names[r.below(6)];
    static const int modes[] = {fmParallel, fmParallelRequests, fmUnordered, fmFrameState}; m.mode = modes[r.below(4)];
    in->spinUs = r.chance(50) ? 0 : r.below(200);
    memset(&in->vi, 0, sizeof in->vi); memset(&in->ai, 0, sizeof in->ai);
    if (in->video) {
        if (!r.chance(15)) {
            static const int ids[] = {pfGray8, pfYUV420P8, pfRGB24, pfGrayS, pfYUV444P16, pfRGBH};
            a->getVideoFormatByID(&in->vi.format, ids[r.below(6)], w.core);
        }
        if (!r.chance(15)) { in->vi.width = 2 * r.range(1, 40); in->vi.height = 2 * r.range(1, 30); }
        if (!r.chance(20)) { in->vi.fpsNum = r.chance(50) ? 25 : 30000; in->vi.fpsDen = in->vi.fpsNum == 25 ? 1 : 1001; }
        in->vi.numFrames = r.chance(20) ? INT32_MAX : r.range(1, 50);
    } else {
        a->queryAudioFormat(&in->ai.format, r.chance(50) ? stInteger : stFloat, 32, 3, w.core);
        in->ai.sampleRate = r.range(1, 96000); in->ai.numSamples = r.chance(20) ? 1ll << r.range(1, 41) : r.range(1, 50000);
    }
    std::vector<VSFilterDependency> deps;
    int nd = r.chance(40) ? 0 : r.range(1, 3);
    for (int i = 0; i < nd && !th->pool.empty(); i++) {
        VSNode *s = a->addNodeRef(r.pick(th->pool)); int pat = r.below(3);
        deps.push_back({s, pat}); in->deps.push_back({s, pat});
    }
    m.vi = in->vi; m.ai = in->ai; m.deps = in->deps;
    VSNode *n = nullptr;
    { std::lock_guard<std::mutex> l(w.m); w.insts.push_back(in); }
    w.made++;
    bool viaMap = outMap && r.chance(50);
    if (viaMap) {
        int before = a->mapNumElements(outMap, "clip");
        std::string tmp = "clip"; (void)before;
        VSMap *mm = a->createMap();
        if (in->video) a->createVideoFilter(mm, m.name.c_str(), &in->vi, getFrame, freeInst, m.mode, deps.data(), (int)deps.size(), in.get(), w.core);
        else a->createAudioFilter(mm, m.name.c_str(), &in->ai, getFrame, freeInst, m.mode, deps.data(), (int)deps.size(), in.get(), w.core);
        n = a->mapGetNode(mm, "clip", 0, nullptr);
        a->freeMap(mm);
    } else if (in->video) n = a->createVideoFilter2(m.name.c_str(), &in->vi, getFrame, freeInst, m.mode, deps.data(), (int)deps.size(), in.get(), w.core);
    else n = a->createAudioFilter2(m.name.c_str(), &in->ai, getFrame, freeInst, m.mode, deps.data(), (int)deps.size(), in.get(), w.core);
    if (!n) { viol("create", "a valid filter could not be created"); return nullptr; }
    m.ai.numFrames = (int)((m.ai.numSamples + VS_AUDIO_FRAME_SAMPLES - 1) / VS_AUDIO_FRAME_SAMPLES);
    if (in->video) { m.vi.format = in->vi.format; }
    m.node = n; m.stack = th->stack;
    record(w, m); th->created++;
    { std::lock_guard<std::mutex> l(w.m); w.of[n] = in; }
    return n;
}

static VSMap *randArgs(World &w) {
    auto a = api(); Rng &r = th->rng; VSMap *m = a->createMap();
    for (int i = r.below(5); i > 0; i--) {
        std::string k = fmt("k%d", r.below(6)); int cnt = r.range(1, 3);
        a->mapDeleteKey(m, k.c_str());
        switch (r.below(5)) {
            case 0: for (int j = 0; j < cnt; j++) a->mapSetInt(m, k.c_str(), (int64_t)r.next(), maAppend); break;
            case 1: for (int j = 0; j < cnt; j++) a->mapSetFloat(m, k.c_str(), r.below(1000) / 7.0, maAppend); break;
            case 2: for (int j = 0; j < cnt; j++) { std::string s(r.below(40), (char)('a' + r.below(26))); a->mapSetData(m, k.c_str(), s.data(), (int)s.size(), r.chance(50) ? dtUtf8 : dtBinary, maAppend); } break;
            case 3: if (!th->pool.empty()) { VSNode *n = r.pick(th->pool); int t = a->getNodeType(n); for (int j = 0; j < cnt; j++) { VSNode *n2 = r.pick(th->pool); if (a->getNodeType(n2) == t) a->mapSetNode(m, k.c_str(), n2, maAppend); } } break;
            case 4: { VSVideoFormat f; a->queryVideoFormat(&f, cfGray, stInteger, 8, 0, 0, w.core); VSFrame *fr = a->newVideoFrame(&f, r.range(1, 60), 3, nullptr, w.core); a->mapConsumeFrame(m, k.c_str(), fr, maAppend); break; }
        }
    }
    return m;
}

static void VS_CC makeFn(const VSMap *in, VSMap *out, void *ud, VSCore *core, const VSAPI *a) {
    World &w = *th->w; Rng &r = th->rng;
    const char *fn = (const char *)ud;
    th->stack.push_back({fn, "com.verif.a", "va", ser(in)});
    if (core != w.core) viol("core", "a function got another core");
    auto act = [&](auto &&self) -> void { (void)self; };
    (void)act;
    int steps = th->stack.size() >= 5 ? 1 : r.range(0, 3);
    bool fail = r.chance(12);
    for (int i = 0; i < steps; i++) {
        switch (th->stack.size() >= 5 ? 0 : r.below(4)) {
            case 0: { VSNode *n = create(w, out); if (n) a->mapConsumeNode(out, a->getNodeType(n) == mtVideo ? "v" : "a", n, maAppend); break; }
            case 1: {
                static const char *fns[] = {"Make0", "Make1", "Make2"};
                VSMap *m = randArgs(w); const char *f = fns[r.below(3)];
                VSMap *o = a->invoke(w.stdp, f, m); a->clearMap(m); a->freeMap(m);
                for (const char *k : {"v", "a"}) for (int j = 0, c = a->mapNumElements(o, k); j < c; j++) a->mapConsumeNode(out, k, a->mapGetNode(o, k, j, nullptr), maAppend);
                a->freeMap(o); break; }
            case 2: {   // a function of another plugin
                std::vector<VSNode *> vids; for (auto n : th->pool) if (a->getNodeType(n) == mtVideo) { int b = a->getVideoInfo(n)->format.bitsPerSample; if (b <= 16 || b == 32) vids.push_back(n); }
                if (vids.empty()) break;
                VSMap *m = a->createMap(); VSNode *src = r.pick(vids); a->mapSetNode(m, "clip", src, maAppend); int al = r.range(0, 9); a->mapSetInt(m, "alignment", al, maAppend);
                std::string args = ser(m);
                VSMap *o = a->invoke(w.textp, "FrameNum", m);
                bool ok = !a->mapGetError(o);
                if (ok != (al >= 1)) viol("text", fmt("FrameNum alignment %d: %s", al, ok ? "accepted" : a->mapGetError(o)));
                if (ok) {
                    Model mm; mm.video = true; mm.name = "FrameNum"; mm.mode = fmParallel; mm.vi = *a->getVideoInfo(src); memset(&mm.ai, 0, sizeof mm.ai); mm.deps = {{src, rpStrictSpatial}};
                    mm.stack = th->stack; mm.stack.push_back({"FrameNum", "com.vapoursynth.text", "text", args});
                    mm.node = a->mapGetNode(o, "clip", 0, nullptr); record(w, mm);
                    a->mapConsumeNode(out, "v", mm.node, maAppend);
                }
                a->freeMap(m); a->freeMap(o); break; }
            case 3: {   // calls that are refused must not disturb the bookkeeping
                VSMap *m = a->createMap(); if (r.chance(50)) a->mapSetInt(m, "nonsense", 3, maAppend);
                VSMap *o = a->invoke(w.textp, r.chance(50) ? "Text" : "NoSuchFunction", m);
                if (!a->mapGetError(o)) viol("text", "a call without its arguments was accepted");
                a->freeMap(m); a->freeMap(o); break; }
        }
    }
    if (fail) a->mapSetError(out, "made to fail");
    th->stack.pop_back();
}

static void verify(World &w, const Model &m, const char *when) {
    auto a = api(); VSNode *n = m.node; hEvals++;
    auto bad = [&](const char *k, const std::string &s) { viol(k, fmt("%s: node \"%s\" created in %d functions: %s", when, m.name.c_str(), (int)m.stack.size(), s.c_str())); };
    if (a->getNodeType(n) != (m.video ? mtVideo : mtAudio)) bad("type", "wrong type");
    if (m.name != a->getNodeName(n)) bad("name", fmt("is called \"%s\"", a->getNodeName(n)));
    if (a->getNodeFilterMode(n) != m.mode) bad("mode", fmt("mode %d instead of %d", a->getNodeFilterMode(n), m.mode));
    if (m.video) {
        const VSVideoInfo *v = a->getVideoInfo(n);
        if (!vsh::isSameVideoInfo(v, &m.vi) || v->numFrames != m.vi.numFrames || v->fpsNum != m.vi.fpsNum || v->fpsDen != m.vi.fpsDen) bad("info", "wrong video info");
    } else {
        const VSAudioInfo *v = a->getAudioInfo(n);
        if (!vsh::isSameAudioInfo(v, &m.ai) || v->numSamples != m.ai.numSamples || v->numFrames != m.ai.numFrames) bad("info", "wrong audio info");
    }
    if (a->getNumNodeDependencies(n) != (int)m.deps.size()) bad("deps", fmt("%d dependencies instead of %d", a->getNumNodeDependencies(n), (int)m.deps.size()));
    else for (int i = 0; i < (int)m.deps.size(); i++) {
        const VSFilterDependency *d = a->getNodeDependency(n, i);
        if (!d || d->source != m.deps[i].src || d->requestPattern != m.deps[i].pattern) bad("deps", fmt("dependency %d is wrong", i));
    }
    for (int l = 0; l < (int)m.stack.size() + 2; l++) {
        const char *f = a->getNodeCreationFunctionName(n, l), *id = a->getNodeCreationPluginID(n, l), *nsp = a->getNodeCreationPluginNS(n, l);
        const VSMap *args = a->getNodeCreationFunctionArguments(n, l);
        if (!w.inspect || l >= (int)m.stack.size()) {
            if (f || id || nsp || args) bad("level", fmt("level %d exists", l));
            continue;
        }
        const Frame0 &e = m.stack[m.stack.size() - 1 - l];
        if (!f || !id || !nsp || !args) { bad("level", fmt("level %d is missing", l)); continue; }
        if (e.name != f || e.id != id || e.nspace != nsp) bad("function", fmt("level %d is %s of %s (%s) instead of %s of %s", l, f, id, nsp, e.name.c_str(), e.id.c_str()));
        std::string s = ser(args);
        if (s != e.args) bad("arguments", fmt("level %d has arguments %s instead of %s", l, s.c_str(), e.args.c_str()));
        hEvals++;
    }
}

static void worker(World &w, uint64_t seed, int ops, std::vector<Model> *result, uint64_t *hash) {
    auto a = api(); Th t; th = &t; t.rng = Rng(seed); t.w = &w;
    static const char *fns[] = {"Make0", "Make1", "Make2"};
    std::vector<Model> alive;
    for (int i = 0; i < ops; i++) {
        if (t.rng.chance(20)) { VSNode *n = create(w, nullptr); if (n) t.pool.push_back(n); }
        else {
            VSMap *m = randArgs(w); VSMap *o = a->invoke(w.stdp, fns[t.rng.below(3)], m);
            if (t.rng.chance(50)) a->mapSetInt(m, "k0", 42, maReplace);
            a->freeMap(m);
            for (const char *k : {"v", "a"}) for (int j = 0, c = a->mapGetError(o) ? 0 : a->mapNumElements(o, k); j < c; j++) t.pool.push_back(a->mapGetNode(o, k, j, nullptr));
            a->freeMap(o);
        }
        if (!t.stack.empty()) viol("stack", "harness: the stack is not empty");
        // keep the models of the nodes that still exist
        std::set<VSNode *> have(t.pool.begin(), t.pool.end());
        for (auto &m : t.made) if (have.count(m.node)) alive.push_back(m);
        t.made.clear();
        for (auto &m : alive) *hash = mix(*hash, m.stack.size() * 131 + m.deps.size());
        if (t.pool.size() > 12) {     // let some go
            int k = t.rng.below((int)t.pool.size()); VSNode *n = t.pool[k]; t.pool.erase(t.pool.begin() + k);
            if (std::find(t.pool.begin(), t.pool.end(), n) == t.pool.end())
                alive.erase(std::remove_if(alive.begin(), alive.end(), [&](const Model &m) { return m.node == n; }), alive.end());
            a->freeNode(n);
        }
        if (t.rng.chance(30)) for (auto &m : alive) verify(w, m, "while others create");
    }
    for (auto &m : alive) { a->addNodeRef(m.node); result->push_back(m); }
    for (auto n : t.pool) a->freeNode(n);
    th = nullptr;
}

// the counters of the time spent in filters
static void timing(World &w, Rng &r, std::vector<Model> &ms) {
    auto a = api();
    if (a->getCoreNodeTiming(w.core)) viol("timing:default", "timing is on without having been asked for");
    std::map<VSNode *, int64_t> last;
    auto insideAll = [&] { int64_t s = 0; std::lock_guard<std::mutex> l(w.m); for (auto &i : w.insts) s += i->inside; return s; };
    a->setThreadCount(r.range(1, 4), w.core);
    VSCoreInfo2 ci; a->getCoreInfo2(w.core, &ci);
    int64_t freed0 = a->getFreedNodeProcessingTime(w.core, 0);
    for (int round = 0; round < 4 && !ms.empty(); round++) {
        bool on = r.chance(70);
        a->setCoreNodeTiming(w.core, on ? r.range(1, 5) : 0);
        if (!!a->getCoreNodeTiming(w.core) != on) viol("timing:switch", "the switch does not say what it was set to");
        std::map<VSNode *, int64_t> before, ins;
        { std::lock_guard<std::mutex> l(w.m); for (auto &m : ms) { auto it = w.of.find(m.node); if (it != w.of.end()) ins[m.node] = it->second->inside; } }
        for (auto &m : ms) before[m.node] = a->getNodeProcessingTime(m.node, 0);
        Adjusted adj; auto t0 = Clk::now();
        for (int k = r.range(1, 6); k > 0; k--) {
            Model &m = ms[r.below((int)ms.size())]; char err[200];
            int nf = m.video ? m.vi.numFrames : m.ai.numFrames;
            const VSFrame *f = a->getFrame(r.below(std::min(nf, 1000)), m.node, err, sizeof err);
            if (f) a->freeFrame(f);
        }
        int64_t wall = ns(Clk::now() - t0), sum = 0, slack = adj();
        for (auto &m : ms) {
            int64_t t = a->getNodeProcessingTime(m.node, 0), d = t - before[m.node]; sum += d; hEvals++;
            if (!on && d) viol("timing:off", fmt("%lld ns were counted although timing is off", (long long)d));
            if (ins.count(m.node) && on) {
                int64_t i; { std::lock_guard<std::mutex> l(w.m); i = w.of[m.node]->inside - ins[m.node]; }
                if (slack > 100000) count("clock_steps"); else if (d < i - slack) viol("timing:short", fmt("%lld ns were counted for a filter that worked for %lld ns", (long long)d, (long long)i));
            }
            if (d < -slack) viol("timing:negative", "a counter went backwards");
        }
        if (sum > (wall + slack) * ci.numThreads) viol("timing:long", fmt("%lld ns were counted in %lld ns with %d threads", (long long)sum, (long long)wall, ci.numThreads));
        if (r.chance(50)) {
            Model &m = ms[r.below((int)ms.size())];
            int64_t t = a->getNodeProcessingTime(m.node, 0), t2 = a->getNodeProcessingTime(m.node, 1), t3 = a->getNodeProcessingTime(m.node, 0);
            if (t != t2 || t3) viol("timing:reset", fmt("reset: %lld, %lld, %lld", (long long)t, (long long)t2, (long long)t3));
        }
    }
    // destroyed nodes
    a->setCoreNodeTiming(w.core, 1);
    if (a->getFreedNodeProcessingTime(w.core, 0) != freed0) viol("timing:freed", "time of destroyed nodes without any being destroyed");
    std::map<VSNode *, int> users; std::set<VSNode *> inArgs;
    for (auto &m : ms) for (auto &d : m.deps) users[d.src]++;
    if (!w.inspect) for (auto &m : ms) if (!users[m.node] && w.of.count(m.node)) {
        auto in = w.of[m.node];
        bool solo = true; for (auto &o : ms) if (&o != &m && o.node == m.node) solo = false;
        if (!solo || !in->deps.empty()) continue;
        int64_t t = a->getNodeProcessingTime(m.node, 0), f0 = a->getFreedNodeProcessingTime(w.core, 0);
        a->freeNode(m.node); m.node = nullptr;
        for (int i = 0; i < 20000 && !in->freed; i++) usleep(100);
        if (!in->freed) continue;      // something else holds it
        int64_t f1 = a->getFreedNodeProcessingTime(w.core, 0); hEvals++;
        if (f1 - f0 != t) viol("timing:freed", fmt("a destroyed node had %lld ns, the core counted %lld", (long long)t, (long long)(f1 - f0)));
        count("freed_times");
        break;
    }
    int64_t f = a->getFreedNodeProcessingTime(w.core, 1);
    if (a->getFreedNodeProcessingTime(w.core, 0) != 0 || f < 0) viol("timing:freed", "resetting the time of destroyed nodes did nothing");
    a->setCoreNodeTiming(w.core, 0);
}

// a parallel filter whose calls on several threads end in the same moment: no part of the time may be lost
struct Together {
    struct alignas(128) Call { int64_t inside = 0; bool met = false; const VSFrame *frame = nullptr; };
    int k; std::atomic<int64_t> arrived{0}; struct alignas(128) Rel { std::atomic<int64_t> at{0}; } release[4096]; std::vector<Call> calls;
};
static const VSFrame *VS_CC togetherGet(int, int, void *d, void **, VSFrameContext *, VSCore *, const VSAPI *) {
    auto t0 = Clk::now(); Together *t = (Together *)d;
    int64_t ticket = t->arrived++, group = ticket / t->k; auto &rel = t->release[group & 4095].at; auto &c = t->calls[ticket];
    auto f = c.frame;
    if (ticket % t->k == t->k - 1) rel = ns(Clk::now().time_since_epoch()) + 300000;
    for (;;) {
        int64_t now = ns(Clk::now().time_since_epoch()), at = rel.load(std::memory_order_relaxed);
        if (at && now >= at) { c.met = now < at + 200; break; }
        if (now - ns(t0.time_since_epoch()) > 3000000) break;      // the others don't come
    }
    c.inside = ns(Clk::now() - t0);
    return f;
}
static void VS_CC togetherFree(void *, VSCore *, const VSAPI *) {}
static void together(World &w, Rng &r) {
    auto a = api(); auto t = std::make_unique<Together>(); int calls = 2000; t->k = r.range(2, 6); t->calls.resize(calls);
    VSVideoInfo vi = {}; a->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, w.core); vi.width = vi.height = 16; vi.numFrames = calls;
    for (auto &c : t->calls) c.frame = a->newVideoFrame(&vi.format, 16, 16, nullptr, w.core);
    VSNode *n = a->createVideoFilter2("Together", &vi, togetherGet, togetherFree, fmParallel, nullptr, 0, t.get(), w.core);
    a->setCacheMode(n, cmForceDisable);
    a->setThreadCount(t->k, w.core); a->setCoreNodeTiming(w.core, 1);
    struct Wait { std::atomic<int> left; } wt{{calls}};
    Adjusted adj; a->getNodeProcessingTime(n, 1);
    for (int i = 0; i < calls; i++)
        a->getFrameAsync(i, n, [](void *u, const VSFrame *f, int, VSNode *, const char *) { if (f) api()->freeFrame(f); ((Wait *)u)->left--; }, &wt);
    while (wt.left) usleep(200);
    int64_t got = a->getNodeProcessingTime(n, 0), slack = adj() * t->k; hEvals++;
    int64_t inside = 0, met = 0; for (auto &c : t->calls) { inside += c.inside; met += c.met; }
    if (slack > 1000000) count("clock_steps"); else if (got < inside - slack) viol("timing:lost", fmt("%lld ns were counted for calls on %d threads that took %lld ns", (long long)got, t->k, (long long)inside));
    count("calls_ending_together", met); count("joint_runs");
    a->setCoreNodeTiming(w.core, 0);
    a->freeNode(n);
}

int main(int argc, char **argv) {
    Args ar(argc, argv); auto a = api();
    std::string plug = argv[0]; plug = plug.substr(0, plug.rfind('/') + 1) + "plug/pa.so";
    for (int k = ar.from; k < ar.to; k++) {
        hLine(fmt("CASE %d", k));
        Rng r(mix(ar.seed, k));
        World w; w.inspect = r.chance(75);
        w.core = a->createCore((w.inspect ? ccfEnableGraphInspection : 0) | ccfDisableAutoLoading);
        { VSMap *in = a->createMap(); a->mapSetData(in, "path", plug.c_str(), -1, dtUtf8, maReplace); a->freeMap(a->invoke(a->getPluginByID("com.vapoursynth.std", w.core), "LoadPlugin", in)); a->freeMap(in); }
        w.stdp = a->getPluginByID("com.verif.a", w.core); w.textp = a->getPluginByID("com.vapoursynth.text", w.core);
        if (!w.stdp || !w.textp) { hLine("SKIP no plugins"); _exit(77); }
        for (const char *f : {"Make0", "Make1", "Make2"}) if (!a->registerFunction(f, "any", "any", makeFn, (void *)f, w.stdp)) viol("register", "could not register");
        int nt = r.chance(60) ? 1 : r.range(2, 4);
        std::vector<std::vector<Model>> res(nt); std::vector<uint64_t> h(nt, 7);
        std::vector<std::thread> ts;
        for (int i = 0; i < nt; i++) { uint64_t s = mix(mix(ar.seed, k), i + 1); int ops = r.range(5, 40); ts.emplace_back([&, i, s, ops] { worker(w, s, ops, &res[i], &h[i]); }); }
        for (auto &t : ts) t.join();
        std::vector<Model> all; for (auto &v : res) all.insert(all.end(), v.begin(), v.end());
        for (auto &m : all) verify(w, m, "afterwards");
        int depth = 0; for (auto &m : all) depth = std::max(depth, (int)m.stack.size());
        for (auto x : h) if (depth > 1 || !w.inspect) hDistinct.insert(mix(x, w.inspect));
        count("nodes", (int64_t)all.size()); count("deepest_" + std::to_string(depth)); if (w.inspect) count("inspected_cores");
        if (r.chance(50)) { count("timed_cores"); timing(w, r, all); for (auto &m : all) if (m.node) verify(w, m, "after requests"); }
#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__)
        if (k % 100 == 7) together(w, r);
#endif
        for (size_t i = all.size(); i-- > 0;) { std::swap(all[i], all[r.below((int)i + 1)]); }
        for (auto &m : all) if (m.node) a->freeNode(m.node);
        for (int i = 0; i < 20000 && w.frees != w.made; i++) usleep(100);
        if (w.frees != w.made) viol("lifetime", fmt("%d of %d filters were freed once nothing refers to them", (int)w.frees, (int)w.made));
        VSCoreInfo2 ci; a->getCoreInfo2(w.core, &ci);
        a->freeCore(w.core);
        if (w.frees != w.made) viol("lifetime", fmt("%d of %d filters were freed with the core", (int)w.frees, (int)w.made));
    }
    hDone();
    _exit(0);
}
