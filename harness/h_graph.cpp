// Random filter graphs under hostile schedules. Custom filters built on the public API record every activation;
// online monitors check completion (C01), the activation protocol (C02), outputs against a sequential
// evaluation of the same graph (C03), error propagation (C04) and filter lifetime (C07).
#include "hperturb.h"
#include <deque>
#include <condition_variable>

static const VSAPI *vs;
static std::string gProp;      // which property's keys are reported: empty = all
static void V(const char *prop, const std::string &key, const std::string &msg) {
    if (gProp.empty() || gProp == prop) viol(key, msg);
    else hViol += 0;
}

struct Value { bool ok = true; uint64_t pl[3] = {0, 0, 0}; std::vector<int64_t> lin; std::set<std::string> errs; };
struct Req { int slot, n; };
struct Dep { int node; int pattern; };
struct Case;
struct Filt {
    Case *c = nullptr; int id = 0; int mode = 0; int numFrames = 1; uint64_t seed = 0; int kind = 0; int stages = 1;
    bool audio = false; bool hidden = false;
    int failPct = 0; int failAt = 0; bool longErr = false;
    std::vector<Dep> deps;
    std::vector<VSNode *> depNodes;
    VSNode *node = nullptr;
    VSVideoInfo vi = {}; VSAudioInfo ai = {};
    // monitor state
    std::mutex m;
    int inCall = 0, inNonInit = 0; int activeFrame = -1; int liveCtx = 0; std::map<int, int> live; void *stateOwner = nullptr;
    std::map<int, int> extOut;
    int maxConc = 0;
    int freed = 0; int calls = 0;
    std::map<int, std::unique_ptr<Value>> memo;
};
struct Ctx { Filt *f; int n; int stage = 0; std::vector<Req> got; int calls = 0; bool over = false; };

struct Case {
    int nestPct = 0; bool refDebug = false;
    uint64_t seed; VSCore *core = nullptr;
    std::vector<std::unique_ptr<Filt>> f;
    int w = 16, h = 2, planes = 1; bool hasErrors = false;
    std::atomic<int> outstanding{0}, requests{0}, filterCalls{0}, errorsSeen{0}, okSeen{0}, maxConc{0}, nested{0}, rerequested{0}, flushes{0};
    std::atomic<uint64_t> orderHash{0};
    std::mutex dynM; std::vector<std::unique_ptr<Filt>> dyn; std::atomic<int> dynCount{0};
};
static Case *gCase;

static const int CHUNK = 8;

static std::vector<Req> reqs(const Filt &f, int n, int stage) {
    std::vector<Req> r;
    for (size_t s = 0; s < f.deps.size(); s++) {
        const Filt &d = *f.c->f[f.deps[s].node];
        uint64_t h = mix(f.seed, mix(n * 7 + stage, s));
        switch (f.deps[s].pattern) {
        case rpStrictSpatial: if (stage == 0 && n < d.numFrames) r.push_back({(int)s, n}); break;
        case rpNoFrameReuse: if (stage == 0) { int m = f.numFrames - 1 - n; if (m < d.numFrames) r.push_back({(int)s, m}); } break;
        case rpFrameReuseLastOnly: if (stage == 0) r.push_back({(int)s, std::min(n, d.numFrames - 1)}); break;
        default: {
            int k = (int)(h % 4) + (stage == 0 && s == 0 ? 1 : 0);
            for (int i = 0; i < k; i++) {
                uint64_t q = mix(h, i + 11);
                int m = (q % 5) ? n + (int)((q >> 8) % 7) - 3 : (int)((q >> 8) % (d.numFrames + 3));
                r.push_back({(int)s, std::max(0, m)});
            }
        } }
    }
    return r;
}
static int nStages(const Filt &f) { return f.deps.empty() ? 0 : f.stages; }
static bool fails(const Filt &f, int n) { return f.failPct && (int)(mix(f.seed ^ 0xFA11, n) % 100) < f.failPct; }
static std::string errText(const Filt &f, int n) {
    std::string s = fmt("filter %d failed on frame %d", f.id, n);
    if (f.longErr) { s += ' '; while (s.size() < 700) s += (char)('a' + s.size() % 26); }
    return s;
}

// the sequential reference
static const Value &eval(Filt &f, int n) {
    if (n >= f.numFrames) n = f.numFrames - 1;
    auto &slot = f.memo[n];
    if (slot) return *slot;
    auto v = std::make_unique<Value>();
    bool selfFail = fails(f, n);
    if (selfFail && f.failAt == 0) { v->ok = false; v->errs.insert(errText(f, n)); slot = std::move(v); return *f.memo[n]; }
    std::vector<const Value *> in;
    for (int st = 0; st < nStages(f) && v->ok; st++) {
        for (auto &q : reqs(f, n, st)) {
            const Value &d = eval(*f.c->f[f.deps[q.slot].node], q.n);
            if (!d.ok) { v->ok = false; v->errs.insert(d.errs.begin(), d.errs.end()); }
            in.push_back(&d);
        }
    }
    if (v->ok && selfFail) { v->ok = false; v->errs.insert(errText(f, n)); }
    if (v->ok) {
        uint64_t base = mix(f.seed, n);
        for (auto *d : in) base = mix(base, d->pl[0] ^ (d->pl[1] << 1) ^ (d->pl[2] << 2));
        if (f.kind == 3 && !in.empty()) *v = *in[0];                 // passthrough
        else {
            for (int p = 0; p < 3; p++) v->pl[p] = mix(base, p + 1);
            if (!in.empty() && f.kind == 1) v->lin = in[0]->lin;     // copies properties
            if (!in.empty() && f.kind == 2) {                        // copyFrame, overwrites plane 0 only
                v->lin = in[0]->lin;
                for (int p = 1; p < 3; p++) v->pl[p] = in[0]->pl[p];
            }
            if (!in.empty() && f.kind == 4) {                        // planes taken from inputs, the rest new
                const Value *last = in.back();
                v->lin = last->lin; v->pl[0] = last->pl[0]; v->pl[2] = in[0]->pl[2];
            }
            if (v->lin.size() < 30) v->lin.push_back(f.id * 1000 + n);
            if (f.c->planes == 1) v->pl[1] = v->pl[2] = 0;
            if (f.audio) { v->pl[0] &= 0xffffffff; v->pl[1] = v->pl[2] = 0; }
        }
    }
    slot = std::move(v);
    return *f.memo[n];
}

static void fillPlane(uint8_t *p, ptrdiff_t stride, int w, int h, uint64_t v) {
    for (int y = 0; y < h; y++, p += stride) {
        uint64_t r = v ^ ((uint64_t)y << 1);
        for (int x = 0; x + 8 <= w; x += 8) memcpy(p + x, &r, 8);
    }
}
static bool checkPlane(const uint8_t *p, ptrdiff_t stride, int w, int h, uint64_t v) {
    int step = h > 64 ? h / 16 : 1;
    for (int y = 0; y < h; y += step) {
        uint64_t r = v ^ ((uint64_t)y << 1);
        const uint8_t *q = p + y * stride;
        for (int x = 0; x + 8 <= w; x += (w > 256 ? w / 16 & ~7 : 8)) if (memcmp(q + x, &r, 8)) return false;
        if (memcmp(q + ((w - 8) & ~7), &r, 8)) return false;
    }
    return true;
}
static void fillFrame(Filt &f, VSFrame *fr, const uint64_t *pl, const bool *skip = nullptr) {
    if (f.audio) {
        int32_t *p = (int32_t *)vs->getWritePtr(fr, 0); int n = vs->getFrameLength(fr);
        for (int i = 0; i < n; i++) p[i] = (int32_t)(pl[0] + i);
    } else for (int p = 0; p < f.c->planes; p++) if (!skip || !skip[p]) fillPlane(vs->getWritePtr(fr, p), vs->getStride(fr, p), vs->getFrameWidth(fr, p), vs->getFrameHeight(fr, p), pl[p]);
}
// compares a delivered frame with the reference value
static std::string diffFrame(Filt &f, const VSFrame *fr, int n, const Value &v) {
    Case &c = *f.c;
    if (n >= f.numFrames) n = f.numFrames - 1;
    if (vs->getFrameType(fr) != (f.audio ? mtAudio : mtVideo)) return "media type";
    if (f.audio) {
        int want = n < f.numFrames - 1 ? VS_AUDIO_FRAME_SAMPLES : (int)(f.ai.numSamples - (int64_t)(f.numFrames - 1) * VS_AUDIO_FRAME_SAMPLES);
        if (vs->getFrameLength(fr) != want) return "audio frame length";
        const int32_t *p = (const int32_t *)vs->getReadPtr(fr, 0);
        for (int i = 0; i < want; i += 7) if (p[i] != (int32_t)(v.pl[0] + i)) return fmt("sample %d", i);
    } else {
        if (vs->getFrameWidth(fr, 0) != c.w || vs->getFrameHeight(fr, 0) != c.h) return "dimensions";
        for (int p = 0; p < c.planes; p++)
            if (!checkPlane(vs->getReadPtr(fr, p), vs->getStride(fr, p), c.w, c.h, v.pl[p])) return fmt("contents of plane %d", p);
    }
    const VSMap *m = vs->getFramePropertiesRO(fr);
    int e, k = vs->mapNumElements(m, "lin");
    if ((k < 0 ? 0 : k) != (int)v.lin.size()) return fmt("property has %d elements, expected %d", k, (int)v.lin.size());
    for (int i = 0; i < k; i++) if (vs->mapGetInt(m, "lin", i, &e) != v.lin[i]) return fmt("property element %d", i);
    return "";
}

static void syncGet(Case &c, Filt &f, int n, uint64_t rnd, const char *how);
static const VSFrame *VS_CC getFrame(int n, int ar, void *inst, void **fd, VSFrameContext *fc, VSCore *core, const VSAPI *) {
    Filt &f = *(Filt *)inst;
    Case &c = *f.c;
    pEvents++;
    c.filterCalls++;
    Ctx *x = (Ctx *)fd[0];
    bool initial = ar == arInitial;
    bool nonInit = x && !initial;
    bool invalid = n < 0 || n >= f.numFrames;
    {
        std::lock_guard<std::mutex> l(f.m);
        f.calls++;
        if (f.freed) V("C07", "call-after-free", fmt("filter %d called for frame %d after its free callback", f.id, n));
        if (invalid && ar != arError) V("C02", "frame-number-range", fmt("filter %d with %d frames activated for frame %d", f.id, f.numFrames, n));
        if (f.inCall && (f.mode == fmUnordered || f.mode == fmFrameState)) V("C02", "serial-mode", fmt("filter %d mode %d entered for frame %d while another call is running", f.id, f.mode, n));
        if (x && !initial && f.mode == fmParallelRequests && f.inNonInit) V("C02", "parallelrequests-serial", fmt("filter %d entered with reason %d for frame %d while another such call is running", f.id, ar, n));
        f.inCall++;
        if (x && !initial) f.inNonInit++;
        f.maxConc = std::max(f.maxConc, f.inCall);
        int mc = c.maxConc; while (mc < f.inCall && !c.maxConc.compare_exchange_weak(mc, f.inCall)) {}
        if (initial) {
            if (fd[0] || fd[1] || fd[2] || fd[3]) V("C02", "framedata-initial", fmt("filter %d frame %d: frame data not empty on the first activation", f.id, n));
            x = new Ctx{&f, n};
            if (f.mode == fmFrameState) {
                if (f.stateOwner) V("C02", "framestate-interleaved", fmt("filter %d began frame %d while frame %d is unfinished", f.id, n, ((Ctx *)f.stateOwner)->n));
                f.stateOwner = x;
            }
            int lv = ++f.live[n];
            if (lv > 1 + f.extOut[n]) V("C02", "duplicate-production", fmt("filter %d frame %d is being produced %d times at once with %d external requests outstanding", f.id, n, lv, f.extOut[n]));
        } else if (!x) {
            // an out of range asynchronous request reaches the filter as an error, nothing else may
            if (!(ar == arError && (n < 0 || n >= f.numFrames))) V("C02", "first-activation", fmt("filter %d frame %d: first activation has reason %d", f.id, n, ar));
        } else {
            if (x->f != &f || x->n != n) V("C02", "framedata-mixed", fmt("filter %d frame %d: frame data of another frame", f.id, n));
            if (f.mode == fmFrameState && f.stateOwner != x) V("C02", "framestate-interleaved", fmt("filter %d frame %d", f.id, n));
        }
        if (ar != arInitial && ar != arAllFramesReady && ar != arError) V("C02", "reason", fmt("reason %d", ar));
    }
    c.orderHash = mix(c.orderHash, mix(f.id * 4 + ar + 1, n));
    perturb();
    const VSFrame *ret = nullptr;
    bool done = false;
    if (x && !initial) {
        if (fd[1] != (void *)(uintptr_t)(n + 1) || fd[2] != &f || fd[3] != x) V("C02", "framedata-kept", fmt("filter %d frame %d: frame data changed between activations", f.id, n));
    }
    if (ar == arError) {
        done = true;
        if (x) {
            const Value *v = nullptr;
            { std::lock_guard<std::mutex> l(f.m); auto it = f.memo.find(n); if (it != f.memo.end()) v = it->second.get(); }
            if (v && v->ok) V("C04", "spurious-error", fmt("filter %d frame %d was told of an error although none of its inputs can fail", f.id, n));
            if (x->stage == 0) V("C02", "error-without-request", fmt("filter %d frame %d", f.id, n));
        }
        std::lock_guard<std::mutex> l(f.m);
    } else if (x) {
        // an activation after requests: everything requested so far must be there and be right
        if (!initial) {
            if (x->got.empty()) V("C02", "ready-without-request", fmt("filter %d frame %d", f.id, n));
            for (auto &q : x->got) {
                const VSFrame *in = vs->getFrameFilter(q.n, f.depNodes[q.slot], fc);
                Filt &d = *c.f[f.deps[q.slot].node];
                if (!in) { V("C02", "missing-input", fmt("filter %d frame %d: requested frame %d of input %d is not available", f.id, n, q.n, q.slot)); continue; }
                int qn = std::min(q.n, d.numFrames - 1);
                const Value *v = nullptr;
                { std::lock_guard<std::mutex> l(d.m); auto it = d.memo.find(qn); if (it != d.memo.end()) v = it->second.get(); }
                if (v && v->ok) { std::string df = diffFrame(d, in, qn, *v); if (!df.empty()) V("C03", "input-content", fmt("filter %d frame %d received a wrong frame %d of filter %d: %s", f.id, n, qn, d.id, df.c_str())); }
                else if (v) V("C04", "error-became-frame", fmt("filter %d frame %d received frame %d of filter %d which fails", f.id, n, qn, d.id));
                vs->freeFrame(in);
            }
        }
        // synchronous requests from a pool thread, as python callbacks do: only for frames upstream
        if (initial && c.nestPct && (int)(mix(f.seed ^ 77, n) % 100) < c.nestPct && !f.deps.empty()) {
            c.nested++;
            syncGet(c, *c.f[f.deps[0].node], -1, mix(f.seed, n * 3 + 1), "nested synchronous");
        }
        bool sf = fails(f, n);
        if (initial && sf && f.failAt == 0) { vs->setFilterError(errText(f, n).c_str(), fc); done = true; }
        else {
            bool requested = false;
            size_t before = x->got.size();
            while (x->stage < nStages(f) && !requested) {
                for (auto &q : reqs(f, n, x->stage)) { vs->requestFrameFilter(q.n, f.depNodes[q.slot], fc); x->got.push_back(q); requested = true; }
                x->stage++;
            }
            // working in batches: frames given back early and asked for again with the next batch are there again
            if (requested && before && mix(f.seed ^ 91, n * 8 + x->stage) % 3 == 0) for (size_t i = 0; i < before; i++) if (mix(f.seed ^ i, n) % 2) {
                auto q = x->got[i];
                vs->releaseFrameEarly(f.depNodes[q.slot], std::min(q.n, c.f[f.deps[q.slot].node]->numFrames - 1), fc);
                vs->requestFrameFilter(q.n, f.depNodes[q.slot], fc);
                c.rerequested++;
            }
            if (requested) { fd[0] = x; fd[1] = (void *)(uintptr_t)(n + 1); fd[2] = &f; fd[3] = x; }
            else if (sf) { vs->setFilterError(errText(f, n).c_str(), fc); done = true; }
            else {
                done = true;
                std::vector<const VSFrame *> in; std::vector<int> slots;
                for (auto &q : x->got) { const VSFrame *i = vs->getFrameFilter(q.n, f.depNodes[q.slot], fc); if (i) { in.push_back(i); slots.push_back(q.slot); } }
                // the value is computed from what was actually received
                uint64_t base = mix(f.seed, n);
                std::vector<Value> iv;
                for (auto *i : in) {
                    Value v;
                    if (f.audio) v.pl[0] = (uint64_t)(int64_t)*(const int32_t *)vs->getReadPtr(i, 0), v.pl[0] &= 0xffffffff;
                    else for (int p = 0; p < c.planes; p++) memcpy(&v.pl[p], vs->getReadPtr(i, p), 8);
                    iv.push_back(v);
                }
                for (auto &d : iv) base = mix(base, d.pl[0] ^ (d.pl[1] << 1) ^ (d.pl[2] << 2));
                perturb();
                uint64_t pl[3]; for (int p = 0; p < 3; p++) pl[p] = mix(base, p + 1);
                if (f.audio) pl[0] &= 0xffffffff;
                VSFrame *o = nullptr;
                bool addLin = true;
                int len = f.audio ? (n < f.numFrames - 1 ? VS_AUDIO_FRAME_SAMPLES : (int)(f.ai.numSamples - (int64_t)(f.numFrames - 1) * VS_AUDIO_FRAME_SAMPLES)) : 0;
                if (f.kind == 3 && !in.empty()) { o = (VSFrame *)vs->addFrameRef(in[0]); addLin = false; ret = o; }
                else if (f.kind == 2 && !in.empty()) { o = vs->copyFrame(in[0], core); bool skip[3] = {false, true, true}; fillFrame(f, o, pl, skip); }
                else if (f.kind == 4 && !in.empty() && !f.audio) {
                    const VSFrame *src[3] = {in.back(), nullptr, in[0]}; int pls[3] = {0, 0, 2};
                    o = vs->newVideoFrame2(&f.vi.format, c.w, c.h, src, pls, in.back(), core);
                    bool skip[3] = {true, false, true}; fillFrame(f, o, pl, skip);
                } else {
                    const VSFrame *ps = (f.kind == 1 && !in.empty()) ? in[0] : nullptr;
                    o = f.audio ? vs->newAudioFrame(&f.ai.format, len, ps, core) : vs->newVideoFrame(&f.vi.format, c.w, c.h, ps, core);
                    fillFrame(f, o, pl);
                }
                if (addLin) { VSMap *m = vs->getFramePropertiesRW(o); if (vs->mapNumElements(m, "lin") < 30) vs->mapSetInt(m, "lin", f.id * 1000 + n, maAppend); }
                ret = o;
                // releaseFrameEarly on some inputs: the references just taken stay valid
                if (mix(f.seed, n) % 3 == 0) for (auto &q : x->got) vs->releaseFrameEarly(f.depNodes[q.slot], std::min(q.n, c.f[f.deps[q.slot].node]->numFrames - 1), fc);
                for (auto *i : in) vs->freeFrame(i);
            }
        }
    }
    perturb();
    {
        std::lock_guard<std::mutex> l(f.m);
        if (done && x) {
            f.live[n]--;
            if (f.stateOwner == x) f.stateOwner = nullptr;
        }
        f.inCall--;
        if (nonInit) f.inNonInit--;
    }
    if (done && x) { delete x; fd[0] = fd[1] = fd[2] = fd[3] = nullptr; }
    pEvents++;
    return ret;
}

static void VS_CC freeFilter(void *inst, VSCore *, const VSAPI *) {
    Filt &f = *(Filt *)inst;
    {
        std::lock_guard<std::mutex> l(f.m);
        if (f.inCall) V("C07", "free-while-running", fmt("filter %d freed during a call", f.id));
        for (auto &k : f.live) if (k.second) V("C07", "free-while-pending", fmt("filter %d freed while frame %d is being produced", f.id, k.first));
        if (++f.freed > 1) V("C07", "double-free", fmt("free callback of filter %d called %d times", f.id, f.freed));
    }
    for (auto *n : f.depNodes) vs->freeNode(n);
    f.depNodes.clear();
}

// ---------------------------------------------------------------- clients
struct Client;
struct Ask { Filt *f; int n; Case *c; int chain; uint64_t rnd; std::atomic<int> completions{0}; bool invalid; VSNode *node; };
static std::mutex doneM; static std::condition_variable doneCv;
static std::mutex asksM; static std::deque<std::unique_ptr<Ask>> asks;
static std::vector<const VSFrame *> held; static std::mutex heldM;

static void judge(Ask *a, const VSFrame *fr, const char *err, const char *how) {
    Case &c = *a->c; Filt &f = *a->f;
    if (fr && err) V("C01", "both", fmt("%s request for frame %d of filter %d delivered a frame and an error", how, a->n, f.id));
    if (!fr && !err) V("C01", "neither", fmt("%s request for frame %d of filter %d delivered neither a frame nor an error", how, a->n, f.id));
    if (a->invalid) {
        c.errorsSeen++;
        if (fr) V("C01", "invalid-number", fmt("%s request for frame %d of %d succeeded", how, a->n, f.numFrames));
        else if (err && !strstr(err, "Invalid frame number")) V("C04", "error-text", fmt("invalid frame request reported as: %s", err));
        return;
    }
    const Value &v = *f.memo[a->n];
    if (fr) {
        c.okSeen++;
        if (!v.ok) { V("C04", "error-became-frame", fmt("%s request for frame %d of filter %d delivered a frame although its production fails", how, a->n, f.id)); return; }
        std::string d = diffFrame(f, fr, a->n, v);
        if (!d.empty()) V("C03", "output", fmt("%s request for frame %d of filter %d differs from the sequential evaluation: %s", how, a->n, f.id, d.c_str()));
    } else if (err) {
        c.errorsSeen++;
        if (v.ok) { V("C04", "spurious-error", fmt("%s request for frame %d of filter %d failed: %s", how, a->n, f.id, err)); return; }
        std::string e = err;
        bool ok = v.errs.count(e) > 0;
        if (!ok) V("C04", "error-text", fmt("%s request for frame %d of filter %d reports an error that no filter it depends on raised: '%s'", how, a->n, f.id, e.substr(0, 200).c_str()));
    }
}

static std::atomic<int> inCallback{0};
static void issueAsync(Case &c, Filt &f, int n, int chain, uint64_t rnd, bool dropNode);
static const Value &evalDyn(Filt &f, int n);
static void syncGet(Case &c, Filt &f, int n, uint64_t rnd, const char *how);
static Filt &pickNode(Case &c, uint64_t r) { for (size_t i = 0;; i++) { Filt &f = *c.f[(r + i) % c.f.size()]; if (!f.hidden) return f; } }
static void makeNode(Case &c, Filt *f, Rng &r);
// a filter that comes and goes while the rest of the graph is running
static void dynamicFilter(Case &c, Filt &up, Rng &r) {
    auto p = std::make_unique<Filt>();
    Filt *f = p.get();
    f->c = &c; f->id = 1000 + c.dynCount++; f->seed = r.next(); f->audio = up.audio; f->mode = r.below(4); f->numFrames = up.numFrames;
    f->kind = f->audio ? 1 : r.below(4); f->vi = up.vi; f->ai = up.ai;
    f->deps.push_back({up.id, r.chance(50) ? rpStrictSpatial : rpGeneral});
    f->stages = 1;
    std::vector<int> ns; for (int i = r.range(1, 4); i > 0; i--) ns.push_back(r.below(f->numFrames));
    for (int n : ns) evalDyn(*f, n);
    makeNode(c, f, r);
    { std::lock_guard<std::mutex> l(c.dynM); c.dyn.push_back(std::move(p)); }
    for (int n : ns) syncGet(c, *f, n, r.next() / 360 * 360 + 1, "synchronous");
    perturb();
    vs->freeNode(f->node);
}

static void VS_CC frameDone(void *ud, const VSFrame *fr, int n, VSNode *node, const char *err) {
    Ask *a = (Ask *)ud;
    Case &c = *a->c;
    pEvents++;
    // asynchronous callbacks are delivered one at a time
    if (inCallback++ != 0) V("C01", "callbacks-concurrent", "two asynchronous completion callbacks ran at the same time");
    if (++a->completions != 1) V("C01", "completed-twice", fmt("frame %d of filter %d", a->n, a->f->id));
    if (n != a->n) V("C01", "wrong-number", fmt("completion for frame %d delivered as frame %d", a->n, n));
    if (node != a->node) V("C01", "wrong-node", fmt("completion for a request on filter %d names another node", a->f->id));
    { std::lock_guard<std::mutex> l(a->f->m); a->f->extOut[a->n]--; }
    judge(a, fr, err, "asynchronous");
    perturb();
    uint64_t r = mix(a->rnd, 5);
    if (fr) { if (r % 11 == 0) { std::lock_guard<std::mutex> l(heldM); held.push_back(fr); } else vs->freeFrame(fr); }
    if (a->chain > 0) {
        Filt &nf = pickNode(c, r >> 16);
        issueAsync(c, nf, (int)((r >> 24) % nf.numFrames), a->chain - 1, mix(r, 3), false);
    }
    inCallback--;
    pEvents++;
    if (--c.outstanding == 0) { std::lock_guard<std::mutex> l(doneM); doneCv.notify_all(); }
}

static void issueAsync(Case &c, Filt &f, int n, int chain, uint64_t rnd, bool dropNode) {
    c.outstanding++; c.requests++;
    auto a = std::make_unique<Ask>();
    a->f = &f; a->n = n; a->c = &c; a->chain = chain; a->rnd = rnd; a->invalid = n < 0 || n >= f.numFrames; a->node = f.node;
    Ask *p = a.get();
    { std::lock_guard<std::mutex> l(asksM); asks.push_back(std::move(a)); }
    { std::lock_guard<std::mutex> l(f.m); f.extOut[n]++; }
    (void)dropNode;
    vs->getFrameAsync(n, f.node, frameDone, p);
}
static void syncGet(Case &c, Filt &f, int n, uint64_t rnd, const char *how) {
    if (n == -1) n = (int)(mix(rnd, 9) % f.numFrames);
    c.requests++;
    Ask a; a.f = &f; a.n = n; a.c = &c; a.invalid = n < 0 || n >= f.numFrames; a.node = f.node; a.rnd = rnd;
    { std::lock_guard<std::mutex> l(f.m); f.extOut[n]++; }
    char buf[1100]; memset(buf, 'Z', sizeof buf);
    int sz = (rnd % 4 == 0) ? (int)((rnd >> 8) % 60) : 1024;
    if (rnd % 9 == 0) sz = 0;
    const VSFrame *fr = vs->getFrame(n, f.node, rnd % 10 == 5 ? nullptr : buf, sz);
    bool noBuf = rnd % 10 == 5 || sz == 0;
    pEvents++;
    { std::lock_guard<std::mutex> l(f.m); f.extOut[n]--; }
    for (int i = sz; i < (int)sizeof buf && !(rnd % 10 == 5); i++) if (buf[i] != 'Z') { V("C04", "error-buffer-overrun", fmt("error text written past the %d bytes given", sz)); break; }
    if (noBuf) { judge(&a, fr, fr ? nullptr : (a.invalid ? "Invalid frame number" : f.memo[n]->ok ? "(no buffer)" : f.memo[n]->errs.begin()->c_str()), how); }
    else {
        if (!fr && !memchr(buf, 0, sz)) V("C04", "error-unterminated", fmt("size %d", sz));
        buf[sizeof buf - 1] = 0;
        if (fr && buf[0] != 0) V("C04", "error-on-success", fmt("%.60s", buf));
        if (fr) judge(&a, fr, nullptr, how);
        else {
            // truncation to the buffer
            std::string got = buf; bool ok = false;
            if (a.invalid) ok = std::string("Invalid frame number ").substr(0, std::min<size_t>(21, sz - 1)) == got.substr(0, std::min<size_t>(21, sz - 1));
            else for (auto &e : f.memo[n]->errs) if (e.substr(0, sz - 1) == got) ok = true;
            c.errorsSeen++;
            if (!a.invalid && f.memo[n]->ok) V("C04", "spurious-error", fmt("synchronous request for frame %d of filter %d failed: %s", n, f.id, buf));
            else if (!ok) V("C04", "error-text", fmt("synchronous request for frame %d of filter %d: '%s' with a buffer of %d bytes", n, f.id, got.substr(0, 100).c_str(), sz));
        }
    }
    if (fr) vs->freeFrame(fr);
}

static void client(Case &c, uint64_t seed, int ops, int spread) {
    Rng r(seed);
    for (int i = 0; i < ops; i++) {
        Filt &f = pickNode(c, r.chance(60) ? c.f.size() - 1 - r.below(std::min<int>(3, (int)c.f.size())) : r.below((int)c.f.size()));
        int n = r.chance(50) ? std::min(f.numFrames - 1, i % std::max(1, spread)) : r.below(f.numFrames);
        if (r.chance(3)) n = r.chance(50) ? f.numFrames + r.below(3) : -1 - r.below(3);
        switch (r.below(4)) {
        case 0: if (n >= 0 || true) { uint64_t q = r.next(); if (n == -1) n = -2; syncGet(c, f, n, q, "synchronous"); } break;
        default: issueAsync(c, f, n, r.chance(30) ? r.below(4) : 0, r.next(), false); break;
        }
        switch (r.below(60)) {
        case 0: vs->setThreadCount(r.range(1, 12), c.core); break;
        case 1: vs->clearCoreCaches(c.core); break;
        case 2: vs->clearNodeCache(f.node); break;
        case 3: vs->setCacheMode(f.node, r.range(-1, 1)); break;
        case 4: vs->setCacheOptions(f.node, r.range(-1, 1), r.range(0, 30), r.range(0, 30)); break;
        case 5: { VSCoreInfo2 ci; vs->getCoreInfo2(c.core, &ci); if (ci.numThreads < 1) V("C01", "threads", "no threads"); } break;
        case 6: { std::lock_guard<std::mutex> l(heldM); while (!held.empty()) { vs->freeFrame(held.back()); held.pop_back(); } } break;
        case 7: vs->setCoreNodeTiming(c.core, r.below(2)); break;
        case 8: case 9: dynamicFilter(c, f, r); break;
        }
        if (r.chance(10)) perturb();
        while (c.outstanding > 200) realSleepUs(200);
    }
}

static const Value &evalDyn(Filt &f, int n) { return eval(f, n); }
static void makeNode(Case &c, Filt *f, Rng &r) {
    std::vector<VSFilterDependency> deps;
    for (auto &d : f->deps) { VSNode *dn = c.f[d.node]->node; f->depNodes.push_back(vs->addNodeRef(dn)); deps.push_back({dn, d.pattern}); }
    std::string name = "filt" + std::to_string(f->id);
    if (r.chance(50)) {
        f->node = f->audio ? vs->createAudioFilter2(name.c_str(), &f->ai, getFrame, freeFilter, f->mode, deps.data(), (int)deps.size(), f, c.core)
                           : vs->createVideoFilter2(name.c_str(), &f->vi, getFrame, freeFilter, f->mode, deps.data(), (int)deps.size(), f, c.core);
    } else {
        VSMap *m = vs->createMap();
        if (f->audio) vs->createAudioFilter(m, name.c_str(), &f->ai, getFrame, freeFilter, f->mode, deps.data(), (int)deps.size(), f, c.core);
        else vs->createVideoFilter(m, name.c_str(), &f->vi, getFrame, freeFilter, f->mode, deps.data(), (int)deps.size(), f, c.core);
        f->node = vs->mapGetNode(m, "clip", 0, nullptr);
        vs->freeMap(m);
    }
}

static void buildCase(Case &c, uint64_t seed, Rng &r) {
    c.seed = seed;
    c.refDebug = r.chance(4);
    c.core = vs->createCore(ccfDisableAutoLoading | (r.chance(10) ? ccfEnableGraphInspection : 0) | (c.refDebug ? ccfEnableFrameRefDebug : 0));
    bool audio = r.chance(15);
    c.planes = r.chance(50) ? 1 : 3;
    bool big = r.chance(12);
    c.w = big ? 1024 : r.chance(50) ? 16 : 64; c.h = big ? r.range(600, 1300) : r.range(1, 8);
    c.hasErrors = r.chance(gProp == "C04" ? 90 : 45);
    int nsrc = r.range(1, 3), nf = r.range(1, 10);
    int nfr = r.chance(20) ? r.range(1, 3) : r.range(5, 40);
    int modeBias = r.below(6); // 0..3: all filters of one mode
    for (int i = 0; i < nsrc + nf; i++) {
        auto f = std::make_unique<Filt>();
        f->c = &c; f->id = i; f->seed = r.next(); f->audio = audio;
        f->mode = modeBias < 4 ? modeBias : r.below(4);
        f->numFrames = r.chance(60) ? nfr : r.range(1, nfr + 5);
        f->kind = i < nsrc ? 0 : r.below(5);
        if (audio) { f->kind = f->kind == 3 ? 1 : f->kind; if (f->kind == 4 || f->kind == 2) f->kind = 1; }
        f->stages = r.chance(25) ? 2 : 1;
        if (c.hasErrors && r.chance(40)) { f->failPct = r.range(2, 40); f->failAt = r.below(2); f->longErr = r.chance(10); }
        if (i >= nsrc) {
            int nd = r.range(1, std::min(3, i));
            for (int k = 0; k < nd; k++) {
                Dep d; d.node = r.chance(60) ? std::max(0, i - 1 - r.below(3)) : r.below(i);
                d.pattern = r.chance(50) ? rpGeneral : r.range(1, 3);
                f->deps.push_back(d);
            }
        }
        vs->queryVideoFormat(&f->vi.format, c.planes == 1 ? cfGray : cfYUV, stInteger, 8, 0, 0, c.core);
        f->vi.width = c.w; f->vi.height = c.h; f->vi.fpsNum = 25; f->vi.fpsDen = 1; f->vi.numFrames = f->numFrames;
        if (audio) {
            vs->queryAudioFormat(&f->ai.format, stInteger, 32, 1, c.core); f->ai.sampleRate = 48000;
            f->ai.numSamples = (int64_t)(f->numFrames - 1) * VS_AUDIO_FRAME_SAMPLES + r.range(1, VS_AUDIO_FRAME_SAMPLES);
        }
        makeNode(c, f.get(), r);
        int k = r.below(10);
        if (k == 0) vs->setCacheMode(f->node, 0);
        else if (k == 1) vs->setCacheMode(f->node, 1);
        else if (k == 2) { vs->setCacheMode(f->node, 1); vs->setCacheOptions(f->node, 1, r.range(1, 5), 5); }
        c.f.push_back(std::move(f));
    }
    for (auto &f : c.f) for (int n = 0; n < f->numFrames; n++) eval(*f, n); // single-threaded, before any request
    // some filters are only kept alive by the filters that use them
    if (r.chance(40)) for (size_t i = 0; i + 1 < c.f.size(); i++) {
        bool used = false; for (auto &g : c.f) for (auto &d : g->deps) if (d.node == (int)i) used = true;
        if (used && r.chance(50)) { c.f[i]->hidden = true; vs->freeNode(c.f[i]->node); }
    }
}

static void runCase(uint64_t seed) {
    Rng r(seed);
    auto cp = std::make_unique<Case>();
    Case &c = *cp;
    gCase = &c;
    pLevel = 0;
    clkSet(1);
    buildCase(c, seed, r);
    int threads = r.chance(20) ? 1 : r.range(2, 12);
    vs->setThreadCount(threads, c.core);
    int warp = r.chance(50) ? 1 : r.chance(50) ? 40 : 400;
    bool tight = r.chance(35);
    int64_t frameBytes = (int64_t)c.w * c.h * c.planes;
    if (tight) vs->setMaxCacheSize(std::max<int64_t>(1, frameBytes * r.range(1, 30)), c.core);
    pSeed = r.next();
    pLevel = r.below(4);
    clkSet(warp);
    if (r.chance(20)) c.nestPct = r.range(1, 15);
    if (gProp == "C02" && pLevel < 2) pLevel = 2;
    if (getenv("NONEST")) c.nestPct = 0;
    int nclients = r.range(1, 4);
    int ops = r.range(10, c.h > 100 ? 40 : 90);
    int spread = r.range(1, 40);
    std::vector<uint64_t> cs; for (int i = 0; i < nclients; i++) cs.push_back(r.next());
    wdDescribe = [&c, seed, threads]() { return fmt("case seed %llu: %d requests issued, %d outstanding, %d threads, %d filters", (unsigned long long)seed, (int)c.requests, (int)c.outstanding, threads, (int)c.f.size()); };
    pEvents++;
    wdActive = 1;
    {
        std::vector<std::thread> th;
        for (int i = 0; i < nclients; i++) th.emplace_back([&, i]() { client(c, cs[i], ops, spread); });
        for (auto &t : th) t.join();
        std::unique_lock<std::mutex> l(doneM);
        doneCv.wait(l, [&] { return c.outstanding == 0; });
    }
    { std::lock_guard<std::mutex> l(asksM);
      for (auto &a : asks) if (a->completions != 1) V("C01", "completions", fmt("request for frame %d of filter %d completed %d times", a->n, a->f->id, (int)a->completions)); }
    pLevel = 0;
    bool late = r.chance(20) && !c.refDebug;   // some references outlive the core, they are then released one at a time
    std::vector<const VSFrame *> lateFrames;
    { std::lock_guard<std::mutex> l(heldM); while (!held.empty()) { if (late && r.chance(50)) lateFrames.push_back(held.back()); else vs->freeFrame(held.back()); held.pop_back(); } }
    // free the nodes in a random order
    std::vector<int> order; for (size_t i = 0; i < c.f.size(); i++) if (!c.f[i]->hidden) order.push_back((int)i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below((int)i)]);
    std::vector<int> lateNodes;
    for (int i : order) { if (late && r.chance(25)) { lateNodes.push_back(i); continue; } vs->freeNode(c.f[i]->node); pEvents++; }
    VSCoreInfo2 ci;
    vs->getCoreInfo2(c.core, &ci);
    // the last completion may still be unwinding on a pool thread; freeCore waits for it
    pEvents++;
    vs->freeCore(c.core);
    // everything reachable from a node reference that is still held is alive
    if (!lateNodes.empty()) {
        std::set<int> alive(lateNodes.begin(), lateNodes.end());
        for (int i = (int)c.f.size() - 1; i >= 0; i--) if (alive.count(i)) for (auto &d : c.f[i]->deps) alive.insert(d.node);
        for (int i : alive) if (c.f[i]->freed) V("C07", "freed-while-referenced", fmt("filter %d was freed although node %d or a node depending on it is still referenced", i, i));
        count("nodes_outliving_core", (int64_t)lateNodes.size());
    }
    while (!lateFrames.empty() || !lateNodes.empty()) {
        if (!lateFrames.empty() && (lateNodes.empty() || r.chance(50))) {
            const VSFrame *fr = lateFrames.back(); lateFrames.pop_back();
            if (vs->getFrameType(fr) == mtVideo) vs->getFrameWidth(fr, 0); vs->mapNumKeys(vs->getFramePropertiesRO(fr));
            volatile uint8_t x = *vs->getReadPtr(fr, 0); (void)x;
            vs->freeFrame(fr); count("frames_outliving_core");
        } else { vs->freeNode(c.f[lateNodes.back()]->node); lateNodes.pop_back(); }
        pEvents++;
    }
    wdActive = 0;
    for (auto &f : c.f) if (f->freed != 1) V("C07", "free-count", fmt("free callback of filter %d ran %d times by the end of the core", f->id, f->freed));
    for (auto &f : c.dyn) if (f->freed != 1) V("C07", "free-count", fmt("free callback of temporary filter %d ran %d times by the end of the core", f->id, f->freed));
    count("temporary_filters", c.dynCount);
    for (auto &a : asks) if (a->completions != 1) V("C01", "completions", fmt("request for frame %d of filter %d completed %d times", a->n, a->f->id, (int)a->completions));
    asks.clear();
    hEvals += c.requests;
    count("filter_activations", c.filterCalls); count("frames_delivered", c.okSeen); count("errors_delivered", c.errorsSeen);
    count("nested_requests", c.nested); count("frames_requested_again", c.rerequested); count("cases"); if (c.maxConc > 1) count("cases_with_parallel_calls"); if (tight) count("cases_over_memory_limit");
    if (c.requests > 1 && c.filterCalls > 1) hDistinct.insert(mix(c.orderHash, seed));
    if (hSamples < 2) sample(fmt("case seed %llu: %d filters, %d requests, %d activations, %d errors, up to %d calls of one filter at once, %d pool threads, clock x%d, memory limit %s", (unsigned long long)seed, (int)c.f.size(), (int)c.requests, (int)c.filterCalls, (int)c.errorsSeen, (int)c.maxConc, threads, warp, tight ? "tight" : "default"));
    gCase = nullptr;
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    vs = api();
    clkInit();
    gProp = a.get("prop"); 
    startWatchdog(a.geti("quiet", 12000));
    for (int k = a.from; k < a.to; k++) {
        hLine("CASE " + std::to_string(k));
        runCase(mix(a.seed, k));
    }
    count("injected_delays", (int64_t)pDelays.load());
    hDone();
    _exit(0);
}
