// Thin C wrappers around the public API for the Python models (ctypes).
#include "hcommon.h"
#include <condition_variable>

#define X extern "C" __attribute__((visibility("default")))
static const VSAPI *A = nullptr;

X int vsh_init() { A = getVapourSynthAPI(VAPOURSYNTH_API_VERSION); return A ? 1 : 0; }
X void *vsh_core(int flags, int threads) {
    VSCore *c = A->createCore(flags);
    if (c && threads) A->setThreadCount(threads, c);
    return c;
}
X void vsh_freecore(VSCore *c) { A->freeCore(c); }
X int64_t vsh_used(VSCore *c) { VSCoreInfo2 i; A->getCoreInfo2(c, &i); return i.usedFramebufferSize; }
X int vsh_threads(VSCore *c) { VSCoreInfo2 i; A->getCoreInfo2(c, &i); return i.numThreads; }
X void vsh_clearcaches(VSCore *c) { A->clearCoreCaches(c); }
X int64_t vsh_maxcache(int64_t b, VSCore *c) { return A->setMaxCacheSize(b, c); }

static std::mutex logLock;
static std::vector<std::pair<int, std::string>> logs;
static void VS_CC onlog(int t, const char *m, void *) { std::lock_guard<std::mutex> l(logLock); if (logs.size() < 1000) logs.emplace_back(t, m); }
X void vsh_log(VSCore *c) { A->addLogHandler(onlog, nullptr, nullptr, c); }
X int vsh_nlog() { std::lock_guard<std::mutex> l(logLock); return (int)logs.size(); }
X int vsh_getlog(int i, char *buf, int n) { std::lock_guard<std::mutex> l(logLock); snprintf(buf, n, "%s", logs[i].second.c_str()); return logs[i].first; }
X void vsh_clearlog() { std::lock_guard<std::mutex> l(logLock); logs.clear(); }

X uint32_t vsh_fmtid(VSCore *c, int cf, int st, int bits, int ssw, int ssh) { return A->queryVideoFormatID(cf, st, bits, ssw, ssh, c); }

// frames
X void *vsh_newframe(VSCore *c, int cf, int st, int bits, int ssw, int ssh, int w, int h) {
    VSVideoFormat f;
    if (!A->queryVideoFormat(&f, cf, st, bits, ssw, ssh, c)) return nullptr;
    VSFrame *fr = A->newVideoFrame(&f, w, h, nullptr, c);
    for (int p = 0; p < f.numPlanes; p++) {       // padding may hold anything
        uint8_t *d = A->getWritePtr(fr, p);
        size_t n = (size_t)A->getStride(fr, p) * A->getFrameHeight(fr, p);
        Rng r(n + p * 77 + w);
        for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(d + i, &v, 8); }
    }
    return fr;
}
X void *vsh_newaudio(VSCore *c, int st, int bits, uint64_t layout, int ns) {
    VSAudioFormat f;
    if (!A->queryAudioFormat(&f, st, bits, layout, c)) return nullptr;
    VSFrame *fr = A->newAudioFrame(&f, ns, nullptr, c);
    for (int p = 0; p < f.numChannels; p++) {
        uint8_t *d = A->getWritePtr(fr, p);
        size_t n = (size_t)f.bytesPerSample * VS_AUDIO_FRAME_SAMPLES;
        Rng r(n + p * 77 + ns);
        for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(d + i, &v, 8); }
    }
    return fr;
}
X void vsh_freeframe(const VSFrame *f) { A->freeFrame(f); }
X const void *vsh_addframe(const VSFrame *f) { return A->addFrameRef(f); }
X const void *vsh_rptr(const VSFrame *f, int p) { return A->getReadPtr(f, p); }
X void *vsh_wptr(VSFrame *f, int p) { return A->getWritePtr(f, p); }
X int64_t vsh_stride(const VSFrame *f, int p) { return A->getStride(f, p); }
X int vsh_width(const VSFrame *f, int p) { return A->getFrameWidth(f, p); }
X int vsh_height(const VSFrame *f, int p) { return A->getFrameHeight(f, p); }
X int vsh_length(const VSFrame *f) { return A->getFrameLength(f); }
X int vsh_ftype(const VSFrame *f) { return A->getFrameType(f); }
static void putfmt(const VSVideoFormat *f, int64_t *o) {
    o[0] = f->colorFamily; o[1] = f->sampleType; o[2] = f->bitsPerSample; o[3] = f->subSamplingW; o[4] = f->subSamplingH; o[5] = f->numPlanes; o[6] = f->bytesPerSample;
}
X void vsh_framefmt(const VSFrame *f, int64_t *o) { putfmt(A->getVideoFrameFormat(f), o); }
X void vsh_audioframefmt(const VSFrame *f, int64_t *o) {
    const VSAudioFormat *a = A->getAudioFrameFormat(f);
    o[0] = a->sampleType; o[1] = a->bitsPerSample; o[2] = a->bytesPerSample; o[3] = a->numChannels; o[4] = (int64_t)a->channelLayout;
}
X const void *vsh_propsro(const VSFrame *f) { return A->getFramePropertiesRO(f); }
X void *vsh_propsrw(VSFrame *f) { return A->getFramePropertiesRW(f); }

// nodes
struct Src { std::vector<const VSFrame *> fr; VSVideoInfo vi; VSAudioInfo ai; std::atomic<int> *cnt; std::vector<std::string> err; int delay; };
static const VSFrame *VS_CC srcGet(int n, int ar, void *inst, void **, VSFrameContext *ctx, VSCore *, const VSAPI *a) {
    if (ar != arInitial) return nullptr;
    Src *s = (Src *)inst;
    if (n < 0 || n >= (int)s->fr.size()) { a->setFilterError("source asked for a frame it does not have", ctx); return nullptr; }
    s->cnt[n]++;
    if (s->delay) usleep((n * 7919 % 5) * s->delay);
    if (!s->fr[n]) { a->setFilterError(s->err[n].empty() ? "no such source frame" : s->err[n].c_str(), ctx); return nullptr; }
    return a->addFrameRef(s->fr[n]);
}
static void VS_CC srcFree(void *inst, VSCore *, const VSAPI *a) {
    Src *s = (Src *)inst;
    for (auto f : s->fr) a->freeFrame(f);
    delete[] s->cnt;
    delete s;
}
// takes its own references; a null frame fails with "source error <n>"; cf<0: variable format, w==0: variable size
X void *vsh_source(VSCore *c, int cf, int st, int bits, int ssw, int ssh, int w, int h, int64_t num, int64_t den, const VSFrame **fr, int n, int delay) {
    Src *s = new Src();
    s->fr.assign(fr, fr + n);
    for (int i = 0; i < n; i++) {
        if (fr[i]) A->addFrameRef(fr[i]);
        s->err.push_back("source error " + std::to_string(i));
    }
    s->cnt = new std::atomic<int>[n]();
    s->delay = delay;
    VSVideoInfo &v = s->vi;
    v = {};
    if (cf > 0) A->queryVideoFormat(&v.format, cf, st, bits, ssw, ssh, c);
    v.fpsNum = num; v.fpsDen = den; v.width = w; v.height = h; v.numFrames = n;
    return A->createVideoFilter2("Src", &v, srcGet, srcFree, fmParallel, nullptr, 0, s, c);
}
X void *vsh_asource(VSCore *c, int st, int bits, uint64_t layout, int rate, int64_t samples, const VSFrame **fr, int n) {
    Src *s = new Src();
    s->fr.assign(fr, fr + n);
    for (int i = 0; i < n; i++) {
        if (fr[i]) A->addFrameRef(fr[i]);
        s->err.push_back("source error " + std::to_string(i));
    }
    s->cnt = new std::atomic<int>[n]();
    s->ai = {};
    A->queryAudioFormat(&s->ai.format, st, bits, layout, c);
    s->ai.sampleRate = rate; s->ai.numSamples = samples;
    return A->createAudioFilter2("Src", &s->ai, srcGet, srcFree, fmParallel, nullptr, 0, s, c);
}
X void vsh_freenode(VSNode *n) { A->freeNode(n); }
X void *vsh_addnode(VSNode *n) { return A->addNodeRef(n); }
X int vsh_nodetype(VSNode *n) { return A->getNodeType(n); }
X void vsh_vi(VSNode *n, int64_t *o) {
    const VSVideoInfo *v = A->getVideoInfo(n);
    putfmt(&v->format, o);
    o[7] = v->width; o[8] = v->height; o[9] = v->numFrames; o[10] = v->fpsNum; o[11] = v->fpsDen;
}
X void vsh_ai(VSNode *n, int64_t *o) {
    const VSAudioInfo *a = A->getAudioInfo(n);
    o[0] = a->format.sampleType; o[1] = a->format.bitsPerSample; o[2] = a->format.bytesPerSample; o[3] = a->format.numChannels; o[4] = (int64_t)a->format.channelLayout;
    o[5] = a->sampleRate; o[6] = a->numSamples; o[7] = a->numFrames;
}
X int vsh_numdeps(VSNode *n) { return A->getNumNodeDependencies(n); }
X void vsh_dep(VSNode *n, int i, int64_t *o) { auto *d = A->getNodeDependency(n, i); o[0] = (int64_t)d->source; o[1] = d->requestPattern; }
X const char *vsh_nodename(VSNode *n) { return A->getNodeName(n); }
X void vsh_cachemode(VSNode *n, int m) { A->setCacheMode(n, m); }

X const void *vsh_getframe(VSNode *n, int i, char *err, int len) { if (len) err[0] = 0; return A->getFrame(i, n, err, len); }
struct Multi { std::mutex m; std::condition_variable cv; int left; const VSFrame **out; char *err; int errlen; };
struct One { Multi *m; int idx; };
static void VS_CC onframe(void *u, const VSFrame *f, int, VSNode *, const char *e) {
    One *o = (One *)u;
    Multi *m = o->m;
    std::lock_guard<std::mutex> l(m->m);
    m->out[o->idx] = f;
    snprintf(m->err + (size_t)o->idx * m->errlen, m->errlen, "%s", e ? e : "");
    m->left--;
    m->cv.notify_all();
}
// requests all frames at once; errors in err[i*errlen]
X void vsh_getframes(VSNode *n, const int *ns, int cnt, const VSFrame **out, char *err, int errlen) {
    Multi m;
    m.left = cnt; m.out = out; m.err = err; m.errlen = errlen;
    std::vector<One> o(cnt);
    for (int i = 0; i < cnt; i++) { o[i] = {&m, i}; A->getFrameAsync(ns[i], n, onframe, &o[i]); }
    std::unique_lock<std::mutex> l(m.m);
    m.cv.wait(l, [&] { return m.left == 0; });
}

// maps
X void *vsh_map() { return A->createMap(); }
X void vsh_freemap(VSMap *m) { A->freeMap(m); }
X const char *vsh_maperr(const VSMap *m) { return A->mapGetError(m); }
X int vsh_nkeys(const VSMap *m) { return A->mapNumKeys(m); }
X const char *vsh_key(const VSMap *m, int i) { return A->mapGetKey(m, i); }
X int vsh_ktype(const VSMap *m, const char *k) { return A->mapGetType(m, k); }
X int vsh_knum(const VSMap *m, const char *k) { return A->mapNumElements(m, k); }
X int64_t vsh_geti(const VSMap *m, const char *k, int i) { int e; return A->mapGetInt(m, k, i, &e); }
X double vsh_getf(const VSMap *m, const char *k, int i) { int e; return A->mapGetFloat(m, k, i, &e); }
X const char *vsh_gets(const VSMap *m, const char *k, int i) { int e; return A->mapGetData(m, k, i, &e); }
X int vsh_getsn(const VSMap *m, const char *k, int i) { int e; return A->mapGetDataSize(m, k, i, &e); }
X int vsh_geth(const VSMap *m, const char *k, int i) { int e; return A->mapGetDataTypeHint(m, k, i, &e); }
X void *vsh_getn(const VSMap *m, const char *k, int i) { int e; return A->mapGetNode(m, k, i, &e); }
X const void *vsh_getfr(const VSMap *m, const char *k, int i) { int e; return A->mapGetFrame(m, k, i, &e); }
X int vsh_empty(VSMap *m, const char *k, int t) { return A->mapSetEmpty(m, k, t); }
X int vsh_seti(VSMap *m, const char *k, int64_t v) { return A->mapSetInt(m, k, v, maAppend); }
X int vsh_setf(VSMap *m, const char *k, double v) { return A->mapSetFloat(m, k, v, maAppend); }
X int vsh_setia(VSMap *m, const char *k, const int64_t *v, int n) { return A->mapSetIntArray(m, k, v, n); }
X int vsh_setfa(VSMap *m, const char *k, const double *v, int n) { return A->mapSetFloatArray(m, k, v, n); }
X int vsh_sets(VSMap *m, const char *k, const char *d, int n, int h) { return A->mapSetData(m, k, d, n, h, maAppend); }
X int vsh_setn(VSMap *m, const char *k, VSNode *n) { return A->mapSetNode(m, k, n, maAppend); }
X int vsh_setfr(VSMap *m, const char *k, const VSFrame *f) { return A->mapSetFrame(m, k, f, maAppend); }
X int vsh_setfn(VSMap *m, const char *k, VSFunction *f) { return A->mapSetFunction(m, k, f, maAppend); }
X int vsh_seterr(VSMap *m, const char *e) { A->mapSetError(m, e); return 0; }

typedef void (*PyCb)(int64_t id, const VSMap *in, VSMap *out);
struct Fn { PyCb cb; int64_t id; };
static void VS_CC fnCall(const VSMap *in, VSMap *out, void *u, VSCore *, const VSAPI *) { Fn *f = (Fn *)u; f->cb(f->id, in, out); }
static void VS_CC fnFree(void *u) { delete (Fn *)u; }
X void *vsh_func(VSCore *c, PyCb cb, int64_t id) { return A->createFunction(fnCall, new Fn{cb, id}, fnFree, c); }
X void vsh_freefunc(VSFunction *f) { A->freeFunction(f); }

X void *vsh_invoke(VSCore *c, const char *ns, const char *name, const VSMap *args) {
    VSPlugin *p = A->getPluginByNamespace(ns, c);
    if (!p) return nullptr;
    return A->invoke(p, name, args);
}
X const char *vsh_args(VSCore *c, const char *ns, const char *name) {
    VSPlugin *p = A->getPluginByNamespace(ns, c);
    VSPluginFunction *f = p ? A->getPluginFunctionByName(name, p) : nullptr;
    return f ? A->getPluginFunctionArguments(f) : nullptr;
}
X int vsh_functions(VSCore *c, const char *ns, char *buf, int len) {
    VSPlugin *p = A->getPluginByNamespace(ns, c);
    std::string s;
    for (VSPluginFunction *f = p ? A->getNextPluginFunction(nullptr, p) : nullptr; f; f = A->getNextPluginFunction(f, p)) s += std::string(A->getPluginFunctionName(f)) + "\n";
    snprintf(buf, len, "%s", s.c_str());
    return (int)s.size();
}
