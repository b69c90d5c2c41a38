// A plugin written against the old API 3 header alone.
#include "VapourSynth.h"
#include "plug3.h"
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <cstdio>

static void bump(std::atomic<int> &c, std::atomic<int> &m) { int v = ++c; int o = m.load(); while (v > o && !m.compare_exchange_weak(o, v)) {} }

struct Src { int w, h, len, failEvery; uint64_t seed; VSVideoInfo vi; Probe3 *p; };
static void VS_CC srcInit(VSMap *, VSMap *out, void **d, VSNode *node, VSCore *, const VSAPI *a) {
    Src *s = (Src *)*d;
    if (s->failEvery == -1) { a->setError(out, "Source: refused in init"); delete s; return; }
    if (s->failEvery == -2) return; // no video info
    if (s->seed & 4) {      // what is said last counts
        VSVideoInfo other = s->vi; other.numFrames += 3; if (other.width) { other.width += 8; other.height += 8; } other.fpsNum = 5; other.fpsDen = 1;
        a->setVideoInfo(&other, 1, node);
    }
    a->setVideoInfo(&s->vi, 1, node);
}
template<class T> static void fill(uint8_t *p, int stride, int w, int h, uint64_t seed, int n, int plane, uint32_t mask) {
    for (int y = 0; y < h; y++, p += stride) for (int x = 0; x < w; x++) ((T *)p)[x] = (T)(pix3(seed, n, plane, y, x) & mask);
}
static uint32_t maskOf(const VSFormat *f) { int b = f->sampleType == stFloat ? f->bytesPerSample * 8 : f->bitsPerSample; return b >= 32 ? 0xffffffffu : (1u << b) - 1; }
static const VSFrameRef *VS_CC srcGet(int n, int ar, void **d, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *a) {
    Src *s = (Src *)*d; Probe3 *p = s->p;
    if (p->frees) p->late++;
    p->calls++;
    bump(p->inside, p->maxInside);
    VSFrameRef *f = nullptr;
    if (ar != arInitial) p->badReason++;
    else if (s->failEvery > 0 && n % s->failEvery == s->failEvery - 1) {
        a->setFilterError(("src " + std::to_string(s->seed) + " frame " + std::to_string(n)).c_str(), ctx);
        p->errors++;
    } else {
        const VSFormat *fi = s->vi.format; int w = s->vi.width, h = s->vi.height;
        if (!fi) fi = a->getFormatPreset(n % 2 ? pfGray8 : pfYUV420P8, core);     // variable format
        if (!w) { w = 16 + 4 * (n % 3); h = 16; }                               // variable size
        f = a->newVideoFrame(fi, w, h, nullptr, core);
        if (a->getFrameFormat(f) != fi) p->badFormat++;
        for (int q = 0; q < fi->numPlanes; q++) {
            uint8_t *b = a->getWritePtr(f, q); int st = a->getStride(f, q), pw = a->getFrameWidth(f, q), ph = a->getFrameHeight(f, q);
            if (fi->bytesPerSample == 1) fill<uint8_t>(b, st, pw, ph, s->seed, n, q, maskOf(fi));
            else if (fi->bytesPerSample == 2) fill<uint16_t>(b, st, pw, ph, s->seed, n, q, maskOf(fi));
            else fill<uint32_t>(b, st, pw, ph, s->seed, n, q, maskOf(fi));
        }
        VSMap *m = a->getFramePropsRW(f);
        a->propSetInt(m, "n", n, paReplace);
        a->propSetData(m, "tag", ("s" + std::to_string(s->seed)).c_str(), -1, paReplace);
        double dd[2] = { n * 0.5, -1.0 };
        a->propSetFloatArray(m, "d", dd, 2);
    }
    p->lastN = n;
    p->inside--;
    return f;
}
static void VS_CC srcFree(void *d, VSCore *, const VSAPI *) { Src *s = (Src *)d; s->p->frees++; delete s; }
static void VS_CC srcCreate(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *a) {
    auto gi = [&](const char *k, int64_t def = 0) { int e; int64_t v = a->propGetInt(in, k, 0, &e); return e ? def : v; };
    Src *s = new Src{};
    s->w = (int)gi("w"); s->h = (int)gi("h"); s->len = (int)gi("length"); s->seed = (uint64_t)gi("seed"); s->failEvery = (int)gi("failevery"); s->p = (Probe3 *)(intptr_t)gi("probe");
    s->vi.format = gi("format") ? a->getFormatPreset((int)gi("format"), core) : nullptr;
    s->vi.width = s->w; s->vi.height = s->h; s->vi.numFrames = s->len; s->vi.fpsNum = gi("fpsnum", 24); s->vi.fpsDen = gi("fpsden", 1);
    if (gi("format") && !s->vi.format) { a->setError(out, "Source: unknown format"); s->p->frees++; delete s; return; }
    a->createFilter(in, out, gi("long") ? "Source3 with a long name that does not fit into a small string" : "Source3", srcInit, srcGet, srcFree, (int)gi("mode", fmParallel), (int)gi("flags"), s, core);
}

struct Mix { std::vector<VSNodeRef *> c; std::vector<int> off, len; int k, rounds, early, how, failEvery; VSVideoInfo vi; Probe3 *p; };
struct MixFrame { int n, stage; Mix *m; };
static void VS_CC mixInit(VSMap *in, VSMap *out, void **d, VSNode *node, VSCore *, const VSAPI *a) {
    Mix *m = (Mix *)*d;
    if (a->propNumElements(in, "clips") != (int)m->c.size()) m->p->badData++;
    if (a->getError(out)) m->p->badData++;
    a->setVideoInfo(&m->vi, 1, node);
}
static const VSFrameRef *VS_CC mixGet(int n, int ar, void **d, void **fd, VSFrameContext *ctx, VSCore *core, const VSAPI *a) {
    Mix *m = (Mix *)*d; Probe3 *p = m->p;
    if (p->frees) p->late++;
    p->calls++;
    bump(p->inside, p->maxInside);
    auto at = [&](size_t i) { int v = n + m->off[i]; return v < 0 ? 0 : v >= m->len[i] ? m->len[i] - 1 : v; };
    const VSFrameRef *res = nullptr;
    if (ar == arInitial) {
        bump(p->busy, p->maxBusy);
        if (*fd) p->badData++;
        *fd = new MixFrame{ n, 0, m };
        for (size_t i = 0; i < (m->rounds ? 1 : m->c.size()); i++) a->requestFrameFilter(at(i), m->c[i], ctx);
    } else if (ar == arError) {
        MixFrame *f = (MixFrame *)*fd;
        if (!f || f->n != n || f->m != m) p->badData++; else { delete f; *fd = nullptr; }
        p->errors++;
        p->busy--;
    } else if (ar == arAllFramesReady) {
        bump(p->insideReady, p->maxReady);
        MixFrame *f = (MixFrame *)*fd;
        if (!f || f->n != n || f->m != m) p->badData++;
        else if (m->rounds && f->stage == 0 && m->c.size() > 1) {
            f->stage = 1;
            const VSFrameRef *x = a->getFrameFilter(at(0), m->c[0], ctx);       // what was got stays available
            if (!x) p->badData++;
            a->freeFrame(x);
            for (size_t i = 1; i < m->c.size(); i++) a->requestFrameFilter(at(i), m->c[i], ctx);
        } else {
            if (m->failEvery > 0 && n % m->failEvery == m->failEvery - 1) {
                a->setFilterError(("mix " + std::to_string(m->k) + " frame " + std::to_string(n)).c_str(), ctx);
                p->errors++;
            } else {
                std::vector<const VSFrameRef *> s;
                for (size_t i = 0; i < m->c.size(); i++) { s.push_back(a->getFrameFilter(at(i), m->c[i], ctx)); if (!s.back()) p->badData++; }
                const VSFormat *fi = a->getFrameFormat(s[0]);
                if (m->vi.format && fi != m->vi.format) p->badFormat++;
                int w = a->getFrameWidth(s[0], 0), h = a->getFrameHeight(s[0], 0);
                VSFrameRef *o;
                if (m->how == 0) o = a->newVideoFrame(fi, w, h, s[0], core);
                else if (m->how == 1) o = a->copyFrame(s[0], core);
                else {
                    const VSFrameRef *ps[3] = { nullptr, s[0], s.back() }; int pl[3] = { 0, 1, 2 };
                    o = a->newVideoFrame2(fi, w, h, ps, pl, nullptr, core);
                    a->copyFrameProps(s[0], o, core);
                }
                uint32_t mask = maskOf(fi);
                for (int q = 0; q < (m->how == 2 ? 1 : fi->numPlanes); q++) {
                    int pw = a->getFrameWidth(o, q), ph = a->getFrameHeight(o, q), os = a->getStride(o, q), bs = fi->bytesPerSample;
                    std::vector<uint32_t> acc(pw * ph, (uint32_t)m->k);
                    for (size_t i = 0; i < s.size(); i++) {
                        const uint8_t *b = a->getReadPtr(s[i], q); int st = a->getStride(s[i], q);
                        for (int y = 0; y < ph; y++) for (int x = 0; x < pw; x++) {
                            uint32_t v = bs == 1 ? b[y * st + x] : bs == 2 ? ((const uint16_t *)(b + y * st))[x] : ((const uint32_t *)(b + y * st))[x];
                            acc[y * pw + x] += v * (uint32_t)(2 * i + 1 + m->k);
                        }
                    }
                    uint8_t *b = a->getWritePtr(o, q);
                    for (int y = 0; y < ph; y++) for (int x = 0; x < pw; x++) {
                        uint32_t v = acc[y * pw + x] & mask;
                        if (bs == 1) b[y * os + x] = (uint8_t)v; else if (bs == 2) ((uint16_t *)(b + y * os))[x] = (uint16_t)v; else ((uint32_t *)(b + y * os))[x] = v;
                    }
                }
                VSMap *pr = a->getFramePropsRW(o);
                a->propSetInt(pr, "k", m->k, paAppend);
                a->propSetInt(pr, "n", n, paReplace);
                for (size_t i = 0; i < s.size(); i++) { if (m->early) a->releaseFrameEarly(m->c[i], at(i), ctx); a->freeFrame(s[i]); }
                res = o;
            }
            delete f; *fd = nullptr;
            p->busy--;
        }
        p->insideReady--;
    } else p->badReason++;
    p->inside--;
    return res;
}
static void VS_CC mixFree(void *d, VSCore *, const VSAPI *a) { Mix *m = (Mix *)d; for (auto c : m->c) a->freeNode(c); m->p->frees++; delete m; }
static void VS_CC mixCreate(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *a) {
    auto gi = [&](const char *k, int64_t def = 0) { int e; int64_t v = a->propGetInt(in, k, 0, &e); return e ? def : v; };
    Mix *m = new Mix{};
    int e;
    const int64_t *off = a->propGetIntArray(in, "offs", &e); int no = off ? a->propNumElements(in, "offs") : 0;
    for (int i = 0; i < a->propNumElements(in, "clips"); i++) {
        m->c.push_back(a->propGetNode(in, "clips", i, nullptr));
        m->off.push_back(i < no ? (int)off[i] : 0);
        m->len.push_back(a->getVideoInfo(m->c.back())->numFrames);
    }
    m->k = (int)gi("k"); m->rounds = (int)gi("rounds"); m->early = (int)gi("early"); m->how = (int)gi("how"); m->failEvery = (int)gi("failevery"); m->p = (Probe3 *)(intptr_t)gi("probe");
    m->vi = *a->getVideoInfo(m->c[0]);
    if (m->vi.flags != (nfNoCache | nfIsCache)) m->p->badData++;
    a->createFilter(in, out, "Mix3", mixInit, mixGet, mixFree, (int)gi("mode", fmParallel), (int)gi("flags"), m, core);
}

// copies everything it was given through the API 3 accessors
static void VS_CC echo(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *a) {
    std::string keys;
    for (int i = 0; i < a->propNumKeys(in); i++) {
        std::string k = a->propGetKey(in, i), o = "o_" + k;
        char t = a->propGetType(in, k.c_str()); int n = a->propNumElements(in, k.c_str());
        keys += k + ":" + t + ":" + std::to_string(n) + ";";
        if (n == 0) { if (t == ptInt) a->propSetInt(out, o.c_str(), 0, paTouch); else if (t == ptFloat) a->propSetFloat(out, o.c_str(), 0, paTouch); else if (t == ptData) a->propSetData(out, o.c_str(), "", 0, paTouch);
            else if (t == ptNode) a->propSetNode(out, o.c_str(), nullptr, paTouch); else if (t == ptFrame) a->propSetFrame(out, o.c_str(), nullptr, paTouch); else a->propSetFunc(out, o.c_str(), nullptr, paTouch); }
        for (int j = 0; j < n; j++) {
            int e = 0;
            if (t == ptInt) a->propSetInt(out, o.c_str(), a->propGetInt(in, k.c_str(), j, &e), paAppend);
            else if (t == ptFloat) a->propSetFloat(out, o.c_str(), a->propGetFloat(in, k.c_str(), j, &e), paAppend);
            else if (t == ptData) a->propSetData(out, o.c_str(), a->propGetData(in, k.c_str(), j, &e), a->propGetDataSize(in, k.c_str(), j, &e), paAppend);
            else if (t == ptNode) { VSNodeRef *x = a->propGetNode(in, k.c_str(), j, &e); a->propSetNode(out, o.c_str(), x, paAppend); a->freeNode(x); }
            else if (t == ptFrame) { const VSFrameRef *x = a->propGetFrame(in, k.c_str(), j, &e); a->propSetFrame(out, o.c_str(), x, paAppend); a->freeFrame(x); }
            else if (t == ptFunction) { VSFuncRef *x = a->propGetFunc(in, k.c_str(), j, &e); a->propSetFunc(out, o.c_str(), x, paAppend); a->freeFunc(x); }
            if (e) keys += "!";
        }
    }
    a->propSetData(out, "keys", keys.c_str(), (int)keys.size(), paReplace);
}
static void VS_CC callIt(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *a) {
    VSFuncRef *f = a->propGetFunc(in, "fn", 0, nullptr);
    VSMap *i = a->createMap(), *o = a->createMap();
    int e; int64_t x = a->propGetInt(in, "x", 0, &e);
    if (!e) a->propSetInt(i, "x", x, paReplace);
    a->callFunc(f, i, o, core, a);
    const char *er = a->getError(o);
    if (er) a->setError(out, er);
    else a->propSetInt(out, "val", a->propGetInt(o, "val", 0, nullptr) + 1, paReplace);
    a->freeMap(i); a->freeMap(o); a->freeFunc(f);
}
struct Fn { int64_t add; Probe3 *p; };
static void VS_CC fnCall(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *a) {
    Fn *f = (Fn *)ud; int e;
    f->p->calls++;
    if (f->p->frees) f->p->late++;
    int64_t x = a->propGetInt(in, "x", 0, &e);
    if (e) a->setError(out, "no x");
    else a->propSetInt(out, "val", x + f->add, paReplace);
}
static void VS_CC fnFree(void *ud) { Fn *f = (Fn *)ud; f->p->frees++; delete f; }
static void VS_CC makeFn(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *a) {
    VSFuncRef *f = a->createFunc(fnCall, new Fn{ a->propGetInt(in, "add", 0, nullptr), (Probe3 *)(intptr_t)a->propGetInt(in, "probe", 0, nullptr) }, fnFree, core, a);
    VSFuncRef *g = a->cloneFuncRef(f);
    a->propSetFunc(out, "fn", g, paReplace);
    a->freeFunc(f); a->freeFunc(g);
}
static void VS_CC invokeIt(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *a) {
    int e; std::string id(a->propGetData(in, "plugin", 0, nullptr));
    VSPlugin *p = id.find('.') != std::string::npos ? a->getPluginById(id.c_str(), core) : a->getPluginByNs(id.c_str(), core);
    if (!p) { a->setError(out, "no such plugin"); return; }
    VSMap *m = a->createMap();
    VSNodeRef *c = a->propGetNode(in, "clip", 0, &e);
    if (c) { a->propSetNode(m, "clip", c, paReplace); a->freeNode(c); }
    int64_t x = a->propGetInt(in, "x", 0, &e);
    if (!e) a->propSetInt(m, "x", x, paReplace);
    VSMap *o = a->invoke(p, a->propGetData(in, "name", 0, nullptr), m);
    if (a->getError(o)) a->setError(out, a->getError(o));
    else {
        VSNodeRef *r = a->propGetNode(o, "clip", 0, &e);
        if (r) { a->propSetNode(out, "clip", r, paReplace); a->freeNode(r); }
        int64_t v = a->propGetInt(o, "val", 0, &e);
        if (!e) a->propSetInt(out, "val", v, paReplace);
    }
    a->freeMap(m); a->freeMap(o);
}
static void VS_CC fetch(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *a) {
    VSNodeRef *c = a->propGetNode(in, "clip", 0, nullptr);
    char buf[64]; memset(buf, 'q', sizeof buf);
    const VSFrameRef *f = a->getFrame((int)a->propGetInt(in, "n", 0, nullptr), c, buf, 32);
    if (f) { a->propSetFrame(out, "frame", f, paReplace); a->freeFrame(f); }
    else a->setError(out, memchr(buf, 0, 32) && buf[32] == 'q' ? buf : "unterminated message");
    a->freeNode(c);
}

VS_EXTERNAL_API(void) VapourSynthPluginInit(VSConfigPlugin cfg, VSRegisterFunction reg, VSPlugin *plugin) {
    cfg("com.verif.old", "old3", "An API 3 plugin", PLUG3_API, PLUG3_RO, plugin);
    reg("Source", "w:int;h:int;format:int;length:int;seed:int;mode:int:opt;flags:int:opt;failevery:int:opt;fpsnum:int:opt;fpsden:int:opt;long:int:opt;probe:int;", srcCreate, nullptr, plugin);
    reg("Mix", "clips:clip[];mode:int:opt;flags:int:opt;k:int;offs:int[]:opt:empty;rounds:int:opt;early:int:opt;how:int:opt;failevery:int:opt;probe:int;", mixCreate, nullptr, plugin);
    reg("Echo", "i:int[]:opt:empty;f:float[]:opt:empty;d:data[]:empty:opt;c:clip[]:opt:empty;v:frame[]:opt:empty;m:func[]:opt:empty;", echo, nullptr, plugin);
    reg("Call", "fn:func;x:int:opt;", callIt, nullptr, plugin);
    reg("MakeFn", "add:int;probe:int;", makeFn, nullptr, plugin);
    reg("Invoke", "plugin:data;name:data;clip:clip:opt;x:int:opt;", invokeIt, nullptr, plugin);
    reg("Fetch", "clip:clip;n:int;", fetch, nullptr, plugin);
    reg("BadV4Type", "clip:vnode;", fetch, nullptr, plugin);      // not a type of API 3
    reg("Fetch", "clip:clip;", echo, nullptr, plugin);            // a second time
}
