// D08: programs and plugins written for API 3. One process drives the same core through both API tables and a plugin
// that was compiled against the API 3 header alone; everything observed is compared with one model.
#include "hcommon.h"
#include "plug3.h"
#include "hv3.h"
#include <thread>

static const VSAPI *a4;
static const v3::VSAPI *a3;
static std::string gDir;
#define C3(x) ((v3::VSCore *)(x))
#define N3(x) ((v3::VSNodeRef *)(x))
#define F3(x) ((v3::VSFrameRef *)(x))
#define M3(x) ((v3::VSMap *)(x))
#define U3(x) ((v3::VSFuncRef *)(x))
#define P3(x) ((v3::VSPlugin *)(x))
static std::string hist;
#define FAIL(key, ...) do { viol(key, fmt(__VA_ARGS__) + " | " + (hist.size() > 1500 ? hist.substr(hist.size() - 1500) : hist)); } while (0)

// ------------------------------------------------------------------ formats
struct Fm { int fam, st, bits, sw, sh; };
static int fam3(int f) { return f == cfGray ? 1000000 : f == cfRGB ? 2000000 : 3000000; }
static std::string nameOf(int fam, int st, int bits, int sw, int sh) {
    std::string suf = st == stFloat ? (bits == 32 ? "S" : "H") : std::to_string(fam == cfRGB ? 3 * bits : bits);
    if (fam == cfGray) return "Gray" + suf;
    if (fam == cfRGB) return "RGB" + suf;
    std::map<std::pair<int, int>, std::string> n = {{{0, 0}, "444"}, {{1, 0}, "422"}, {{1, 1}, "420"}, {{2, 2}, "410"}, {{2, 0}, "411"}, {{0, 1}, "440"}};
    if (n.count({sw, sh})) return "YUV" + n[{sw, sh}] + "P" + suf;
    return fmt("YUVssw%dssh%dP%s", sw, sh, suf.c_str());
}
static const std::vector<std::pair<int, Fm>> PRE = {
    {v3::pfGray8, {cfGray, 0, 8, 0, 0}}, {v3::pfGray16, {cfGray, 0, 16, 0, 0}}, {v3::pfGrayH, {cfGray, 1, 16, 0, 0}}, {v3::pfGrayS, {cfGray, 1, 32, 0, 0}},
    {v3::pfYUV420P8, {cfYUV, 0, 8, 1, 1}}, {v3::pfYUV422P8, {cfYUV, 0, 8, 1, 0}}, {v3::pfYUV444P8, {cfYUV, 0, 8, 0, 0}}, {v3::pfYUV410P8, {cfYUV, 0, 8, 2, 2}}, {v3::pfYUV411P8, {cfYUV, 0, 8, 2, 0}}, {v3::pfYUV440P8, {cfYUV, 0, 8, 0, 1}},
    {v3::pfYUV420P9, {cfYUV, 0, 9, 1, 1}}, {v3::pfYUV422P9, {cfYUV, 0, 9, 1, 0}}, {v3::pfYUV444P9, {cfYUV, 0, 9, 0, 0}}, {v3::pfYUV420P10, {cfYUV, 0, 10, 1, 1}}, {v3::pfYUV422P10, {cfYUV, 0, 10, 1, 0}}, {v3::pfYUV444P10, {cfYUV, 0, 10, 0, 0}},
    {v3::pfYUV420P16, {cfYUV, 0, 16, 1, 1}}, {v3::pfYUV422P16, {cfYUV, 0, 16, 1, 0}}, {v3::pfYUV444P16, {cfYUV, 0, 16, 0, 0}}, {v3::pfYUV444PH, {cfYUV, 1, 16, 0, 0}}, {v3::pfYUV444PS, {cfYUV, 1, 32, 0, 0}},
    {v3::pfYUV420P12, {cfYUV, 0, 12, 1, 1}}, {v3::pfYUV422P12, {cfYUV, 0, 12, 1, 0}}, {v3::pfYUV444P12, {cfYUV, 0, 12, 0, 0}}, {v3::pfYUV420P14, {cfYUV, 0, 14, 1, 1}}, {v3::pfYUV422P14, {cfYUV, 0, 14, 1, 0}}, {v3::pfYUV444P14, {cfYUV, 0, 14, 0, 0}},
    {v3::pfRGB24, {cfRGB, 0, 8, 0, 0}}, {v3::pfRGB27, {cfRGB, 0, 9, 0, 0}}, {v3::pfRGB30, {cfRGB, 0, 10, 0, 0}}, {v3::pfRGB48, {cfRGB, 0, 16, 0, 0}}, {v3::pfRGBH, {cfRGB, 1, 16, 0, 0}}, {v3::pfRGBS, {cfRGB, 1, 32, 0, 0}} };
static bool okVideo(const Fm &f) {
    bool fa = f.fam == cfGray || f.fam == cfRGB || f.fam == cfYUV;
    bool b = f.st == stInteger ? f.bits >= 8 && f.bits <= 32 : f.st == stFloat ? f.bits == 16 || f.bits == 32 : false;
    bool s = f.fam == cfYUV ? f.sw >= 0 && f.sw <= 4 && f.sh >= 0 && f.sh <= 4 : f.sw == 0 && f.sh == 0;
    return fa && b && s;
}
static int bytesFor(int bits) { return bits <= 8 ? 1 : bits <= 16 ? 2 : 4; }
static bool is3(const v3::VSFormat *x, const Fm &f) {
    return x && x->colorFamily == fam3(f.fam) && x->sampleType == f.st && x->bitsPerSample == f.bits && x->bytesPerSample == bytesFor(f.bits) && x->subSamplingW == f.sw && x->subSamplingH == f.sh
        && x->numPlanes == (f.fam == cfGray ? 1 : 3) && nameOf(f.fam, f.st, f.bits, f.sw, f.sh) == x->name;
}
static bool same4(const VSVideoFormat *x, const Fm &f) {
    return x->colorFamily == f.fam && x->sampleType == f.st && x->bitsPerSample == f.bits && x->bytesPerSample == bytesFor(f.bits) && x->subSamplingW == f.sw && x->subSamplingH == f.sh && x->numPlanes == (f.fam == cfGray ? 1 : 3);
}
static std::string show(const Fm &f) { return fmt("family %d sample %d bits %d sub %d,%d", f.fam, f.st, f.bits, f.sw, f.sh); }
static Fm rndFm(Rng &r, bool wild) {
    if (!wild) {
        if (r.chance(60)) return r.pick(PRE).second;
        Fm f{ r.range(1, 3), 0, r.range(8, 32), 0, 0 };
        if (f.fam == cfYUV) f.sw = r.range(0, 3), f.sh = r.range(0, 3);
        return f;
    }
    return { r.range(1, 3), r.range(-1, 2), r.chance(50) ? r.range(6, 34) : r.pick(std::vector<int>{8, 16, 32}), r.range(-1, 5), r.range(-1, 5) };
}
static const VSFrame *VS_CC nullGet(int, int, void *, void **, VSFrameContext *ctx, VSCore *, const VSAPI *a) { a->setFilterError("unused", ctx); return nullptr; }

static void fmtCase(Rng &r) {
    VSCore *core = r.chance(50) ? (VSCore *)a3->createCore(1 + r.below(3)) : a4->createCore(ccfDisableAutoLoading);
    VSCore *other = a4->createCore(ccfDisableAutoLoading);
    std::map<std::string, const v3::VSFormat *> seen;
    std::map<int, std::string> ids;
    uint64_t h = 0;
    auto add = [&](const v3::VSFormat *p, const Fm &f, const char *how) {
        std::string k = show(f);
        if (!is3(p, f)) { FAIL("format:fields", "%s through %s is described as %s id %d family %d bits %d/%d sub %d,%d planes %d", k.c_str(), how, p ? p->name : "(none)", p ? p->id : 0, p ? p->colorFamily : 0, p ? p->bitsPerSample : 0, p ? p->bytesPerSample : 0, p ? p->subSamplingW : 0, p ? p->subSamplingH : 0, p ? p->numPlanes : 0); return; }
        if (seen.count(k) && seen[k] != p) FAIL("format:identity", "%s through %s is another object than before", k.c_str(), how);
        if (ids.count(p->id) && ids[p->id] != k) FAIL("format:id", "%s has the id %d of %s", k.c_str(), p->id, ids[p->id].c_str());
        for (auto &q : PRE) if (show(q.second) == k && p->id != q.first) FAIL("format:presetid", "%s has the id %d instead of %d", k.c_str(), p->id, q.first);
        seen[k] = p; ids[p->id] = k;
        if (a3->getFormatPreset(p->id, C3(core)) != p) FAIL("format:byid", "%s is not found by its id %d", k.c_str(), p->id);
        VSVideoFormat v; memset(&v, 0xAB, sizeof v);
        if (!a4->getVideoFormatByID(&v, (uint32_t)p->id, core) || !same4(&v, f)) FAIL("format:v4byid", "API 4 does not find %s by its old id %d", k.c_str(), p->id);
        uint32_t id4 = a4->queryVideoFormatID(f.fam, f.st, f.bits, f.sw, f.sh, core);
        if (a3->getFormatPreset((int)id4, C3(core)) != p) FAIL("format:byv4id", "API 3 does not find %s by its API 4 id", k.c_str());
    };
    int steps = r.range(10, 40);
    for (int i = 0; i < steps; i++) {
        hEvals++;
        int op = r.below(8);
        h = mix(h, op);
        if (op == 0) { auto &q = r.pick(PRE); hist = fmt("preset %d", q.first); add(a3->getFormatPreset(q.first, C3(core)), q.second, "getFormatPreset"); }
        else if (op == 1) {
            Fm f = rndFm(r, true); hist = "register " + show(f);
            const v3::VSFormat *p = a3->registerFormat(fam3(f.fam), f.st, f.bits, f.sw, f.sh, C3(core));
            // API 3 knew gray formats with subsampling; they are neither valid nor judged
            if (f.fam == cfGray && (f.sw || f.sh)) continue;
            if (!!p != okVideo(f)) FAIL("format:valid", "registerFormat of %s %s", show(f).c_str(), p ? "succeeds" : "fails");
            if (p && okVideo(f)) add(p, f, "registerFormat");
            count("registered");
        } else if (op == 2) { Fm f = rndFm(r, false); hist = "register " + show(f); add(a3->registerFormat(fam3(f.fam), f.st, f.bits, f.sw, f.sh, C3(core)), f, "registerFormat"); count("registered"); }
        else if (op == 3 && r.chance(50)) {     // YCoCg is a color family of its own in API 3 only
            Fm f; do f = rndFm(r, false); while (f.fam != cfYUV);
            hist = "register YCoCg " + show(f);
            const v3::VSFormat *p = a3->registerFormat(4000000, f.st, f.bits, f.sw, f.sh, C3(core));
            if (!p) { FAIL("ycocg:valid", "YCoCg can't be registered"); continue; }
            if (p->colorFamily != 4000000 || p->sampleType != f.st || p->bitsPerSample != f.bits || p->bytesPerSample != bytesFor(f.bits) || p->subSamplingW != f.sw || p->subSamplingH != f.sh || p->numPlanes != 3) FAIL("ycocg:fields", "%s is family %d bits %d sub %d,%d", p->name, p->colorFamily, p->bitsPerSample, p->subSamplingW, p->subSamplingH);
            if (a3->getFormatPreset(p->id, C3(core)) != p || a3->registerFormat(4000000, f.st, f.bits, f.sw, f.sh, C3(core)) != p) FAIL("ycocg:identity", "%s is not found again", p->name);
            VSFrame *x = (VSFrame *)a3->newVideoFrame(p, 32, 32, nullptr, C3(core));
            if (!x || !same4(a4->getVideoFrameFormat(x), f)) FAIL("ycocg:frame", "a frame of %s is %s through API 4", p->name, x && a4->getVideoFrameFormat(x)->colorFamily == cfYUV ? "other YUV" : "not YUV");
            if (x) a4->freeFrame(x);
            count("ycocg");
        }
        else if (op == 3) {        // ids that mean nothing
            int id = r.pick(std::vector<int>{ 5, 999999, 1000001, 1000050, 2000100, 3000090, 0x40080000, 0x00ffffff, 0x50080000, 0x10070000, 0x10210000, 0x30080505, 0x20080101, 0x11080000, 0x11180000, 0x12080000, (int)0xf0080000, 0x01080000 });
            hist = fmt("getFormatPreset(0x%x)", id);
            const v3::VSFormat *p = a3->getFormatPreset(id, C3(core));
            if (p && p->id != id) FAIL("format:garbageid", "getFormatPreset(0x%x) gives %s", id, p->name);
            count("unknown_ids");
        } else if (op == 4) {      // descriptions of clips made through API 4
            Fm f = rndFm(r, false);
            VSVideoInfo vi{}; bool var = r.chance(20);
            if (!var) a4->queryVideoFormat(&vi.format, f.fam, f.st, f.bits, f.sw, f.sh, core);
            bool vs = r.chance(20);
            vi.width = vs ? 0 : r.range(1, 40) << 3; vi.height = vs ? 0 : r.range(1, 40) << 3; vi.numFrames = r.range(1, 1000000); vi.fpsNum = r.chance(20) ? 0 : r.range(1, 100000); vi.fpsDen = vi.fpsNum ? 1 : 0;
            hist = "clip of " + show(f);
            VSNode *n = a4->createVideoFilter2("n", &vi, nullGet, nullptr, fmParallel, nullptr, 0, nullptr, core);
            if (!n) { FAIL("clip:create", "a valid clip was refused"); continue; }
            const v3::VSVideoInfo *w = a3->getVideoInfo(N3(n));
            if (!var) add(w->format, f, "getVideoInfo"); else if (w->format) FAIL("clip:format", "a clip without a format has one through API 3");
            if (w->width != vi.width || w->height != vi.height || w->numFrames != vi.numFrames || w->fpsNum != vi.fpsNum || w->fpsDen != vi.fpsDen) FAIL("clip:info", "%dx%d %d frames %lld/%lld through API 3, %dx%d %d frames %lld/%lld through API 4", w->width, w->height, w->numFrames, (long long)w->fpsNum, (long long)w->fpsDen, vi.width, vi.height, vi.numFrames, (long long)vi.fpsNum, (long long)vi.fpsDen);
            v3::VSNodeRef *c = a3->cloneNodeRef(N3(n));
            a3->freeNode(N3(n));
            if (a3->getVideoInfo(c) != w) FAIL("clip:clone", "a clone has another description");
            a4->freeNode((VSNode *)c);
            count("clips");
        } else {                   // frames made through either API seen through the other
            Fm f = rndFm(r, false);
            int w = r.range(1, 20) << f.sw, hh = r.range(1, 20) << f.sh;
            hist = fmt("frame %dx%d of ", w, hh) + show(f);
            VSVideoFormat vf; a4->queryVideoFormat(&vf, f.fam, f.st, f.bits, f.sw, f.sh, core);
            const v3::VSFormat *p = a3->registerFormat(fam3(f.fam), f.st, f.bits, f.sw, f.sh, C3(core));
            add(p, f, "registerFormat");
            if (!p) continue;
            VSFrame *x;
            bool three = r.chance(60);
            x = three ? (VSFrame *)a3->newVideoFrame(p, w, hh, nullptr, C3(core)) : a4->newVideoFrame(&vf, w, hh, nullptr, core);
            if (a3->getFrameFormat(F3(x)) != p) FAIL("frame:format", "getFrameFormat gives another format");
            if (!same4(a4->getVideoFrameFormat(x), f)) FAIL("frame:format4", "API 4 sees another format");
            for (int q = 0; q <= 3; q++) {
                bool ok = q >= 0 && q < p->numPlanes;
                if (a3->getStride(F3(x), q) != (int)a4->getStride(x, q)) FAIL("frame:stride", "plane %d", q);
                if (a3->getReadPtr(F3(x), q) != a4->getReadPtr(x, q) || (a4->getReadPtr(x, q) != nullptr) != ok) FAIL("frame:ptr", "plane %d", q);
                int ew = !ok ? 0 : q ? w >> f.sw : w, eh = !ok ? 0 : q ? hh >> f.sh : hh;
                if (ok && (a3->getFrameWidth(F3(x), q) != ew || a3->getFrameHeight(F3(x), q) != eh)) FAIL("frame:size", "plane %d is %dx%d", q, a3->getFrameWidth(F3(x), q), a3->getFrameHeight(F3(x), q));
            }
            for (int q = 0; q < p->numPlanes; q++) { uint8_t *b = a3->getWritePtr(F3(x), q); int st = a3->getStride(F3(x), q); for (int y = 0; y < a3->getFrameHeight(F3(x), q); y++) memset(b + (ptrdiff_t)y * st, 17 * q + y + 1, a3->getFrameWidth(F3(x), q) * p->bytesPerSample); }
            a3->propSetInt(a3->getFramePropsRW(F3(x)), "v", 7, v3::paReplace);
            a3->propSetData(a3->getFramePropsRW(F3(x)), "s", "a\0b", 3, v3::paReplace);
            VSFrame *y = three ? (VSFrame *)a3->copyFrame(F3(x), C3(core)) : a4->copyFrame(x, core);
            a3->propSetInt(a3->getFramePropsRW(F3(y)), "v", 8, v3::paReplace);
            uint8_t *b = a3->getWritePtr(F3(y), 0); b[0] ^= 0xff;
            int e;
            if (a4->mapGetInt(a4->getFramePropertiesRO(x), "v", 0, &e) != 7 || a4->getReadPtr(x, 0)[0] != 1) FAIL("frame:copy", "changing a copy changed its source");
            if (a3->propGetInt(a3->getFramePropsRO(F3(y)), "v", 0, &e) != 8 || a3->propGetDataSize(a3->getFramePropsRO(F3(y)), "s", 0, &e) != 3) FAIL("frame:copy", "a copy lacks the properties");
            if (a4->mapGetDataTypeHint(a4->getFramePropertiesRO(y), "s", 0, &e) != dtUnknown) FAIL("frame:hint", "data set through API 3 has a type hint");
            const v3::VSFrameRef *ps[3] = { r.chance(50) ? F3(x) : nullptr, F3(y), F3(x) };
            int pl[3] = { 0, f.fam == cfGray ? 0 : 1, f.fam == cfGray ? 0 : 2 };
            if (f.fam != cfGray && f.fam != cfYUV && r.chance(50)) pl[1] = 2, pl[2] = 0;
            VSFrame *z = (VSFrame *)a3->newVideoFrame2(p, w, hh, ps, pl, F3(y), C3(core));
            for (int q = 0; q < p->numPlanes; q++) {
                if (!ps[q]) continue;
                for (int yy = 0; yy < a3->getFrameHeight(F3(z), q); yy++)
                    if (memcmp(a4->getReadPtr(z, q) + yy * a4->getStride(z, q), a3->getReadPtr(ps[q], pl[q]) + yy * a3->getStride(ps[q], pl[q]), (size_t)a3->getFrameWidth(F3(z), q) * p->bytesPerSample)) { FAIL("frame:planes", "plane %d of a frame made of other frames' planes differs in row %d", q, yy); break; }
            }
            if (a4->mapGetInt(a4->getFramePropertiesRO(z), "v", 0, &e) != 8) FAIL("frame:props", "the properties of the source frame are missing");
            const v3::VSFrameRef *zz = a3->cloneFrameRef(F3(z));
            if ((const void *)zz != (const void *)z) FAIL("frame:clone", "a clone is another frame");
            a3->freeFrame(zz); a4->freeFrame(z); a3->freeFrame(F3(y)); a4->freeFrame(x);
            count("frames");
        }
    }
    // other cores number their own formats, the presets are the same
    for (auto &q : PRE) if (!is3(a3->getFormatPreset(q.first, C3(other)), q.second)) FAIL("format:preset", "preset %d of a second core", q.first);
    hDistinct.insert(h);
    a3->freeCore(C3(core)); a4->freeCore(other);
}

// the same formats registered, looked up and read off shared frames by several threads
static void fmtThreads(Rng &r) {
    hist = "formats in several threads";
    VSCore *core = r.chance(50) ? (VSCore *)a3->createCore(2) : a4->createCore(ccfDisableAutoLoading);
    std::vector<Fm> fs;
    for (int n = r.range(4, 12); n > 0; n--) fs.push_back(rndFm(r, false));
    const int N = (int)fs.size(), T = r.range(2, 4);
    std::vector<const VSFrame *> fr(N);
    for (int i = 0; i < N; i++) {
        VSVideoFormat v; if (!a4->queryVideoFormat(&v, fs[i].fam, fs[i].st, fs[i].bits, fs[i].sw, fs[i].sh, core)) { FAIL("format:valid", "%s is refused", show(fs[i]).c_str()); fr[i] = nullptr; continue; }
        fr[i] = a4->newVideoFrame(&v, 64, 64, nullptr, core);
    }
    std::vector<std::vector<std::set<const v3::VSFormat *>>> got(T, std::vector<std::set<const v3::VSFormat *>>(N));
    std::atomic<int> go{0};
    uint64_t seed = r.next();
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        Rng z(mix(seed, t));
        go++; while (go < T) std::this_thread::yield();
        for (int i = 0; i < 24; i++) {
            int k = z.below(N); const Fm &f = fs[k];
            const v3::VSFormat *p = nullptr;
            switch (z.below(4)) {
            case 0: p = a3->registerFormat(fam3(f.fam), f.st, f.bits, f.sw, f.sh, C3(core)); break;
            case 1: p = a3->getFrameFormat((const v3::VSFrameRef *)fr[k]); break;
            case 2: p = a3->getFormatPreset((int)a4->queryVideoFormatID(f.fam, f.st, f.bits, f.sw, f.sh, core), C3(core)); break;
            default: { VSVideoInfo vi{}; vi.format = *a4->getVideoFrameFormat(fr[k]); vi.width = vi.height = 64; vi.numFrames = 1;
                VSNode *n = a4->createVideoFilter2("F", &vi, nullGet, nullptr, fmParallel, nullptr, 0, nullptr, core);
                p = a3->getVideoInfo(N3(n))->format; a4->freeNode(n); }
            }
            if (!is3(p, f)) { viol("format:threads", fmt("%s asked for by several threads is described as %s", show(f).c_str(), p ? p->name : "(none)")); continue; }
            got[t][k].insert(p);
            if (z.chance(40)) { VSFrame *x = (VSFrame *)a3->newVideoFrame(p, 64, 64, nullptr, C3(core)); if (!x || !same4(a4->getVideoFrameFormat(x), f)) viol("format:threads", fmt("a frame of %s has another format", show(f).c_str())); a4->freeFrame(x); }
            if (a3->getFormatPreset(p->id, C3(core)) != p) viol("format:threads", fmt("%s is not found by its id %d", show(f).c_str(), p->id));
            hEvals++;
        }
    });
    for (auto &t : th) t.join();
    std::map<std::string, std::set<const v3::VSFormat *>> all; std::map<int, std::string> ids;
    for (auto &g : got) for (int k = 0; k < N; k++) all[show(fs[k])].insert(g[k].begin(), g[k].end());
    for (auto &e : all) {
        if (e.second.size() > 1) FAIL("format:identity", "%s is %d different objects when several threads ask for it", e.first.c_str(), (int)e.second.size());
        for (auto p : e.second) { if (ids.count(p->id) && ids[p->id] != e.first) FAIL("format:id", "%s has the id %d of %s", e.first.c_str(), p->id, ids[p->id].c_str()); ids[p->id] = e.first; }
    }
    hDistinct.insert(seed); count("formats_from_threads", (int64_t)all.size());
    for (auto f : fr) a4->freeFrame(f);
    a4->freeCore(core);
}


// ------------------------------------------------------------------ maps
struct MV { int type; std::vector<int64_t> i; std::vector<double> d; std::vector<std::string> s; std::vector<int> hint; std::vector<const void *> o; size_t n() const { return type == ptInt ? i.size() : type == ptFloat ? d.size() : type == ptData ? s.size() : o.size(); } };
static void VS_CC nop4(const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}
static void mapCase(Rng &r) {
    VSCore *core = a4->createCore(ccfDisableAutoLoading);
    VSVideoInfo vi{}; a4->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, core); vi.width = vi.height = 8; vi.numFrames = 1;
    VSAudioInfo ai{}; a4->queryAudioFormat(&ai.format, stInteger, 16, 3, core); ai.sampleRate = 44100; ai.numSamples = 5000;
    VSNode *nodes[2] = { a4->createVideoFilter2("a", &vi, nullGet, nullptr, fmParallel, nullptr, 0, nullptr, core), a4->createVideoFilter2("b", &vi, nullGet, nullptr, fmParallel, nullptr, 0, nullptr, core) };
    VSNode *anode = a4->createAudioFilter2("x", &ai, nullGet, nullptr, fmParallel, nullptr, 0, nullptr, core);
    VSFrame *fr = a4->newVideoFrame(&vi.format, 8, 8, nullptr, core), *af = a4->newAudioFrame(&ai.format, 100, nullptr, core);
    VSFunction *fn = a4->createFunction(nop4, nullptr, nullptr, core);
    VSMap *m = r.chance(50) ? a4->createMap() : (VSMap *)a3->createMap();
    std::map<std::string, MV> mo; bool err = false;
    std::vector<std::string> keys = { "a", "b", "clip", "_Matrix", "q", "z0" };
    uint64_t h = 0; hist.clear();
    {   // the property that got a new name and meaning in API 4: 0 was full and 1 limited, now it's the other way around
        bool three = r.chance(70), setOld = r.chance(50); int64_t v = r.pick(std::vector<int64_t>{0, 1, 1, 0, 7}); int e, e2;
        const char *S = setOld ? "_ColorRange" : "_Range";
        hist = fmt("%s = %lld%s ", S, (long long)v, three ? "'" : "");
        auto fl = [](int64_t x) { return x == 0 ? 1 : x == 1 ? 0 : x; };
        int64_t nv = setOld ? fl(v) : v;
        if (three ? a3->propSetInt(M3(m), S, v, 0) : a4->mapSetInt(m, S, v, 0)) FAIL("range:set", "%s can't be set", S);
        for (const char *q : {"_Range", "_ColorRange"}) {
            int64_t w = q[1] == 'C' ? fl(nv) : nv;
            int64_t x3 = a3->propGetInt(M3(m), q, 0, &e), x4 = a4->mapGetInt(m, q, 0, &e2);
            if (e || e2 || x3 != w || x4 != w || a4->mapGetIntSaturated(m, q, 0, &e) != w) FAIL("range:value", "%s is %lld and %lld after %s = %lld", q, (long long)x3, (long long)x4, S, (long long)v);
            if (a3->propGetType(M3(m), q) != 'i' || a4->mapGetType(m, q) != ptInt || a3->propNumElements(M3(m), q) != 1 || a4->mapNumElements(m, q) != 1) FAIL("range:type", "%s has the type '%c' and %d elements after %s is set", q, a3->propGetType(M3(m), q), a3->propNumElements(M3(m), q), S);
        }
        if (a3->propNumKeys(M3(m)) != 1 || strcmp(a3->propGetKey(M3(m), 0), "_Range")) FAIL("range:key", "the key is %s", a3->propGetKey(M3(m), 0));
        a3->clearMap(M3(m));
        hEvals++;
    }
    int steps = r.range(10, 60);
    for (int st = 0; st < steps; st++) {
        hEvals++;
        std::string k = r.pick(keys); const char *K = k.c_str();
        int op = r.below(20); bool three = r.chance(60); int app = r.below(3);     // replace, append, touch
        if (op == 8 && !three) app = 0;
        if (!three && app == 2) app = 1;
        auto it = mo.find(k);
        hist += fmt("%d%s%d(%s) ", op, three ? "'" : "", app, K);
        h = mix(h, op * 8 + three * 4 + app);
        auto put = [&](int type, auto setv) -> int {        // what has to happen; returns the error result
            if (app == 0) { MV v{type}; setv(v); mo[k] = v; return 0; }
            if (it == mo.end()) { MV v{type}; if (app == 1) setv(v); mo[k] = v; return 0; }
            if (it->second.type != type) return 1;
            if (app == 1) setv(it->second);
            return 0;
        };
        int want = -1, got = -1; bool touched = app == 2 && it != mo.end();    // what touching an existing key returns is not judged
        if (op < 4) { int64_t v = r.chance(30) ? (int64_t)r.next() : r.range(-3, 3); want = put(ptInt, [&](MV &x) { x.i.push_back(v); }); got = three ? a3->propSetInt(M3(m), K, v, app) : a4->mapSetInt(m, K, v, app); }
        else if (op < 6) { double v = r.chance(20) ? INFINITY : r.range(-9, 9) / 4.0; want = put(ptFloat, [&](MV &x) { x.d.push_back(v); }); got = three ? a3->propSetFloat(M3(m), K, v, app) : a4->mapSetFloat(m, K, v, app); }
        else if (op < 9) {
            std::string v = r.chance(30) ? std::string("nul\0in", 6) : std::string(r.below(40), 'a' + r.below(3));
            int len = r.chance(50) ? (int)v.size() : -1; if (len < 0) v = v.c_str();
            int hint = three ? dtUnknown : r.pick(std::vector<int>{dtUtf8, dtBinary, dtUnknown});
            want = put(ptData, [&](MV &x) { x.s.push_back(v); x.hint.push_back(hint); }); got = three ? a3->propSetData(M3(m), K, v.c_str(), len, app) : a4->mapSetData(m, K, v.c_str(), len, hint, app); }
        else if (op < 11) { VSNode *v = nodes[r.below(2)]; want = put(ptVideoNode, [&](MV &x) { x.o.push_back(v); }); got = three ? a3->propSetNode(M3(m), K, N3(v), app) : a4->mapSetNode(m, K, v, app); }
        else if (op < 12) { app = app == 2 ? 1 : app; want = put(ptAudioNode, [&](MV &x) { x.o.push_back(anode); }); got = a4->mapSetNode(m, K, anode, app); }
        else if (op < 13) { want = put(ptVideoFrame, [&](MV &x) { x.o.push_back(fr); }); got = three ? a3->propSetFrame(M3(m), K, F3(fr), app) : a4->mapSetFrame(m, K, fr, app); }
        else if (op < 14) { app = app == 2 ? 1 : app; want = put(ptAudioFrame, [&](MV &x) { x.o.push_back(af); }); got = a4->mapSetFrame(m, K, af, app); }
        else if (op < 15) { want = put(ptFunction, [&](MV &x) { x.o.push_back(fn); }); got = three ? a3->propSetFunc(M3(m), K, U3(fn), app) : a4->mapSetFunction(m, K, fn, app); }
        else if (op < 16) { int n = r.range(1, 5); std::vector<int64_t> v; for (int i = 0; i < n; i++) v.push_back((int64_t)r.next()); mo[k] = MV{ptInt, v}; want = 0; got = three ? a3->propSetIntArray(M3(m), K, v.data(), n) : a4->mapSetIntArray(m, K, v.data(), n); }
        else if (op < 17) { int n = r.range(1, 5); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(r.range(-99, 99) / 8.0); mo[k] = MV{ptFloat, {}, v}; want = 0; got = three ? a3->propSetFloatArray(M3(m), K, v.data(), n) : a4->mapSetFloatArray(m, K, v.data(), n); }
        else if (op < 19) { bool had = mo.erase(k); int d = three ? a3->propDeleteKey(M3(m), K) : a4->mapDeleteKey(m, K); want = had; got = d; }
        else if (r.chance(30)) { if (three) a3->clearMap(M3(m)); else a4->clearMap(m); mo.clear(); err = false; }
        else if (r.chance(20)) { if (three) a3->setError(M3(m), "bad thing"); else a4->mapSetError(m, "bad thing"); err = true; mo.clear(); }
        if (want >= 0 && !err && !touched && got != want) FAIL("map:result", "operation %d on %s returned %d", op, K, got);
        if (err) {
            const char *t3 = a3->getError(M3(m)), *t4 = a4->mapGetError(m);
            if (!t3 || !t4 || strcmp(t3, "bad thing") || strcmp(t4, "bad thing")) FAIL("map:error", "the error text differs");
            if (three) a3->clearMap(M3(m)); else a4->clearMap(m);
            err = false; mo.clear();
            continue;
        }
        if (a3->getError(M3(m))) FAIL("map:error", "an error appeared");
        if (a3->propNumKeys(M3(m)) != (int)mo.size() || a4->mapNumKeys(m) != (int)mo.size()) FAIL("map:keys", "%d keys", a3->propNumKeys(M3(m)));
        for (int i = 0; i < a3->propNumKeys(M3(m)); i++) if (!mo.count(a3->propGetKey(M3(m), i)) || strcmp(a3->propGetKey(M3(m), i), a4->mapGetKey(m, i))) FAIL("map:keyname", "key %d", i);
        for (auto &kk : keys) {
            const char *Q = kk.c_str(); auto j = mo.find(kk);
            int t = j == mo.end() ? ptUnset : j->second.type, n = j == mo.end() ? -1 : (int)j->second.n();
            char t3 = t == ptInt ? 'i' : t == ptFloat ? 'f' : t == ptData ? 's' : t == ptVideoNode ? 'c' : t == ptVideoFrame ? 'v' : t == ptFunction ? 'm' : 'u';
            if (a3->propGetType(M3(m), Q) != t3) FAIL("map:type", "%s is '%c' through API 3, wants '%c'", Q, a3->propGetType(M3(m), Q), t3);
            if (a4->mapGetType(m, Q) != t) FAIL("map:type4", "%s", Q);
            if (a3->propNumElements(M3(m), Q) != n || a4->mapNumElements(m, Q) != n) FAIL("map:count", "%s has %d elements, wants %d", Q, a3->propNumElements(M3(m), Q), n);
            for (int q = 0; q <= (n < 0 ? 0 : n); q++) {
                int e;
                auto ex = [&](int a, int b = -1) { return t == ptUnset ? (int)v3::peUnset : q >= n ? (int)v3::peIndex : (t == a || t == b) ? 0 : (int)v3::peType; };
                int64_t iv = a3->propGetInt(M3(m), Q, q, (e = 77, &e)); if (e != ex(ptInt) || (!e && iv != j->second.i[q])) FAIL("map:int", "%s[%d]: error %d value %lld", Q, q, e, (long long)iv);
                double dv = a3->propGetFloat(M3(m), Q, q, (e = 77, &e)); if (e != ex(ptFloat) || (!e && dv != j->second.d[q])) FAIL("map:float", "%s[%d]: error %d", Q, q, e);
                const char *sv = a3->propGetData(M3(m), Q, q, (e = 77, &e)); int sz; int e2;
                sz = a3->propGetDataSize(M3(m), Q, q, (e2 = 77, &e2));
                if (e != ex(ptData) || e2 != e || (!e && (std::string(sv, sz) != j->second.s[q] || sv[sz]))) FAIL("map:data", "%s[%d]: error %d size %d", Q, q, e, sz);
                if (!e && a4->mapGetDataTypeHint(m, Q, q, &e2) != j->second.hint[q]) FAIL("map:hint", "%s[%d] has the hint %d, wants %d", Q, q, a4->mapGetDataTypeHint(m, Q, q, &e2), j->second.hint[q]);
                v3::VSNodeRef *nv = a3->propGetNode(M3(m), Q, q, (e = 77, &e)); if (e != ex(ptVideoNode, ptAudioNode) || (!e && nv != j->second.o[q])) FAIL("map:node", "%s[%d]: error %d", Q, q, e); if (nv) a3->freeNode(nv);
                const v3::VSFrameRef *fv = a3->propGetFrame(M3(m), Q, q, (e = 77, &e)); if (e != ex(ptVideoFrame, ptAudioFrame) || (!e && fv != j->second.o[q])) FAIL("map:frame", "%s[%d]: error %d", Q, q, e); if (fv) a3->freeFrame(fv);
                v3::VSFuncRef *uv = a3->propGetFunc(M3(m), Q, q, (e = 77, &e)); if (e != ex(ptFunction) || (!e && uv != j->second.o[q])) FAIL("map:func", "%s[%d]: error %d", Q, q, e); if (uv) a3->freeFunc(uv);
            }
            if (n > 0) {
                int e; const int64_t *ia = a3->propGetIntArray(M3(m), Q, &e); if ((t == ptInt) != (e == 0) || (!e && memcmp(ia, j->second.i.data(), n * 8))) FAIL("map:intarray", "%s", Q);
                const double *da = a3->propGetFloatArray(M3(m), Q, &e); if ((t == ptFloat) != (e == 0) || (!e && memcmp(da, j->second.d.data(), n * 8))) FAIL("map:floatarray", "%s", Q);
            }
        }
    }
    hDistinct.insert(h);
    if (r.chance(50)) a3->freeMap(M3(m)); else a4->freeMap(m);
    a4->freeFunction(fn); a4->freeFrame(fr); a4->freeFrame(af); a4->freeNode(nodes[0]); a4->freeNode(nodes[1]); a4->freeNode(anode);
    a4->freeCore(core);
}

// ------------------------------------------------------------------ the plugin, its functions and graphs of its filters
static void VS_CC add4(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *a) {
    int e; int64_t x = a->mapGetInt(in, "x", 0, &e);
    if (e) a->mapSetError(out, "add4: no x"); else a->mapSetInt(out, "val", x * 2 + (int64_t)(intptr_t)ud, maReplace);
}
static VSPlugin *loadOld(VSCore *core, const char *file) {
    VSPlugin *std_ = a4->getPluginByID(VSH_STD_PLUGIN_ID, core);
    VSMap *in = a4->createMap();
    a4->mapSetData(in, "path", (gDir + file).c_str(), -1, dtUtf8, maReplace);
    VSMap *out = a4->invoke(std_, "LoadPlugin", in);
    if (a4->mapGetError(out)) FAIL("load", "the API 3 plugin %s is not loaded: %s", file, a4->mapGetError(out));
    a4->freeMap(in); a4->freeMap(out);
    VSPlugin *p = a4->getPluginByNamespace("old3", core);
    if (p && ((VSPlugin *)a3->getPluginByNs("old3", C3(core)) != p || (VSPlugin *)a3->getPluginById("com.verif.old", C3(core)) != p || strcmp(a4->getPluginID(p), "com.verif.old"))) FAIL("load:lookup", "the plugin is not found the same way everywhere");
    return p;
}
static const std::map<std::string, std::string> SIG3 = {
    {"Source", "w:int;h:int;format:int;length:int;seed:int;mode:int:opt;flags:int:opt;failevery:int:opt;fpsnum:int:opt;fpsden:int:opt;long:int:opt;probe:int;"},
    {"Mix", "clips:clip[];mode:int:opt;flags:int:opt;k:int;offs:int[]:opt:empty;rounds:int:opt;early:int:opt;how:int:opt;failevery:int:opt;probe:int;"},
    {"Echo", "i:int[]:opt:empty;f:float[]:opt:empty;d:data[]:opt:empty;c:clip[]:opt:empty;v:frame[]:opt:empty;m:func[]:opt:empty;"},
    {"Call", "fn:func;x:int:opt;"}, {"MakeFn", "add:int;probe:int;"}, {"Invoke", "plugin:data;name:data;clip:clip:opt;x:int:opt;"}, {"Fetch", "clip:clip;n:int;"} };
static std::string conv(std::string s, const char *from, const char *to) {
    std::string o; size_t i = 0;
    while (i < s.size()) { size_t e = s.find(';', i); std::string p = s.substr(i, e - i + 1); i = e + 1; size_t c = p.find(':'); if (!p.compare(c + 1, strlen(from), from) && !isalpha(p[c + 1 + strlen(from)])) p = p.substr(0, c + 1) + to + p.substr(c + 1 + strlen(from)); o += p; }
    return o;
}
static std::string normOpt(std::string s) { // the order of the modifiers is free
    size_t p; while ((p = s.find(":empty:opt")) != std::string::npos) s.replace(p, 10, ":opt:empty"); return s;
}
static bool v3able(const std::string &args, const std::string &ret) {
    for (auto &s : { ";" + args, ret == "any" ? std::string() : ";" + ret }) { if (s.find(":anode") != std::string::npos || s.find(":aframe") != std::string::npos || s.find(";any") != std::string::npos) return false; }
    return true;
}
static void regCase(Rng &r) {
    VSCore *core = r.chance(50) ? (VSCore *)a3->createCore(1 + r.below(3)) : a4->createCore(ccfDisableAutoLoading);
    hist = "registry";
    VSPlugin *p = loadOld(core, r.chance(50) ? "old3.so" : "old3ro.so");
    if (!p) { a4->freeCore(core); return; }
    // the plugin list says the same through both
    VSMap *m = (VSMap *)a3->getPlugins(C3(core));
    std::multiset<std::string> want, got;
    for (VSPlugin *q = a4->getNextPlugin(nullptr, core); q; q = a4->getNextPlugin(q, core)) want.insert(std::string(a4->getPluginNamespace(q)) + ";" + a4->getPluginID(q) + ";" + a4->getPluginName(q));
    int e;
    for (int i = 0; i < a4->mapNumKeys(m); i++) { const char *k = a4->mapGetKey(m, i); got.insert(a3->propGetData(M3(m), k, 0, &e)); }
    if (want != got) FAIL("registry:plugins", "%d plugins through API 3, %d through API 4", (int)got.size(), (int)want.size());
    a3->freeMap(M3(m));
    std::set<std::string> fn;
    for (VSPlugin *q = a4->getNextPlugin(nullptr, core); q; q = a4->getNextPlugin(q, core)) {
        if (std::string(a3->getPluginPath(P3(q)) ? a3->getPluginPath(P3(q)) : "") != (a4->getPluginPath(q) ? a4->getPluginPath(q) : "")) FAIL("registry:path", "path");
        std::map<std::string, std::string> w, g;
        for (VSPluginFunction *f = a4->getNextPluginFunction(nullptr, q); f; f = a4->getNextPluginFunction(f, q)) {
            std::string n = a4->getPluginFunctionName(f), ar = a4->getPluginFunctionArguments(f), rt = a4->getPluginFunctionReturnType(f);
            hEvals++;
            if (q == p) { fn.insert(n); auto s = SIG3.find(n); if (s != SIG3.end() && (normOpt(ar) != conv(conv(s->second, "clip", "vnode"), "frame", "vframe") || rt != "any")) FAIL("registry:v4signature", "%s is shown as %s -> %s", n.c_str(), ar.c_str(), rt.c_str()); }
            if (v3able(ar, rt)) w[n] = n + ";" + normOpt(conv(conv(ar, "vnode", "clip"), "vframe", "frame"));
        }
        VSMap *fm = (VSMap *)a3->getFunctions(P3(q));
        for (int i = 0; i < a4->mapNumKeys(fm); i++) { std::string k = a4->mapGetKey(fm, i); g[k] = normOpt(a3->propGetData(M3(fm), k.c_str(), 0, &e)); if (g[k].size() && g[k].back() != ';') g[k] += ';'; }
        for (auto &x : w) if (x.second.back() != ';') x.second += ';';
        if (w != g) { std::string d; for (auto &x : w) if (!g.count(x.first) || g[x.first] != x.second) d += " wants " + x.second + " gets " + (g.count(x.first) ? g[x.first] : "nothing"); for (auto &x : g) if (!w.count(x.first)) d += " extra " + x.first; FAIL("registry:functions", "%s:%s", a4->getPluginNamespace(q), d.c_str()); }
        a4->freeMap(fm);
    }
    std::set<std::string> all; for (auto &s : SIG3) all.insert(s.first);
    if (fn != all) FAIL("registry:set", "the plugin has %d functions instead of %d", (int)fn.size(), (int)all.size());
    // Echo: every kind of value crosses the border unchanged in both directions
    VSVideoInfo vi{}; a4->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, core); vi.width = vi.height = 8; vi.numFrames = 1;
    VSAudioInfo ai{}; a4->queryAudioFormat(&ai.format, stInteger, 16, 3, core); ai.sampleRate = 44100; ai.numSamples = 5000;
    VSNode *vn = a4->createVideoFilter2("a", &vi, nullGet, nullptr, fmParallel, nullptr, 0, nullptr, core), *an = a4->createAudioFilter2("x", &ai, nullGet, nullptr, fmParallel, nullptr, 0, nullptr, core);
    VSFrame *fr = a4->newVideoFrame(&vi.format, 8, 8, nullptr, core); VSFunction *fu = a4->createFunction(add4, (void *)(intptr_t)5, nullptr, core);
    for (int rep = 0; rep < 4; rep++) {
        hEvals++;
        VSMap *in = a4->createMap(); bool bad = false; std::string keys;
        std::vector<std::pair<std::string, int>> used;
        hist = "echo";
        for (std::string k : { "i", "f", "d", "c", "v", "m" }) {
            int n = r.below(5) - 1; if (n < 0) continue;
            int type = k == "i" ? ptInt : k == "f" ? ptFloat : k == "d" ? ptData : k == "c" ? ptVideoNode : k == "v" ? ptVideoFrame : ptFunction;
            if (!n) a4->mapSetEmpty(in, k.c_str(), type);
            for (int j = 0; j < n; j++) {
                if (type == ptInt) a4->mapSetInt(in, "i", (int64_t)mix(rep, j), maAppend); else if (type == ptFloat) a4->mapSetFloat(in, "f", j * 1.25 - rep, maAppend);
                else if (type == ptData) a4->mapSetData(in, "d", "x\0y", 3, j % 2 ? dtBinary : dtUtf8, maAppend); else if (type == ptVideoNode) a4->mapSetNode(in, "c", vn, maAppend);
                else if (type == ptVideoFrame) a4->mapSetFrame(in, "v", fr, maAppend); else a4->mapSetFunction(in, "m", fu, maAppend);
            }
            used.push_back({k, n}); hist += " " + k + std::to_string(n);
        }
        if (r.chance(20)) { a4->mapDeleteKey(in, "c"); a4->mapSetNode(in, "c", an, maReplace); bad = true; }
        VSMap *out = r.chance(50) ? a4->invoke(p, "Echo", in) : (VSMap *)a3->invoke(P3(p), "Echo", M3(in));
        if (bad) { if (!a4->mapGetError(out)) FAIL("echo:audio", "an audio node went into an API 3 plugin"); }
        else if (a4->mapGetError(out)) FAIL("echo:error", "%s", a4->mapGetError(out));
        else {
            for (auto &u : used) keys += "";
            std::string ks = a4->mapGetData(out, "keys", 0, &e);
            for (auto &u : used) {
                std::string o = "o_" + u.first; char tc = u.first == "d" ? 's' : u.first[0];
                if (ks.find(u.first + ":" + tc + ":" + std::to_string(u.second) + ";") == std::string::npos) FAIL("echo:seen", "the plugin saw %s", ks.c_str());
                if (a4->mapNumElements(out, o.c_str()) != u.second || a4->mapGetType(out, o.c_str()) != a4->mapGetType(in, u.first.c_str())) FAIL("echo:shape", "%s came back as %d elements of type %d", u.first.c_str(), a4->mapNumElements(out, o.c_str()), a4->mapGetType(out, o.c_str()));
                else for (int j = 0; j < u.second; j++) {
                    bool ok = true;
                    if (u.first == "i") ok = a4->mapGetInt(out, "o_i", j, &e) == a4->mapGetInt(in, "i", j, &e); else if (u.first == "f") ok = a4->mapGetFloat(out, "o_f", j, &e) == a4->mapGetFloat(in, "f", j, &e);
                    else if (u.first == "d") ok = a4->mapGetDataSize(out, "o_d", j, &e) == 3 && !memcmp(a4->mapGetData(out, "o_d", j, &e), "x\0y", 4) && a4->mapGetDataTypeHint(out, "o_d", j, &e) == dtUnknown;
                    else if (u.first == "c") { VSNode *x = a4->mapGetNode(out, "o_c", j, &e); ok = x == vn; a4->freeNode(x); } else if (u.first == "v") { const VSFrame *x = a4->mapGetFrame(out, "o_v", j, &e); ok = x == fr; a4->freeFrame(x); }
                    else { VSFunction *x = a4->mapGetFunction(out, "o_m", j, &e); ok = x == fu; a4->freeFunction(x); }
                    if (!ok) FAIL("echo:value", "%s[%d] changed on its way", u.first.c_str(), j);
                }
            }
        }
        a4->freeMap(in); a4->freeMap(out);
        count("echoes");
    }
    // functions created on one side and called from the other
    Probe3 pr;
    {
        int64_t ad = r.range(-50, 50), x = r.range(-1000, 1000); hist = fmt("functions add %lld x %lld", (long long)ad, (long long)x);
        VSMap *in = a4->createMap(); a4->mapSetInt(in, "add", ad, maReplace); a4->mapSetInt(in, "probe", (int64_t)(intptr_t)&pr, maReplace);
        VSMap *o = a4->invoke(p, "MakeFn", in); VSFunction *f = a4->mapGetFunction(o, "fn", 0, &e);
        a4->freeMap(o); a4->clearMap(in);
        if (!f) FAIL("func:make", "no function");
        else {
            VSMap *i2 = a4->createMap(), *o2 = a4->createMap();
            a4->mapSetInt(i2, "x", x, maReplace); a4->callFunction(f, i2, o2);
            if (a4->mapGetError(o2) || a4->mapGetInt(o2, "val", 0, &e) != x + ad) FAIL("func:call", "an API 3 function called through API 4");
            a4->clearMap(o2); a4->clearMap(i2); a3->callFunc(U3(f), M3(i2), M3(o2), C3(core), a3);
            if (!a4->mapGetError(o2) || strcmp(a4->mapGetError(o2), "no x")) FAIL("func:error", "the error of a function is lost");
            a4->clearMap(o2); a4->mapSetNode(i2, "a", an, maReplace); int cb = pr.calls; a4->callFunction(f, i2, o2);
            if (!a4->mapGetError(o2) || pr.calls != cb) FAIL("func:audio", "an audio node went into an API 3 function");
            a4->freeMap(i2); a4->freeMap(o2);
            for (int which = 0; which < 2; which++) {
                a4->clearMap(in); a4->mapSetFunction(in, "fn", which ? fu : f, maReplace); bool no = r.chance(30); if (!no) a4->mapSetInt(in, "x", x, maReplace);
                VSMap *q = (VSMap *)a3->invoke(P3(p), "Call", M3(in));
                if (no ? !a4->mapGetError(q) || strcmp(a4->mapGetError(q), which ? "add4: no x" : "no x") : a4->mapGetError(q) || a4->mapGetInt(q, "val", 0, &e) != (which ? 2 * x + 5 : x + ad) + 1) FAIL("func:cross", "function %d called by the API 3 plugin", which);
                a4->freeMap(q);
            }
            a4->clearMap(in);
            if (pr.frees) FAIL("func:free", "a function was freed while in use");
            a4->freeFunction(f);
        }
        a4->freeMap(in);
        if (pr.frees != 1 || pr.late) FAIL("func:free", "a function was freed %d times", pr.frees.load());
        count("functions");
    }
    // an API 3 plugin calling functions of the core
    {
        VSMap *in = a4->createMap(); a4->mapSetData(in, "plugin", r.chance(50) ? "old3" : "com.verif.old", -1, dtUtf8, maReplace); 
        bool none = r.chance(30); a4->mapSetData(in, "name", none ? "Nothing" : "Fetch", -1, dtUtf8, maReplace); a4->mapSetNode(in, "clip", vn, maReplace);
        VSMap *o = a4->invoke(p, "Invoke", in);
        std::string er = a4->mapGetError(o) ? a4->mapGetError(o) : "";
        if (none ? er != "Function 'Nothing' not found in com.verif.old" : er != "Fetch: argument n is required") FAIL("invoke:error", "%s", er.c_str());
        a4->freeMap(o); a4->mapSetData(in, "plugin", "nope", -1, dtUtf8, maReplace); o = a4->invoke(p, "Invoke", in);
        if (!a4->mapGetError(o) || strcmp(a4->mapGetError(o), "no such plugin")) FAIL("invoke:noplugin", "an unknown plugin was found");
        a4->freeMap(o); a4->freeMap(in);
        in = a4->createMap(); a4->mapSetNode(in, "clip", vn, maReplace); a4->mapSetInt(in, "n", 0, maReplace); o = a4->invoke(p, "Fetch", in);
        if (!a4->mapGetError(o) || strcmp(a4->mapGetError(o), "unused")) FAIL("fetch:error", "%s", a4->mapGetError(o) ? a4->mapGetError(o) : "(none)");
        a4->freeMap(o); a4->mapSetInt(in, "n", 5, maReplace); o = a4->invoke(p, "Fetch", in);
        if (!a4->mapGetError(o) || strncmp(a4->mapGetError(o), "Invalid frame number 5 requeste", 31)) FAIL("fetch:range", "%s", a4->mapGetError(o) ? a4->mapGetError(o) : "(none)");
        a4->freeMap(o); a4->freeMap(in);
    }
    // core information
    {
        int hw = a3->setThreadCount(0, C3(core)), neg = -r.range(1, 100000);
        if (hw < 1 || a3->setThreadCount(neg, C3(core)) != hw || a4->setThreadCount(neg, core) != hw) FAIL("core:threads", "%d threads after asking for 0, %d after asking for %d", hw, a4->setThreadCount(neg, core), neg);
        if (r.chance(20)) { v3::VSCore *x = a3->createCore(neg); if (a3->getCoreInfo(x)->numThreads != hw) FAIL("core:threads", "%d threads in a core made with %d", a3->getCoreInfo(x)->numThreads, neg); a3->freeCore(x); }
        int t = r.range(1, 9); if (a3->setThreadCount(t, C3(core)) != t) FAIL("core:threads", "not %d threads", t);
        v3::VSCoreInfo ci; memset(&ci, 0, sizeof ci); a3->getCoreInfo2(C3(core), &ci); VSCoreInfo c4; a4->getCoreInfo(core, &c4); const v3::VSCoreInfo *co = a3->getCoreInfo(C3(core));
        if (ci.numThreads != t || c4.numThreads != t || co->numThreads != t || ci.core != c4.core || ci.api != c4.api || strcmp(ci.versionString, c4.versionString) || ci.maxFramebufferSize != c4.maxFramebufferSize || ci.usedFramebufferSize != c4.usedFramebufferSize || co->usedFramebufferSize != c4.usedFramebufferSize) FAIL("core:info", "%d threads, %d, %d", ci.numThreads, c4.numThreads, co->numThreads);
        int64_t lim = (int64_t)r.range(1, 4000) << 20; int64_t was = a3->setMaxCacheSize(0, C3(core));
        if (was != c4.maxFramebufferSize) FAIL("core:cachesize", "asking for the limit gives another one");
        a3->setMaxCacheSize(lim, C3(core)); a4->getCoreInfo(core, &c4);
        if (c4.maxFramebufferSize != lim) FAIL("core:cachesize", "the limit is %lld instead of %lld", (long long)c4.maxFramebufferSize, (long long)lim);
    }
    a4->freeNode(vn); a4->freeNode(an); a4->freeFrame(fr); a4->freeFunction(fu);
    a3->freeCore(C3(core));
    hDistinct.insert(r.next());
}

// graphs
struct Node { bool src = false, v4 = false; std::vector<int> c, off; int k = 0, how = 0, failEvery = 0, len = 0, mode = 0, rounds = 0, early = 0, flags = 0; uint64_t seed = 0; Fm f{}; int w = 0, h = 0; bool var = false; std::string name; VSNode *n = nullptr; Probe3 *p = nullptr; };
struct Exp { bool fail = false; std::set<std::string> msg; Fm f; int w = 0, h = 0; std::vector<std::vector<uint32_t>> pl; int64_t pn = 0; std::vector<int64_t> ks; std::string tag; };
struct Graph {
    std::vector<Node> v; std::map<std::pair<int, int>, std::shared_ptr<Exp>> memo;
    std::shared_ptr<Exp> eval(int i, int n) {
        auto &m = memo[{i, n}];
        if (m) return m;
        auto e = std::make_shared<Exp>();
        const Node &d = v[i];
        if (d.src) {
            if (d.failEvery > 0 && n % d.failEvery == d.failEvery - 1) { e->fail = true; e->msg.insert("src " + std::to_string(d.seed) + " frame " + std::to_string(n)); }
            else {
                e->f = d.f; e->w = d.w; e->h = d.h;
                if (d.var) { e->f = n % 2 ? Fm{cfGray, 0, 8, 0, 0} : Fm{cfYUV, 0, 8, 1, 1}; e->w = 16 + 4 * (n % 3); e->h = 16; }
                uint32_t mask = (e->f.st ? bytesFor(e->f.bits) * 8 : e->f.bits) >= 32 ? 0xffffffffu : (1u << (e->f.st ? bytesFor(e->f.bits) * 8 : e->f.bits)) - 1;
                for (int q = 0; q < (e->f.fam == cfGray ? 1 : 3); q++) {
                    int pw = q ? e->w >> e->f.sw : e->w, ph = q ? e->h >> e->f.sh : e->h; std::vector<uint32_t> x(pw * ph);
                    for (int y = 0; y < ph; y++) for (int z = 0; z < pw; z++) x[y * pw + z] = pix3(d.seed, n, q, y, z) & mask;
                    e->pl.push_back(x);
                }
                e->tag = "s" + std::to_string(d.seed);
            }
        } else {
            std::vector<std::shared_ptr<Exp>> s;
            for (size_t j = 0; j < d.c.size(); j++) { int q = n + d.off[j], L = v[d.c[j]].len; s.push_back(eval(d.c[j], q < 0 ? 0 : q >= L ? L - 1 : q)); }
            if (d.rounds && s[0]->fail) { e->fail = true; e->msg = s[0]->msg; }
            else for (auto &x : s) if (x->fail) { e->fail = true; e->msg.insert(x->msg.begin(), x->msg.end()); }
            if (!e->fail && d.failEvery > 0 && n % d.failEvery == d.failEvery - 1) { e->fail = true; e->msg.insert("mix " + std::to_string(d.k) + " frame " + std::to_string(n)); }
            if (!e->fail) {
                e->f = s[0]->f; e->w = s[0]->w; e->h = s[0]->h; e->tag = s[0]->tag; e->ks = s[0]->ks; e->ks.push_back(d.k);
                int bits = e->f.st ? bytesFor(e->f.bits) * 8 : e->f.bits; uint32_t mask = bits >= 32 ? 0xffffffffu : (1u << bits) - 1;
                for (size_t q = 0; q < s[0]->pl.size(); q++) {
                    if (d.how == 2 && q) { e->pl.push_back(q == 1 ? s[0]->pl[1] : s.back()->pl[2]); continue; }
                    std::vector<uint32_t> x(s[0]->pl[q].size(), (uint32_t)d.k);
                    for (size_t j = 0; j < s.size(); j++) for (size_t z = 0; z < x.size(); z++) x[z] += s[j]->pl[q][z] * (uint32_t)(2 * j + 1 + d.k);
                    for (auto &z : x) z &= mask;
                    e->pl.push_back(x);
                }
            }
        }
        e->pn = n;
        return memo[{i, n}] = e;
    }
};
static std::string compareFrame(const VSFrame *f, const Exp &e, VSCore *core) {
    const v3::VSFormat *p = a3->getFrameFormat(F3(f));
    if (!is3(p, e.f)) return std::string("format ") + (p ? p->name : "none");
    if (a3->getFrameWidth(F3(f), 0) != e.w || a3->getFrameHeight(F3(f), 0) != e.h) return "size";
    for (int q = 0; q < p->numPlanes; q++) {
        int pw = a3->getFrameWidth(F3(f), q), ph = a3->getFrameHeight(F3(f), q), st = a3->getStride(F3(f), q); const uint8_t *b = a3->getReadPtr(F3(f), q);
        for (int y = 0; y < ph; y++) for (int x = 0; x < pw; x++) {
            uint32_t g = p->bytesPerSample == 1 ? b[y * st + x] : p->bytesPerSample == 2 ? ((const uint16_t *)(b + y * st))[x] : ((const uint32_t *)(b + y * st))[x];
            if (g != e.pl[q][y * pw + x]) return fmt("plane %d (%d,%d) is %u instead of %u", q, x, y, g, e.pl[q][y * pw + x]);
        }
    }
    const VSMap *m = a4->getFramePropertiesRO(f); int er;
    if (a4->mapGetInt(m, "n", 0, &er) != e.pn || er) return "property n";
    if (std::string(a4->mapGetData(m, "tag", 0, &er)) != e.tag || a4->mapGetDataTypeHint(m, "tag", 0, &er) != dtUnknown) return "property tag";
    int nk = a3->propNumElements((const v3::VSMap *)m, "k");
    if (nk != (e.ks.empty() ? -1 : (int)e.ks.size())) return fmt("%d k properties instead of %d", nk, (int)e.ks.size());
    for (int i = 0; i < nk; i++) if (a3->propGetInt((const v3::VSMap *)m, "k", i, &er) != e.ks[i]) return "property k";
    if (a4->mapNumElements(m, "d") != 2) return "property d";
    return "";
}
// the same mixing filter through API 4
struct Mix4 { std::vector<VSNode *> c; std::vector<int> off, len; int k; };
static const VSFrame *VS_CC mix4Get(int n, int ar, void *d, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *a) {
    Mix4 *m = (Mix4 *)d;
    auto at = [&](size_t i) { int v = n + m->off[i]; return v < 0 ? 0 : v >= m->len[i] ? m->len[i] - 1 : v; };
    if (ar == arInitial) { for (size_t i = 0; i < m->c.size(); i++) a->requestFrameFilter(at(i), m->c[i], ctx); return nullptr; }
    if (ar != arAllFramesReady) return nullptr;
    std::vector<const VSFrame *> s; for (size_t i = 0; i < m->c.size(); i++) s.push_back(a->getFrameFilter(at(i), m->c[i], ctx));
    const VSVideoFormat *fi = a->getVideoFrameFormat(s[0]);
    VSFrame *o = a->newVideoFrame(fi, a->getFrameWidth(s[0], 0), a->getFrameHeight(s[0], 0), s[0], core);
    int bits = fi->sampleType ? fi->bytesPerSample * 8 : fi->bitsPerSample; uint32_t mask = bits >= 32 ? 0xffffffffu : (1u << bits) - 1;
    for (int q = 0; q < fi->numPlanes; q++)
        for (int y = 0; y < a->getFrameHeight(o, q); y++) for (int x = 0; x < a->getFrameWidth(o, q); x++) {
            uint32_t v = (uint32_t)m->k;
            for (size_t i = 0; i < s.size(); i++) { const uint8_t *b = a->getReadPtr(s[i], q) + y * a->getStride(s[i], q); v += (fi->bytesPerSample == 1 ? b[x] : fi->bytesPerSample == 2 ? ((const uint16_t *)b)[x] : ((const uint32_t *)b)[x]) * (uint32_t)(2 * i + 1 + m->k); }
            v &= mask; uint8_t *b = a->getWritePtr(o, q) + y * a->getStride(o, q);
            if (fi->bytesPerSample == 1) b[x] = (uint8_t)v; else if (fi->bytesPerSample == 2) ((uint16_t *)b)[x] = (uint16_t)v; else ((uint32_t *)b)[x] = v;
        }
    VSMap *pr = a->getFramePropertiesRW(o); a->mapSetInt(pr, "k", m->k, maAppend); a->mapSetInt(pr, "n", n, maReplace);
    for (auto f : s) a->freeFrame(f);
    return o;
}
static void VS_CC mix4Free(void *d, VSCore *, const VSAPI *a) { Mix4 *m = (Mix4 *)d; for (auto c : m->c) a->freeNode(c); delete m; }

struct Req { int node, n; std::atomic<int> done{0}; const VSFrame *f = nullptr; std::string err; bool noerr = true; VSNode *gotNode = nullptr; int gotN = -1; };
static void VS_CC done4(void *ud, const VSFrame *f, int n, VSNode *node, const char *err) { Req *q = (Req *)ud; q->f = f; if (err) q->err = err, q->noerr = false; q->gotNode = node; q->gotN = n; q->done++; }
static void VS_CC done3(void *ud, const v3::VSFrameRef *f, int n, v3::VSNodeRef *node, const char *err) { done4(ud, (const VSFrame *)f, n, (VSNode *)node, err); }

static void graphCase(Rng &r) {
    bool old = r.chance(40); int threads = r.range(1, 6);
    VSCore *core = old ? (VSCore *)a3->createCore(threads) : a4->createCore(ccfDisableAutoLoading | (r.chance(20) ? ccfEnableGraphInspection : 0));
    if (!old) a3->setThreadCount(threads, C3(core));
    hist = fmt("%d threads:", threads);
    VSPlugin *p = loadOld(core, "old3.so");
    if (!p) { a4->freeCore(core); return; }
    Graph g; std::vector<std::unique_ptr<Probe3>> probes;
    Fm f = rndFm(r, false); int w = r.range(1, 8) << f.sw, h = r.range(1, 6) << f.sh; bool errs = r.chance(35); bool var = r.chance(12);
    static const int MODES[] = { v3::fmParallel, v3::fmParallelRequests, v3::fmUnordered, v3::fmSerial };
    int nn = r.range(2, 9), ns = r.range(1, std::min(3, nn)); uint64_t shape = 0;
    bool ok = true;
    if (r.chance(25)) {     // filters that must not come into being
        hEvals++;
        Probe3 q; int how = r.below(6);
        VSMap *in = a4->createMap(); auto si = [&](const char *k, int64_t x) { a4->mapSetInt(in, k, x, maReplace); };
        si("w", 16); si("h", 16); si("format", v3::pfGray8); si("length", how == 2 ? 0 : 5); si("seed", 1); si("probe", (int64_t)(intptr_t)&q);
        if (how == 0) si("failevery", -1); if (how == 1) si("failevery", -2); if (how == 3) si("flags", 64); if (how == 4) si("flags", v3::nfIsCache); if (how == 5) { si("format", 12345); }
        VSMap *o = a4->invoke(p, "Source", in); int e;
        const char *er = a4->mapGetError(o);
        if (!er) FAIL("refuse", "a filter that has to be refused (%d) was created", how);
        else if (how == 0 && strcmp(er, "Source: refused in init")) FAIL("refuse:text", "%s", er);
        VSNode *x = a4->mapGetNode(o, "clip", 0, &e); if (x) { FAIL("refuse:node", "there is an error and a node (%d)", how); a4->freeNode(x); }
        if (q.calls) FAIL("refuse:called", "a refused filter was asked for frames");
        a4->freeMap(in); a4->freeMap(o); count("refused");
    }
    for (int i = 0; i < nn && ok; i++) {
        Node d; d.src = i < ns; d.mode = MODES[r.below(4)]; d.v4 = !d.src && r.chance(35);
        probes.push_back(std::make_unique<Probe3>()); d.p = probes.back().get();
        d.f = f; d.w = w; d.h = h; d.var = var;
        VSMap *in = a4->createMap();
        auto si = [&](const char *k, int64_t x) { a4->mapSetInt(in, k, x, maReplace); };
        d.flags = r.chance(30) ? v3::nfNoCache : r.chance(10) ? v3::nfNoCache | v3::nfIsCache : 0;
        if (d.src) {
            d.seed = r.below(1000000); d.len = r.range(1, 40); d.failEvery = errs && r.chance(50) ? r.range(2, 9) : 0;
            if (!d.failEvery && d.mode >= v3::fmUnordered && r.chance(40)) d.flags |= v3::nfMakeLinear;
            si("w", var ? 0 : w); si("h", var ? 0 : h); si("length", d.len); si("seed", (int64_t)d.seed); if (d.failEvery) si("failevery", d.failEvery);
            const v3::VSFormat *fp = a3->registerFormat(fam3(f.fam), f.st, f.bits, f.sw, f.sh, C3(core));
            si("format", var ? 0 : fp ? fp->id : -1); si("fpsnum", r.chance(50) ? 30000 : 25); si("fpsden", r.chance(50) ? 1001 : 1); if (r.chance(30)) si("long", 1);
            hist += fmt(" %d:src mode %d flags %d len %d fail %d;", i, d.mode, d.flags, d.len, d.failEvery);
        } else {
            int nc = r.range(1, 3);
            for (int j = 0; j < nc; j++) { d.c.push_back(r.below(i)); d.off.push_back(var ? 0 : r.chance(60) ? 0 : r.range(-3, 3)); if (var) { d.c.resize(1); d.off.resize(1); nc = 1; } }
            d.len = g.v[d.c[0]].len; d.k = r.range(1, 1000); d.how = d.v4 ? 0 : r.below(3); d.rounds = d.v4 ? 0 : r.below(2); d.early = r.below(2); d.failEvery = !d.v4 && errs && r.chance(25) ? r.range(2, 9) : 0;
            if (d.how == 2 && f.fam == cfGray) d.how = 0;
            if (d.how == 2 && var) d.how = 1;
            hist += fmt(" %d:%s mode %d flags %d how %d rounds %d of", i, d.v4 ? "mix4" : "mix3", d.mode, d.flags, d.how, d.rounds); for (size_t j = 0; j < d.c.size(); j++) hist += fmt(" %d%+d", d.c[j], d.off[j]); hist += ";";
            if (!d.v4) {
                for (auto c : d.c) a4->mapSetNode(in, "clips", g.v[c].n, maAppend);
                si("k", d.k); si("rounds", d.rounds); si("early", d.early); si("how", d.how); if (d.failEvery) si("failevery", d.failEvery);
                if (r.chance(80) || std::any_of(d.off.begin(), d.off.end(), [](int x) { return x != 0; })) for (auto o : d.off) a4->mapSetInt(in, "offs", o, maAppend);
            }
        }
        shape = mix(shape, d.mode * 10 + d.v4 * 2 + d.src + d.rounds * 100 + (d.c.empty() ? 0 : d.c[0] * 7));
        if (d.v4) {
            Mix4 *m = new Mix4; m->k = d.k; m->off = d.off; std::vector<VSFilterDependency> deps;
            for (auto c : d.c) { m->c.push_back(a4->addNodeRef(g.v[c].n)); m->len.push_back(a4->getVideoInfo(g.v[c].n)->numFrames); deps.push_back({g.v[c].n, rpGeneral}); }
            VSVideoInfo vi = *a4->getVideoInfo(g.v[d.c[0]].n);
            d.n = a4->createVideoFilter2("Mix4", &vi, mix4Get, mix4Free, r.chance(50) ? fmParallel : fmUnordered, deps.data(), (int)deps.size(), m, core);
            d.p->frees = 1;
        } else {
            si("mode", d.mode); si("flags", d.flags); si("probe", (int64_t)(intptr_t)d.p);
            VSMap *o = r.chance(50) ? a4->invoke(p, d.src ? "Source" : "Mix", in) : (VSMap *)a3->invoke(P3(p), d.src ? "Source" : "Mix", M3(in)); int e;
            if (a4->mapGetError(o)) { FAIL("create", "%s: %s", var ? "clip of variable format" : "clip", a4->mapGetError(o)); ok = false; }
            d.n = a4->mapGetNode(o, "clip", 0, &e); if (a4->mapNumElements(o, "clip") > 1) FAIL("create:count", "more than one clip");
            a4->freeMap(o);
        }
        a4->freeMap(in);
        if (!d.n) { ok = false; break; }
        const VSVideoInfo *vi = a4->getVideoInfo(d.n); const v3::VSVideoInfo *w3 = a3->getVideoInfo(N3(d.n));
        if (vi->numFrames != d.len || vi->width != (var ? 0 : w) || vi->height != (var ? 0 : h) || (var ? vi->format.colorFamily != cfUndefined : !same4(&vi->format, f))) FAIL("node:info4", "node %d", i);
        if (w3->numFrames != vi->numFrames || w3->width != vi->width || w3->height != vi->height || w3->fpsNum != vi->fpsNum || w3->fpsDen != vi->fpsDen || (var ? w3->format != nullptr : !is3(w3->format, f))) FAIL("node:info3", "node %d", i);
        static const int M4[] = { fmParallel, fmParallelRequests, fmUnordered, fmFrameState };
        if (!d.v4) for (int j = 0; j < 4; j++) if (MODES[j] == d.mode && a4->getNodeFilterMode(d.n) != M4[j]) FAIL("node:mode", "node %d has mode %d for API 3 mode %d", i, a4->getNodeFilterMode(d.n), d.mode);
        if (!d.src) { if (a4->getNumNodeDependencies(d.n) != (int)d.c.size()) FAIL("node:deps", "node %d has %d dependencies instead of %d", i, a4->getNumNodeDependencies(d.n), (int)d.c.size()); }
        g.v.push_back(d);
    }
    if (ok) {
        std::vector<std::unique_ptr<Req>> rq; int nr = r.range(5, 60);
        for (int i = 0; i < nr; i++) { rq.push_back(std::make_unique<Req>()); rq[i]->node = r.chance(60) ? nn - 1 : r.below(nn); rq[i]->n = r.chance(50) ? i % g.v[rq[i]->node].len : r.below(g.v[rq[i]->node].len); }
        for (auto &q : rq) g.eval(q->node, q->n);
        for (auto &q : rq) {
            VSNode *nd = g.v[q->node].n;
            if (r.chance(10)) {
                char b[100]; memset(b, 'q', sizeof b); int sz = r.range(1, 90);
                const VSFrame *x = r.chance(50) ? (const VSFrame *)a3->getFrame(q->n, N3(nd), b, sz) : a4->getFrame(q->n, nd, b, sz);
                q->f = x; q->gotNode = nd; q->gotN = q->n;
                if (!x) {
                    q->noerr = false;
                    bool pre = false; if (memchr(b, 0, sz)) for (auto &m : g.eval(q->node, q->n)->msg) if (m.substr(0, sz - 1) == b) { pre = true; q->err = m; }
                    if (!pre || b[sz] != 'q') FAIL("getframe:message", "the message in a buffer of %d bytes", sz);
                }
                q->done++;
            } else if (r.chance(60)) a3->getFrameAsync(q->n, N3(nd), done3, q.get());
            else a4->getFrameAsync(q->n, nd, done4, q.get());
        }
        auto t0 = std::chrono::steady_clock::now();
        for (auto &q : rq) while (!q->done) { usleep(200); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(80)) { hLine("SKIP stalled"); pause(); } }
        for (auto &q : rq) {
            hEvals++;
            auto e = g.eval(q->node, q->n);
            if (q->gotN != q->n || q->gotNode != g.v[q->node].n) FAIL("callback:args", "frame %d of node %d was answered as frame %d", q->n, q->node, q->gotN);
            if (e->fail) {
                count("failed_frames");
                if (q->f) FAIL("frame:noerror", "frame %d of node %d has to fail", q->n, q->node);
                else if (!e->msg.count(q->err)) FAIL("frame:message", "frame %d of node %d failed with '%s'", q->n, q->node, q->err.c_str());
            } else if (!q->f) FAIL("frame:failed", "frame %d of node %d failed: %s", q->n, q->node, q->err.c_str());
            else { std::string d = compareFrame(q->f, *e, core); if (!d.empty()) FAIL("frame:content", "frame %d of node %d: %s", q->n, q->node, d.c_str()); if (!q->noerr) FAIL("frame:message", "a message comes with a frame"); count("compared_frames"); }
            a3->freeFrame(F3(q->f));
        }
    }
    std::vector<int> order; for (size_t i = 0; i < g.v.size(); i++) order.push_back((int)i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below((int)i)]);
    bool coreFirst = false;     // the API demands that everything is released before the core
    if (coreFirst) a3->freeCore(C3(core));
    for (int i : order) if (r.chance(50)) a3->freeNode(N3(g.v[i].n)); else a4->freeNode(g.v[i].n);
    if (!coreFirst) a3->freeCore(C3(core));
    for (size_t i = 0; i < g.v.size(); i++) {
        const Node &d = g.v[i]; Probe3 &q = *d.p;
        auto t0 = std::chrono::steady_clock::now();
        while (!q.frees && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(10)) usleep(1000);
        if (d.v4) continue;
        count("filter_calls", q.calls);
        if (q.frees != 1) FAIL("free", "node %d was freed %d times", (int)i, q.frees.load());
        if (q.late) FAIL("late", "node %d was called after it was freed", (int)i);
        if (q.badReason) FAIL("reason", "node %d was called for an unknown reason", (int)i);
        if (q.badData) FAIL("data", "node %d found wrong frame data, missing frames or changed arguments", (int)i);
        if (q.badFormat) FAIL("formatptr", "node %d saw a frame whose format is not that of its clip", (int)i);
        if (q.inside || q.busy) FAIL("unfinished", "node %d has unfinished frames", (int)i);
        if ((d.mode == v3::fmUnordered || d.mode == v3::fmSerial) && q.maxInside > 1) FAIL("mode:serial", "node %d with mode %d ran %d times at the same moment", (int)i, d.mode, q.maxInside.load());
        if (d.mode == v3::fmSerial && q.maxBusy > 1) FAIL("mode:framestate", "node %d worked on %d frames at the same time", (int)i, q.maxBusy.load());
        if (d.mode == v3::fmParallelRequests && q.maxReady > 1) FAIL("mode:requests", "node %d produced %d frames at the same moment", (int)i, q.maxReady.load());
        if (q.maxInside > 1) count("parallel_filters");
    }
    hDistinct.insert(shape);
}

// ------------------------------------------------------------------ messages
struct LH { int id = -1; std::vector<std::pair<int, std::string>> got, want; int frees = 0; };
static void VS_CC on3(int t, const char *m, void *ud) { if (!strncmp(m, "msg ", 4)) ((LH *)ud)->got.push_back({t, m}); }
static void VS_CC fr3(void *ud) { ((LH *)ud)->frees++; }
static void logCase(Rng &r) {
    VSCore *core = a4->createCore(ccfDisableAutoLoading);
    std::vector<std::unique_ptr<LH>> all; std::vector<LH *> live; LH *glob = nullptr; std::set<int> usedIds; int seq = 0; uint64_t h = 0;
    hist.clear();
    int steps = r.range(10, 60);
    for (int i = 0; i < steps; i++) {
        hEvals++;
        int op = r.below(10); h = mix(h, op); hist += std::to_string(op) + " ";
        if (op < 2 && live.size() < 8) { all.push_back(std::make_unique<LH>()); LH *l = all.back().get(); l->id = a3->addMessageHandler(on3, fr3, l); if (!usedIds.insert(l->id).second) FAIL("log:id", "the id %d was given out twice", l->id); live.push_back(l); }
        else if (op == 2 && !live.empty()) { int k = r.below((int)live.size()); if (!a3->removeMessageHandler(live[k]->id)) FAIL("log:remove", "a handler could not be removed"); if (live[k]->frees != 1) FAIL("log:free", "removed and freed %d times", live[k]->frees); if (a3->removeMessageHandler(live[k]->id)) FAIL("log:twice", "a handler was removed twice"); live.erase(live.begin() + k); }
        else if (op == 3) { if (r.chance(50)) { all.push_back(std::make_unique<LH>()); glob = all.back().get(); a3->setMessageHandler(on3, glob); } else { a3->setMessageHandler(nullptr, nullptr); glob = nullptr; } }
        else {
            std::string m = fmt("msg %d %%s%%n", seq++) + std::string(r.chance(10) ? 3000 : r.below(20), 'x'); int t, t3;
            if (r.chance(50)) { t3 = t = r.below(3); a3->logMessage(t, m.c_str()); }
            else { t = r.below(4); t3 = t == mtDebug ? 0 : t == mtCritical ? 2 : 1; a4->logMessage(t, m.c_str(), core); }
            for (auto l : live) l->want.push_back({t3, m});
            if (glob) glob->want.push_back({t3, m});
            count("messages");
        }
        for (auto &l : all) if (l->got != l->want) { FAIL("log:delivery", "a handler got %d messages instead of %d", (int)l->got.size(), (int)l->want.size()); l->want = l->got; }
    }
    a3->setMessageHandler(nullptr, nullptr);
    for (auto l : live) if (!a3->removeMessageHandler(l->id)) FAIL("log:remove", "a handler could not be removed");
    for (auto &l : all) if (l->frees > 1) FAIL("log:free", "a handler was freed %d times", l->frees);
    hDistinct.insert(h);
    a4->freeCore(core);
}

int main(int argc, char **argv) {
    Args ar(argc, argv);
    { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string s(b, n > 0 ? n : 0); gDir = s.substr(0, s.rfind('/')) + "/plug3/"; }
    a4 = ::getVapourSynthAPI(A4); a3 = (const v3::VSAPI *)::getVapourSynthAPI(3);
    if (!a4) a4 = api();
    if (!a3 || (const v3::VSAPI *)::getVapourSynthAPI(VAPOURSYNTH3_API_VERSION) != a3) { viol("noapi", "the core offers no API 3"); hDone(); return 0; }
    if (::getVapourSynthAPI((3 << 16) | 7) || ::getVapourSynthAPI(5) || ::getVapourSynthAPI(2) || ::getVapourSynthAPI(5 << 16)) viol("apiversion", "an API version that does not exist is offered");
    int only = ar.geti("what", -1);
    for (int k = ar.from; k < ar.to; k++) {
        hLine(fmt("CASE %d", k));
        Rng r(mix(ar.seed, k));
        int w = only >= 0 ? only : k % 10;
        if (w < 1) { if (k / 10 % 3 == 1) fmtThreads(r); else fmtCase(r); } else if (w < 2) mapCase(r); else if (w < 3) regCase(r); else if (w < 4) logCase(r); else graphCase(r);
    }
    hDone();
    return 0;
}
