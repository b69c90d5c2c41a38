// Sweep of the format parameter space against an independent model, and clip descriptions around
// the boundary of what is valid.
#include "hcommon.h"
#include <numeric>
#ifndef VS_MAKE_VIDEO_ID
#define VS_MAKE_VIDEO_ID(colorFamily, sampleType, bitsPerSample, subSamplingW, subSamplingH) (((uint32_t)(colorFamily) << 28) | ((uint32_t)(sampleType) << 24) | ((bitsPerSample) << 16) | ((subSamplingW) << 8) | ((subSamplingH) << 0))
#endif

static VSCore *core;
static bool okVideo(int fam, int st, int bits, int sw, int sh) {
    bool f = fam == cfGray || fam == cfRGB || fam == cfYUV;
    bool b = st == stInteger ? bits >= 8 && bits <= 32 : st == stFloat ? bits == 16 || bits == 32 : false;
    bool s = fam == cfYUV ? sw >= 0 && sw <= 4 && sh >= 0 && sh <= 4 : sw == 0 && sh == 0;
    return f && b && s;
}
static std::string videoName(int fam, int st, int bits, int sw, int sh) {
    std::string suf = st == stFloat ? (bits == 32 ? "S" : "H") : std::to_string(fam == cfRGB ? 3 * bits : bits);
    if (fam == cfGray) return "Gray" + suf;
    if (fam == cfRGB) return "RGB" + suf;
    std::map<std::pair<int, int>, std::string> n = {{{0, 0}, "444"}, {{1, 0}, "422"}, {{1, 1}, "420"}, {{2, 2}, "410"}, {{2, 0}, "411"}, {{0, 1}, "440"}};
    if (n.count({sw, sh})) return "YUV" + n[{sw, sh}] + "P" + suf;
    return fmt("YUVssw%dssh%dP%s", sw, sh, suf.c_str());
}
static int bytesFor(int bits) { return bits <= 8 ? 1 : bits <= 16 ? 2 : 4; }
static bool is(const VSVideoFormat &f, int fam, int st, int bits, int sw, int sh) {
    return f.colorFamily == fam && f.sampleType == st && f.bitsPerSample == bits && f.bytesPerSample == bytesFor(bits) && f.subSamplingW == sw && f.subSamplingH == sh && f.numPlanes == (fam == cfGray ? 1 : 3);
}
static std::map<std::string, uint32_t> names;

static void oneVideo(int fam, int st, int bits, int sw, int sh) {
    auto a = api();
    hEvals++;
    std::string d = fmt("family %d, sample type %d, %d bits, subsampling %d,%d", fam, st, bits, sw, sh);
    bool want = okVideo(fam, st, bits, sw, sh);
    VSVideoFormat f; memset(&f, 0xAB, sizeof f);
    int got = a->queryVideoFormat(&f, fam, st, bits, sw, sh, core);
    if (fam != cfUndefined) {
        if (!!got != want) return viol("video:valid", d + (got ? " is accepted" : " is refused"));
        if (want && !is(f, fam, st, bits, sw, sh)) return viol("video:fields", d + " gives wrong fields");
    }
    uint32_t id = a->queryVideoFormatID(fam, st, bits, sw, sh, core);
    if (fam == cfUndefined) { if (id) viol("video:id", d + " has an ID"); return; }
    if (!!id != want) return viol("video:id", d + fmt(" has ID %08x", id));
    if (!want) return;
    if (id != (uint32_t)VS_MAKE_VIDEO_ID(fam, st, bits, sw, sh)) viol("video:id", d + fmt(" has ID %08x", id));
    VSVideoFormat g; memset(&g, 0xCD, sizeof g);
    if (!a->getVideoFormatByID(&g, id, core) || !is(g, fam, st, bits, sw, sh)) viol("video:roundtrip", d + " does not come back from its ID");
    char buf[64]; memset(buf, 'x', sizeof buf);
    if (!a->getVideoFormatName(&f, buf)) return viol("video:name", d + " has no name");
    if (!memchr(buf, 0, 32) || buf[32] != 'x') viol("video:name", d + " has a name of more than 32 characters");
    if (videoName(fam, st, bits, sw, sh) != buf) viol("video:name", d + " is named " + buf);
    auto it = names.find(buf);
    if (it != names.end() && it->second != id) viol("video:dupname", d + " shares its name " + buf);
    names[buf] = id;
    hDistinct.insert(id);
    count("valid_video_formats");
}
static void oneAudio(int st, int bits, uint64_t layout) {
    auto a = api();
    hEvals++;
    std::string d = fmt("sample type %d, %d bits, layout %llx", st, bits, (unsigned long long)layout);
    bool want = layout && (st == stInteger ? bits >= 16 && bits <= 32 : st == stFloat && bits == 32);
    VSAudioFormat f; memset(&f, 0xAB, sizeof f);
    int got = a->queryAudioFormat(&f, st, bits, layout, core);
    if (!!got != want) return viol("audio:valid", d + (got ? " is accepted" : " is refused"));
    if (!want) return;
    int ch = 0; for (int i = 0; i < 64; i++) if (layout >> i & 1) ch++;
    if (f.sampleType != st || f.bitsPerSample != bits || f.channelLayout != layout || f.numChannels != ch || f.bytesPerSample != bytesFor(bits)) return viol("audio:fields", d + " gives wrong fields");
    char buf[64]; memset(buf, 'x', sizeof buf);
    if (!a->getAudioFormatName(&f, buf) || !memchr(buf, 0, 32)) return viol("audio:name", d + " has no proper name");
    std::string w = fmt("Audio%d%s (%d CH)", bits, st == stFloat ? "F" : "", ch);
    if (w != buf) viol("audio:name", d + " is named " + buf);
    hDistinct.insert(mix(layout, st * 64 + bits));
}
static const VSFrame *VS_CC gf(int, int, void *, void **, VSFrameContext *ctx, VSCore *, const VSAPI *a) { a->setFilterError("none", ctx); return nullptr; }
static int frees;
static void VS_CC fr(void *, VSCore *, const VSAPI *) { frees++; }

static void infos(Rng &r) {
    auto a = api();
    hEvals++;
    bool valid = true; std::string why = "valid";
    auto bad = [&](const char *s) { valid = false; why = s; };
    if (r.chance(70)) {
        VSVideoInfo vi{};
        int fam = r.pick(std::vector<int>{cfGray, cfRGB, cfYUV}), st = r.below(2);
        int bits = st ? (r.chance(50) ? 16 : 32) : r.range(8, 32), sw = fam == cfYUV ? r.below(5) : 0, sh = fam == cfYUV ? r.below(5) : 0;
        a->queryVideoFormat(&vi.format, fam, st, bits, sw, sh, core);
        vi.width = r.range(1, 4000) << sw; vi.height = r.range(1, 3000) << sh; vi.numFrames = r.range(1, INT32_MAX);
        int64_t n = r.range(1, 200000), d = r.range(1, 3000), g = std::gcd(n, d);
        vi.fpsNum = n / g; vi.fpsDen = d / g;
        if (r.chance(15)) vi.fpsNum = vi.fpsDen = 0;
        if (r.chance(10)) vi.width = vi.height = 0;
        if (r.chance(10)) vi.format = {};
        switch (r.below(24)) {
            case 0: vi.numFrames = r.chance(50) ? 0 : -r.range(1, 100); bad("frame count"); break;
            case 1: if (vi.width) { vi.width = 0; bad("one dimension only"); } break;
            case 2: if (vi.width) { vi.height = 0; bad("one dimension only"); } break;
            case 3: vi.width = -vi.width; if (vi.width) bad("negative width"); break;
            case 4: vi.height = -vi.height; if (vi.height) bad("negative height"); break;
            case 5: if (vi.fpsNum) { vi.fpsNum *= 2; vi.fpsDen *= 2; bad("unreduced rate"); } break;
            case 6: if (vi.fpsNum) { vi.fpsNum = -vi.fpsNum; bad("negative rate"); } break;
            case 7: if (vi.fpsNum) { vi.fpsDen = -vi.fpsDen; bad("negative rate"); } break;
            case 8: if (vi.format.colorFamily) { vi.format.bytesPerSample = vi.format.bytesPerSample == 4 ? 2 : 4; bad("bytes per sample"); } break;
            case 9: if (vi.format.colorFamily) { vi.format.numPlanes = r.pick(std::vector<int>{0, 2, 4}); bad("planes"); } break;
            case 10: if (vi.format.colorFamily) { vi.format.bitsPerSample = r.pick(std::vector<int>{-1, 0, 7, 33, 64}); bad("bits"); } break;
            case 11: if (vi.format.colorFamily) { vi.format.subSamplingW = r.pick(std::vector<int>{-1, 5, 31}); bad("subsampling"); } break;
            case 12: if (vi.format.colorFamily) { vi.format.sampleType = r.pick(std::vector<int>{-1, 2, 7}); bad("sample type"); } break;
            case 13: if (vi.format.colorFamily) { vi.format.colorFamily = r.pick(std::vector<int>{-1, 4, 5, 9, 17}); bad("family"); } break;
            case 14: if (vi.format.colorFamily == cfGray || vi.format.colorFamily == cfRGB) { vi.format.subSamplingH = 1; bad("subsampled RGB or gray"); } break;
            case 15: if (vi.format.colorFamily) { vi.format.numPlanes = 4 - vi.format.numPlanes; bad("planes"); } break;
            case 16: if (vi.format.colorFamily && vi.format.sampleType == stFloat) { vi.format.bitsPerSample = 24; vi.format.bytesPerSample = 4; bad("24 bit float"); } break;
        }
        frees = 0;
        VSNode *node = nullptr;
        if (r.chance(50)) node = a->createVideoFilter2("x", &vi, gf, fr, fmParallel, nullptr, 0, nullptr, core);
        else {
            VSMap *m = a->createMap();
            a->createVideoFilter(m, "x", &vi, gf, fr, fmParallel, nullptr, 0, nullptr, core);
            int err = 0; node = a->mapGetNode(m, "clip", 0, &err);
            if (!!a->mapGetError(m) == !!node) viol("info:error", "a refused clip description gives no error");
            a->freeMap(m);
        }
        if (!!node != valid) viol(node ? "info:accepted" : "info:refused", fmt("a video clip description (%s) was %s", why.c_str(), node ? "accepted" : "refused"));
        if (node) {
            const VSVideoInfo *v = a->getVideoInfo(node);
            if (v->width != vi.width || v->height != vi.height || v->fpsNum != vi.fpsNum || v->fpsDen != vi.fpsDen || v->numFrames != vi.numFrames || memcmp(&v->format, &vi.format, sizeof vi.format)) viol("info:changed", "a clip description was changed");
            a->freeNode(node);
            if (frees != 1) viol("info:free", fmt("the free callback ran %d times", frees));
        } else if (frees) viol("info:free", "the free callback of a filter that was never created ran");
        hDistinct.insert(mix(fam * 8 + st, mix(bits, valid)));
    } else {
        VSAudioInfo ai{};
        int st = r.below(2), bits = st ? 32 : r.range(16, 32);
        a->queryAudioFormat(&ai.format, st, bits, r.next() | 1, core);
        ai.sampleRate = r.range(1, 400000);
        const int64_t maxN = (int64_t)INT32_MAX * VS_AUDIO_FRAME_SAMPLES;
        ai.numSamples = r.chance(30) ? maxN - r.below(VS_AUDIO_FRAME_SAMPLES + 10) : 1 + (int64_t)(r.next() % (r.chance(50) ? 100000 : maxN));
        if (ai.numSamples > maxN) ai.numSamples = maxN;
        ai.numFrames = r.below(100) - 50;
        switch (r.below(16)) {
            case 0: ai.numSamples = -r.below(5); bad("samples"); break;
            case 1: ai.sampleRate = -r.below(5); bad("rate"); break;
            case 2: ai.format.numChannels += r.chance(50) ? 1 : -1; bad("channels"); break;
            case 3: ai.format.channelLayout = 0; bad("layout"); break;
            case 4: ai.format.bytesPerSample = 3; bad("bytes"); break;
            case 5: ai.numSamples = maxN + 1 + r.below(100000); bad("too many samples"); break;
            case 6: ai.format.bitsPerSample = r.pick(std::vector<int>{8, 15, 33}); bad("bits"); break;
            case 7: ai.format.sampleType = 2; bad("type"); break;
            case 8: if (st) { ai.format.bitsPerSample = 24; bad("24 bit float"); } break;
        }
        frees = 0;
        VSNode *node = a->createAudioFilter2("x", &ai, gf, fr, fmParallel, nullptr, 0, nullptr, core);
        if (!!node != valid) viol(node ? "ainfo:accepted" : "ainfo:refused", fmt("an audio clip description (%s) was %s", why.c_str(), node ? "accepted" : "refused"));
        if (node) {
            const VSAudioInfo *v = a->getAudioInfo(node);
            int64_t nf = (ai.numSamples + VS_AUDIO_FRAME_SAMPLES - 1) / VS_AUDIO_FRAME_SAMPLES;
            if (v->numSamples != ai.numSamples || v->sampleRate != ai.sampleRate || memcmp(&v->format, &ai.format, sizeof ai.format)) viol("ainfo:changed", "a clip description was changed");
            if (v->numFrames != nf) viol("ainfo:frames", fmt("%lld samples make %d frames instead of %lld", (long long)ai.numSamples, v->numFrames, (long long)nf));
            a->freeNode(node);
            if (frees != 1) viol("ainfo:free", fmt("the free callback ran %d times", frees));
        } else if (frees) viol("ainfo:free", "the free callback of a filter that was never created ran");
        hDistinct.insert(mix(99 + st, mix(bits, valid)));
    }
    count("clip_descriptions");
}

int main(int argc, char **argv) {
    Args ar(argc, argv);
    core = api()->createCore(ccfDisableAutoLoading);
    static const std::vector<int> fams = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 19, 256 + 1, 1 << 28, INT32_MAX, INT32_MIN};
    static const std::vector<int> sts = {-1, 0, 1, 2, 3, 15, 16, 17, INT32_MAX, INT32_MIN};
    static const std::vector<int> subs = {-257, -1, 0, 1, 2, 3, 4, 5, 6, 8, 255, 256, 257, INT32_MAX, INT32_MIN};
    for (int k = ar.from; k < ar.to; k++) {
        hLine(fmt("CASE %d", k));
        Rng r(mix(mix(ar.seed, 0xF37), k));
        if (k < 80) {                // cases 0..79: one slice of the bit depths each
            int bits = k - 5;
            for (int fam : fams) for (int st : sts) for (int sw : subs) for (int sh : subs) oneVideo(fam, st, bits, sw, sh);
            for (int st : sts) for (int i = 0; i < 200; i++) oneAudio(st, bits, i < 64 ? 1ull << i : i < 128 ? (1ull << (i - 64)) - 1 : i == 199 ? 0 : r.next());
        } else {
            for (int i = 0; i < 2000; i++) oneVideo((int)r.next(), (int)r.next() & (r.chance(50) ? 1 : -1), r.chance(50) ? (int)r.next() : r.range(8, 32) + (256 << r.below(8)), r.chance(50) ? (int)r.next() : r.below(5), r.chance(50) ? (int)r.next() : r.below(5));
            // arbitrary IDs: what is accepted encodes back to itself
            for (int i = 0; i < 4000; i++) {
                hEvals++;
                uint32_t id = (uint32_t)r.next();
                if (r.chance(70)) id = VS_MAKE_VIDEO_ID(r.range(1, 4), r.below(3), r.below(40), r.below(6), r.below(6));
                VSVideoFormat f; memset(&f, 0xAB, sizeof f);
                int got = api()->getVideoFormatByID(&f, id, core);
                if (!(id & 0xFF000000) || !(id >> 28)) continue;       // IDs of the old API, or no format
                int fam = id >> 28, st = id >> 24 & 15, b = id >> 16 & 255, sw = id >> 8 & 255, sh = id & 255;
                if (!!got != okVideo(fam, st, b, sw, sh)) viol("id:valid", fmt("ID %08x is %s", id, got ? "accepted" : "refused"));
                else if (got && !is(f, fam, st, b, sw, sh)) viol("id:fields", fmt("ID %08x gives wrong fields", id));
            }
            for (int i = 0; i < 400; i++) infos(r);
        }
    }
    api()->freeCore(core);
    hDone();
    return 0;
}
