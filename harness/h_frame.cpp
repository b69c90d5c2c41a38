// Frame monitor: random histories of frame operations compared with independent copies of
// everything (contents, properties, geometry, plane identity), plus a threaded workload.
#include "hcommon.h"

struct MPlane { std::vector<uint8_t> d; int share; };          // share: id of the shared block
struct MFrame {
    VSFrame *f = nullptr;        // writable handle (our own frame)
    bool audio = false;
    VSVideoFormat vf{}; VSAudioFormat af{};
    int w = 0, h = 0;
    std::vector<MPlane> p;
    std::map<std::string, std::vector<int64_t>> ints;
    std::map<std::string, std::string> datas;
    int refs = 1;
};
static std::atomic<int> shareSeq{0};

static int pw(const MFrame &m, int p) { return m.audio ? m.w : (p ? m.w >> m.vf.subSamplingW : m.w); }
static int ph(const MFrame &m, int p) { return m.audio ? 1 : (p ? m.h >> m.vf.subSamplingH : m.h); }
static int bps(const MFrame &m) { return m.audio ? m.af.bytesPerSample : m.vf.bytesPerSample; }
static int np(const MFrame &m) { return m.audio ? m.af.numChannels : m.vf.numPlanes; }

static int64_t used(VSCore *c) { VSCoreInfo i; api()->getCoreInfo(c, &i); return i.usedFramebufferSize; }

static void checkGeom(const MFrame &m, const char *at) {
    auto a = api();
    if (a->getFrameType(m.f) != (m.audio ? mtAudio : mtVideo)) return viol("type", fmt("wrong frame type after %s", at));
    if (m.audio) {
        const VSAudioFormat *f = a->getAudioFrameFormat(m.f);
        if (!f || f->channelLayout != m.af.channelLayout || f->numChannels != m.af.numChannels || f->bitsPerSample != m.af.bitsPerSample || f->sampleType != m.af.sampleType || f->bytesPerSample != m.af.bytesPerSample)
            return viol("format", fmt("wrong audio format after %s", at));
        if (a->getFrameLength(m.f) != m.w) return viol("length", fmt("length %d instead of %d after %s", a->getFrameLength(m.f), m.w, at));
    } else {
        const VSVideoFormat *f = a->getVideoFrameFormat(m.f);
        if (!f || f->colorFamily != m.vf.colorFamily || f->sampleType != m.vf.sampleType || f->bitsPerSample != m.vf.bitsPerSample || f->bytesPerSample != m.vf.bytesPerSample ||
            f->subSamplingW != m.vf.subSamplingW || f->subSamplingH != m.vf.subSamplingH || f->numPlanes != m.vf.numPlanes)
            return viol("format", fmt("wrong video format after %s", at));
    }
    for (int p = 0; p < np(m); p++) {
        const uint8_t *r = a->getReadPtr(m.f, p);
        if (!r) return viol("readptr", fmt("no read pointer for plane %d after %s", p, at));
        if ((uintptr_t)r % 32) viol("alignment", fmt("plane %d of a %dx%d frame is at %p after %s", p, m.w, m.h, (const void *)r, at));
        if (!m.audio) {
            if (a->getFrameWidth(m.f, p) != pw(m, p) || a->getFrameHeight(m.f, p) != ph(m, p))
                viol("dimensions", fmt("plane %d is %dx%d instead of %dx%d after %s", p, a->getFrameWidth(m.f, p), a->getFrameHeight(m.f, p), pw(m, p), ph(m, p), at));
            ptrdiff_t s = a->getStride(m.f, p);
            if (s < (ptrdiff_t)pw(m, p) * bps(m) || s % 32) viol("stride", fmt("stride %d for plane %d of width %d, %d bytes per sample after %s", (int)s, p, pw(m, p), bps(m), at));
        }
    }
    if (a->getReadPtr(m.f, np(m)) || a->getReadPtr(m.f, -1)) viol("badplane", fmt("a plane that does not exist has a pointer after %s", at));
}
static size_t rowStep(const MFrame &m, int p) { return m.audio ? 0 : (size_t)api()->getStride(m.f, p); }

static bool sameBytes(const MFrame &m, int p, std::string &why) {
    const uint8_t *r = api()->getReadPtr(m.f, p);
    size_t rb = (size_t)pw(m, p) * bps(m);
    for (int y = 0; y < ph(m, p); y++)
        if (memcmp(r + rowStep(m, p) * y, m.p[p].d.data() + rb * y, rb)) {
            size_t x = 0;
            while (r[rowStep(m, p) * y + x] == m.p[p].d[rb * y + x]) x++;
            why = fmt("plane %d row %d byte %d is %d instead of %d (%s, %dx%d, %d bytes per sample)", p, y, (int)x, r[rowStep(m, p) * y + x], m.p[p].d[rb * y + x], m.audio ? "audio" : "video", m.w, m.h, bps(m));
            return false;
        }
    return true;
}
static void checkProps(const MFrame &m, const char *at) {
    auto a = api();
    const VSMap *pm = a->getFramePropertiesRO(m.f);
    if (a->mapNumKeys(pm) != (int)(m.ints.size() + m.datas.size())) { viol("props", fmt("%d properties instead of %d after %s", a->mapNumKeys(pm), (int)(m.ints.size() + m.datas.size()), at)); return; }
    for (auto &e : m.ints) {
        int n = a->mapNumElements(pm, e.first.c_str());
        if (n != (int)e.second.size()) { viol("props", fmt("property %s has %d values after %s", e.first.c_str(), n, at)); return; }
        for (int i = 0; i < n; i++) { int err = 0; if (a->mapGetInt(pm, e.first.c_str(), i, &err) != e.second[i] || err) viol("props", fmt("property %s[%d] changed, seen after %s", e.first.c_str(), i, at)); }
    }
    for (auto &e : m.datas) {
        int err = 0; const char *d = a->mapGetData(pm, e.first.c_str(), 0, &err);
        if (err || std::string(d, a->mapGetDataSize(pm, e.first.c_str(), 0, &err)) != e.second) viol("props", fmt("property %s changed, seen after %s", e.first.c_str(), at));
    }
}
static void checkFrame(const MFrame &m, const char *at, const char *which) {
    std::string why;
    for (int p = 0; p < np(m); p++) if (!sameBytes(m, p, why)) { viol(std::string("content:") + which, why + ", seen after " + at); break; }
    checkProps(m, at);
}

struct World {
    VSCore *core;
    Rng rng;
    std::vector<MFrame> fr;
    std::vector<VSVideoFormat> vfs;
    std::vector<VSAudioFormat> afs;
    uint64_t hist = 0;
    int shared = 0, copies = 0;
    bool mt = false;            // others use the core and share planes: nothing is known about how much memory is in use

    World(VSCore *c, uint64_t s) : core(c), rng(s) {
        for (int i = 0; i < 6; i++) {
            VSVideoFormat f{};
            int fam = rng.pick(std::vector<int>{cfGray, cfRGB, cfYUV});
            int st = rng.chance(25) ? stFloat : stInteger;
            int b = st == stFloat ? (rng.chance(50) ? 16 : 32) : rng.pick(std::vector<int>{8, 8, 9, 10, 12, 16, 17, 24, 32});
            int sw = fam == cfYUV ? rng.below(5) : 0, sh = fam == cfYUV ? rng.below(5) : 0;
            if (api()->queryVideoFormat(&f, fam, st, b, sw, sh, core)) vfs.push_back(f);
        }
        for (int i = 0; i < 2; i++) {
            VSAudioFormat f{};
            uint64_t lay = 0; int ch = rng.range(1, 9);
            while (ch-- > 0) lay |= 1ull << rng.below(36);
            bool fl = rng.chance(30);
            if (api()->queryAudioFormat(&f, fl ? stFloat : stInteger, fl ? 32 : rng.range(16, 32), lay, core)) afs.push_back(f);
        }
    }
    void fill(MFrame &m, int p, bool partial) {
        uint8_t *w = api()->getWritePtr(m.f, p);
        if (!w) { viol("writeptr", "no write pointer"); return; }
        size_t rb = (size_t)pw(m, p) * bps(m);
        uint64_t v = rng.next();
        int y0 = 0, y1 = ph(m, p);
        if (partial && y1 > 1) { y0 = rng.below(y1); y1 = rng.range(y0 + 1, y1); }
        for (int y = y0; y < y1; y++) {
            uint8_t *d = w + rowStep(m, p) * y;
            for (size_t x = 0; x < rb; x++) { v = v * 6364136223846793005ull + 1442695040888963407ull; d[x] = m.p[p].d[rb * y + x] = (uint8_t)(v >> 56); }
            // the padding at the end of a row belongs to the frame as well
            if (!m.audio && rng.chance(20)) memset(d + rb, 0xEE, rowStep(m, p) - rb);
        }
    }
    void setDims(MFrame &m) {
        m.vf = rng.pick(vfs);
        m.w = rng.range(1, rng.chance(10) ? 400 : 70) << m.vf.subSamplingW;
        m.h = rng.range(1, 12) << m.vf.subSamplingH;
    }
    void initPlanes(MFrame &m) { m.p.resize(np(m)); for (int p = 0; p < np(m); p++) { m.p[p].d.assign((size_t)pw(m, p) * ph(m, p) * bps(m), 0); m.p[p].share = ++shareSeq; } }
    const MFrame *propSrc() { return fr.empty() || rng.chance(50) ? nullptr : &fr[rng.below((int)fr.size())]; }
    void takeProps(MFrame &m, const MFrame *s) { if (s) { m.ints = s->ints; m.datas = s->datas; } }
    void audioShare(MFrame &m) { for (auto &p : m.p) p.share = m.p[0].share; }

    void step() {
        auto a = api();
        int op = rng.below(100);
        const char *at = "";
        int touched = -1;
        if (fr.empty() || (op < 18 && fr.size() < 14)) {                    // new frame
            at = "creating a frame";
            MFrame m;
            const MFrame *ps = propSrc();
            if (!afs.empty() && rng.chance(20)) {
                m.audio = true; m.af = rng.pick(afs); m.w = rng.chance(40) ? VS_AUDIO_FRAME_SAMPLES : rng.range(1, VS_AUDIO_FRAME_SAMPLES);
                m.f = a->newAudioFrame(&m.af, m.w, ps ? ps->f : nullptr, core);
            } else {
                setDims(m);
                m.f = a->newVideoFrame(&m.vf, m.w, m.h, ps ? ps->f : nullptr, core);
            }
            takeProps(m, ps);
            initPlanes(m);
            if (m.audio) audioShare(m);
            for (int p = 0; p < np(m); p++) fill(m, p, false);
            fr.push_back(m); touched = (int)fr.size() - 1;
        } else if (op < 40 && fr.size() < 18) {                             // frame from planes of others
            at = "creating a frame from planes";
            MFrame m;
            const MFrame *ps = propSrc();
            int si = rng.below((int)fr.size());
            const MFrame &s = fr[si];
            m.audio = s.audio;
            std::vector<const VSFrame *> srcs; std::vector<int> idx;
            if (s.audio) {
                m.af = s.af; m.w = s.w;
                if (rng.chance(50)) for (auto &f : afs) if (f.bytesPerSample == s.af.bytesPerSample && f.bitsPerSample == s.af.bitsPerSample && f.sampleType == s.af.sampleType) m.af = f;
                initPlanes(m); audioShare(m);
                for (int c = 0; c < m.af.numChannels; c++) {
                    if (rng.chance(70)) {
                        std::vector<int> cand;
                        for (int j = 0; j < (int)fr.size(); j++) if (fr[j].audio && fr[j].w == m.w && fr[j].af.bitsPerSample == m.af.bitsPerSample && fr[j].af.sampleType == m.af.sampleType) cand.push_back(j);
                        const MFrame &q = fr[rng.pick(cand)];
                        int k = rng.below(q.af.numChannels);
                        srcs.push_back(q.f); idx.push_back(k); m.p[c].d = q.p[k].d;
                    } else { srcs.push_back(nullptr); idx.push_back(rng.below(3)); }
                }
                m.f = a->newAudioFrame2(&m.af, m.w, srcs.data(), idx.data(), ps ? ps->f : nullptr, core);
                takeProps(m, ps);
                for (int c = 0; c < m.af.numChannels; c++) if (!srcs[c]) { fill(m, c, false); }
            } else {
                m.vf = s.vf; m.w = s.w; m.h = s.h;
                int sp = rng.below(np(s));
                if (rng.chance(50)) {                                        // a gray frame made of one plane, or the reverse
                    int fam = rng.pick(std::vector<int>{cfGray, cfRGB});
                    m.w = pw(s, sp); m.h = ph(s, sp);
                    if (!a->queryVideoFormat(&m.vf, fam, s.vf.sampleType, s.vf.bitsPerSample, 0, 0, core)) return;
                }
                initPlanes(m);
                bool any = false, all = true;
                for (int p = 0; p < 3; p++) {
                    if (p >= np(m)) { srcs.push_back(nullptr); idx.push_back(0); continue; }
                    std::vector<std::pair<int, int>> cand;
                    for (int j = 0; j < (int)fr.size(); j++) if (!fr[j].audio && bps(fr[j]) == bps(m)) for (int q = 0; q < np(fr[j]); q++) if (pw(fr[j], q) == pw(m, p) && ph(fr[j], q) == ph(m, p)) cand.push_back({j, q});
                    if (!cand.empty() && rng.chance(80)) {
                        auto c = rng.pick(cand);
                        srcs.push_back(fr[c.first].f); idx.push_back(c.second);
                        m.p[p] = fr[c.first].p[c.second]; any = true; shared++;
                    } else { srcs.push_back(nullptr); idx.push_back(rng.range(-1, 3)); all = false; }
                }
                int64_t u0 = used(core);
                m.f = a->newVideoFrame2(&m.vf, m.w, m.h, srcs.data(), idx.data(), ps ? ps->f : nullptr, core);
                if (!mt && any && all && used(core) != u0) viol("dup", "a frame made only of existing planes took additional frame memory");
                for (int p = 0; p < np(m); p++) if (srcs[p] && a->getReadPtr(m.f, p) != a->getReadPtr(srcs[p], idx[p])) viol("dup", "a plane taken from another frame is not shared with it");
                takeProps(m, ps);
                for (int p = 0; p < np(m); p++) if (!srcs[p]) fill(m, p, false);
            }
            fr.push_back(m); touched = (int)fr.size() - 1;
        } else if (op < 52 && fr.size() < 18) {                             // copy
            at = "copying a frame";
            const MFrame s = fr[rng.below((int)fr.size())];
            int64_t u0 = used(core);
            MFrame m = s; m.refs = 1;
            m.f = a->copyFrame(s.f, core);
            if (m.f == s.f) viol("copy", "copyFrame returned the same frame");
            if (!mt && used(core) != u0) viol("dup", "copying a frame took additional frame memory");
            for (int p = 0; p < np(m); p++) if (a->getReadPtr(m.f, p) != a->getReadPtr(s.f, p)) viol("dup", "an unmodified plane of a copy is not shared");
            copies++;
            fr.push_back(m); touched = (int)fr.size() - 1;
        } else if (op < 72) {                                               // write
            at = "writing to a frame";
            touched = rng.below((int)fr.size());
            MFrame &m = fr[touched];
            int p = rng.below(np(m));
            int sharers = 0;
            for (auto &f : fr) { if (f.audio && m.audio) { if (f.p[0].share == m.p[0].share) sharers++; } else for (auto &q : f.p) if (q.share == m.p[p].share) sharers++; }
            int64_t u0 = used(core);
            const uint8_t *r0 = a->getReadPtr(m.f, p);
            uint8_t *w0 = a->getWritePtr(m.f, p);
            bool moved = w0 != r0;
            if (sharers > 1 && !moved) viol("cow", fmt("a plane used by %d frames was handed out for writing", sharers));
            if (!mt && sharers == 1 && (moved || used(core) != u0)) viol("dup", "a plane used by one frame only was duplicated for writing");
            if (a->getReadPtr(m.f, p) != w0) viol("writeptr", "read and write pointers differ");
            int ns = ++shareSeq;
            if (moved) { if (m.audio) for (auto &q : m.p) q.share = ns; else m.p[p].share = ns; }
            std::string why;
            if (!sameBytes(m, p, why)) viol("cowcontent", "getting a write pointer changed the contents: " + why);
            if (a->getWritePtr(m.f, p) != w0) viol("dup", "getting a write pointer twice duplicated the plane twice");
            fill(m, p, rng.chance(60));
            if (a->getWritePtr(m.f, np(m) + rng.below(3)) || a->getWritePtr(m.f, -1)) viol("badplane", "a plane that does not exist can be written");
        } else if (op < 86) {                                               // properties
            at = "changing properties";
            touched = rng.below((int)fr.size());
            MFrame &m = fr[touched];
            VSMap *pm = a->getFramePropertiesRW(m.f);
            std::string k = fmt("k%d", rng.below(5));
            int o = rng.below(5);
            if (o == 0) { a->mapDeleteKey(pm, k.c_str()); m.ints.erase(k); m.datas.erase(k); }
            else if (o == 1) { int64_t v = (int64_t)rng.next(); a->mapSetInt(pm, k.c_str(), v, maReplace); m.datas.erase(k); m.ints[k] = {v}; }
            else if (o == 2) { int64_t v = (int64_t)rng.next(); if (!m.datas.count(k)) { a->mapSetInt(pm, k.c_str(), v, maAppend); m.ints[k].push_back(v); } }
            else if (o == 3) { std::string d(rng.below(40), (char)('a' + rng.below(26))); a->mapSetData(pm, k.c_str(), d.data(), (int)d.size(), dtBinary, maReplace); m.ints.erase(k); m.datas[k] = d; }
            else { a->clearMap(pm); m.ints.clear(); m.datas.clear(); }
        } else if (op < 90) {
            at = "adding a reference";
            touched = rng.below((int)fr.size());
            if (a->addFrameRef(fr[touched].f) != fr[touched].f) viol("ref", "addFrameRef returned another frame");
            fr[touched].refs++;
        } else {
            at = "freeing a frame";
            int i = rng.below((int)fr.size());
            a->freeFrame(fr[i].f);
            if (!--fr[i].refs) fr.erase(fr.begin() + i); else touched = i;
        }
        hist = mix(hist, (uint64_t)op * 64 + touched);
        if (touched >= 0) { checkGeom(fr[touched], at); checkFrame(fr[touched], at, "touched"); }
    }
    void checkAll(const char *at) {
        for (auto &m : fr) { checkGeom(m, at); checkFrame(m, at, "other"); }
        // blocks that are not shared never overlap
        std::map<int, std::pair<const uint8_t *, const uint8_t *>> blk;
        for (auto &m : fr) for (int p = 0; p < np(m); p++) {
            const uint8_t *r = api()->getReadPtr(m.f, p);
            const uint8_t *e = r + (m.audio ? (size_t)m.af.bytesPerSample * m.w : rowStep(m, p) * ph(m, p));
            int id = m.audio ? -(m.p[0].share * 128 + p) : m.p[p].share;
            auto it = blk.find(id);
            if (it == blk.end()) blk[id] = {r, e};
            else if (it->second.first != r) viol("dup", fmt("frames that share a plane see it at different places, after %s", at));
        }
        std::vector<std::pair<const uint8_t *, const uint8_t *>> v;
        for (auto &b : blk) v.push_back(b.second);
        std::sort(v.begin(), v.end());
        for (size_t i = 1; i < v.size(); i++) if (v[i].first < v[i - 1].second) viol("overlap", fmt("two planes overlap in memory after %s", at));
    }
};

static void modelCase(uint64_t seed) {
    auto a = api();
    Rng r(seed);
    VSCore *core = a->createCore(r.chance(20) ? ccfEnableFrameRefDebug : 0);
    if (r.chance(30)) a->setMaxCacheSize(1 + r.below(100000), core);
    {
        World w(core, mix(seed, 1));
        int steps = r.range(40, 110);
        for (int i = 0; i < steps; i++) { w.step(); if (i % 8 == 7) w.checkAll("a series of operations"); hEvals++; }
        w.checkAll("the last operation");
        if (w.shared && w.copies) hDistinct.insert(w.hist);
        count("plane_shares", w.shared); count("frame_copies", w.copies);
        for (auto &m : w.fr) while (m.refs--) a->freeFrame(m.f);
    }
    if (used(core) != 0) viol("counter", fmt("%lld bytes counted as used with no frame left", (long long)used(core)));
    a->freeCore(core);
}

// threads write to their own copies of common frames while others read the originals
static void threadCase(uint64_t seed) {
    auto a = api();
    Rng r(seed);
    VSCore *core = a->createCore(r.chance(40) ? ccfEnableFrameRefDebug : 0);
    World w(core, mix(seed, 2));
    for (int i = 0; i < 12; i++) w.step();
    if (w.fr.empty()) { a->freeCore(core); return; }
    std::vector<MFrame> base = w.fr;
    int nt = r.range(2, 5);
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            World me(core, mix(seed, 100 + t));
            for (auto &b : base) { if (me.rng.chance(70)) { MFrame m = b; m.refs = 1; m.f = a->copyFrame(b.f, core); me.fr.push_back(m); } }
            go++;
            while (go < nt) std::this_thread::yield();
            me.shared = 0; me.mt = true;
            for (int i = 0; i < 30; i++) {
                if (me.fr.empty()) break;
                int k = me.rng.below((int)me.fr.size());
                int op = me.rng.below(9);
                if (op < 3) { MFrame &m = me.fr[k]; int p = me.rng.below(np(m)), ns = ++shareSeq; me.fill(m, p, true); if (m.audio) for (auto &q : m.p) q.share = ns; else m.p[p].share = ns; }
                else if (op == 3) { VSMap *pm = a->getFramePropertiesRW(me.fr[k].f); std::string key = fmt("k%d", me.rng.below(5)); int64_t v = (int64_t)me.rng.next(); a->mapSetInt(pm, key.c_str(), v, maReplace); me.fr[k].datas.erase(key); me.fr[k].ints[key] = {v}; }
                else if (op == 4) { while (me.fr[k].refs--) a->freeFrame(me.fr[k].f); me.fr.erase(me.fr.begin() + k); }
                else if (me.rng.chance(60)) me.step();
                else { const MFrame &b = base[me.rng.below((int)base.size())]; MFrame m = b; m.refs = 1; m.f = a->copyFrame(b.f, core); me.fr.push_back(m); }
                const MFrame &b = base[me.rng.below((int)base.size())];
                checkFrame(b, "concurrent writes to copies", "threads-original");
                if (!me.fr.empty()) checkFrame(me.fr[me.rng.below((int)me.fr.size())], "concurrent writes to copies", "threads-own");
            }
            for (auto &m : me.fr) { checkFrame(m, "concurrent writes to copies", "threads-own"); while (m.refs--) a->freeFrame(m.f); }
        });
    for (auto &t : th) t.join();
    for (auto &b : base) checkFrame(b, "concurrent writes to copies", "threads-original");
    hEvals += nt * 30;
    hDistinct.insert(mix(seed, 77));
    for (auto &m : base) while (m.refs--) a->freeFrame(m.f);
    if (used(core) != 0) viol("counter", "bytes counted as used with no frame left, after concurrent copying");
    a->freeCore(core);
}

int main(int argc, char **argv) {
    Args ar(argc, argv);
    int mt = ar.geti("mt", 0);
    for (int k = ar.from; k < ar.to; k++) {
        hLine(fmt("CASE %d", k));
        uint64_t s = mix(mix(ar.seed, 0xF00), k);
        if (mt) threadCase(s); else modelCase(s);
    }
    hDone();
    return 0;
}
