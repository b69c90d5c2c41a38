// D01: VSMap against an executable model. Random operation histories over a set of maps that share
// storage through copies and frame properties; every observer is compared with the model after every step.
#include "hcommon.h"
#include <cstdarg>

struct Val { int64_t i = 0; double d = 0; std::string s; int hint = 0; int obj = -1; };
struct Arr { int type; std::vector<Val> v; };
struct Model { std::map<std::string, Arr> m; bool err = false; };

struct Objs {
    VSCore *core;
    std::vector<VSNode *> nodes; std::vector<int> nodeType;
    std::vector<VSFrame *> frames; std::vector<int> frameType;
    std::vector<VSFunction *> funcs;
};
static const VSAPI *vs;
static const VSFrame *VS_CC nullGet(int, int, void *, void **, VSFrameContext *ctx, VSCore *, const VSAPI *a) { a->setFilterError("unused", ctx); return nullptr; }
static void VS_CC nop(const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}

static const std::vector<std::string> KEYS = { "a", "b", "_Matrix", "clip", "_Range", "x9", "A", "aa", "_", "Z_z0", "_ColorRange", "longer_key_name_that_does_not_fit_in_sso" };
static const std::vector<std::string> BADKEYS = { "", "1a", "a b", "a-b", "a.b", "\xc3\xa9", "a\xc3\xa9", " a", "a ", "[x]", "@", "`", "{", "/", ":" };

static std::string can(const std::string &k, bool intLike) { return intLike && k == "_ColorRange" ? "_Range" : k; }
static int64_t flip(int64_t v) { return v == 0 ? 1 : v == 1 ? 0 : v; }
static int64_t satI(int64_t v) { return v < INT32_MIN ? INT32_MIN : v > INT32_MAX ? INT32_MAX : v; }
static bool sameD(double a, double b) { return !memcmp(&a, &b, sizeof a); }

struct Sut { VSMap *map; VSFrame *owner; }; // owner set when the map is a frame's property map
static std::string hist;
static uint64_t caseHash;
#define FAIL(key, ...) do { viol(key, fmt(__VA_ARGS__) + " | history: " + (hist.size() > 1500 ? hist.substr(hist.size() - 1500) : hist)); return false; } while (0)

static bool compareKey(const VSMap *m, const Model &mo, const std::string &k, Objs &O, Rng &r) {
    const char *key = k.c_str();
    std::string ck = k == "_ColorRange" ? "_Range" : k;
    auto it = mo.m.find(ck);
    if (k == "_ColorRange" && it != mo.m.end() && it->second.type != ptInt) return true; // the legacy name is translated by the integer accessors only
    int n = vs->mapNumElements(m, key), t = vs->mapGetType(m, key);
    if (n != (it == mo.m.end() ? -1 : (int)it->second.v.size())) FAIL("numelements", "%s: %d", key, n);
    if (t != (it == mo.m.end() ? ptUnset : it->second.type)) FAIL("type", "%s: %d", key, t);
    int size = it == mo.m.end() ? 0 : (int)it->second.v.size();
    int type = it == mo.m.end() ? ptUnset : it->second.type;
    for (int q = 0; q <= size; q++) {
        if (size > 12 && q > 4 && q < size - 2 && !r.chance(20)) continue;
        auto expErr = [&](std::vector<int> ok) -> int {
            if (mo.err) return peError;
            if (type == ptUnset) return peUnset;
            if (q >= size) return peIndex;
            for (int o : ok) if (o == type) return peSuccess;
            return peType;
        };
        int e;
        int64_t iv = vs->mapGetInt(m, key, q, (e = 99, &e));
        if (e != expErr({ptInt})) FAIL("err-int", "%s[%d] err %d want %d", key, q, e, expErr({ptInt}));
        if (!e) {
            int64_t want = it->second.v[q].i;
            if (k == "_ColorRange") want = flip(want);
            if (iv != want) FAIL("val-int", "%s[%d]=%lld want %lld", key, q, (long long)iv, (long long)want);
            int s = vs->mapGetIntSaturated(m, key, q, &e);
            if (e || s != satI(want)) FAIL("val-intsat", "%s[%d]=%d", key, q, s);
        } else if (iv) FAIL("val-int-err", "%s[%d]", key, q);
        if (k == "_ColorRange") continue;
        double dv = vs->mapGetFloat(m, key, q, (e = 99, &e));
        if (e != expErr({ptFloat})) FAIL("err-float", "%s[%d] err %d", key, q, e);
        if (!e) {
            if (!sameD(dv, it->second.v[q].d)) FAIL("val-float", "%s[%d]=%g want %g", key, q, dv, it->second.v[q].d);
            float f = vs->mapGetFloatSaturated(m, key, q, &e);
            double w = it->second.v[q].d;
            if (!std::isnan(w)) {
                float wf = (float)w;
                if (e || f != wf) FAIL("val-floatsat", "%s[%d]=%g want %g", key, q, f, wf);
            }
        }
        const char *sv = vs->mapGetData(m, key, q, (e = 99, &e));
        if (e != expErr({ptData})) FAIL("err-data", "%s[%d] err %d", key, q, e);
        if (!e) {
            const std::string &w = it->second.v[q].s;
            int sz = vs->mapGetDataSize(m, key, q, &e);
            int h = vs->mapGetDataTypeHint(m, key, q, &e);
            if (sz != (int)w.size() || memcmp(sv, w.data(), w.size()) || sv[w.size()] != 0) FAIL("val-data", "%s[%d] size %d want %d", key, q, sz, (int)w.size());
            if (h != it->second.v[q].hint) FAIL("val-hint", "%s[%d] hint %d want %d", key, q, h, it->second.v[q].hint);
        } else {
            if (sv) FAIL("val-data-err", "%s", key);
            if (vs->mapGetDataSize(m, key, q, &e) != -1) FAIL("val-size-err", "%s", key);
        }
        VSNode *nv = vs->mapGetNode(m, key, q, (e = 99, &e));
        if (e != expErr({ptVideoNode, ptAudioNode})) { if (nv) vs->freeNode(nv); FAIL("err-node", "%s[%d] err %d", key, q, e); }
        if ((nv != nullptr) != (e == 0)) FAIL("val-node", "%s", key);
        if (nv) { bool ok = nv == O.nodes[it->second.v[q].obj]; vs->freeNode(nv); if (!ok) FAIL("val-node", "%s[%d]", key, q); }
        const VSFrame *fv = vs->mapGetFrame(m, key, q, (e = 99, &e));
        if (e != expErr({ptVideoFrame, ptAudioFrame})) { if (fv) vs->freeFrame(fv); FAIL("err-frame", "%s[%d] err %d", key, q, e); }
        if ((fv != nullptr) != (e == 0)) FAIL("val-frame", "%s", key);
        if (fv) { bool ok = fv == O.frames[it->second.v[q].obj]; vs->freeFrame(fv); if (!ok) FAIL("val-frame", "%s[%d]", key, q); }
        VSFunction *uv = vs->mapGetFunction(m, key, q, (e = 99, &e));
        if (e != expErr({ptFunction})) { if (uv) vs->freeFunction(uv); FAIL("err-func", "%s[%d] err %d", key, q, e); }
        if (uv) { bool ok = uv == O.funcs[it->second.v[q].obj]; vs->freeFunction(uv); if (!ok) FAIL("val-func", "%s[%d]", key, q); }
    }
    int e;
    if (!mo.err && size) {
        const int64_t *ia = vs->mapGetIntArray(m, key, &e);
        if ((e == 0) != (type == ptInt)) FAIL("err-intarray", "%s %d", key, e);
        // the legacy key only promises flipped values through arrays of one element
        if (ia && (k != "_ColorRange" || size == 1))
            for (int q = 0; q < size; q++) {
                int64_t w = it->second.v[q].i; 
                if (k == "_ColorRange") { if (w != 0 && w != 1) continue; w = flip(w); }
                if (ia[q] != w) FAIL("val-intarray", "%s[%d]", key, q);
            }
        const double *da = vs->mapGetFloatArray(m, key, &e);
        if (k != "_ColorRange" && (e == 0) != (type == ptFloat)) FAIL("err-floatarray", "%s %d", key, e);
        if (da) for (int q = 0; q < size; q++) if (!sameD(da[q], it->second.v[q].d)) FAIL("val-floatarray", "%s[%d]", key, q);
    }
    return true;
}

static bool compareAll(const VSMap *m, const Model &mo, Objs &O, Rng &r) {
    int n = vs->mapNumKeys(m);
    if (n != (int)mo.m.size()) FAIL("numkeys", "%d want %d", n, (int)mo.m.size());
    std::set<std::string> got;
    for (int i = 0; i < n; i++) {
        const char *k = vs->mapGetKey(m, i);
        if (!k || !mo.m.count(k)) FAIL("keyset", "key %s", k ? k : "(null)");
        got.insert(k);
    }
    if ((int)got.size() != n) FAIL("keyset-dup", "%d", n);
    const char *err = vs->mapGetError(m);
    if ((err != nullptr) != mo.err) FAIL("error-state", "%d", err != nullptr);
    if (err && mo.m.at("_Error").v[0].s != err) FAIL("error-text", "%s", err);
    for (auto &k : KEYS) if (!compareKey(m, mo, k, O, r)) return false;
    if (!mo.err) for (auto &k : BADKEYS) if (vs->mapGetType(m, k.c_str()) != ptUnset) FAIL("badkey-present", "%s", k.c_str());
    return true;
}

static double rndD(Rng &r) {
    switch (r.below(10)) {
    case 0: return 0; case 1: return -0.0; case 2: return NAN; case 3: return INFINITY; case 4: return -INFINITY;
    case 5: return 1e300; case 6: return -1e300; case 7: return 3.4028236e38;
    default: return ((double)(int64_t)r.next()) / 1e15;
    }
}
static int64_t rndI(Rng &r) {
    switch (r.below(10)) {
    case 0: return INT64_MIN; case 1: return INT64_MAX; case 2: return INT32_MAX; case 3: return (int64_t)INT32_MAX + 1; case 4: return (int64_t)INT32_MIN - 1;
    case 5: return r.below(2); case 6: return r.range(-2, 3);
    default: return (int64_t)r.next();
    }
}
static std::string rndS(Rng &r) {
    int n = r.chance(10) ? r.range(100, 5000) : r.below(20);
    std::string s; for (int i = 0; i < n; i++) s += (char)(r.chance(10) ? 0 : r.below(256));
    return s;
}

static bool runCase(uint64_t seed, int ops, VSCore *core) {
    Rng r(seed);
    hist.clear();
    Objs O; O.core = core;
    VSVideoInfo vi = {}; vs->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, core); vi.width = 16; vi.height = 4; vi.fpsNum = 25; vi.fpsDen = 1; vi.numFrames = 3;
    VSAudioInfo ai = {}; vs->queryAudioFormat(&ai.format, stInteger, 16, 3, core); ai.sampleRate = 44100; ai.numSamples = 10;
    for (int i = 0; i < 2; i++) { O.nodes.push_back(vs->createVideoFilter2("n", &vi, nullGet, nullptr, fmParallel, nullptr, 0, nullptr, core)); O.nodeType.push_back(ptVideoNode); }
    O.nodes.push_back(vs->createAudioFilter2("n", &ai, nullGet, nullptr, fmParallel, nullptr, 0, nullptr, core)); O.nodeType.push_back(ptAudioNode);
    for (int i = 0; i < 2; i++) { O.frames.push_back(vs->newVideoFrame(&vi.format, 16, 4, nullptr, core)); O.frameType.push_back(ptVideoFrame); }
    O.frames.push_back(vs->newAudioFrame(&ai.format, 10, nullptr, core)); O.frameType.push_back(ptAudioFrame);
    for (int i = 0; i < 2; i++) O.funcs.push_back(vs->createFunction(nop, nullptr, nullptr, core));

    std::vector<Sut> maps; std::vector<Model> mods;
    for (int i = 0; i < 4; i++) { maps.push_back({vs->createMap(), nullptr}); mods.emplace_back(); }
    VSFrame *pf[2];
    for (int i = 0; i < 2; i++) { pf[i] = vs->newVideoFrame(&vi.format, 16, 4, nullptr, core); maps.push_back({nullptr, pf[i]}); mods.emplace_back(); }
    auto rw = [&](int i) { return maps[i].owner ? vs->getFramePropertiesRW(maps[i].owner) : maps[i].map; };
    auto ro = [&](int i) -> const VSMap * { return maps[i].owner ? vs->getFramePropertiesRO(maps[i].owner) : maps[i].map; };
    bool ok = true;
    for (int op = 0; op < ops && ok; op++) {
        int i = r.below((int)maps.size());
        Model &mo = mods[i];
        bool bad = r.chance(4);
        std::string k = bad ? r.pick(BADKEYS) : r.pick(KEYS);
        const char *key = k.c_str();
        int what = r.below(20);
        hist += fmt("%d:m%d.%s;", what, i, key);
        auto set = [&](int type, const Val &v, int append, int rc, bool intLike) -> bool {
            std::string ck = can(k, intLike);
            int want;
            if (bad) want = 1;
            else if (append == maReplace) { mo.m[ck] = {type, {v}}; want = 0; }
            else {
                auto it = mo.m.find(ck);
                if (it == mo.m.end()) { mo.m[ck] = {type, {v}}; want = 0; }
                else if (it->second.type == type) { it->second.v.push_back(v); want = 0; }
                else want = 1;
            }
            if ((rc != 0) != (want != 0)) FAIL("set-result", "op %d key %s rc %d want %d", what, key, rc, want);
            return true;
        };
        int app = r.chance(65) ? maAppend : maReplace;
        bool legacy = k == "_ColorRange"; // only integer accessors translate the legacy key
        switch (what) {
        case 0: case 1: case 2: { Val v; v.i = rndI(r); int64_t raw = v.i; if (legacy) v.i = flip(raw); ok = set(ptInt, v, app, vs->mapSetInt(rw(i), key, raw, app), true); break; }
        case 3: case 4: { if (legacy) break; Val v; v.d = rndD(r); ok = set(ptFloat, v, app, vs->mapSetFloat(rw(i), key, v.d, app), false); break; }
        case 5: case 6: { if (legacy) break; Val v; v.s = rndS(r); v.hint = r.range(-1, 1); bool z = r.chance(30);
            if (z) v.s = v.s.substr(0, v.s.find('\0'));
            ok = set(ptData, v, app, vs->mapSetData(rw(i), key, v.s.c_str(), z ? -1 : (int)v.s.size(), v.hint, app), false); break; }
        case 7: { if (legacy) break; Val v; v.obj = r.below(3); bool c = r.chance(50); if (c) vs->addNodeRef(O.nodes[v.obj]);
            int rc = c ? vs->mapConsumeNode(rw(i), key, O.nodes[v.obj], app) : vs->mapSetNode(rw(i), key, O.nodes[v.obj], app);
            ok = set(O.nodeType[v.obj], v, app, rc, false); break; }
        case 8: { if (legacy) break; Val v; v.obj = r.below(3); bool c = r.chance(50); if (c) vs->addFrameRef(O.frames[v.obj]);
            int rc = c ? vs->mapConsumeFrame(rw(i), key, O.frames[v.obj], app) : vs->mapSetFrame(rw(i), key, O.frames[v.obj], app);
            ok = set(O.frameType[v.obj], v, app, rc, false); break; }
        case 9: { if (legacy) break; Val v; v.obj = r.below(2); bool c = r.chance(50); if (c) vs->addFunctionRef(O.funcs[v.obj]);
            int rc = c ? vs->mapConsumeFunction(rw(i), key, O.funcs[v.obj], app) : vs->mapSetFunction(rw(i), key, O.funcs[v.obj], app);
            ok = set(ptFunction, v, app, rc, false); break; }
        case 10: { int n = r.chance(20) ? r.range(20, 300) : r.below(5); std::vector<int64_t> a(n + 1); for (auto &x : a) x = rndI(r);
            int rc = vs->mapSetIntArray(rw(i), key, a.data(), n);
            if (!bad) { Arr ar{ptInt, {}}; for (int q = 0; q < n; q++) { Val v; v.i = legacy ? flip(a[q]) : a[q]; ar.v.push_back(v); } mo.m[can(k, true)] = ar; }
            if ((rc != 0) != bad) { viol("set-result", "intarray " + k); ok = false; } break; }
        case 11: { if (legacy) break; int n = r.chance(20) ? r.range(20, 300) : r.below(5); std::vector<double> a(n + 1); for (auto &x : a) x = rndD(r);
            int rc = vs->mapSetFloatArray(rw(i), key, a.data(), n);
            if (!bad) { Arr ar{ptFloat, {}}; for (int q = 0; q < n; q++) { Val v; v.d = a[q]; ar.v.push_back(v); } mo.m[k] = ar; }
            if ((rc != 0) != bad) { viol("set-result", "floatarray " + k); ok = false; } break; }
        case 12: { int t = r.range(0, 9); if (legacy && t != ptInt) break; int rc = vs->mapSetEmpty(rw(i), key, t);
            bool want = !bad && t >= ptInt && t <= ptAudioFrame && !mo.m.count(can(k, t == ptInt));
            if (want) mo.m[can(k, t == ptInt)] = {t, {}};
            if ((rc == 0) != want) { viol("setempty-result", fmt("%s type %d rc %d", key, t, rc) + hist); ok = false; } break; }
        case 13: case 14: { int rc = vs->mapDeleteKey(rw(i), key);
            std::string ck = can(k, true); bool want = mo.m.erase(ck) > 0;
            if ((rc != 0) != want) { viol("delete-result", fmt("%s rc %d want %d ", key, rc, want) + hist); ok = false; } break; }
        case 15: if (r.chance(30)) { vs->clearMap(rw(i)); mo.m.clear(); mo.err = false; } break;
        case 16: if (r.chance(30) && !maps[i].owner) { std::string t = "err" + std::to_string(op); vs->mapSetError(rw(i), t.c_str()); mo.m.clear(); Val v; v.s = t; v.hint = dtUtf8; mo.m["_Error"] = {ptData, {v}}; mo.err = true; } break;
        case 17: case 18: { int j = r.below((int)maps.size()); if (mods[j].err || mo.err) break; hist += fmt("copy from m%d;", j);
            vs->copyMap(ro(j), rw(i)); if (j != i) for (auto &kv : mods[j].m) mo.m[kv.first] = kv.second; break; }
        case 19: { // replace one property frame by a frame that inherits the properties of another
            int a = r.below(2), b = r.below(2); VSFrame *nf = r.chance(50) ? vs->copyFrame(pf[b], core) : vs->newVideoFrame(&vi.format, 8, 8, pf[b], core);
            hist += fmt("frame%d<-frame%d;", a, b);
            vs->freeFrame(pf[a]); if (a == b) pf[b] = nf; pf[a] = nf; mods[4 + a] = mods[4 + b]; maps[4 + a].owner = nf; break; }
        }
        if (!ok) break;
        hEvals++;
        // the map operated on, and one other (copy-on-write isolation)
        ok = compareAll(ro(i), mods[i], O, r);
        if (ok && r.chance(40)) { int j = r.below((int)maps.size()); hist += fmt("?m%d;", j); ok = compareAll(ro(j), mods[j], O, r); }
        caseHash = mix(caseHash, mix(what * 31 + i, std::hash<std::string>()(k)));
    }
    if (ok) for (size_t j = 0; j < maps.size() && ok; j++) ok = compareAll(ro((int)j), mods[j], O, r);
    for (auto &m : maps) if (m.owner) vs->freeFrame(m.owner); else vs->freeMap(m.map);
    for (auto p : O.nodes) vs->freeNode(p);
    for (auto p : O.frames) vs->freeFrame(p);
    for (auto p : O.funcs) vs->freeFunction(p);
    hDistinct.insert(mix(caseHash, seed));
    return ok;
}

// Threads mutate their own copies of maps with shared storage; each thread's own map must follow its own model.
static std::atomic<int> funcFreed{0};
static void VS_CC fnFree(void *) { funcFreed++; }
static void threadCase(uint64_t seed, VSCore *core) {
    Rng r(seed);
    VSMap *base = vs->createMap();
    Model bm;
    int before = funcFreed;
    for (int k = 0; k < 6; k++) {
        std::string key = "k" + std::to_string(k);
        int n = r.range(1, 4);
        for (int q = 0; q < n; q++) {
            Val v; v.i = rndI(r); v.s = rndS(r).substr(0, 30);
            if (k % 3 == 0) { vs->mapSetInt(base, key.c_str(), v.i, maAppend); bm.m[key].type = ptInt; bm.m[key].v.push_back(v); }
            else { vs->mapSetData(base, key.c_str(), v.s.data(), (int)v.s.size(), dtBinary, maAppend); bm.m[key].type = ptData; bm.m[key].v.push_back(v); }
        }
    }
    VSFunction *fn = vs->createFunction(nop, nullptr, fnFree, core);
    vs->mapConsumeFunction(base, "fn", fn, maReplace);
    const int T = 4;
    std::vector<VSMap *> own; std::vector<uint64_t> seeds;
    for (int t = 0; t < T; t++) { VSMap *m = vs->createMap(); vs->copyMap(base, m); own.push_back(m); seeds.push_back(r.next()); }
    VSVideoFormat f; vs->queryVideoFormat(&f, cfGray, stInteger, 8, 0, 0, core);
    VSFrame *pframe = vs->newVideoFrame(&f, 16, 16, nullptr, core);
    vs->copyMap(base, vs->getFramePropertiesRW(pframe));
    std::vector<std::thread> th;
    std::atomic<int> bad{0};
    for (int t = 0; t < T; t++) th.emplace_back([&, t]() {
        Rng q(seeds[t]);
        Model mo = bm; VSMap *m = own[t];
        VSFrame *fr = vs->copyFrame(pframe, core); Model fm = bm;
        for (int op = 0; op < 60; op++) {
            std::string key = "k" + std::to_string(q.below(6));
            int e;
            bool useFrame = q.chance(40);
            VSMap *tm = useFrame ? vs->getFramePropertiesRW(fr) : m; Model &tmod = useFrame ? fm : mo;
            auto it = tmod.m.find(key);
            switch (q.below(5)) {
            case 0: if (it == tmod.m.end() || it->second.type == ptInt) { Val v; v.i = rndI(q); vs->mapSetInt(tm, key.c_str(), v.i, maAppend); tmod.m[key].type = ptInt; tmod.m[key].v.push_back(v); } break;
            case 1: { Val v; v.i = rndI(q); vs->mapSetInt(tm, key.c_str(), v.i, maReplace); tmod.m[key] = {ptInt, {v}}; } break;
            case 2: vs->mapDeleteKey(tm, key.c_str()); tmod.m.erase(key); break;
            case 3: { VSMap *c = vs->createMap(); vs->copyMap(base, c); vs->copyMap(c, tm); vs->freeMap(c); for (auto &kv : bm.m) tmod.m[kv.first] = kv.second; } break;
            case 4: { const VSMap *ro = vs->getFramePropertiesRO(pframe); if (vs->mapNumKeys(ro) != 7) bad++; } break;
            }
            for (int k = 0; k < 6; k++) {
                std::string kk = "k" + std::to_string(k);
                auto i2 = tmod.m.find(kk);
                int n = vs->mapNumElements(tm, kk.c_str());
                if (n != (i2 == tmod.m.end() ? -1 : (int)i2->second.v.size())) { bad++; continue; }
                for (int z = 0; z < n; z++) {
                    if (i2->second.type == ptInt) { if (vs->mapGetInt(tm, kk.c_str(), z, &e) != i2->second.v[z].i || e) bad++; }
                    else { const char *s = vs->mapGetData(tm, kk.c_str(), z, &e); if (e || memcmp(s, i2->second.v[z].s.data(), i2->second.v[z].s.size())) bad++; }
                }
            }
        }
        vs->freeFrame(fr);
        vs->freeMap(m);
    });
    for (auto &x : th) x.join();
    if (bad) viol("cow-threads", fmt("%d mismatches between a thread's own map and its model", (int)bad));
    if (funcFreed != before) viol("cow-threads-freed", "object freed while still referenced");
    vs->freeFrame(pframe);
    vs->freeMap(base);
    if (funcFreed != before + 1) viol("object-refcount", fmt("function object freed %d times after its last reference went away", funcFreed - before));
    hEvals += T * 60;
    hDistinct.insert(mix(seed, 77));
    count("thread_cases");
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    vs = api();
    VSCore *core = vs->createCore(ccfDisableAutoLoading);
    bool mt = a.geti("mt", 0);
    for (int c = a.from; c < a.to; c++) {
        hLine("CASE " + std::to_string(c));
        uint64_t s = mix(a.seed, c);
        if (mt) threadCase(s, core);
        else { runCase(s, 120, core); if (c % 50 == 0) sample("history of case " + std::to_string(c) + ": " + hist.substr(0, 300)); }
    }
    VSCoreInfo2 ci; vs->getCoreInfo2(core, &ci);
    if (ci.usedFramebufferSize != 0) viol("frames-leaked", fmt("%lld bytes of frame memory in use after every reference was released", (long long)ci.usedFramebufferSize));
    vs->freeCore(core);
    hDone();
    return 0;
}
