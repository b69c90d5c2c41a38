// Registration and calling of plugin functions compared with a model of the signature grammar and
// of the argument rules; lifetimes of wrapped functions and of nodes passed through calls.
#include "hcommon.h"
#include "hv3.h"
#include <filesystem>
#include <fstream>

static const char *typeNames[] = {"int", "float", "data", "vnode", "anode", "vframe", "aframe", "func"};
static const int typeIds[] = {ptInt, ptFloat, ptData, ptVideoNode, ptAudioNode, ptVideoFrame, ptAudioFrame, ptFunction};

struct Arg { std::string name; int type; bool arr, opt, empty; };
struct Sig { std::vector<Arg> args; bool any = false; std::string text; };

struct World;
struct Fn { World *w; std::string name; Sig in, out; bool outAny = false; int calls = 0; };

struct Val { int type; std::vector<uint64_t> v; };       // ints, float bits, data ids, or object ids
typedef std::map<std::string, Val> Vals;

struct World {
    VSCore *core; VSPlugin *plug; Rng rng{1};
    std::map<std::string, std::unique_ptr<Fn>> fns;
    VSNode *vn[2]{}, *an[2]{}; const VSFrame *vf[2]{}, *af[2]{}; VSFunction *fu[2]{};
    int nodeFrees[4]{}, fnFrees[2]{};
    std::vector<std::string> log;
    // the call in progress
    const Vals *expectIn = nullptr; Fn *expectFn = nullptr; Vals giveOut; std::string giveError; int callsSeen = 0;
};

static const VSFrame *VS_CC gf(int, int reason, void *d, void **, VSFrameContext *, VSCore *core, const VSAPI *a) {
    if (reason != arInitial) return nullptr;
    World *w = ((std::pair<World *, int> *)d)->first; int k = ((std::pair<World *, int> *)d)->second;
    if (k < 2) { VSVideoFormat f; a->queryVideoFormat(&f, cfGray, stInteger, 8, 0, 0, core); return a->newVideoFrame(&f, 8 + k, 2, nullptr, core); }
    VSAudioFormat f; a->queryAudioFormat(&f, stInteger, 16, 3, core); (void)w;
    return a->newAudioFrame(&f, 100, nullptr, core);
}
static void VS_CC nodeFree(void *d, VSCore *, const VSAPI *) { auto p = (std::pair<World *, int> *)d; p->first->nodeFrees[p->second]++; delete p; }
static void VS_CC fuCall(const VSMap *, VSMap *out, void *, VSCore *, const VSAPI *a) { a->mapSetInt(out, "val", 7, maReplace); }
static void VS_CC fuFree(void *d) { auto p = (std::pair<World *, int> *)d; p->first->fnFrees[p->second]++; delete p; }

static std::string dataOf(uint64_t id) { std::string s = fmt("d%llu", (unsigned long long)id % 1000); if (id % 3 == 0) s += std::string("\0x", 2); return s; }
static void *objOf(World &w, int type, uint64_t id) {
    int i = id & 1;
    switch (type) {
        case ptVideoNode: return w.vn[i]; case ptAudioNode: return w.an[i];
        case ptVideoFrame: return (void *)w.vf[i]; case ptAudioFrame: return (void *)w.af[i];
        case ptFunction: return w.fu[i];
    }
    return nullptr;
}
static void fillMap(World &w, VSMap *m, const Vals &vals) {
    auto a = api();
    for (auto &e : vals) {
        const char *k = e.first.c_str();
        if (e.second.v.empty()) { if (a->mapSetEmpty(m, k, e.second.type)) viol("map", "mapSetEmpty failed"); continue; }
        for (uint64_t v : e.second.v) {
            int r = 0; double d; 
            switch (e.second.type) {
                case ptInt: r = a->mapSetInt(m, k, (int64_t)v, maAppend); break;
                case ptFloat: d = (double)(int64_t)v / 16; r = a->mapSetFloat(m, k, d, maAppend); break;
                case ptData: { std::string s = dataOf(v); r = a->mapSetData(m, k, s.data(), (int)s.size(), dtBinary, maAppend); break; }
                case ptVideoNode: case ptAudioNode: r = a->mapSetNode(m, k, (VSNode *)objOf(w, e.second.type, v), maAppend); break;
                case ptVideoFrame: case ptAudioFrame: r = a->mapSetFrame(m, k, (VSFrame *)objOf(w, e.second.type, v), maAppend); break;
                case ptFunction: r = a->mapSetFunction(m, k, (VSFunction *)objOf(w, e.second.type, v), maAppend); break;
            }
            if (r) viol("map", fmt("setting %s failed", k));
        }
    }
}
static std::string mapDiff(World &w, const VSMap *m, const Vals &vals) {
    auto a = api();
    if (a->mapNumKeys(m) != (int)vals.size()) return fmt("%d keys instead of %d", a->mapNumKeys(m), (int)vals.size());
    for (auto &e : vals) {
        const char *k = e.first.c_str();
        if (a->mapGetType(m, k) != e.second.type) return fmt("%s has type %d instead of %d", k, a->mapGetType(m, k), e.second.type);
        if (a->mapNumElements(m, k) != (int)e.second.v.size()) return fmt("%s has %d elements instead of %d", k, a->mapNumElements(m, k), (int)e.second.v.size());
        for (int i = 0; i < (int)e.second.v.size(); i++) {
            uint64_t v = e.second.v[i]; int err = 0; bool ok = true;
            switch (e.second.type) {
                case ptInt: ok = a->mapGetInt(m, k, i, &err) == (int64_t)v; break;
                case ptFloat: ok = a->mapGetFloat(m, k, i, &err) == (double)(int64_t)v / 16; break;
                case ptData: { const char *d = a->mapGetData(m, k, i, &err); ok = d && std::string(d, a->mapGetDataSize(m, k, i, &err)) == dataOf(v); break; }
                case ptVideoNode: case ptAudioNode: { VSNode *n = a->mapGetNode(m, k, i, &err); ok = n == objOf(w, e.second.type, v); a->freeNode(n); break; }
                case ptVideoFrame: case ptAudioFrame: { const VSFrame *n = a->mapGetFrame(m, k, i, &err); ok = n == objOf(w, e.second.type, v); a->freeFrame(n); break; }
                case ptFunction: { VSFunction *n = a->mapGetFunction(m, k, i, &err); ok = n == objOf(w, e.second.type, v); a->freeFunction(n); break; }
            }
            if (!ok || err) return fmt("%s[%d] differs", k, i);
        }
    }
    return "";
}

static void VS_CC fnCall(const VSMap *in, VSMap *out, void *ud, VSCore *core, const VSAPI *a) {
    Fn *f = (Fn *)ud; World &w = *f->w;
    w.callsSeen++; f->calls++;
    if (core != w.core) viol("core", "the function was called with another core");
    if (f != w.expectFn) { viol("wrongfn", fmt("function %s was run when %s was called", f->name.c_str(), w.expectFn ? w.expectFn->name.c_str() : "none")); return; }
    std::string d = mapDiff(w, in, *w.expectIn);
    if (!d.empty()) viol("args", "arguments changed on the way: " + d);
    if (!w.giveError.empty()) a->mapSetError(out, w.giveError.c_str());
    else fillMap(w, out, w.giveOut);
}
static void VS_CC onLog(int t, const char *m, void *ud) { if (t >= mtWarning) ((World *)ud)->log.push_back(m); }

// what a well-formed signature says about a set of values; empty: acceptable
static std::set<std::string> mismatches(const Sig &s, const Vals &v) {
    std::set<std::string> bad;
    std::set<std::string> known;
    for (auto &g : s.args) {
        known.insert(g.name);
        auto it = v.find(g.name);
        if (it == v.end()) { if (!g.opt) bad.insert(g.name); continue; }
        if (it->second.type != g.type) bad.insert(g.name);
        else if (!g.arr && it->second.v.size() > 1) bad.insert(g.name);
        else if (!g.empty && it->second.v.empty()) bad.insert(g.name);
    }
    if (!s.any) for (auto &e : v) if (!known.count(e.first)) bad.insert(e.first);
    return bad;
}
static std::string ident(Rng &r, bool bad) {
    static const char first[] = "abcxyzABZ", rest[] = "abcxyzABZ0189_";
    std::string s(1, first[r.below(9)]);
    int n = r.below(4);
    while (n--) s += rest[r.below(14)];
    if (bad) {
        switch (r.below(5)) {
            case 0: s = r.chance(50) ? "_" + s : "7" + s; break;
            case 1: s.insert(r.below((int)s.size() + 1), 1, " -.[]/+\t"[r.below(8)]); break;
            case 2: s += (char)(0x80 + r.below(100)); break;
            case 3: s.insert(0, 1, "@`{[^"[r.below(5)]); break;
            case 4: s += "@`{[^/"[r.below(6)]; break;
        }
    }
    return s;
}
static Sig makeSig(Rng &r, bool &valid) {
    Sig s; valid = true;
    int n = r.below(5);
    int badAt = r.chance(30) ? r.below(n + 1) : -1;
    std::set<std::string> used;
    for (int i = 0; i < n; i++) {
        Arg g; int tries = 0;
        int bad = i == badAt ? 1 + r.below(8) : 0;
        do g.name = ident(r, bad == 1); while (used.count(g.name) && tries++ < 50);
        if (used.count(g.name)) continue;
        used.insert(g.name);
        int t = r.below(8);
        g.type = typeIds[t]; g.arr = r.chance(40); g.opt = r.chance(50); g.empty = g.arr && r.chance(40);
        std::string ty = typeNames[t];
        if (bad == 2) ty = r.pick(std::vector<std::string>{"Int", "integer", "clip", "frame", "node", "string", "floa", "vnodes", "any", "in", "function"});
        std::string tx = g.name + ":" + ty + (g.arr ? "[]" : "");
        if (bad == 3) tx = g.name;
        if (bad == 4) tx += r.pick(std::vector<std::string>{"[]", "[", "]", "*", " "});
        std::vector<std::string> mods;
        if (g.opt) mods.push_back("opt");
        if (g.empty) mods.push_back("empty");
        if (mods.size() == 2 && r.chance(50)) std::swap(mods[0], mods[1]);
        if (bad == 5) mods.insert(mods.begin() + r.below((int)mods.size() + 1), r.pick(std::vector<std::string>{"optional", "Opt", "emty", "int", "null"}));
        if (bad == 6) { if (mods.empty()) mods = {"opt", "opt"}; else mods.push_back(mods[r.below((int)mods.size())]); }
        if (bad == 7 && !g.arr) { mods.push_back("empty"); }
        if (bad == 7 && g.arr) bad = 0;
        if (bad == 4 && !g.arr && tx.size() > 2 && tx.substr(tx.size() - 2) == "[]") { bad = 0; g.arr = true; }
        if (bad == 8) { tx = ":" + ty; mods.clear(); if (ty == "any") bad = 0; }
        for (auto &m : mods) tx += ":" + m;
        if (bad) valid = false;
        s.args.push_back(g);
        s.text += tx + ";";
    }
    if (r.chance(20)) { s.any = true; s.text += "any"; }
    else if (!s.text.empty() && r.chance(20)) s.text.pop_back();       // the last separator is not required
    return s;
}
static Val randVal(Rng &r, int type, int n) { Val v; v.type = type; while (n-- > 0) v.v.push_back(type == ptInt ? r.next() : r.next() % 100000); return v; }

static Vals makeVals(Rng &r, const Sig &s, int wrongPct) {
    Vals v;
    for (auto &g : s.args) {
        if (g.opt ? r.chance(50) : r.chance(wrongPct / 3)) continue;
        int type = g.type, n = 1;
        if (g.arr) n = g.empty && r.chance(30) ? 0 : r.range(1, 3);
        if (r.chance(wrongPct)) switch (r.below(3)) { case 0: type = typeIds[r.below(8)]; break; case 1: n = 0; break; case 2: n = 2; break; }
        v[g.name] = randVal(r, type, n);
    }
    if (r.chance(s.any ? 50 : wrongPct)) v[ident(r, false)] = randVal(r, typeIds[r.below(8)], r.range(0, 2));
    return v;
}

static std::string gPlugDir;
static bool loadPlug(VSCore *core, const std::string &name) {
    auto a = api();
    VSMap *in = a->createMap(); std::string p = gPlugDir + name + ".so";
    a->mapSetData(in, "path", p.c_str(), -1, dtUtf8, maReplace);
    VSMap *o = a->invoke(a->getPluginByID("com.vapoursynth.std", core), "LoadPlugin", in);
    bool ok = !a->mapGetError(o);
    a->freeMap(o); a->freeMap(in);
    return ok;
}

// loading plugins: what is loadable, what may not be loaded twice, and what is listed
struct PInfo { std::string id, ns, file; int num; bool mod; int ver; };
static void plugCase(uint64_t seed) {
    auto a = api();
    Rng r(seed);
    VSCore *core = a->createCore(ccfDisableAutoLoading | (r.chance(30) ? ccfDisableLibraryUnloading : 0));
    VSPlugin *stdp = a->getPluginByID("com.vapoursynth.std", core);
    std::map<std::string, PInfo> have; std::set<std::string> base;
    for (VSPlugin *p = a->getNextPlugin(nullptr, core); p; p = a->getNextPlugin(p, core)) base.insert(a->getPluginID(p));
    static const std::vector<PInfo> all = {{"com.verif.a", "va", "pa", 0, true, 0}, {"com.verif.b", "vb", "pb", 1, false, 0}, {"com.verif.a", "vc", "pc", 2, false, 0}, {"com.verif.d", "va", "pd", 3, false, 0},
        {"", "", "pe", 4, false, 0}, {"", "", "pf", 5, false, 0}, {"", "", "pg", 6, false, 0}, {"", "", "ph", -1, false, 0}, {"", "", "missing", -1, false, 0}, {"com.verif.i", "vi", "sub/pi", 7, false, 0}};
    uint64_t hist = 0; int good = 0, bad = 0;
    int steps = r.range(8, 25);
    for (int i = 0; i < steps; i++) {
        hEvals++;
        bool many = r.chance(12);
        std::map<std::string, PInfo> want = have;
        if (many) {
            VSMap *in = a->createMap();
            bool sub = r.chance(50);
            a->mapSetData(in, "path", (gPlugDir + (sub ? "sub" : "")).c_str(), -1, dtUtf8, maReplace);
            VSMap *o = a->invoke(stdp, "LoadAllPlugins", in);
            if (a->mapGetError(o)) viol("plug:all", std::string("LoadAllPlugins failed: ") + a->mapGetError(o));
            a->freeMap(o); a->freeMap(in);
            // directories are read in no particular order, so of plugins that exclude each other any may win
            for (int pass = 0; pass < 1; pass++) for (auto &q : all) if (!q.id.empty() && (!sub || q.file.rfind("sub/", 0) == 0)) {
                bool idIn = false, nsIn = false, rival = false;
                for (auto &e : have) { if (e.first == q.id) idIn = true; if (e.second.ns == q.ns) nsIn = true; }
                for (auto &z : all) if (!z.id.empty() && z.file != q.file && (z.id == q.id || z.ns == q.ns) && !sub) rival = true;
                VSPlugin *p = a->getPluginByID(q.id.c_str(), core);
                bool isThis = p && q.ns == a->getPluginNamespace(p) && strstr(a->getPluginPath(p), (q.file + ".so").c_str());
                if (idIn || nsIn) continue;
                if (!rival && !isThis) viol("plug:all", "LoadAllPlugins did not load " + q.file);
                if (isThis) want[q.id] = q;
            }
            have = want;
        } else {
            PInfo q = r.pick(all);
            std::string fns = r.chance(25) ? fmt("ns%d", r.below(3)) : "", fid = r.chance(25) ? fmt("id.%d", r.below(3)) : "";
            VSMap *in = a->createMap();
            a->mapSetData(in, "path", (gPlugDir + q.file + ".so").c_str(), -1, dtUtf8, maReplace);
            if (!fns.empty()) a->mapSetData(in, "forcens", fns.c_str(), -1, dtUtf8, maReplace);
            if (!fid.empty()) a->mapSetData(in, "forceid", fid.c_str(), -1, dtUtf8, maReplace);
            VSMap *o = a->invoke(stdp, "LoadPlugin", in);
            bool ok = !a->mapGetError(o);
            a->freeMap(o); a->freeMap(in);
            bool expect = !q.id.empty();
            if (expect) {
                if (!fns.empty()) q.ns = fns;
                if (!fid.empty()) q.id = fid;
                if (have.count(q.id)) expect = false;
                for (auto &e : have) if (e.second.ns == q.ns) expect = false;
            }
            if (ok != expect) viol(ok ? "plug:accepted" : "plug:refused", fmt("loading %s (id '%s', namespace '%s') %s", q.file.c_str(), q.id.c_str(), q.ns.c_str(), ok ? "succeeded" : "failed"));
            if (ok) { have[q.id] = q; good++; } else bad++;
            hist = mix(hist, (q.num + 2) * 4 + ok);
        }
        std::set<std::string> listed; int n = 0;
        for (VSPlugin *p = a->getNextPlugin(nullptr, core); p && n < 100; p = a->getNextPlugin(p, core)) {
            n++; std::string id = a->getPluginID(p); listed.insert(id);
            if (a->getPluginByID(id.c_str(), core) != p || a->getPluginByNamespace(a->getPluginNamespace(p), core) != p) viol("plug:lookup", "a listed plugin is not found by its id and namespace");
        }
        std::set<std::string> w = base; for (auto &e : have) w.insert(e.first);
        if (listed != w || n != (int)w.size()) viol("plug:list", fmt("%d plugins are listed instead of %d", n, (int)w.size()));
        for (auto &e : have) {
            VSPlugin *p = a->getPluginByID(e.first.c_str(), core);
            if (!p) continue;
            if (e.second.ns != a->getPluginNamespace(p) || a->getPluginVersion(p) != VS_MAKE_VERSION(3, 7) || !strstr(a->getPluginPath(p), (e.second.file + ".so").c_str())) viol("plug:info", "a loaded plugin has the wrong namespace, version or path");
            VSMap *in = a->createMap(); int64_t x = r.below(1000); a->mapSetInt(in, "x", x, maReplace);
            VSMap *o = a->invoke(p, "Add", in); int err = 0;
            if (a->mapGetError(o) || a->mapGetInt(o, "val", 0, &err) != x + e.second.num) viol("plug:call", "calling a function of a loaded plugin failed");
            a->freeMap(o);
            a->freeMap(in);
            std::string fn = fmt("New%d", i);
            bool reg = a->registerFunction(fn.c_str(), "", "any", fnCall, nullptr, p) != 0;
            if (reg != e.second.mod) viol("plug:mod", fmt("a plugin that is %smodifiable %s a new function", e.second.mod ? "" : "not ", reg ? "accepted" : "refused"));
            if (!!a->getPluginFunctionByName(fn.c_str(), p) != e.second.mod) viol("plug:mod", "a refused function is listed, or an accepted one is not");
        }
    }
    if (good && bad) hDistinct.insert(hist);
    count("plugins_loaded", good); count("loads_refused", bad);
    a->freeCore(core);
}

// directories of plugins, with and without manifests, and plugins built for several processors
namespace fs = std::filesystem;
static int cpuLevel() {
    if (!(__builtin_cpu_supports("x86-64-v3"))) return 1;
    if (!(__builtin_cpu_supports("x86-64-v4"))) return 2;
    return __builtin_cpu_supports("vaes") && __builtin_cpu_supports("avx512ifma") && __builtin_cpu_supports("avx512vbmi") && __builtin_cpu_supports("avx512vbmi2") && __builtin_cpu_supports("avx512vnni")
        && __builtin_cpu_supports("avx512bitalg") && __builtin_cpu_supports("avx512vpopcntdq") && __builtin_cpu_supports("gfni") ? 4 : 3;
}
static const char *levelExt[] = {"", "", ".avx2", ".avx512", ".zn4"};
struct Dir { std::string path; std::map<std::string, int> files; std::vector<std::unique_ptr<Dir>> subs; bool manifest = false, header = true; std::vector<std::string> lines; };
// files: name without extension -> plugin * 10 + level, or -1 for a file that is no plugin
struct Tree { Rng &r; std::vector<int> left; };
static std::unique_ptr<Dir> makeDir(Tree &t, const fs::path &at, int depth) {
    Rng &r = t.r;
    auto d = std::make_unique<Dir>(); d->path = at.string();
    fs::create_directories(at);
    for (int n = r.range(0, 3); n > 0 && !t.left.empty(); n--) {
        int q = t.left.back(); t.left.pop_back();
        for (int lv = 1; lv <= (q < 3 ? 4 : 1); lv++) if (lv == 1 ? r.chance(85) : r.chance(45)) d->files[fmt("q%d%s", q, levelExt[lv])] = q * 10 + lv;
    }
    if (r.chance(30)) d->files["ph"] = -1;
    if (r.chance(30)) d->files["pg"] = -1;
    if (r.chance(30)) d->files["pe"] = -1;
    for (auto &f : d->files) {
        fs::path src = gPlugDir + (f.second < 0 ? f.first : fmt("../plugq/q%d_%d", f.second / 10, f.second % 10)) + ".so", dst = at / (f.first + ".so");
        if (r.chance(70)) fs::create_symlink(src, dst); else fs::copy_file(src, dst);
    }
    if (r.chance(30)) fs::create_symlink(gPlugDir + "readme.txt", at / "q5.so.txt");
    if (r.chance(20)) fs::create_symlink(at / "gone.so", at / "dangling.so");
    if (depth < 2) for (int n = r.range(0, 2); n > 0; n--) d->subs.push_back(makeDir(t, at / (r.chance(20) ? fmt("s%d.so", n) : fmt("s%d", n)), depth + 1));
    return d;
}
static void allNames(Dir &d, const std::string &pre, std::vector<std::string> &out) {
    for (auto &f : d.files) out.push_back(pre + f.first);
    for (auto &s : d.subs) allNames(*s, pre + fs::path(s->path).filename().string() + "/", out);
}
static void makeManifests(Rng &r, Dir &d) {
    if (r.chance(35)) {
        std::vector<std::string> names; allNames(d, "", names);
        d.manifest = true; d.header = r.chance(80);
        for (int n = r.range(0, 4); n > 0; n--) {
            std::string s = names.empty() || r.chance(20) ? r.pick(std::vector<std::string>{"missing", "readme", "q0", "q1", "q2", "s1/q0", "s1", "."}) : r.pick(names);
            if (r.chance(40) && s.find('.') != std::string::npos && s[0] == 'q') s = s.substr(0, 2);
            d.lines.push_back(s);
        }
        static const std::vector<std::string> nls = {"\n", "\r\n", "\n\n", "\r", "\n\r\n"};
        std::string nl = r.pick(nls), text = d.header ? "[VapourSynth Manifest V1]" : r.pick(std::vector<std::string>{"[VapourSynth Manifest V2]", " [VapourSynth Manifest V1]", "q0", "[vapoursynth manifest v1]", "[VapourSynth Manifest V1"});
        if (r.chance(20)) text = nl + text;
        for (auto &l : d.lines) text += nl + l;
        if (r.chance(60)) text += nl;
        if (!d.header && r.chance(30)) { d.lines.clear(); text = r.pick(std::vector<std::string>{"", "\n", "\r\n\r\n", "\r"}); }
        std::ofstream(d.path + "/manifest.vs", std::ios::binary) << text;
    }
    for (auto &s : d.subs) makeManifests(r, *s);
}
struct Loaded { std::string path; int q, level; };
// the file a path without extension stands for, following the layout of the tree
static int lookUp(Dir &d, const std::string &name) {
    size_t p = name.find('/');
    if (p == std::string::npos) { auto it = d.files.find(name); return it == d.files.end() ? -2 : it->second; }
    for (auto &s : d.subs) if (fs::path(s->path).filename().string() == name.substr(0, p)) return lookUp(*s, name.substr(p + 1));
    return -2;
}
// cand: per plugin the files that may have been loaded (one of them has to be)
static void expectDir(Dir &d, bool root, std::map<int, std::vector<Loaded>> &cand) {
    if (!root && d.manifest) {
        if (!d.header) return;
        for (auto &l : d.lines) {
            std::string name = l; int got = lookUp(d, l);
            for (int lv = cpuLevel(); lv > 1; lv--) { int g = lookUp(d, l + levelExt[lv]); if (g != -2) { name = l + levelExt[lv]; got = g; break; } }
            if (got >= 0 && !cand.count(got / 10)) cand[got / 10] = {{d.path + "/" + name + ".so", got / 10, got % 10}};
        }
        return;
    }
    std::map<int, std::vector<Loaded>> mine;
    for (auto &f : d.files) if (f.second >= 0) mine[f.second / 10].push_back({d.path + "/" + f.first + ".so", f.second / 10, f.second % 10});
    for (auto &m : mine) cand.insert(m);
    for (auto &s : d.subs) expectDir(*s, false, cand);
}
static void dirCase(uint64_t seed) {
    auto a = api();
    Rng r(seed);
    char tmpl[4096]; snprintf(tmpl, sizeof tmpl, "%s/verifplugXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp");
    if (!mkdtemp(tmpl)) { hLine("SKIP no scratch directory"); _exit(77); }
    fs::path top = tmpl;
    {
        Tree t{r, {0, 1, 2, 3, 4, 5}};
        for (int i = 5; i > 0; i--) std::swap(t.left[i], t.left[r.below(i + 1)]);
        auto d = makeDir(t, top / "p", 0);
        makeManifests(r, *d);
        bool env = r.chance(30);
        if (env) setenv("VAPOURSYNTH_EXTRA_PLUGIN_PATH", d->path.c_str(), 1); else unsetenv("VAPOURSYNTH_EXTRA_PLUGIN_PATH");
        VSCore *core = a->createCore((env ? 0 : ccfDisableAutoLoading) | (r.chance(30) ? ccfDisableLibraryUnloading : 0));
        unsetenv("VAPOURSYNTH_EXTRA_PLUGIN_PATH");
        std::map<int, std::vector<Loaded>> cand;
        int times = env ? r.range(0, 1) : r.range(1, 2);
        if (env) expectDir(*d, true, cand);
        for (int i = 0; i < times; i++) {
            Dir *at = d.get();
            if (!d->subs.empty() && r.chance(40)) at = r.pick(std::vector<Dir *>{d->subs[0].get(), d->subs.back().get()});
            VSMap *in = a->createMap(); a->mapSetData(in, "path", (at->path + (r.chance(20) ? "/" : "")).c_str(), -1, dtUtf8, maReplace);
            VSMap *o = a->invoke(a->getPluginByID("com.vapoursynth.std", core), "LoadAllPlugins", in);
            if (a->mapGetError(o)) viol("dir:error", std::string("LoadAllPlugins failed: ") + a->mapGetError(o));
            a->freeMap(in); a->freeMap(o);
            std::map<int, std::vector<Loaded>> more; expectDir(*at, false, more);
            for (auto &m : more) cand.insert(m);
        }
        int n = 0;
        for (VSPlugin *p = a->getNextPlugin(nullptr, core); p; p = a->getNextPlugin(p, core)) {
            std::string id = a->getPluginID(p);
            if (id.rfind("com.verif.", 0) != 0) continue;
            n++; hEvals++;
            int q = id.rfind("com.verif.q", 0) == 0 ? atoi(id.c_str() + 11) : -1;
            if (!cand.count(q)) { viol("dir:extra", fmt("%s was loaded from %s although nothing asks for it", id.c_str(), a->getPluginPath(p))); continue; }
            VSMap *in = a->createMap(); a->mapSetInt(in, "x", 0, maReplace);
            VSMap *o = a->invoke(p, "Add", in); int err = 0; int64_t v = a->mapGetError(o) ? -1 : a->mapGetInt(o, "val", 0, &err);
            a->freeMap(in); a->freeMap(o);
            bool fits = false; std::string w;
            for (auto &l : cand[q]) { w += " " + l.path; if (fs::path(l.path).lexically_normal() == fs::path(a->getPluginPath(p)).lexically_normal() && v == 1000 + q + 10 * l.level) fits = true; }
            if (!fits) viol("dir:file", fmt("%s was loaded from %s (build %d), expected:%s", id.c_str(), a->getPluginPath(p), (int)((v - 1000) / 10), w.c_str()));
        }
        if (n != (int)cand.size()) viol("dir:missing", fmt("%d plugins were loaded from the directory instead of %d", n, (int)cand.size()));
        hEvals++;
        count("directories", 1); count("plugins_from_directories", n);
        if (n) hDistinct.insert(seed);
        a->freeCore(core);
    }
    fs::remove_all(top);
}

static void oneCase(uint64_t seed) {
    auto a = api();
    World w; w.rng = Rng(seed); Rng &r = w.rng;
    w.core = a->createCore(ccfDisableAutoLoading | (r.chance(50) ? ccfEnableGraphInspection : 0));
    VSLogHandle *lh = a->addLogHandler(onLog, nullptr, &w, w.core);
    if (!loadPlug(w.core, "pa")) { hLine("SKIP cannot load the test plugin"); _exit(77); }
    w.plug = a->getPluginByNamespace("va", w.core);
    if (!w.plug || w.plug != a->getPluginByID("com.verif.a", w.core)) { viol("plugin", "a loaded plugin is not found"); return; }
    std::set<std::string> builtin;
    for (VSPluginFunction *f = a->getNextPluginFunction(nullptr, w.plug); f; f = a->getNextPluginFunction(f, w.plug)) builtin.insert(a->getPluginFunctionName(f));
    VSVideoInfo vi{}; vi.width = 8; vi.height = 2; vi.numFrames = 2; a->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, w.core);
    VSAudioInfo ai{}; ai.numSamples = 100; ai.sampleRate = 100; a->queryAudioFormat(&ai.format, stInteger, 16, 3, w.core);
    for (int i = 0; i < 2; i++) {
        vi.width = 8 + i;
        w.vn[i] = a->createVideoFilter2("v", &vi, gf, nodeFree, fmParallel, nullptr, 0, new std::pair<World *, int>(&w, i), w.core);
        w.an[i] = a->createAudioFilter2("a", &ai, gf, nodeFree, fmParallel, nullptr, 0, new std::pair<World *, int>(&w, 2 + i), w.core);
        w.vf[i] = a->getFrame(0, w.vn[i], nullptr, 0);
        w.af[i] = a->getFrame(0, w.an[i], nullptr, 0);
        w.fu[i] = a->createFunction(fuCall, new std::pair<World *, int>(&w, i), fuFree, w.core);
    }
    uint64_t hist = 0; int accepted = 0, rejected = 0;
    int steps = r.range(30, 60);
    for (int i = 0; i < steps; i++) {
        hEvals++;
        if (w.fns.empty() || r.chance(30)) {            // register
            bool nameBad = r.chance(15);
            std::string name = ident(r, nameBad);
            if (!w.fns.empty() && r.chance(10)) name = w.fns.begin()->first;
            bool v1, v2; auto f = std::make_unique<Fn>();
            f->w = &w; f->name = name; f->in = makeSig(r, v1); f->out = makeSig(r, v2);
            std::string ret = f->out.text;
            if (r.chance(30)) { ret = "any"; f->outAny = true; v2 = true; }
            bool expect = !nameBad && v1 && v2 && !w.fns.count(name) && !builtin.count(name);
            int got = a->registerFunction(name.c_str(), f->in.text.c_str(), ret.c_str(), fnCall, f.get(), w.plug);
            if (!!got != expect) { viol(expect ? "reg:refused" : "reg:accepted", fmt("registering '%s' with arguments '%s' returning '%s' %s", name.c_str(), f->in.text.c_str(), ret.c_str(), got ? "succeeded" : "failed")); if (got) return; }
            VSPluginFunction *pf = a->getPluginFunctionByName(name.c_str(), w.plug);
            if (expect && got) {
                if (!pf || name != a->getPluginFunctionName(pf) || f->in.text != a->getPluginFunctionArguments(pf) || ret != a->getPluginFunctionReturnType(pf)) viol("reg:lookup", "a registered function is not found as it was registered");
                f->out.text = ret;
                w.fns[name] = std::move(f);
            } else if (!w.fns.count(name) && !builtin.count(name) && pf) viol("reg:left", "a function that could not be registered is listed");
            std::set<std::string> listed;
            int n = 0;
            for (VSPluginFunction *p = a->getNextPluginFunction(nullptr, w.plug); p && n < 500; p = a->getNextPluginFunction(p, w.plug)) { n++; listed.insert(a->getPluginFunctionName(p)); }
            std::set<std::string> want = builtin; for (auto &e : w.fns) want.insert(e.first);
            if (listed != want || n != (int)want.size()) viol("reg:list", fmt("%d functions are listed instead of %d", n, (int)want.size()));
            hist = mix(hist, expect);
        } else if (r.chance(5)) {
            VSMap *in = a->createMap();
            std::string name = "nosuch" + ident(r, false);
            VSMap *o = a->invoke(w.plug, name.c_str(), in);
            if (!o || !a->mapGetError(o) || !strstr(a->mapGetError(o), name.c_str())) viol("call:unknown", "calling a function that does not exist gives no proper error");
            a->freeMap(o); a->freeMap(in);
        } else {
            auto it = w.fns.begin(); std::advance(it, r.below((int)w.fns.size()));
            Fn *f = it->second.get();
            Vals in = makeVals(r, f->in, r.chance(50) ? 0 : 20);
            auto bad = mismatches(f->in, in);
            w.giveOut = f->outAny ? Vals() : makeVals(r, f->out, r.chance(60) ? 0 : 20);
            if (f->outAny) w.giveOut["res"] = randVal(r, typeIds[r.below(8)], r.range(0, 3));
            w.giveError = r.chance(10) ? fmt("E%d: it failed", i) : "";
            auto badOut = f->outAny ? std::set<std::string>() : mismatches(f->out, w.giveOut);
            VSMap *m = a->createMap(); fillMap(w, m, in);
            w.expectFn = f; w.expectIn = &in; w.callsSeen = 0; w.log.clear();
            VSMap *o = a->invoke(w.plug, f->name.c_str(), m);
            w.expectFn = nullptr;
            std::string d = mapDiff(w, m, in);
            if (!d.empty()) viol("args:caller", "the caller's arguments were changed: " + d);
            const char *err = a->mapGetError(o);
            if (bad.empty()) {
                accepted++;
                if (w.callsSeen != 1) viol(w.callsSeen ? "call:twice" : "call:refused", fmt("a correct call of '%s' (%s) ran the function %d times: %s", f->name.c_str(), f->in.text.c_str(), w.callsSeen, err ? err : ""));
                else if (!w.giveError.empty()) { if (!err || w.giveError != err) viol("call:error", "an error set by the function is not returned unchanged"); }
                else {
                    if (err) viol("call:spurious", fmt("a successful call returned the error %s", err));
                    else { d = mapDiff(w, o, w.giveOut); if (!d.empty()) viol("result", "results changed on the way: " + d); }
                    if (badOut.empty() != w.log.empty()) viol("result:warn", fmt("function '%s' returning '%s': %d warnings about the returned values, %d values do not match", f->name.c_str(), f->out.text.c_str(), (int)w.log.size(), (int)badOut.size()));
                }
            } else {
                rejected++;
                if (w.callsSeen) viol("call:accepted", fmt("a call of '%s' (%s) ran although argument '%s' is wrong, missing or unknown", f->name.c_str(), f->in.text.c_str(), bad.begin()->c_str()));
                else if (!err) viol("call:silent", "a call with wrong arguments failed without an error");
                else {
                    bool named = false;
                    for (auto &b : bad) if (strstr(err, b.c_str())) named = true;
                    if (!named || !strstr(err, f->name.c_str())) viol("call:message", fmt("the error '%s' does not name the function and the argument", err));
                }
            }
            a->freeMap(m); a->freeMap(o);
            hist = mix(hist, bad.size() * 16 + in.size());
        }
    }
    // wrapped functions
    for (int i = 0; i < 2; i++) {
        VSFunction *f2 = a->addFunctionRef(w.fu[i]);
        VSMap *in = a->createMap(), *out = a->createMap();
        a->mapConsumeFunction(in, "f", f2, maAppend);
        a->freeFunction(w.fu[i]);
        if (w.fnFrees[i]) viol("func:early", "a function that is still referenced by a map was released");
        VSFunction *g = a->mapGetFunction(in, "f", 0, nullptr);
        a->freeMap(in);
        if (w.fnFrees[i]) viol("func:early", "a function that is still referenced was released");
        a->callFunction(g, out, out);
        int err = 0;
        if (a->mapGetInt(out, "val", 0, &err) != 7 || err) viol("func:result", "calling a function gave no result");
        a->freeFunction(g); a->freeMap(out);
        if (w.fnFrees[i] != 1) viol("func:free", fmt("the free callback of a function ran %d times after its last reference was released", w.fnFrees[i]));
        a->freeFrame(w.vf[i]); a->freeFrame(w.af[i]);
        if (w.nodeFrees[i] || w.nodeFrees[2 + i]) viol("node:early", "a node that is still referenced was released");
        a->freeNode(w.vn[i]); a->freeNode(w.an[i]);
        if (w.nodeFrees[i] != 1 || w.nodeFrees[2 + i] != 1) viol("node:free", "references to a node passed through calls were not released exactly once");
    }
    if (accepted && rejected) hDistinct.insert(hist);
    count("calls_accepted", accepted); count("calls_rejected", rejected);
    a->removeLogHandler(lh, w.core);
    a->freeCore(w.core);
}

// one thread registers functions while others list and call them
static void VS_CC mtCall(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *a) {
    int e; a->mapSetInt(out, "val", a->mapGetInt(in, "x", 0, &e) + (int)(intptr_t)ud, maReplace);
}
static void threadCase(uint64_t seed) {
    auto a = api();
    auto a3 = (const v3::VSAPI *)getVapourSynthAPI(VAPOURSYNTH3_API_VERSION);
    Rng r(seed);
    VSCore *core = a->createCore(ccfDisableAutoLoading | (r.chance(50) ? ccfEnableGraphInspection : 0));
    if (!loadPlug(core, "pa")) { hLine("SKIP cannot load the test plugin"); _exit(77); }
    VSPlugin *p = a->getPluginByNamespace("va", core);
    int total = r.range(10, 30);
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < 3; t++) th.emplace_back([&, t] {
        Rng q(mix(seed, t + 5));
        for (int i = 0; i < 40; i++) {
            int known = ready.load();
            if (!known) { std::this_thread::yield(); continue; }
            int k = q.below(known);
            VSMap *in = a->createMap(); a->mapSetInt(in, "x", 1000 + i, maReplace);
            VSMap *o = a->invoke(p, fmt("F%d", (k * 7919) % 1000).c_str(), in);
            int e; int64_t v = a->mapGetError(o) ? -1 : a->mapGetInt(o, "val", 0, &e);
            if (v != 1000 + i + k) viol("mt:call", fmt("calling function %d while others are registered returned %d", k, (int)v));
            a->freeMap(in); a->freeMap(o);
            int n = 0;
            for (VSPluginFunction *f = a->getNextPluginFunction(nullptr, p); f; f = a->getNextPluginFunction(f, p)) n++;
            if (n < known) viol("mt:list", "a registered function is not listed");
            if (i % 4 == t) {
                VSMap *m = (VSMap *)a3->getFunctions((v3::VSPlugin *)p);
                if (a->mapNumKeys(m) < known) viol("mt:list", "a registered function is not in the list of API 3");
                a->freeMap(m);
            }
        }
    });
    for (int i = 0; i < total; i++) {
        if (!a->registerFunction(fmt("F%d", (i * 7919) % 1000).c_str(), "x:int;", "val:int;", mtCall, (void *)(intptr_t)i, p)) viol("mt:reg", "registration failed");
        ready++;
        if (i % 3 == 0) std::this_thread::yield();
    }
    for (auto &t : th) t.join();
    hEvals += 120; hDistinct.insert(seed);
    a->freeCore(core);
}

// several threads load plugins (each exactly one of them may win) while others look plugins up
static void plugThreadCase(uint64_t seed) {
    auto a = api();
    auto a3 = (const v3::VSAPI *)getVapourSynthAPI(VAPOURSYNTH3_API_VERSION);
    Rng r(seed);
    VSCore *core = a->createCore(ccfDisableAutoLoading | (r.chance(50) ? ccfEnableGraphInspection : 0));
    VSPlugin *stdp = a->getPluginByID("com.vapoursynth.std", core);
    int base = 0;
    for (VSPlugin *p = a->getNextPlugin(nullptr, core); p; p = a->getNextPlugin(p, core)) base++;
    a->setThreadCount(3, core); a->setMaxCacheSize(3 << 20, core);
    const int total = r.range(6, 24), loaders = r.range(1, 3);
    std::vector<int> q(total); for (auto &x : q) x = r.below(6);
    std::vector<std::atomic<int>> won(total), done(total); for (auto &x : won) x = 0; for (auto &x : done) x = 0;
    std::atomic<int> left{loaders};
    auto id = [](int k) { return fmt("m.%02d", (k * 7) % 29); }; auto ns = [](int k) { return fmt("n%02d", (k * 11) % 31); };
    std::vector<std::thread> th;
    for (int t = 0; t < loaders; t++) th.emplace_back([&, t] {
        Rng z(mix(seed, t + 50));
        std::vector<int> order(total); for (int i = 0; i < total; i++) order[i] = i;
        if (z.chance(50)) for (int i = total - 1; i > 0; i--) std::swap(order[i], order[z.below(i + 1)]);
        for (int k : order) {
            VSMap *in = a->createMap();
            a->mapSetData(in, "path", (gPlugDir + fmt("../plugq/q%d_1.so", q[k])).c_str(), -1, dtUtf8, maReplace);
            a->mapSetData(in, "forcens", ns(k).c_str(), -1, dtUtf8, maReplace); a->mapSetData(in, "forceid", id(k).c_str(), -1, dtUtf8, maReplace);
            VSMap *o = a->invoke(stdp, "LoadPlugin", in);
            if (!a->mapGetError(o)) won[k]++;
            else if (!strstr(a->mapGetError(o), id(k).c_str()) && !strstr(a->mapGetError(o), ns(k).c_str())) viol("mt:plugerr", std::string("loading a plugin failed with ") + a->mapGetError(o));
            a->freeMap(o); a->freeMap(in);
            done[k] = 1;
        }
        left--;
    });
    for (int t = 0; t < 3; t++) th.emplace_back([&, t] {
        Rng z(mix(seed, t + 5));
        for (int i = 0; i < 200 && (left || i < 20); i++) {
            std::vector<int> known; for (int k = 0; k < total; k++) if (done[k]) known.push_back(k);
            int what = z.below(5);
            if (what == 0) {
                int n = 0;
                for (VSPlugin *p = a->getNextPlugin(nullptr, core); p && n < 200; p = a->getNextPlugin(p, core)) { n++; if (!a->getPluginID(p)[0]) viol("mt:plugid", "a listed plugin has no id"); }
                if (n < base + (int)known.size()) viol("mt:pluglist", "a loaded plugin is not listed");
                if (n > base + total) viol("mt:pluglist", "more plugins are listed than were loaded");
            } else if (what == 1) {
                VSMap *m = (VSMap *)a3->getPlugins((v3::VSCore *)core);
                if (a->mapNumKeys(m) < base + (int)known.size()) viol("mt:pluglist", "a loaded plugin is not in the list of API 3");
                a->freeMap(m);
            } else if (what == 4) {
                if (t == 0) a->setThreadCount(z.range(2, 6), core);
                else if (t == 1) a->setMaxCacheSize((int64_t)z.range(2, 6) << 20, core);
                VSCoreInfo ci; a->getCoreInfo(core, &ci);
                if ((ci.numThreads < 2 || ci.numThreads > 6 || ci.maxFramebufferSize < (2 << 20) || ci.maxFramebufferSize > (6 << 20) || ci.core <= 0 || ci.api < A4)) viol("mt:info", fmt("the information about the core has %d threads, %lld bytes", ci.numThreads, (long long)ci.maxFramebufferSize));
            } else if (!known.empty()) {
                int k = z.pick(known);
                VSPlugin *p = what == 2 ? a->getPluginByID(id(k).c_str(), core) : a->getPluginByNamespace(ns(k).c_str(), core);
                if (!p || id(k) != a->getPluginID(p) || ns(k) != a->getPluginNamespace(p)) { viol("mt:pluglookup", "a loaded plugin is not found"); continue; }
                VSMap *in = a->createMap(); a->mapSetInt(in, "x", i, maReplace);
                VSMap *o = a->invoke(p, "Add", in); int err = 0;
                if (a->mapGetError(o) || a->mapGetInt(o, "val", 0, &err) != i + 1010 + q[k]) viol("mt:plugcall", "calling a function of a plugin while others are loaded failed");
                a->freeMap(o); a->freeMap(in);
            } else {
                if (a->getPluginByID("com.vapoursynth.std", core) != stdp || a->getPluginByNamespace("std", core) != stdp) viol("mt:pluglookup", "a loaded plugin is not found");
                std::this_thread::yield();
            }
            hEvals++;
        }
    });
    for (auto &t : th) t.join();
    int n = 0;
    for (VSPlugin *p = a->getNextPlugin(nullptr, core); p && n < 200; p = a->getNextPlugin(p, core)) n++;
    if (n != base + total) viol("mt:pluglist", fmt("%d plugins are listed instead of %d", n, base + total));
    for (int k = 0; k < total; k++) if (won[k] != 1) viol("mt:plugwon", fmt("%d of %d attempts to load the same plugin succeeded", won[k].load(), loaders));
    hDistinct.insert(seed); count("plugins_loaded_by_threads", total);
    a->freeCore(core);
}

int main(int argc, char **argv) {
    Args ar(argc, argv);
    int mt = ar.geti("mt", 0), pl = ar.geti("plug", 0);
    { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string s(b, n > 0 ? n : 0); gPlugDir = s.substr(0, s.rfind('/')) + "/plug/"; }
    for (int k = ar.from; k < ar.to; k++) {
        hLine(fmt("CASE %d", k));
        uint64_t s = mix(mix(ar.seed, 0x4e6), k);
        if (pl == 2) dirCase(s); else if (pl) plugCase(s); else if (mt) { if (k % 3 == 2) plugThreadCase(s); else threadCase(s); } else oneCase(s);
    }
    hDone();
    return 0;
}
