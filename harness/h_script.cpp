// VSScript C API: several scripts on several threads, each judged against a model of its variables, outputs, errors and lifetime.
#include "hcommon.h"
#include "VSScript4.h"
#include <filesystem>
#include <fstream>

static const VSSCRIPTAPI *S;
static const VSAPI *A;
static std::string tmpDir;
static std::atomic<int> uid{0};
static std::mutex evLock;
#define EV(k) do { std::lock_guard<std::mutex> l(evLock); hEvals++; if (k) hDistinct.insert(k); } while (0)
static void cnt(const char *k) { std::lock_guard<std::mutex> l(evLock); hCount[k]++; }

struct Val { int type; std::vector<int64_t> i; std::vector<double> f; std::vector<std::string> d; };   // 0 int 1 float 2 utf8 3 bytes
struct Out { int w, h, len, color; bool py, alpha; int acolor; int alt; };

struct CoreMark { std::atomic<int> frees{0}; std::mutex m; std::vector<std::pair<int, std::string>> msgs; };
static void VS_CC onMsg(int t, const char *m, void *u) { auto *c = (CoreMark *)u; std::lock_guard<std::mutex> l(c->m); c->msgs.push_back({t, m}); }
static void VS_CC onFree(void *u) { ((CoreMark *)u)->frees++; }

static std::string pyStr(const std::string &s, bool bytes) {
    std::string o = bytes ? "b'" : "'";
    for (unsigned char c : s)
        if (c < 0x20 || c == '\'' || c == '\\' || c >= 0x7f) {
            if (!bytes && c >= 0x80) o += (char)c;
            else o += fmt("\\x%02x", c);
        } else o += (char)c;
    return o + "'";
}
static std::string pyVal(const Val &v) {
    std::vector<std::string> e;
    if (v.type == 0) for (auto x : v.i) e.push_back(x == INT64_MIN ? std::string("(-9223372036854775807-1)") : std::to_string(x));
    if (v.type == 1) for (auto x : v.f) e.push_back(std::isnan(x) ? "float('nan')" : std::isinf(x) ? (x > 0 ? "float('inf')" : "-float('inf')") : fmt("float.fromhex('%a')", x));
    if (v.type >= 2) for (auto &x : v.d) e.push_back(pyStr(x, v.type == 3));
    if (e.size() == 1) return e[0];
    std::string s = "[";
    for (auto &x : e) s += x + ", ";
    return s + "]";
}
static Val randVal(Rng &r) {
    Val v; v.type = r.below(4);
    int n = r.chance(60) ? 1 : r.range(2, 5);
    for (int k = 0; k < n; k++) {
        static const std::vector<int64_t> I{0, -1, 1, INT64_MAX, INT64_MIN, 1ll << 53, -77};
        static const std::vector<double> F{0.0, -0.5, 1e308, 5e-324, INFINITY, 3.25};
        static const std::vector<std::string> U{"", "plain", "q\"'\\", "\xc3\xbc\xf0\x9f\x98\x80", "tab\tnl\n"};
        static const std::vector<std::string> B{std::string(), std::string("\0\xff\x01", 3), "bin", std::string(300, '\x80')};
        if (v.type == 0) v.i.push_back(r.pick(I)); else if (v.type == 1) v.f.push_back(r.pick(F)); else if (v.type == 2) v.d.push_back(r.pick(U)); else v.d.push_back(r.pick(B));
    }
    return v;
}
static std::string showMap(const VSMap *m, const char *k) {
    std::string s = fmt("type %d, %d elements:", A->mapGetType(m, k), A->mapNumElements(m, k));
    for (int j = 0; j < A->mapNumElements(m, k) && j < 4; j++) {
        int e;
        switch (A->mapGetType(m, k)) {
        case ptInt: s += fmt(" %lld", (long long)A->mapGetInt(m, k, j, &e)); break;
        case ptFloat: s += fmt(" %a", A->mapGetFloat(m, k, j, &e)); break;
        case ptData: s += fmt(" (%d bytes, hint %d)", A->mapGetDataSize(m, k, j, &e), A->mapGetDataTypeHint(m, k, j, &e)); break;
        }
    }
    return s;
}
static bool mapIs(const VSMap *m, const char *k, const Val &v) {
    int e;
    size_t n = v.type == 0 ? v.i.size() : v.type == 1 ? v.f.size() : v.d.size();
    if (A->mapNumElements(m, k) != (int)n || A->mapGetType(m, k) != (v.type == 0 ? ptInt : v.type == 1 ? ptFloat : ptData)) return false;
    for (size_t j = 0; j < n; j++) {
        if (v.type == 0 && A->mapGetInt(m, k, (int)j, &e) != v.i[j]) return false;
        if (v.type == 1 && A->mapGetFloat(m, k, (int)j, &e) != v.f[j]) return false;
        if (v.type >= 2 && (std::string(A->mapGetData(m, k, (int)j, &e), A->mapGetDataSize(m, k, (int)j, &e)) != v.d[j] || A->mapGetDataTypeHint(m, k, (int)j, &e) != (v.type == 2 ? dtUtf8 : dtBinary))) return false;
    }
    return true;
}
static void mapPut(VSMap *m, const char *k, const Val &v) {
    if (v.type == 0) for (auto x : v.i) A->mapSetInt(m, k, x, maAppend);
    if (v.type == 1) for (auto x : v.f) A->mapSetFloat(m, k, x, maAppend);
    if (v.type >= 2) for (auto &x : v.d) A->mapSetData(m, k, x.data(), (int)x.size(), v.type == 2 ? dtUtf8 : dtBinary, maAppend);
}

struct Script {
    VSScript *h = nullptr;
    VSCore *own = nullptr;
    std::shared_ptr<CoreMark> mark;
    std::map<std::string, Val> vars;
    std::map<int, Out> outs;
    int id = 0, threads = 0;
    bool dead = false;
    std::string hist;
};

static std::string outText(Rng &r, Script &s) {
    std::string t;
    static const std::vector<int> idx{0, 0, 1, 2, 5, 77, 1000000};
    int i = r.pick(idx);
    if (s.outs.count(i) && r.chance(30)) {
        s.outs.erase(i);
        return fmt("vs.clear_output(%d)\n", i);
    }
    Out o{r.range(1, 40), r.range(1, 9), r.range(1, 6), r.below(256), r.chance(50), r.chance(30), r.below(256), r.below(3)};
    t += fmt("c = vs.core.std.BlankClip(width=%d, height=%d, length=%d, format=vs.GRAY8, color=%d)\n", o.w, o.h, o.len, o.color);
    if (o.py) t += "def m(n, f):\n  g = f.copy()\n  g.props.who = 1000 * SECRET + n\n  return g\nc = vs.core.std.ModifyFrame(c, c, m)\ndel m\n";
    t += fmt("c.set_output(%d%s%s)\n", i, o.alpha ? fmt(", alpha=vs.core.std.BlankClip(width=%d, height=%d, length=%d, format=vs.GRAY8, color=%d)", o.w, o.h, o.len, o.acolor).c_str() : "", o.alt ? fmt(", alt_output=%d", o.alt).c_str() : "");
    if (r.chance(50)) t += "del c\n";
    s.outs[i] = o;
    return t;
}

static void checkFrame(Script &s, VSNode *n, const Out &o, int color, bool py, const std::string &w, Rng &r) {
    const VSVideoInfo *vi = A->getVideoInfo(n);
    if (vi->width != o.w || vi->height != o.h || vi->numFrames != o.len) { viol("output-info", w + fmt(": %dx%d, %d frames, expected %dx%d, %d", vi->width, vi->height, vi->numFrames, o.w, o.h, o.len)); return; }
    int k = r.below(o.len);
    char err[300] = "";
    const VSFrame *f = A->getFrame(k, n, err, sizeof err);
    if (!f) { viol("output-frame", w + ": " + err); return; }
    for (int y = 0; y < o.h; y++) for (int x = 0; x < o.w; x++)
        if (A->getReadPtr(f, 0)[y * A->getStride(f, 0) + x] != color) { viol("output-content", w + fmt(": value %d, expected %d", A->getReadPtr(f, 0)[y * A->getStride(f, 0) + x], color)); y = o.h; break; }
    int e;
    int64_t who = A->mapGetInt(A->getFramePropertiesRO(f), "who", 0, &e);
    if (py && (e || who != 1000ll * s.id + k)) viol("callback-isolation", w + fmt(": the frame was made by %lld, expected %lld", (long long)who, 1000ll * s.id + k));
    A->freeFrame(f);
    EV(0);
}

static void checkOuts(Script &s, Rng &r) {
    std::string w = fmt("script %d", s.id);
    int n = (int)s.outs.size();
    std::vector<int> got(n + 4, -12345), want;
    for (auto &o : s.outs) want.push_back(o.first);
    int size = r.range(0, n + 3);
    int t = S->getAvailableOutputNodes(s.h, size, size ? got.data() : nullptr);
    if (t != n) viol("outputs-count", w + fmt(": %d outputs reported, %d set", t, n));
    for (int j = size; j < n + 4; j++) if (got[j] != -12345) viol("outputs-overrun", w + fmt(": %d indices asked for, entry %d was written", size, j));
    int have = std::min(size, n);
    for (int j = 0; j < have; j++) {
        if (!s.outs.count(got[j])) viol("outputs-index", w + fmt(": index %d reported but not set", got[j]));
        if (j && got[j] <= got[j - 1]) viol("outputs-order", w + ": indices not increasing");
    }
    EV(mix(2, mix(size, n)));
    for (int i : {0, 1, 2, 5, 77, 1000000, -1, 3}) {
        VSNode *node = S->getOutputNode(s.h, i), *al = S->getOutputAlphaNode(s.h, i);
        int alt = S->getAltOutputMode(s.h, i);
        auto it = s.outs.find(i);
        EV(mix(3, mix(it != s.outs.end(), al != nullptr)));
        if (!!node != (it != s.outs.end())) viol("output-presence", w + fmt(": output %d: %s", i, node ? "there but not set" : "set but missing"));
        else if (node) {
            const Out &o = it->second;
            if (!!al != o.alpha) viol("alpha-presence", w + fmt(": output %d: alpha %s", i, al ? "there but not set" : "set but missing"));
            if (alt != o.alt) viol("alt-mode", w + fmt(": output %d: alt mode %d, expected %d", i, alt, o.alt));
            checkFrame(s, node, o, o.color, o.py, w + fmt(", output %d", i), r);
            if (al && o.alpha) checkFrame(s, al, o, o.acolor, false, w + fmt(", alpha of output %d", i), r);
        }
        if (node) A->freeNode(node);
        if (al) A->freeNode(al);
    }
}

static void checkVars(Script &s, Rng &r) {
    VSMap *m = A->createMap();
    for (auto &v : s.vars) {
        A->clearMap(m);
        int rc = S->getVariable(s.h, v.first.c_str(), m);
        EV(mix(4, mix(v.second.type, v.second.i.size() + v.second.f.size() + v.second.d.size())));
        if (rc || !mapIs(m, v.first.c_str(), v.second)) viol("variable", fmt("script %d: %s is %s (result %d), expected %s", s.id, v.first.c_str(), showMap(m, v.first.c_str()).c_str(), rc, pyVal(v.second).c_str()));
    }
    A->clearMap(m);
    if (!S->getVariable(s.h, fmt("only_in_%d", s.id + 1).c_str(), m) || !S->getVariable(s.h, "never_set", m) || A->mapNumKeys(m)) viol("variable-leak", fmt("script %d sees a variable it never set", s.id));
    A->freeMap(m);
}

static void step(Script &s, Rng &r) {
    int op = r.below(100);
    if (op < 55) {       // evaluate more code
        std::string t = "import vapoursynth as vs, os, logging, warnings, threading\n";
        for (auto &v : s.vars) if (r.chance(50) && !(v.second.type == 1)) t += "assert " + v.first + " == " + pyVal(v.second) + ", '" + v.first + " changed'\n";
        t += fmt("assert SECRET == %d and not any(k.startswith('only_in_') and k != 'only_in_%d' for k in globals()), 'globals mixed'\n", s.id, s.id);
        t += fmt("assert vs.core.num_threads == %d, 'core mixed'\n", s.threads);
        {
            std::string o;
            for (auto &x : s.outs) o += std::to_string(x.first) + ",";
            t += "assert sorted(vs.get_outputs()) == [" + o + "], 'outputs mixed'\n";
        }
        int k = r.range(0, 3);
        for (int j = 0; j < k; j++) {
            std::string nm = fmt("v%d", r.below(6));
            Val v = randVal(r);
            s.vars[nm] = v;
            t += nm + " = " + pyVal(v) + "\n";
        }
        k = r.range(0, 2);
        for (int j = 0; j < k; j++) t += outText(r, s);
        std::string logged;
        if (s.mark && r.chance(40)) {
            logged = fmt("said_%d_%d", s.id, uid++);
            int how = r.below(4);
            t += how == 0 ? "logging.getLogger('q').warning('" + logged + "')\n" : how == 1 ? "warnings.warn('" + logged + "')\n" : how == 2 ? "vs.core.log_message(vs.MESSAGE_TYPE_WARNING, '" + logged + "')\n"
                 : "logging.error('" + logged + "')\n";
        }
        if (r.chance(20)) t += "def _t():\n  try:\n    logging.getLogger('q').debug('from a thread')\n    res.append(1)\n  except Exception as e:\n    res.append(repr(e))\nres = []\n_x = threading.Thread(target=_t)\n_x.start()\n_x.join()\nassert res == [1], res\n";
        // how it is evaluated
        bool file = r.chance(35), cwd = r.chance(50);
        char before[4096], after[4096];
        S->evalSetWorkingDir(s.h, cwd);
        int rc;
        std::string nm = fmt("%s/d%d/s%d.vpy", tmpDir.c_str(), r.below(3), uid++);
        if (file) {
            if (cwd) t += fmt("assert os.path.dirname(__file__) == os.getcwd(), 'working directory'\n");
            t += "assert __file__ == " + pyStr(nm, false) + ", __file__\n";
            std::ofstream(nm) << t;
        } else if (cwd && r.chance(50)) {
            nm = "<script>";
        }
        t += "assert __name__ == '__vapoursynth__'\n";
        if (!getcwd(before, sizeof before)) before[0] = 0;
        rc = file ? S->evaluateFile(s.h, nm.c_str()) : S->evaluateBuffer(s.h, t.c_str(), r.chance(20) ? nullptr : nm.c_str());
        if (!getcwd(after, sizeof after)) after[0] = 0;
        // other threads may be inside an evaluation that moved the directory: only judged single threaded
        if (!strcmp(before, tmpDir.c_str()) && uid >= 0 && getenv("VERIF_ONE") && strcmp(before, after)) viol("working-directory", fmt("script %d: left in %s", s.id, after));
        const char *e = S->getError(s.h);
        EV(mix(1, mix(file * 4 + cwd * 2 + !logged.empty(), s.vars.size() * 16 + s.outs.size())));
        if (rc || e) { viol("evaluation", fmt("script %d: result %d: %.1500s", s.id, rc, e ? e : "no error")); s.dead = true; return; }
        if (!logged.empty()) {
            std::lock_guard<std::mutex> l(s.mark->m);
            int n = 0;
            for (auto &x : s.mark->msgs) n += x.second.find(logged) != std::string::npos;
            if (n != 1) viol("log", fmt("script %d: the message %s arrived %d times", s.id, logged.c_str(), n));
        }
        cnt("evaluations");
    } else if (op < 65) {    // give it variables
        VSMap *m = A->createMap();
        int k = r.range(1, 3);
        for (int j = 0; j < k; j++) {
            std::string nm = fmt("v%d", r.below(6));
            if (A->mapNumElements(m, nm.c_str()) >= 0) continue;
            Val v = randVal(r);
            mapPut(m, nm.c_str(), v);
            s.vars[nm] = v;
        }
        if (S->setVariables(s.h, m)) viol("set-variables", fmt("script %d: setVariables failed", s.id));
        A->freeMap(m);
        EV(mix(5, k));
    } else if (op < 72) {    // a clip goes in and comes out
        VSCore *core = S->getCore(s.h);
        if (!core || (s.own && core != s.own)) { viol("core", fmt("script %d: another core", s.id)); return; }
        VSMap *m = A->createMap();
        A->mapSetInt(m, "width", 10 + r.below(20), maAppend); A->mapSetInt(m, "length", 3, maAppend);
        VSMap *res = A->invoke(A->getPluginByID(VSH_STD_PLUGIN_ID, core), "BlankClip", m);
        VSNode *n = A->mapGetNode(res, "clip", 0, nullptr);
        A->freeMap(res); A->clearMap(m);
        A->mapSetNode(m, "clipin", n, maAppend);
        int wd = A->getVideoInfo(n)->width;
        if (S->setVariables(s.h, m)) viol("set-variables", fmt("script %d: a clip could not be set", s.id));
        A->clearMap(m);
        A->freeNode(n);
        int rc = S->evaluateBuffer(s.h, "clipout = clipin + clipin\ndel clipin\nfun = lambda x: x + SECRET\n", "x");
        if (rc || S->getVariable(s.h, "clipout", m) || S->getVariable(s.h, "fun", m)) { viol("clip-variable", fmt("script %d: %s", s.id, S->getError(s.h) ? S->getError(s.h) : "?")); s.dead = rc; }
        else {
            VSNode *o = A->mapGetNode(m, "clipout", 0, nullptr);
            VSFunction *f = A->mapGetFunction(m, "fun", 0, nullptr);
            if (!o || A->getVideoInfo(o)->width != wd || A->getVideoInfo(o)->numFrames != 6) viol("clip-variable", fmt("script %d: wrong clip", s.id));
            if (o) A->freeNode(o);
            if (f) {
                VSMap *in = A->createMap(), *out = A->createMap();
                A->mapSetInt(in, "x", 41, maAppend);
                A->callFunction(f, in, out);
                int e;
                int64_t v = A->mapGetInt(out, "val", 0, &e);
                if (A->mapGetError(out) || e || v != 41 + s.id) viol("function-variable", fmt("script %d: function gave %lld %s", s.id, (long long)v, A->mapGetError(out) ? A->mapGetError(out) : ""));
                A->freeMap(in); A->freeMap(out);
                A->freeFunction(f);
            } else viol("function-variable", fmt("script %d: no function", s.id));
        }
        A->freeMap(m);
        EV(6);
    } else if (op < 85) checkOuts(s, r);
    else if (op < 97) checkVars(s, r);
    else {                  // fail
        struct F { const char *t; int exit; const char *say; };
        static const std::vector<F> fs{{"raise ValueError('went wrong')", 0, "went wrong"}, {"import sys; sys.exit(5)", 5, "5"}, {"import sys; sys.exit('text')", 1, "text"}, {"x = (", 0, "yntax"}, {"raise KeyboardInterrupt('stop')", 0, "stop"},
            {"vs.core.std.Trim(vs.core.std.BlankClip(), 7, 2)", 0, "Trim"}, {"raise Exception('\\udc80 bad')", 0, ""}, {"import sys; sys.exit(2**70)", 1, ""}, {"def f(): f()\nf()", 0, "recursion"}};
        const F &f = r.pick(fs);
        int how = r.below(8);
        int rc = how == 0 ? S->evaluateFile(s.h, (tmpDir + "/no such file").c_str()) : S->evaluateBuffer(s.h, (std::string("import vapoursynth as vs\n") + f.t).c_str(), "bad.vpy");
        const char *e = S->getError(s.h);
        EV(mix(7, how == 0 ? 99 : &f - fs.data()));
        if (!rc || !e || !*e || (how && !strstr(e, f.say))) viol("error", fmt("script %d: %s: result %d, error %.400s", s.id, how ? f.t : "missing file", rc, e ? e : "(none)"));
        if (S->getExitCode(s.h) != (how ? f.exit : 0)) viol("exit-code", fmt("script %d: %s: exit code %d", s.id, f.t, S->getExitCode(s.h)));
        s.dead = true;
        cnt("failed_evaluations");
    }
}

static void start(Script &s, Rng &r) {
    s.id = ++uid;
    s.threads = r.range(1, 5);
    if (r.chance(70)) {
        static const std::vector<int> fl{0, 0, ccfEnableGraphInspection};
        s.own = A->createCore(r.pick(fl));
        A->setThreadCount(s.threads, s.own);
        s.mark = std::make_shared<CoreMark>();
        A->addLogHandler(onMsg, onFree, s.mark.get(), s.own);
    }
    s.h = S->createScript(s.own);
    if (!s.h) { viol("create", "no script"); s.dead = true; return; }
    if (!s.own) A->setThreadCount(s.threads, S->getCore(s.h));
    if (S->evaluateBuffer(s.h, fmt("SECRET = %d\nonly_in_%d = 1\n", s.id, s.id).c_str(), "init") || S->getError(s.h)) { viol("evaluation", "first script"); s.dead = true; }
    cnt("scripts");
}
static void stop(Script &s) {
    if (s.h) S->freeScript(s.h);
    if (s.mark && s.h) {
        EV(8);
        if (s.mark->frees != 1) viol("core-lifetime", fmt("script %d: after it was freed its core was destroyed %d times", s.id, s.mark->frees.load()));
    }
}

static void worker(uint64_t seed, int steps) {
    Rng r(seed);
    std::vector<Script> v;
    for (int i = 0; i < steps; i++) {
        if (v.empty() || (v.size() < 3 && r.chance(15))) { v.emplace_back(); start(v.back(), r); }
        int k = r.below((int)v.size());
        if (!v[k].dead) step(v[k], r);
        if (v[k].dead || r.chance(4)) {
            if (!v[k].dead) { checkVars(v[k], r); checkOuts(v[k], r); }
            stop(v[k]);
            v.erase(v.begin() + k);
        }
    }
    for (auto &s : v) { if (!s.dead) { checkVars(s, r); checkOuts(s, r); } stop(s); }
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    if (getVSScriptAPI(VS_MAKE_VERSION(5, 0)) || getVSScriptAPI(VS_MAKE_VERSION(4, 99)) || getVSScriptAPI(VS_MAKE_VERSION(3, 0))) viol("api-version", "an unknown API version was granted");
    S = getVSScriptAPI(VSSCRIPT_API_VERSION);
    if (!S) { fprintf(stderr, "no VSScript: %s\n", getVSScriptAPILastError()); _exit(77); }
    if (getVSScriptAPI(VS_MAKE_VERSION(4, 1)) != S) viol("api-version", "an older API version was refused");
    A = S->getVSAPI(VAPOURSYNTH_API_VERSION);
    char t[] = "/tmp/verif-script-XXXXXX";
    if (!mkdtemp(t)) _exit(77);
    tmpDir = t;
    for (int i = 0; i < 3; i++) std::filesystem::create_directory(tmpDir + fmt("/d%d", i));
    if (chdir(t)) _exit(77);
    for (int k = a.from; k < a.to; k++) {
        hLine(fmt("CASE %d", k));
        Rng r(mix(a.seed, k));
        int nt = r.pick(std::vector<int>{1, 1, 2, 4});
        if (nt == 1) setenv("VERIF_ONE", "1", 1); else unsetenv("VERIF_ONE");
        std::vector<std::thread> th;
        for (int i = 0; i < nt; i++) {
            uint64_t s = r.next();
            if (nt == 1) worker(s, 40); else th.emplace_back(worker, s, 25);
        }
        for (auto &x : th) x.join();
        sample(fmt("%d threads", nt));
    }
    std::error_code ec;
    if (chdir("/")) {}
    std::filesystem::remove_all(tmpDir, ec);
    hDone();
    fflush(stdout);
    _exit(0);
}
