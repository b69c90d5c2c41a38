// A plugin whose functions are defined at run time and return their arguments.
#include "VapourSynth4.h"
#include <cstdlib>
#include <cstring>
#include <string>

static const VSPLUGINAPI *papi;

static void VS_CC echo(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *a) {
    a->copyMap(in, out);
}

// calls the function it is given with the other arguments
static void VS_CC call(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *a) {
    int e;
    VSFunction *f = a->mapGetFunction(in, "func", 0, &e);
    VSMap *m = a->createMap();
    a->copyMap(in, m);
    a->mapDeleteKey(m, "func");
    a->callFunction(f, m, out);
    a->freeMap(m);
    a->freeFunction(f);
}

static void VS_CC fail(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *a) {
    a->mapSetError(out, a->mapGetData(in, "message", 0, nullptr));
}

static void VS_CC define(const VSMap *in, VSMap *out, void *self, VSCore *, const VSAPI *a) {
    papi->registerFunction(a->mapGetData(in, "name", 0, nullptr), a->mapGetData(in, "args", 0, nullptr), "any", echo, nullptr, static_cast<VSPlugin *>(self));
}

// a copy of the frame with properties that hold no values
static void VS_CC emptyProps(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *a) {
    const VSFrame *f = a->mapGetFrame(in, "frame", 0, nullptr);
    VSFrame *g = a->copyFrame(f, core);
    a->freeFrame(f);
    for (int i = 0; i < a->mapNumElements(in, "keys"); i++)
        a->mapSetEmpty(a->getFramePropertiesRW(g), a->mapGetData(in, "keys", i, nullptr), static_cast<int>(a->mapGetInt(in, "types", i, nullptr)));
    a->mapConsumeFrame(out, "frame", g, maReplace);
}

VS_EXTERNAL_API(void) VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    papi = vspapi;
    vspapi->configPlugin("com.verif.echo", "echo", "returns arguments", VS_MAKE_VERSION(3, 7), VAPOURSYNTH_API_VERSION, pcModifiable, plugin);
    vspapi->registerFunction("Define", "name:data;args:data;", "", define, plugin, plugin);
    vspapi->registerFunction("Any", "any", "any", echo, nullptr, plugin);
    vspapi->registerFunction("Call", "func:func;any", "any", call, nullptr, plugin);
    vspapi->registerFunction("EmptyProps", "frame:vframe;keys:data[];types:int[];", "frame:vframe;", emptyProps, nullptr, plugin);
    vspapi->registerFunction("Fail", "message:data;", "any", fail, nullptr, plugin);
}
