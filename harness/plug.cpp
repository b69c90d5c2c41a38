// A small plugin, built in several variants (PLUG_ID, PLUG_NS, PLUG_FLAGS, PLUG_API).
#include "VapourSynth4.h"
static void VS_CC add(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *a) {
    int e;
    a->mapSetInt(out, "val", a->mapGetInt(in, "x", 0, &e) + (int)(intptr_t)ud, maReplace);
}
#ifdef PLUG_NOENTRY
VS_EXTERNAL_API(void) SomethingElse(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
#else
VS_EXTERNAL_API(void) VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
#endif
    vspapi->configPlugin(PLUG_ID, PLUG_NS, "test plugin " PLUG_ID, VS_MAKE_VERSION(3, 7), PLUG_API, PLUG_FLAGS, plugin);
    vspapi->registerFunction("Add", "x:int;", "val:int;", add, (void *)(intptr_t)PLUG_NUM, plugin);
}
