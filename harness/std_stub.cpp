// Stands in for libvapoursynthfilters in runs that use no std filters.
#include "VapourSynth4.h"
VS_EXTERNAL_API(void) VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    vspapi->configPlugin("com.vapoursynth.std", "std", "stub", 1, VAPOURSYNTH_API_VERSION, pcModifiable, plugin);
}
