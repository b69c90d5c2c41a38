// the API 3 header beside the API 4 one
#pragma once
#define A4 (4 << 16)
#define VAPOURSYNTH3_API_VERSION ((3 << 16) | 6)
#undef VAPOURSYNTH_API_MAJOR
#undef VAPOURSYNTH_API_MINOR
#undef VAPOURSYNTH_API_VERSION
#undef VS_EXTERN_C
#undef VS_NOEXCEPT
#undef VS_DEPRECATE
#undef VS_CC
#undef VS_EXTERNAL_API
#undef VS_API
#define getVapourSynthAPI getVapourSynthAPI_v3
namespace v3 {
struct VSFrameRef; struct VSNodeRef; struct VSCore; struct VSPlugin; struct VSNode; struct VSFuncRef; struct VSMap; struct VSAPI; struct VSFrameContext;
#include "VapourSynth.h"
}
#undef getVapourSynthAPI
#undef VAPOURSYNTH_API_MAJOR
#undef VAPOURSYNTH_API_MINOR
#undef VAPOURSYNTH_API_VERSION
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
