// compiled by the check of C21 against the headers as they are; written by gen.py
#include <cstddef>
#include <type_traits>
#include "VapourSynth.h"

static_assert(cmGray == 1000000, "VapourSynth.h: the value of cmGray is 1000000");
static_assert(cmRGB == 2000000, "VapourSynth.h: the value of cmRGB is 2000000");
static_assert(cmYUV == 3000000, "VapourSynth.h: the value of cmYUV is 3000000");
static_assert(cmYCoCg == 4000000, "VapourSynth.h: the value of cmYCoCg is 4000000");
static_assert(cmCompat == 9000000, "VapourSynth.h: the value of cmCompat is 9000000");

static_assert(stInteger == 0, "VapourSynth.h: the value of stInteger is 0");
static_assert(stFloat == 1, "VapourSynth.h: the value of stFloat is 1");

static_assert(pfNone == 0, "VapourSynth.h: the value of pfNone is 0");
static_assert(pfGray8 == 1000010, "VapourSynth.h: the value of pfGray8 is 1000010");
static_assert(pfGray16 == 1000011, "VapourSynth.h: the value of pfGray16 is 1000011");
static_assert(pfGrayH == 1000012, "VapourSynth.h: the value of pfGrayH is 1000012");
static_assert(pfGrayS == 1000013, "VapourSynth.h: the value of pfGrayS is 1000013");
static_assert(pfYUV420P8 == 3000010, "VapourSynth.h: the value of pfYUV420P8 is 3000010");
static_assert(pfYUV422P8 == 3000011, "VapourSynth.h: the value of pfYUV422P8 is 3000011");
static_assert(pfYUV444P8 == 3000012, "VapourSynth.h: the value of pfYUV444P8 is 3000012");
static_assert(pfYUV410P8 == 3000013, "VapourSynth.h: the value of pfYUV410P8 is 3000013");
static_assert(pfYUV411P8 == 3000014, "VapourSynth.h: the value of pfYUV411P8 is 3000014");
static_assert(pfYUV440P8 == 3000015, "VapourSynth.h: the value of pfYUV440P8 is 3000015");
static_assert(pfYUV420P9 == 3000016, "VapourSynth.h: the value of pfYUV420P9 is 3000016");
static_assert(pfYUV422P9 == 3000017, "VapourSynth.h: the value of pfYUV422P9 is 3000017");
static_assert(pfYUV444P9 == 3000018, "VapourSynth.h: the value of pfYUV444P9 is 3000018");
static_assert(pfYUV420P10 == 3000019, "VapourSynth.h: the value of pfYUV420P10 is 3000019");
static_assert(pfYUV422P10 == 3000020, "VapourSynth.h: the value of pfYUV422P10 is 3000020");
static_assert(pfYUV444P10 == 3000021, "VapourSynth.h: the value of pfYUV444P10 is 3000021");
static_assert(pfYUV420P16 == 3000022, "VapourSynth.h: the value of pfYUV420P16 is 3000022");
static_assert(pfYUV422P16 == 3000023, "VapourSynth.h: the value of pfYUV422P16 is 3000023");
static_assert(pfYUV444P16 == 3000024, "VapourSynth.h: the value of pfYUV444P16 is 3000024");
static_assert(pfYUV444PH == 3000025, "VapourSynth.h: the value of pfYUV444PH is 3000025");
static_assert(pfYUV444PS == 3000026, "VapourSynth.h: the value of pfYUV444PS is 3000026");
static_assert(pfYUV420P12 == 3000027, "VapourSynth.h: the value of pfYUV420P12 is 3000027");
static_assert(pfYUV422P12 == 3000028, "VapourSynth.h: the value of pfYUV422P12 is 3000028");
static_assert(pfYUV444P12 == 3000029, "VapourSynth.h: the value of pfYUV444P12 is 3000029");
static_assert(pfYUV420P14 == 3000030, "VapourSynth.h: the value of pfYUV420P14 is 3000030");
static_assert(pfYUV422P14 == 3000031, "VapourSynth.h: the value of pfYUV422P14 is 3000031");
static_assert(pfYUV444P14 == 3000032, "VapourSynth.h: the value of pfYUV444P14 is 3000032");
static_assert(pfRGB24 == 2000010, "VapourSynth.h: the value of pfRGB24 is 2000010");
static_assert(pfRGB27 == 2000011, "VapourSynth.h: the value of pfRGB27 is 2000011");
static_assert(pfRGB30 == 2000012, "VapourSynth.h: the value of pfRGB30 is 2000012");
static_assert(pfRGB48 == 2000013, "VapourSynth.h: the value of pfRGB48 is 2000013");
static_assert(pfRGBH == 2000014, "VapourSynth.h: the value of pfRGBH is 2000014");
static_assert(pfRGBS == 2000015, "VapourSynth.h: the value of pfRGBS is 2000015");
static_assert(pfCompatBGR32 == 9000010, "VapourSynth.h: the value of pfCompatBGR32 is 9000010");
static_assert(pfCompatYUY2 == 9000011, "VapourSynth.h: the value of pfCompatYUY2 is 9000011");

static_assert(fmParallel == 100, "VapourSynth.h: the value of fmParallel is 100");
static_assert(fmParallelRequests == 200, "VapourSynth.h: the value of fmParallelRequests is 200");
static_assert(fmUnordered == 300, "VapourSynth.h: the value of fmUnordered is 300");
static_assert(fmSerial == 400, "VapourSynth.h: the value of fmSerial is 400");

static_assert(nfNoCache == 1, "VapourSynth.h: the value of nfNoCache is 1");
static_assert(nfIsCache == 2, "VapourSynth.h: the value of nfIsCache is 2");
static_assert(nfMakeLinear == 4, "VapourSynth.h: the value of nfMakeLinear is 4");

static_assert(ptUnset == 117, "VapourSynth.h: the value of ptUnset is 117");
static_assert(ptInt == 105, "VapourSynth.h: the value of ptInt is 105");
static_assert(ptFloat == 102, "VapourSynth.h: the value of ptFloat is 102");
static_assert(ptData == 115, "VapourSynth.h: the value of ptData is 115");
static_assert(ptNode == 99, "VapourSynth.h: the value of ptNode is 99");
static_assert(ptFrame == 118, "VapourSynth.h: the value of ptFrame is 118");
static_assert(ptFunction == 109, "VapourSynth.h: the value of ptFunction is 109");

static_assert(peUnset == 1, "VapourSynth.h: the value of peUnset is 1");
static_assert(peType == 2, "VapourSynth.h: the value of peType is 2");
static_assert(peIndex == 4, "VapourSynth.h: the value of peIndex is 4");

static_assert(paReplace == 0, "VapourSynth.h: the value of paReplace is 0");
static_assert(paAppend == 1, "VapourSynth.h: the value of paAppend is 1");
static_assert(paTouch == 2, "VapourSynth.h: the value of paTouch is 2");

static_assert(arInitial == 0, "VapourSynth.h: the value of arInitial is 0");
static_assert(arFrameReady == 1, "VapourSynth.h: the value of arFrameReady is 1");
static_assert(arAllFramesReady == 2, "VapourSynth.h: the value of arAllFramesReady is 2");
static_assert(arError == -1, "VapourSynth.h: the value of arError is -1");

static_assert(mtDebug == 0, "VapourSynth.h: the value of mtDebug is 0");
static_assert(mtWarning == 1, "VapourSynth.h: the value of mtWarning is 1");
static_assert(mtCritical == 2, "VapourSynth.h: the value of mtCritical is 2");
static_assert(mtFatal == 3, "VapourSynth.h: the value of mtFatal is 3");

static_assert(std::is_same_v<VSGetVapourSynthAPI, const VSAPI *(*)(int)>, "VapourSynth.h: the type of VSGetVapourSynthAPI");
static_assert(std::is_same_v<VSPublicFunction, void (*)(const VSMap *, VSMap *, void *, VSCore *, const VSAPI *)>, "VapourSynth.h: the type of VSPublicFunction");
static_assert(std::is_same_v<VSRegisterFunction, void (*)(const char *, const char *, VSPublicFunction, void *, VSPlugin *)>, "VapourSynth.h: the type of VSRegisterFunction");
static_assert(std::is_same_v<VSConfigPlugin, void (*)(const char *, const char *, const char *, int, int, VSPlugin *)>, "VapourSynth.h: the type of VSConfigPlugin");
static_assert(std::is_same_v<VSInitPlugin, void (*)(VSConfigPlugin, VSRegisterFunction, VSPlugin *)>, "VapourSynth.h: the type of VSInitPlugin");
static_assert(std::is_same_v<VSFreeFuncData, void (*)(void *)>, "VapourSynth.h: the type of VSFreeFuncData");
static_assert(std::is_same_v<VSFilterInit, void (*)(VSMap *, VSMap *, void **, VSNode *, VSCore *, const VSAPI *)>, "VapourSynth.h: the type of VSFilterInit");
static_assert(std::is_same_v<VSFilterGetFrame, const VSFrameRef *(*)(int, int, void **, void **, VSFrameContext *, VSCore *, const VSAPI *)>, "VapourSynth.h: the type of VSFilterGetFrame");
static_assert(std::is_same_v<VSFilterFree, void (*)(void *, VSCore *, const VSAPI *)>, "VapourSynth.h: the type of VSFilterFree");
static_assert(std::is_same_v<VSFrameDoneCallback, void (*)(void *, const VSFrameRef *, int, VSNodeRef *, const char *)>, "VapourSynth.h: the type of VSFrameDoneCallback");
static_assert(std::is_same_v<VSMessageHandler, void (*)(int, const char *, void *)>, "VapourSynth.h: the type of VSMessageHandler");
static_assert(std::is_same_v<VSMessageHandlerFree, void (*)(void *)>, "VapourSynth.h: the type of VSMessageHandlerFree");
static_assert(std::is_same_v<decltype(&getVapourSynthAPI), const VSAPI *(*)(int) noexcept>, "VapourSynth.h: the type of getVapourSynthAPI");
static_assert(offsetof(VSFormat, name) == 0, "VapourSynth.h: VSFormat.name is at offset 0");
static_assert(std::is_same_v<decltype(VSFormat::name), char[32]>, "VapourSynth.h: the type of VSFormat.name");
static_assert(offsetof(VSFormat, id) == 32, "VapourSynth.h: VSFormat.id is at offset 32");
static_assert(std::is_same_v<decltype(VSFormat::id), int>, "VapourSynth.h: the type of VSFormat.id");
static_assert(offsetof(VSFormat, colorFamily) == 36, "VapourSynth.h: VSFormat.colorFamily is at offset 36");
static_assert(std::is_same_v<decltype(VSFormat::colorFamily), int>, "VapourSynth.h: the type of VSFormat.colorFamily");
static_assert(offsetof(VSFormat, sampleType) == 40, "VapourSynth.h: VSFormat.sampleType is at offset 40");
static_assert(std::is_same_v<decltype(VSFormat::sampleType), int>, "VapourSynth.h: the type of VSFormat.sampleType");
static_assert(offsetof(VSFormat, bitsPerSample) == 44, "VapourSynth.h: VSFormat.bitsPerSample is at offset 44");
static_assert(std::is_same_v<decltype(VSFormat::bitsPerSample), int>, "VapourSynth.h: the type of VSFormat.bitsPerSample");
static_assert(offsetof(VSFormat, bytesPerSample) == 48, "VapourSynth.h: VSFormat.bytesPerSample is at offset 48");
static_assert(std::is_same_v<decltype(VSFormat::bytesPerSample), int>, "VapourSynth.h: the type of VSFormat.bytesPerSample");
static_assert(offsetof(VSFormat, subSamplingW) == 52, "VapourSynth.h: VSFormat.subSamplingW is at offset 52");
static_assert(std::is_same_v<decltype(VSFormat::subSamplingW), int>, "VapourSynth.h: the type of VSFormat.subSamplingW");
static_assert(offsetof(VSFormat, subSamplingH) == 56, "VapourSynth.h: VSFormat.subSamplingH is at offset 56");
static_assert(std::is_same_v<decltype(VSFormat::subSamplingH), int>, "VapourSynth.h: the type of VSFormat.subSamplingH");
static_assert(offsetof(VSFormat, numPlanes) == 60, "VapourSynth.h: VSFormat.numPlanes is at offset 60");
static_assert(std::is_same_v<decltype(VSFormat::numPlanes), int>, "VapourSynth.h: the type of VSFormat.numPlanes");
static_assert(offsetof(VSCoreInfo, versionString) == 0, "VapourSynth.h: VSCoreInfo.versionString is at offset 0");
static_assert(std::is_same_v<decltype(VSCoreInfo::versionString), const char *>, "VapourSynth.h: the type of VSCoreInfo.versionString");
static_assert(offsetof(VSCoreInfo, core) == 8, "VapourSynth.h: VSCoreInfo.core is at offset 8");
static_assert(std::is_same_v<decltype(VSCoreInfo::core), int>, "VapourSynth.h: the type of VSCoreInfo.core");
static_assert(offsetof(VSCoreInfo, api) == 12, "VapourSynth.h: VSCoreInfo.api is at offset 12");
static_assert(std::is_same_v<decltype(VSCoreInfo::api), int>, "VapourSynth.h: the type of VSCoreInfo.api");
static_assert(offsetof(VSCoreInfo, numThreads) == 16, "VapourSynth.h: VSCoreInfo.numThreads is at offset 16");
static_assert(std::is_same_v<decltype(VSCoreInfo::numThreads), int>, "VapourSynth.h: the type of VSCoreInfo.numThreads");
static_assert(offsetof(VSCoreInfo, maxFramebufferSize) == 24, "VapourSynth.h: VSCoreInfo.maxFramebufferSize is at offset 24");
static_assert(std::is_same_v<decltype(VSCoreInfo::maxFramebufferSize), int64_t>, "VapourSynth.h: the type of VSCoreInfo.maxFramebufferSize");
static_assert(offsetof(VSCoreInfo, usedFramebufferSize) == 32, "VapourSynth.h: VSCoreInfo.usedFramebufferSize is at offset 32");
static_assert(std::is_same_v<decltype(VSCoreInfo::usedFramebufferSize), int64_t>, "VapourSynth.h: the type of VSCoreInfo.usedFramebufferSize");
static_assert(offsetof(VSVideoInfo, format) == 0, "VapourSynth.h: VSVideoInfo.format is at offset 0");
static_assert(std::is_same_v<decltype(VSVideoInfo::format), const VSFormat *>, "VapourSynth.h: the type of VSVideoInfo.format");
static_assert(offsetof(VSVideoInfo, fpsNum) == 8, "VapourSynth.h: VSVideoInfo.fpsNum is at offset 8");
static_assert(std::is_same_v<decltype(VSVideoInfo::fpsNum), int64_t>, "VapourSynth.h: the type of VSVideoInfo.fpsNum");
static_assert(offsetof(VSVideoInfo, fpsDen) == 16, "VapourSynth.h: VSVideoInfo.fpsDen is at offset 16");
static_assert(std::is_same_v<decltype(VSVideoInfo::fpsDen), int64_t>, "VapourSynth.h: the type of VSVideoInfo.fpsDen");
static_assert(offsetof(VSVideoInfo, width) == 24, "VapourSynth.h: VSVideoInfo.width is at offset 24");
static_assert(std::is_same_v<decltype(VSVideoInfo::width), int>, "VapourSynth.h: the type of VSVideoInfo.width");
static_assert(offsetof(VSVideoInfo, height) == 28, "VapourSynth.h: VSVideoInfo.height is at offset 28");
static_assert(std::is_same_v<decltype(VSVideoInfo::height), int>, "VapourSynth.h: the type of VSVideoInfo.height");
static_assert(offsetof(VSVideoInfo, numFrames) == 32, "VapourSynth.h: VSVideoInfo.numFrames is at offset 32");
static_assert(std::is_same_v<decltype(VSVideoInfo::numFrames), int>, "VapourSynth.h: the type of VSVideoInfo.numFrames");
static_assert(offsetof(VSVideoInfo, flags) == 36, "VapourSynth.h: VSVideoInfo.flags is at offset 36");
static_assert(std::is_same_v<decltype(VSVideoInfo::flags), int>, "VapourSynth.h: the type of VSVideoInfo.flags");
static_assert(offsetof(VSAPI, createCore) == 0, "VapourSynth.h: VSAPI.createCore is at offset 0");
static_assert(std::is_same_v<decltype(VSAPI::createCore), VSCore *(*)(int) noexcept>, "VapourSynth.h: the type of VSAPI.createCore");
static_assert(offsetof(VSAPI, freeCore) == 8, "VapourSynth.h: VSAPI.freeCore is at offset 8");
static_assert(std::is_same_v<decltype(VSAPI::freeCore), void (*)(VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.freeCore");
static_assert(offsetof(VSAPI, getCoreInfo) == 16, "VapourSynth.h: VSAPI.getCoreInfo is at offset 16");
static_assert(std::is_same_v<decltype(VSAPI::getCoreInfo), const VSCoreInfo *(*)(VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.getCoreInfo");
static_assert(offsetof(VSAPI, cloneFrameRef) == 24, "VapourSynth.h: VSAPI.cloneFrameRef is at offset 24");
static_assert(std::is_same_v<decltype(VSAPI::cloneFrameRef), const VSFrameRef *(*)(const VSFrameRef *) noexcept>, "VapourSynth.h: the type of VSAPI.cloneFrameRef");
static_assert(offsetof(VSAPI, cloneNodeRef) == 32, "VapourSynth.h: VSAPI.cloneNodeRef is at offset 32");
static_assert(std::is_same_v<decltype(VSAPI::cloneNodeRef), VSNodeRef *(*)(VSNodeRef *) noexcept>, "VapourSynth.h: the type of VSAPI.cloneNodeRef");
static_assert(offsetof(VSAPI, cloneFuncRef) == 40, "VapourSynth.h: VSAPI.cloneFuncRef is at offset 40");
static_assert(std::is_same_v<decltype(VSAPI::cloneFuncRef), VSFuncRef *(*)(VSFuncRef *) noexcept>, "VapourSynth.h: the type of VSAPI.cloneFuncRef");
static_assert(offsetof(VSAPI, freeFrame) == 48, "VapourSynth.h: VSAPI.freeFrame is at offset 48");
static_assert(std::is_same_v<decltype(VSAPI::freeFrame), void (*)(const VSFrameRef *) noexcept>, "VapourSynth.h: the type of VSAPI.freeFrame");
static_assert(offsetof(VSAPI, freeNode) == 56, "VapourSynth.h: VSAPI.freeNode is at offset 56");
static_assert(std::is_same_v<decltype(VSAPI::freeNode), void (*)(VSNodeRef *) noexcept>, "VapourSynth.h: the type of VSAPI.freeNode");
static_assert(offsetof(VSAPI, freeFunc) == 64, "VapourSynth.h: VSAPI.freeFunc is at offset 64");
static_assert(std::is_same_v<decltype(VSAPI::freeFunc), void (*)(VSFuncRef *) noexcept>, "VapourSynth.h: the type of VSAPI.freeFunc");
static_assert(offsetof(VSAPI, newVideoFrame) == 72, "VapourSynth.h: VSAPI.newVideoFrame is at offset 72");
static_assert(std::is_same_v<decltype(VSAPI::newVideoFrame), VSFrameRef *(*)(const VSFormat *, int, int, const VSFrameRef *, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.newVideoFrame");
static_assert(offsetof(VSAPI, copyFrame) == 80, "VapourSynth.h: VSAPI.copyFrame is at offset 80");
static_assert(std::is_same_v<decltype(VSAPI::copyFrame), VSFrameRef *(*)(const VSFrameRef *, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.copyFrame");
static_assert(offsetof(VSAPI, copyFrameProps) == 88, "VapourSynth.h: VSAPI.copyFrameProps is at offset 88");
static_assert(std::is_same_v<decltype(VSAPI::copyFrameProps), void (*)(const VSFrameRef *, VSFrameRef *, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.copyFrameProps");
static_assert(offsetof(VSAPI, registerFunction) == 96, "VapourSynth.h: VSAPI.registerFunction is at offset 96");
static_assert(std::is_same_v<decltype(VSAPI::registerFunction), void (*)(const char *, const char *, VSPublicFunction, void *, VSPlugin *) noexcept>, "VapourSynth.h: the type of VSAPI.registerFunction");
static_assert(offsetof(VSAPI, getPluginById) == 104, "VapourSynth.h: VSAPI.getPluginById is at offset 104");
static_assert(std::is_same_v<decltype(VSAPI::getPluginById), VSPlugin *(*)(const char *, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.getPluginById");
static_assert(offsetof(VSAPI, getPluginByNs) == 112, "VapourSynth.h: VSAPI.getPluginByNs is at offset 112");
static_assert(std::is_same_v<decltype(VSAPI::getPluginByNs), VSPlugin *(*)(const char *, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.getPluginByNs");
static_assert(offsetof(VSAPI, getPlugins) == 120, "VapourSynth.h: VSAPI.getPlugins is at offset 120");
static_assert(std::is_same_v<decltype(VSAPI::getPlugins), VSMap *(*)(VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.getPlugins");
static_assert(offsetof(VSAPI, getFunctions) == 128, "VapourSynth.h: VSAPI.getFunctions is at offset 128");
static_assert(std::is_same_v<decltype(VSAPI::getFunctions), VSMap *(*)(VSPlugin *) noexcept>, "VapourSynth.h: the type of VSAPI.getFunctions");
static_assert(offsetof(VSAPI, createFilter) == 136, "VapourSynth.h: VSAPI.createFilter is at offset 136");
static_assert(std::is_same_v<decltype(VSAPI::createFilter), void (*)(const VSMap *, VSMap *, const char *, VSFilterInit, VSFilterGetFrame, VSFilterFree, int, int, void *, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.createFilter");
static_assert(offsetof(VSAPI, setError) == 144, "VapourSynth.h: VSAPI.setError is at offset 144");
static_assert(std::is_same_v<decltype(VSAPI::setError), void (*)(VSMap *, const char *) noexcept>, "VapourSynth.h: the type of VSAPI.setError");
static_assert(offsetof(VSAPI, getError) == 152, "VapourSynth.h: VSAPI.getError is at offset 152");
static_assert(std::is_same_v<decltype(VSAPI::getError), const char *(*)(const VSMap *) noexcept>, "VapourSynth.h: the type of VSAPI.getError");
static_assert(offsetof(VSAPI, setFilterError) == 160, "VapourSynth.h: VSAPI.setFilterError is at offset 160");
static_assert(std::is_same_v<decltype(VSAPI::setFilterError), void (*)(const char *, VSFrameContext *) noexcept>, "VapourSynth.h: the type of VSAPI.setFilterError");
static_assert(offsetof(VSAPI, invoke) == 168, "VapourSynth.h: VSAPI.invoke is at offset 168");
static_assert(std::is_same_v<decltype(VSAPI::invoke), VSMap *(*)(VSPlugin *, const char *, const VSMap *) noexcept>, "VapourSynth.h: the type of VSAPI.invoke");
static_assert(offsetof(VSAPI, getFormatPreset) == 176, "VapourSynth.h: VSAPI.getFormatPreset is at offset 176");
static_assert(std::is_same_v<decltype(VSAPI::getFormatPreset), const VSFormat *(*)(int, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.getFormatPreset");
static_assert(offsetof(VSAPI, registerFormat) == 184, "VapourSynth.h: VSAPI.registerFormat is at offset 184");
static_assert(std::is_same_v<decltype(VSAPI::registerFormat), const VSFormat *(*)(int, int, int, int, int, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.registerFormat");
static_assert(offsetof(VSAPI, getFrame) == 192, "VapourSynth.h: VSAPI.getFrame is at offset 192");
static_assert(std::is_same_v<decltype(VSAPI::getFrame), const VSFrameRef *(*)(int, VSNodeRef *, char *, int) noexcept>, "VapourSynth.h: the type of VSAPI.getFrame");
static_assert(offsetof(VSAPI, getFrameAsync) == 200, "VapourSynth.h: VSAPI.getFrameAsync is at offset 200");
static_assert(std::is_same_v<decltype(VSAPI::getFrameAsync), void (*)(int, VSNodeRef *, VSFrameDoneCallback, void *) noexcept>, "VapourSynth.h: the type of VSAPI.getFrameAsync");
static_assert(offsetof(VSAPI, getFrameFilter) == 208, "VapourSynth.h: VSAPI.getFrameFilter is at offset 208");
static_assert(std::is_same_v<decltype(VSAPI::getFrameFilter), const VSFrameRef *(*)(int, VSNodeRef *, VSFrameContext *) noexcept>, "VapourSynth.h: the type of VSAPI.getFrameFilter");
static_assert(offsetof(VSAPI, requestFrameFilter) == 216, "VapourSynth.h: VSAPI.requestFrameFilter is at offset 216");
static_assert(std::is_same_v<decltype(VSAPI::requestFrameFilter), void (*)(int, VSNodeRef *, VSFrameContext *) noexcept>, "VapourSynth.h: the type of VSAPI.requestFrameFilter");
static_assert(offsetof(VSAPI, queryCompletedFrame) == 224, "VapourSynth.h: VSAPI.queryCompletedFrame is at offset 224");
static_assert(std::is_same_v<decltype(VSAPI::queryCompletedFrame), void (*)(VSNodeRef **, int *, VSFrameContext *) noexcept>, "VapourSynth.h: the type of VSAPI.queryCompletedFrame");
static_assert(offsetof(VSAPI, releaseFrameEarly) == 232, "VapourSynth.h: VSAPI.releaseFrameEarly is at offset 232");
static_assert(std::is_same_v<decltype(VSAPI::releaseFrameEarly), void (*)(VSNodeRef *, int, VSFrameContext *) noexcept>, "VapourSynth.h: the type of VSAPI.releaseFrameEarly");
static_assert(offsetof(VSAPI, getStride) == 240, "VapourSynth.h: VSAPI.getStride is at offset 240");
static_assert(std::is_same_v<decltype(VSAPI::getStride), int (*)(const VSFrameRef *, int) noexcept>, "VapourSynth.h: the type of VSAPI.getStride");
static_assert(offsetof(VSAPI, getReadPtr) == 248, "VapourSynth.h: VSAPI.getReadPtr is at offset 248");
static_assert(std::is_same_v<decltype(VSAPI::getReadPtr), const uint8_t *(*)(const VSFrameRef *, int) noexcept>, "VapourSynth.h: the type of VSAPI.getReadPtr");
static_assert(offsetof(VSAPI, getWritePtr) == 256, "VapourSynth.h: VSAPI.getWritePtr is at offset 256");
static_assert(std::is_same_v<decltype(VSAPI::getWritePtr), uint8_t *(*)(VSFrameRef *, int) noexcept>, "VapourSynth.h: the type of VSAPI.getWritePtr");
static_assert(offsetof(VSAPI, createFunc) == 264, "VapourSynth.h: VSAPI.createFunc is at offset 264");
static_assert(std::is_same_v<decltype(VSAPI::createFunc), VSFuncRef *(*)(VSPublicFunction, void *, VSFreeFuncData, VSCore *, const VSAPI *) noexcept>, "VapourSynth.h: the type of VSAPI.createFunc");
static_assert(offsetof(VSAPI, callFunc) == 272, "VapourSynth.h: VSAPI.callFunc is at offset 272");
static_assert(std::is_same_v<decltype(VSAPI::callFunc), void (*)(VSFuncRef *, const VSMap *, VSMap *, VSCore *, const VSAPI *) noexcept>, "VapourSynth.h: the type of VSAPI.callFunc");
static_assert(offsetof(VSAPI, createMap) == 280, "VapourSynth.h: VSAPI.createMap is at offset 280");
static_assert(std::is_same_v<decltype(VSAPI::createMap), VSMap *(*)() noexcept>, "VapourSynth.h: the type of VSAPI.createMap");
static_assert(offsetof(VSAPI, freeMap) == 288, "VapourSynth.h: VSAPI.freeMap is at offset 288");
static_assert(std::is_same_v<decltype(VSAPI::freeMap), void (*)(VSMap *) noexcept>, "VapourSynth.h: the type of VSAPI.freeMap");
static_assert(offsetof(VSAPI, clearMap) == 296, "VapourSynth.h: VSAPI.clearMap is at offset 296");
static_assert(std::is_same_v<decltype(VSAPI::clearMap), void (*)(VSMap *) noexcept>, "VapourSynth.h: the type of VSAPI.clearMap");
static_assert(offsetof(VSAPI, getVideoInfo) == 304, "VapourSynth.h: VSAPI.getVideoInfo is at offset 304");
static_assert(std::is_same_v<decltype(VSAPI::getVideoInfo), const VSVideoInfo *(*)(VSNodeRef *) noexcept>, "VapourSynth.h: the type of VSAPI.getVideoInfo");
static_assert(offsetof(VSAPI, setVideoInfo) == 312, "VapourSynth.h: VSAPI.setVideoInfo is at offset 312");
static_assert(std::is_same_v<decltype(VSAPI::setVideoInfo), void (*)(const VSVideoInfo *, int, VSNode *) noexcept>, "VapourSynth.h: the type of VSAPI.setVideoInfo");
static_assert(offsetof(VSAPI, getFrameFormat) == 320, "VapourSynth.h: VSAPI.getFrameFormat is at offset 320");
static_assert(std::is_same_v<decltype(VSAPI::getFrameFormat), const VSFormat *(*)(const VSFrameRef *) noexcept>, "VapourSynth.h: the type of VSAPI.getFrameFormat");
static_assert(offsetof(VSAPI, getFrameWidth) == 328, "VapourSynth.h: VSAPI.getFrameWidth is at offset 328");
static_assert(std::is_same_v<decltype(VSAPI::getFrameWidth), int (*)(const VSFrameRef *, int) noexcept>, "VapourSynth.h: the type of VSAPI.getFrameWidth");
static_assert(offsetof(VSAPI, getFrameHeight) == 336, "VapourSynth.h: VSAPI.getFrameHeight is at offset 336");
static_assert(std::is_same_v<decltype(VSAPI::getFrameHeight), int (*)(const VSFrameRef *, int) noexcept>, "VapourSynth.h: the type of VSAPI.getFrameHeight");
static_assert(offsetof(VSAPI, getFramePropsRO) == 344, "VapourSynth.h: VSAPI.getFramePropsRO is at offset 344");
static_assert(std::is_same_v<decltype(VSAPI::getFramePropsRO), const VSMap *(*)(const VSFrameRef *) noexcept>, "VapourSynth.h: the type of VSAPI.getFramePropsRO");
static_assert(offsetof(VSAPI, getFramePropsRW) == 352, "VapourSynth.h: VSAPI.getFramePropsRW is at offset 352");
static_assert(std::is_same_v<decltype(VSAPI::getFramePropsRW), VSMap *(*)(VSFrameRef *) noexcept>, "VapourSynth.h: the type of VSAPI.getFramePropsRW");
static_assert(offsetof(VSAPI, propNumKeys) == 360, "VapourSynth.h: VSAPI.propNumKeys is at offset 360");
static_assert(std::is_same_v<decltype(VSAPI::propNumKeys), int (*)(const VSMap *) noexcept>, "VapourSynth.h: the type of VSAPI.propNumKeys");
static_assert(offsetof(VSAPI, propGetKey) == 368, "VapourSynth.h: VSAPI.propGetKey is at offset 368");
static_assert(std::is_same_v<decltype(VSAPI::propGetKey), const char *(*)(const VSMap *, int) noexcept>, "VapourSynth.h: the type of VSAPI.propGetKey");
static_assert(offsetof(VSAPI, propNumElements) == 376, "VapourSynth.h: VSAPI.propNumElements is at offset 376");
static_assert(std::is_same_v<decltype(VSAPI::propNumElements), int (*)(const VSMap *, const char *) noexcept>, "VapourSynth.h: the type of VSAPI.propNumElements");
static_assert(offsetof(VSAPI, propGetType) == 384, "VapourSynth.h: VSAPI.propGetType is at offset 384");
static_assert(std::is_same_v<decltype(VSAPI::propGetType), char (*)(const VSMap *, const char *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetType");
static_assert(offsetof(VSAPI, propGetInt) == 392, "VapourSynth.h: VSAPI.propGetInt is at offset 392");
static_assert(std::is_same_v<decltype(VSAPI::propGetInt), int64_t (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetInt");
static_assert(offsetof(VSAPI, propGetFloat) == 400, "VapourSynth.h: VSAPI.propGetFloat is at offset 400");
static_assert(std::is_same_v<decltype(VSAPI::propGetFloat), double (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetFloat");
static_assert(offsetof(VSAPI, propGetData) == 408, "VapourSynth.h: VSAPI.propGetData is at offset 408");
static_assert(std::is_same_v<decltype(VSAPI::propGetData), const char *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetData");
static_assert(offsetof(VSAPI, propGetDataSize) == 416, "VapourSynth.h: VSAPI.propGetDataSize is at offset 416");
static_assert(std::is_same_v<decltype(VSAPI::propGetDataSize), int (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetDataSize");
static_assert(offsetof(VSAPI, propGetNode) == 424, "VapourSynth.h: VSAPI.propGetNode is at offset 424");
static_assert(std::is_same_v<decltype(VSAPI::propGetNode), VSNodeRef *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetNode");
static_assert(offsetof(VSAPI, propGetFrame) == 432, "VapourSynth.h: VSAPI.propGetFrame is at offset 432");
static_assert(std::is_same_v<decltype(VSAPI::propGetFrame), const VSFrameRef *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetFrame");
static_assert(offsetof(VSAPI, propGetFunc) == 440, "VapourSynth.h: VSAPI.propGetFunc is at offset 440");
static_assert(std::is_same_v<decltype(VSAPI::propGetFunc), VSFuncRef *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetFunc");
static_assert(offsetof(VSAPI, propDeleteKey) == 448, "VapourSynth.h: VSAPI.propDeleteKey is at offset 448");
static_assert(std::is_same_v<decltype(VSAPI::propDeleteKey), int (*)(VSMap *, const char *) noexcept>, "VapourSynth.h: the type of VSAPI.propDeleteKey");
static_assert(offsetof(VSAPI, propSetInt) == 456, "VapourSynth.h: VSAPI.propSetInt is at offset 456");
static_assert(std::is_same_v<decltype(VSAPI::propSetInt), int (*)(VSMap *, const char *, int64_t, int) noexcept>, "VapourSynth.h: the type of VSAPI.propSetInt");
static_assert(offsetof(VSAPI, propSetFloat) == 464, "VapourSynth.h: VSAPI.propSetFloat is at offset 464");
static_assert(std::is_same_v<decltype(VSAPI::propSetFloat), int (*)(VSMap *, const char *, double, int) noexcept>, "VapourSynth.h: the type of VSAPI.propSetFloat");
static_assert(offsetof(VSAPI, propSetData) == 472, "VapourSynth.h: VSAPI.propSetData is at offset 472");
static_assert(std::is_same_v<decltype(VSAPI::propSetData), int (*)(VSMap *, const char *, const char *, int, int) noexcept>, "VapourSynth.h: the type of VSAPI.propSetData");
static_assert(offsetof(VSAPI, propSetNode) == 480, "VapourSynth.h: VSAPI.propSetNode is at offset 480");
static_assert(std::is_same_v<decltype(VSAPI::propSetNode), int (*)(VSMap *, const char *, VSNodeRef *, int) noexcept>, "VapourSynth.h: the type of VSAPI.propSetNode");
static_assert(offsetof(VSAPI, propSetFrame) == 488, "VapourSynth.h: VSAPI.propSetFrame is at offset 488");
static_assert(std::is_same_v<decltype(VSAPI::propSetFrame), int (*)(VSMap *, const char *, const VSFrameRef *, int) noexcept>, "VapourSynth.h: the type of VSAPI.propSetFrame");
static_assert(offsetof(VSAPI, propSetFunc) == 496, "VapourSynth.h: VSAPI.propSetFunc is at offset 496");
static_assert(std::is_same_v<decltype(VSAPI::propSetFunc), int (*)(VSMap *, const char *, VSFuncRef *, int) noexcept>, "VapourSynth.h: the type of VSAPI.propSetFunc");
static_assert(offsetof(VSAPI, setMaxCacheSize) == 504, "VapourSynth.h: VSAPI.setMaxCacheSize is at offset 504");
static_assert(std::is_same_v<decltype(VSAPI::setMaxCacheSize), int64_t (*)(int64_t, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.setMaxCacheSize");
static_assert(offsetof(VSAPI, getOutputIndex) == 512, "VapourSynth.h: VSAPI.getOutputIndex is at offset 512");
static_assert(std::is_same_v<decltype(VSAPI::getOutputIndex), int (*)(VSFrameContext *) noexcept>, "VapourSynth.h: the type of VSAPI.getOutputIndex");
static_assert(offsetof(VSAPI, newVideoFrame2) == 520, "VapourSynth.h: VSAPI.newVideoFrame2 is at offset 520");
static_assert(std::is_same_v<decltype(VSAPI::newVideoFrame2), VSFrameRef *(*)(const VSFormat *, int, int, const VSFrameRef **, const int *, const VSFrameRef *, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.newVideoFrame2");
static_assert(offsetof(VSAPI, setMessageHandler) == 528, "VapourSynth.h: VSAPI.setMessageHandler is at offset 528");
static_assert(std::is_same_v<decltype(VSAPI::setMessageHandler), void (*)(VSMessageHandler, void *) noexcept>, "VapourSynth.h: the type of VSAPI.setMessageHandler");
static_assert(offsetof(VSAPI, setThreadCount) == 536, "VapourSynth.h: VSAPI.setThreadCount is at offset 536");
static_assert(std::is_same_v<decltype(VSAPI::setThreadCount), int (*)(int, VSCore *) noexcept>, "VapourSynth.h: the type of VSAPI.setThreadCount");
static_assert(offsetof(VSAPI, getPluginPath) == 544, "VapourSynth.h: VSAPI.getPluginPath is at offset 544");
static_assert(std::is_same_v<decltype(VSAPI::getPluginPath), const char *(*)(const VSPlugin *) noexcept>, "VapourSynth.h: the type of VSAPI.getPluginPath");
static_assert(offsetof(VSAPI, propGetIntArray) == 552, "VapourSynth.h: VSAPI.propGetIntArray is at offset 552");
static_assert(std::is_same_v<decltype(VSAPI::propGetIntArray), const int64_t *(*)(const VSMap *, const char *, int *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetIntArray");
static_assert(offsetof(VSAPI, propGetFloatArray) == 560, "VapourSynth.h: VSAPI.propGetFloatArray is at offset 560");
static_assert(std::is_same_v<decltype(VSAPI::propGetFloatArray), const double *(*)(const VSMap *, const char *, int *) noexcept>, "VapourSynth.h: the type of VSAPI.propGetFloatArray");
static_assert(offsetof(VSAPI, propSetIntArray) == 568, "VapourSynth.h: VSAPI.propSetIntArray is at offset 568");
static_assert(std::is_same_v<decltype(VSAPI::propSetIntArray), int (*)(VSMap *, const char *, const int64_t *, int) noexcept>, "VapourSynth.h: the type of VSAPI.propSetIntArray");
static_assert(offsetof(VSAPI, propSetFloatArray) == 576, "VapourSynth.h: VSAPI.propSetFloatArray is at offset 576");
static_assert(std::is_same_v<decltype(VSAPI::propSetFloatArray), int (*)(VSMap *, const char *, const double *, int) noexcept>, "VapourSynth.h: the type of VSAPI.propSetFloatArray");
static_assert(offsetof(VSAPI, logMessage) == 584, "VapourSynth.h: VSAPI.logMessage is at offset 584");
static_assert(std::is_same_v<decltype(VSAPI::logMessage), void (*)(int, const char *) noexcept>, "VapourSynth.h: the type of VSAPI.logMessage");
static_assert(offsetof(VSAPI, addMessageHandler) == 592, "VapourSynth.h: VSAPI.addMessageHandler is at offset 592");
static_assert(std::is_same_v<decltype(VSAPI::addMessageHandler), int (*)(VSMessageHandler, VSMessageHandlerFree, void *) noexcept>, "VapourSynth.h: the type of VSAPI.addMessageHandler");
static_assert(offsetof(VSAPI, removeMessageHandler) == 600, "VapourSynth.h: VSAPI.removeMessageHandler is at offset 600");
static_assert(std::is_same_v<decltype(VSAPI::removeMessageHandler), int (*)(int) noexcept>, "VapourSynth.h: the type of VSAPI.removeMessageHandler");
static_assert(offsetof(VSAPI, getCoreInfo2) == 608, "VapourSynth.h: VSAPI.getCoreInfo2 is at offset 608");
static_assert(std::is_same_v<decltype(VSAPI::getCoreInfo2), void (*)(VSCore *, VSCoreInfo *) noexcept>, "VapourSynth.h: the type of VSAPI.getCoreInfo2");
static_assert(sizeof(VSFormat) == 64, "VapourSynth.h: the size of VSFormat is 64");
static_assert(sizeof(VSCoreInfo) == 40, "VapourSynth.h: the size of VSCoreInfo is 40");
static_assert(sizeof(VSVideoInfo) == 40, "VapourSynth.h: the size of VSVideoInfo is 40");
static_assert(sizeof(VSAPI) >= 616, "VapourSynth.h: the size of VSAPI is 616");
static_assert(VAPOURSYNTH_API_MAJOR == 3, "VapourSynth.h: the value of VAPOURSYNTH_API_MAJOR is 3");
static_assert(VAPOURSYNTH_API_MINOR == 6, "VapourSynth.h: the value of VAPOURSYNTH_API_MINOR is 6");
static_assert(VAPOURSYNTH_API_VERSION == 196614, "VapourSynth.h: the value of VAPOURSYNTH_API_VERSION is 196614");
