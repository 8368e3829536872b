// compiled by the check of C21 against the headers as they are; written by gen.py
#define VS_USE_LATEST_API
#define VS_GRAPH_API
#include <cstddef>
#include <type_traits>
#include "VapourSynth3.h"

namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoFormat::name), char[32]>, "VapourSynth3.h: the type of vs3::VSVideoFormat.name, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoFormat, name) == 0, "VapourSynth3.h: vs3::VSVideoFormat.name is at offset 0, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoFormat::id), int>, "VapourSynth3.h: the type of vs3::VSVideoFormat.id, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoFormat, id) == 32, "VapourSynth3.h: vs3::VSVideoFormat.id is at offset 32, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoFormat::colorFamily), int>, "VapourSynth3.h: the type of vs3::VSVideoFormat.colorFamily, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoFormat, colorFamily) == 36, "VapourSynth3.h: vs3::VSVideoFormat.colorFamily is at offset 36, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoFormat::sampleType), int>, "VapourSynth3.h: the type of vs3::VSVideoFormat.sampleType, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoFormat, sampleType) == 40, "VapourSynth3.h: vs3::VSVideoFormat.sampleType is at offset 40, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoFormat::bitsPerSample), int>, "VapourSynth3.h: the type of vs3::VSVideoFormat.bitsPerSample, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoFormat, bitsPerSample) == 44, "VapourSynth3.h: vs3::VSVideoFormat.bitsPerSample is at offset 44, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoFormat::bytesPerSample), int>, "VapourSynth3.h: the type of vs3::VSVideoFormat.bytesPerSample, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoFormat, bytesPerSample) == 48, "VapourSynth3.h: vs3::VSVideoFormat.bytesPerSample is at offset 48, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoFormat::subSamplingW), int>, "VapourSynth3.h: the type of vs3::VSVideoFormat.subSamplingW, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoFormat, subSamplingW) == 52, "VapourSynth3.h: vs3::VSVideoFormat.subSamplingW is at offset 52, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoFormat::subSamplingH), int>, "VapourSynth3.h: the type of vs3::VSVideoFormat.subSamplingH, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoFormat, subSamplingH) == 56, "VapourSynth3.h: vs3::VSVideoFormat.subSamplingH is at offset 56, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoFormat::numPlanes), int>, "VapourSynth3.h: the type of vs3::VSVideoFormat.numPlanes, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoFormat, numPlanes) == 60, "VapourSynth3.h: vs3::VSVideoFormat.numPlanes is at offset 60, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(::VSCoreInfo::versionString), const char *>, "VapourSynth3.h: the type of ::VSCoreInfo.versionString, as in VapourSynth.h"); }
static_assert(offsetof(::VSCoreInfo, versionString) == 0, "VapourSynth3.h: ::VSCoreInfo.versionString is at offset 0, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(::VSCoreInfo::core), int>, "VapourSynth3.h: the type of ::VSCoreInfo.core, as in VapourSynth.h"); }
static_assert(offsetof(::VSCoreInfo, core) == 8, "VapourSynth3.h: ::VSCoreInfo.core is at offset 8, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(::VSCoreInfo::api), int>, "VapourSynth3.h: the type of ::VSCoreInfo.api, as in VapourSynth.h"); }
static_assert(offsetof(::VSCoreInfo, api) == 12, "VapourSynth3.h: ::VSCoreInfo.api is at offset 12, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(::VSCoreInfo::numThreads), int>, "VapourSynth3.h: the type of ::VSCoreInfo.numThreads, as in VapourSynth.h"); }
static_assert(offsetof(::VSCoreInfo, numThreads) == 16, "VapourSynth3.h: ::VSCoreInfo.numThreads is at offset 16, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(::VSCoreInfo::maxFramebufferSize), int64_t>, "VapourSynth3.h: the type of ::VSCoreInfo.maxFramebufferSize, as in VapourSynth.h"); }
static_assert(offsetof(::VSCoreInfo, maxFramebufferSize) == 24, "VapourSynth3.h: ::VSCoreInfo.maxFramebufferSize is at offset 24, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(::VSCoreInfo::usedFramebufferSize), int64_t>, "VapourSynth3.h: the type of ::VSCoreInfo.usedFramebufferSize, as in VapourSynth.h"); }
static_assert(offsetof(::VSCoreInfo, usedFramebufferSize) == 32, "VapourSynth3.h: ::VSCoreInfo.usedFramebufferSize is at offset 32, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoInfo::format), const VSVideoFormat *>, "VapourSynth3.h: the type of vs3::VSVideoInfo.format, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoInfo, format) == 0, "VapourSynth3.h: vs3::VSVideoInfo.format is at offset 0, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoInfo::fpsNum), int64_t>, "VapourSynth3.h: the type of vs3::VSVideoInfo.fpsNum, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoInfo, fpsNum) == 8, "VapourSynth3.h: vs3::VSVideoInfo.fpsNum is at offset 8, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoInfo::fpsDen), int64_t>, "VapourSynth3.h: the type of vs3::VSVideoInfo.fpsDen, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoInfo, fpsDen) == 16, "VapourSynth3.h: vs3::VSVideoInfo.fpsDen is at offset 16, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoInfo::width), int>, "VapourSynth3.h: the type of vs3::VSVideoInfo.width, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoInfo, width) == 24, "VapourSynth3.h: vs3::VSVideoInfo.width is at offset 24, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoInfo::height), int>, "VapourSynth3.h: the type of vs3::VSVideoInfo.height, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoInfo, height) == 28, "VapourSynth3.h: vs3::VSVideoInfo.height is at offset 28, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoInfo::numFrames), int>, "VapourSynth3.h: the type of vs3::VSVideoInfo.numFrames, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoInfo, numFrames) == 32, "VapourSynth3.h: vs3::VSVideoInfo.numFrames is at offset 32, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSVideoInfo::flags), int>, "VapourSynth3.h: the type of vs3::VSVideoInfo.flags, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSVideoInfo, flags) == 36, "VapourSynth3.h: vs3::VSVideoInfo.flags is at offset 36, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::createCore), VSCore *(*)(int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.createCore, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, createCore) == 0, "VapourSynth3.h: vs3::VSAPI3.createCore is at offset 0, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::freeCore), void (*)(VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.freeCore, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, freeCore) == 8, "VapourSynth3.h: vs3::VSAPI3.freeCore is at offset 8, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getCoreInfo), const VSCoreInfo *(*)(VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getCoreInfo, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getCoreInfo) == 16, "VapourSynth3.h: vs3::VSAPI3.getCoreInfo is at offset 16, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::cloneFrameRef), const VSFrame *(*)(const VSFrame *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.cloneFrameRef, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, cloneFrameRef) == 24, "VapourSynth3.h: vs3::VSAPI3.cloneFrameRef is at offset 24, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::cloneNodeRef), VSNode *(*)(VSNode *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.cloneNodeRef, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, cloneNodeRef) == 32, "VapourSynth3.h: vs3::VSAPI3.cloneNodeRef is at offset 32, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::cloneFunctionRef), VSFunction *(*)(VSFunction *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.cloneFunctionRef, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, cloneFunctionRef) == 40, "VapourSynth3.h: vs3::VSAPI3.cloneFunctionRef is at offset 40, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::freeFrame), void (*)(const VSFrame *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.freeFrame, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, freeFrame) == 48, "VapourSynth3.h: vs3::VSAPI3.freeFrame is at offset 48, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::freeNode), void (*)(VSNode *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.freeNode, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, freeNode) == 56, "VapourSynth3.h: vs3::VSAPI3.freeNode is at offset 56, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::freeFunction), void (*)(VSFunction *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.freeFunction, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, freeFunction) == 64, "VapourSynth3.h: vs3::VSAPI3.freeFunction is at offset 64, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::newVideoFrame), VSFrame *(*)(const VSVideoFormat *, int, int, const VSFrame *, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.newVideoFrame, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, newVideoFrame) == 72, "VapourSynth3.h: vs3::VSAPI3.newVideoFrame is at offset 72, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::copyFrame), VSFrame *(*)(const VSFrame *, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.copyFrame, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, copyFrame) == 80, "VapourSynth3.h: vs3::VSAPI3.copyFrame is at offset 80, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::copyFrameProps), void (*)(const VSFrame *, VSFrame *, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.copyFrameProps, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, copyFrameProps) == 88, "VapourSynth3.h: vs3::VSAPI3.copyFrameProps is at offset 88, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::registerFunction), void (*)(const char *, const char *, VSPublicFunction, void *, VSPlugin *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.registerFunction, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, registerFunction) == 96, "VapourSynth3.h: vs3::VSAPI3.registerFunction is at offset 96, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getPluginById), VSPlugin *(*)(const char *, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getPluginById, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getPluginById) == 104, "VapourSynth3.h: vs3::VSAPI3.getPluginById is at offset 104, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getPluginByNs), VSPlugin *(*)(const char *, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getPluginByNs, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getPluginByNs) == 112, "VapourSynth3.h: vs3::VSAPI3.getPluginByNs is at offset 112, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getPlugins), VSMap *(*)(VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getPlugins, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getPlugins) == 120, "VapourSynth3.h: vs3::VSAPI3.getPlugins is at offset 120, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFunctions), VSMap *(*)(VSPlugin *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFunctions, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFunctions) == 128, "VapourSynth3.h: vs3::VSAPI3.getFunctions is at offset 128, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::createFilter), void (*)(const VSMap *, VSMap *, const char *, VSFilterInit, VSFilterGetFrame, VSFilterFree, int, int, void *, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.createFilter, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, createFilter) == 136, "VapourSynth3.h: vs3::VSAPI3.createFilter is at offset 136, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::setError), void (*)(VSMap *, const char *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.setError, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, setError) == 144, "VapourSynth3.h: vs3::VSAPI3.setError is at offset 144, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getError), const char *(*)(const VSMap *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getError, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getError) == 152, "VapourSynth3.h: vs3::VSAPI3.getError is at offset 152, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::setFilterError), void (*)(const char *, VSFrameContext *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.setFilterError, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, setFilterError) == 160, "VapourSynth3.h: vs3::VSAPI3.setFilterError is at offset 160, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::invoke), VSMap *(*)(VSPlugin *, const char *, const VSMap *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.invoke, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, invoke) == 168, "VapourSynth3.h: vs3::VSAPI3.invoke is at offset 168, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFormatPreset), const VSVideoFormat *(*)(int, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFormatPreset, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFormatPreset) == 176, "VapourSynth3.h: vs3::VSAPI3.getFormatPreset is at offset 176, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::registerFormat), const VSVideoFormat *(*)(int, int, int, int, int, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.registerFormat, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, registerFormat) == 184, "VapourSynth3.h: vs3::VSAPI3.registerFormat is at offset 184, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFrame), const VSFrame *(*)(int, VSNode *, char *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFrame, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFrame) == 192, "VapourSynth3.h: vs3::VSAPI3.getFrame is at offset 192, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFrameAsync), void (*)(int, VSNode *, VSFrameDoneCallback, void *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFrameAsync, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFrameAsync) == 200, "VapourSynth3.h: vs3::VSAPI3.getFrameAsync is at offset 200, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFrameFilter), const VSFrame *(*)(int, VSNode *, VSFrameContext *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFrameFilter, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFrameFilter) == 208, "VapourSynth3.h: vs3::VSAPI3.getFrameFilter is at offset 208, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::requestFrameFilter), void (*)(int, VSNode *, VSFrameContext *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.requestFrameFilter, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, requestFrameFilter) == 216, "VapourSynth3.h: vs3::VSAPI3.requestFrameFilter is at offset 216, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::queryCompletedFrame), void (*)(VSNode **, int *, VSFrameContext *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.queryCompletedFrame, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, queryCompletedFrame) == 224, "VapourSynth3.h: vs3::VSAPI3.queryCompletedFrame is at offset 224, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::releaseFrameEarly), void (*)(VSNode *, int, VSFrameContext *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.releaseFrameEarly, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, releaseFrameEarly) == 232, "VapourSynth3.h: vs3::VSAPI3.releaseFrameEarly is at offset 232, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getStride), int (*)(const VSFrame *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getStride, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getStride) == 240, "VapourSynth3.h: vs3::VSAPI3.getStride is at offset 240, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getReadPtr), const uint8_t *(*)(const VSFrame *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getReadPtr, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getReadPtr) == 248, "VapourSynth3.h: vs3::VSAPI3.getReadPtr is at offset 248, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getWritePtr), uint8_t *(*)(VSFrame *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getWritePtr, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getWritePtr) == 256, "VapourSynth3.h: vs3::VSAPI3.getWritePtr is at offset 256, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::createFunction), VSFunction *(*)(VSPublicFunction, void *, VSFreeFunctionData, VSCore *, const VSAPI3 *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.createFunction, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, createFunction) == 264, "VapourSynth3.h: vs3::VSAPI3.createFunction is at offset 264, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::callFunction), void (*)(VSFunction *, const VSMap *, VSMap *, VSCore *, const VSAPI3 *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.callFunction, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, callFunction) == 272, "VapourSynth3.h: vs3::VSAPI3.callFunction is at offset 272, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::createMap), VSMap *(*)() noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.createMap, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, createMap) == 280, "VapourSynth3.h: vs3::VSAPI3.createMap is at offset 280, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::freeMap), void (*)(VSMap *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.freeMap, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, freeMap) == 288, "VapourSynth3.h: vs3::VSAPI3.freeMap is at offset 288, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::clearMap), void (*)(VSMap *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.clearMap, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, clearMap) == 296, "VapourSynth3.h: vs3::VSAPI3.clearMap is at offset 296, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getVideoInfo), const VSVideoInfo *(*)(VSNode *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getVideoInfo, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getVideoInfo) == 304, "VapourSynth3.h: vs3::VSAPI3.getVideoInfo is at offset 304, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::setVideoInfo), void (*)(const VSVideoInfo *, int, VSNode *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.setVideoInfo, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, setVideoInfo) == 312, "VapourSynth3.h: vs3::VSAPI3.setVideoInfo is at offset 312, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFrameFormat), const VSVideoFormat *(*)(const VSFrame *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFrameFormat, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFrameFormat) == 320, "VapourSynth3.h: vs3::VSAPI3.getFrameFormat is at offset 320, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFrameWidth), int (*)(const VSFrame *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFrameWidth, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFrameWidth) == 328, "VapourSynth3.h: vs3::VSAPI3.getFrameWidth is at offset 328, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFrameHeight), int (*)(const VSFrame *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFrameHeight, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFrameHeight) == 336, "VapourSynth3.h: vs3::VSAPI3.getFrameHeight is at offset 336, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFramePropsRO), const VSMap *(*)(const VSFrame *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFramePropsRO, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFramePropsRO) == 344, "VapourSynth3.h: vs3::VSAPI3.getFramePropsRO is at offset 344, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getFramePropsRW), VSMap *(*)(VSFrame *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getFramePropsRW, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getFramePropsRW) == 352, "VapourSynth3.h: vs3::VSAPI3.getFramePropsRW is at offset 352, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propNumKeys), int (*)(const VSMap *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propNumKeys, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propNumKeys) == 360, "VapourSynth3.h: vs3::VSAPI3.propNumKeys is at offset 360, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetKey), const char *(*)(const VSMap *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetKey, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetKey) == 368, "VapourSynth3.h: vs3::VSAPI3.propGetKey is at offset 368, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propNumElements), int (*)(const VSMap *, const char *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propNumElements, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propNumElements) == 376, "VapourSynth3.h: vs3::VSAPI3.propNumElements is at offset 376, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetType), char (*)(const VSMap *, const char *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetType, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetType) == 384, "VapourSynth3.h: vs3::VSAPI3.propGetType is at offset 384, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetInt), int64_t (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetInt, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetInt) == 392, "VapourSynth3.h: vs3::VSAPI3.propGetInt is at offset 392, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetFloat), double (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetFloat, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetFloat) == 400, "VapourSynth3.h: vs3::VSAPI3.propGetFloat is at offset 400, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetData), const char *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetData, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetData) == 408, "VapourSynth3.h: vs3::VSAPI3.propGetData is at offset 408, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetDataSize), int (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetDataSize, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetDataSize) == 416, "VapourSynth3.h: vs3::VSAPI3.propGetDataSize is at offset 416, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetNode), VSNode *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetNode, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetNode) == 424, "VapourSynth3.h: vs3::VSAPI3.propGetNode is at offset 424, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetFrame), const VSFrame *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetFrame, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetFrame) == 432, "VapourSynth3.h: vs3::VSAPI3.propGetFrame is at offset 432, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetFunc), VSFunction *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetFunc, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetFunc) == 440, "VapourSynth3.h: vs3::VSAPI3.propGetFunc is at offset 440, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propDeleteKey), int (*)(VSMap *, const char *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propDeleteKey, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propDeleteKey) == 448, "VapourSynth3.h: vs3::VSAPI3.propDeleteKey is at offset 448, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propSetInt), int (*)(VSMap *, const char *, int64_t, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propSetInt, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propSetInt) == 456, "VapourSynth3.h: vs3::VSAPI3.propSetInt is at offset 456, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propSetFloat), int (*)(VSMap *, const char *, double, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propSetFloat, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propSetFloat) == 464, "VapourSynth3.h: vs3::VSAPI3.propSetFloat is at offset 464, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propSetData), int (*)(VSMap *, const char *, const char *, int, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propSetData, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propSetData) == 472, "VapourSynth3.h: vs3::VSAPI3.propSetData is at offset 472, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propSetNode), int (*)(VSMap *, const char *, VSNode *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propSetNode, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propSetNode) == 480, "VapourSynth3.h: vs3::VSAPI3.propSetNode is at offset 480, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propSetFrame), int (*)(VSMap *, const char *, const VSFrame *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propSetFrame, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propSetFrame) == 488, "VapourSynth3.h: vs3::VSAPI3.propSetFrame is at offset 488, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propSetFunc), int (*)(VSMap *, const char *, VSFunction *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propSetFunc, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propSetFunc) == 496, "VapourSynth3.h: vs3::VSAPI3.propSetFunc is at offset 496, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::setMaxCacheSize), int64_t (*)(int64_t, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.setMaxCacheSize, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, setMaxCacheSize) == 504, "VapourSynth3.h: vs3::VSAPI3.setMaxCacheSize is at offset 504, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getOutputIndex), int (*)(VSFrameContext *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getOutputIndex, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getOutputIndex) == 512, "VapourSynth3.h: vs3::VSAPI3.getOutputIndex is at offset 512, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::newVideoFrame2), VSFrame *(*)(const VSVideoFormat *, int, int, const VSFrame **, const int *, const VSFrame *, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.newVideoFrame2, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, newVideoFrame2) == 520, "VapourSynth3.h: vs3::VSAPI3.newVideoFrame2 is at offset 520, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::setMessageHandler), void (*)(VSMessageHandler, void *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.setMessageHandler, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, setMessageHandler) == 528, "VapourSynth3.h: vs3::VSAPI3.setMessageHandler is at offset 528, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::setThreadCount), int (*)(int, VSCore *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.setThreadCount, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, setThreadCount) == 536, "VapourSynth3.h: vs3::VSAPI3.setThreadCount is at offset 536, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getPluginPath), const char *(*)(const VSPlugin *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getPluginPath, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getPluginPath) == 544, "VapourSynth3.h: vs3::VSAPI3.getPluginPath is at offset 544, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetIntArray), const int64_t *(*)(const VSMap *, const char *, int *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetIntArray, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetIntArray) == 552, "VapourSynth3.h: vs3::VSAPI3.propGetIntArray is at offset 552, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propGetFloatArray), const double *(*)(const VSMap *, const char *, int *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propGetFloatArray, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propGetFloatArray) == 560, "VapourSynth3.h: vs3::VSAPI3.propGetFloatArray is at offset 560, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propSetIntArray), int (*)(VSMap *, const char *, const int64_t *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propSetIntArray, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propSetIntArray) == 568, "VapourSynth3.h: vs3::VSAPI3.propSetIntArray is at offset 568, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::propSetFloatArray), int (*)(VSMap *, const char *, const double *, int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.propSetFloatArray, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, propSetFloatArray) == 576, "VapourSynth3.h: vs3::VSAPI3.propSetFloatArray is at offset 576, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::logMessage), void (*)(int, const char *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.logMessage, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, logMessage) == 584, "VapourSynth3.h: vs3::VSAPI3.logMessage is at offset 584, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::addMessageHandler), int (*)(VSMessageHandler, VSMessageHandlerFree, void *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.addMessageHandler, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, addMessageHandler) == 592, "VapourSynth3.h: vs3::VSAPI3.addMessageHandler is at offset 592, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::removeMessageHandler), int (*)(int) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.removeMessageHandler, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, removeMessageHandler) == 600, "VapourSynth3.h: vs3::VSAPI3.removeMessageHandler is at offset 600, as in VapourSynth.h");
namespace vs3 { static_assert(std::is_same_v<decltype(vs3::VSAPI3::getCoreInfo2), void (*)(VSCore *, VSCoreInfo *) noexcept>, "VapourSynth3.h: the type of vs3::VSAPI3.getCoreInfo2, as in VapourSynth.h"); }
static_assert(offsetof(vs3::VSAPI3, getCoreInfo2) == 608, "VapourSynth3.h: vs3::VSAPI3.getCoreInfo2 is at offset 608, as in VapourSynth.h");
static_assert(sizeof(vs3::VSVideoFormat) == 64, "VapourSynth3.h: the size of vs3::VSVideoFormat is 64, as in VapourSynth.h");
static_assert(sizeof(::VSCoreInfo) == 40, "VapourSynth3.h: the size of ::VSCoreInfo is 40, as in VapourSynth.h");
static_assert(sizeof(vs3::VSVideoInfo) == 40, "VapourSynth3.h: the size of vs3::VSVideoInfo is 40, as in VapourSynth.h");
static_assert(sizeof(vs3::VSAPI3) >= 616, "VapourSynth3.h: the size of vs3::VSAPI3 is 616, as in VapourSynth.h");
static_assert(vs3::cmGray == 1000000, "VapourSynth3.h: the value of cmGray is 1000000");
static_assert(vs3::cmRGB == 2000000, "VapourSynth3.h: the value of cmRGB is 2000000");
static_assert(vs3::cmYUV == 3000000, "VapourSynth3.h: the value of cmYUV is 3000000");
static_assert(vs3::cmYCoCg == 4000000, "VapourSynth3.h: the value of cmYCoCg is 4000000");
static_assert(vs3::cmCompat == 9000000, "VapourSynth3.h: the value of cmCompat is 9000000");
static_assert(vs3::pfNone == 0, "VapourSynth3.h: the value of pfNone is 0");
static_assert(vs3::pfGray8 == 1000010, "VapourSynth3.h: the value of pfGray8 is 1000010");
static_assert(vs3::pfGray16 == 1000011, "VapourSynth3.h: the value of pfGray16 is 1000011");
static_assert(vs3::pfGrayH == 1000012, "VapourSynth3.h: the value of pfGrayH is 1000012");
static_assert(vs3::pfGrayS == 1000013, "VapourSynth3.h: the value of pfGrayS is 1000013");
static_assert(vs3::pfYUV420P8 == 3000010, "VapourSynth3.h: the value of pfYUV420P8 is 3000010");
static_assert(vs3::pfYUV422P8 == 3000011, "VapourSynth3.h: the value of pfYUV422P8 is 3000011");
static_assert(vs3::pfYUV444P8 == 3000012, "VapourSynth3.h: the value of pfYUV444P8 is 3000012");
static_assert(vs3::pfYUV410P8 == 3000013, "VapourSynth3.h: the value of pfYUV410P8 is 3000013");
static_assert(vs3::pfYUV411P8 == 3000014, "VapourSynth3.h: the value of pfYUV411P8 is 3000014");
static_assert(vs3::pfYUV440P8 == 3000015, "VapourSynth3.h: the value of pfYUV440P8 is 3000015");
static_assert(vs3::pfYUV420P9 == 3000016, "VapourSynth3.h: the value of pfYUV420P9 is 3000016");
static_assert(vs3::pfYUV422P9 == 3000017, "VapourSynth3.h: the value of pfYUV422P9 is 3000017");
static_assert(vs3::pfYUV444P9 == 3000018, "VapourSynth3.h: the value of pfYUV444P9 is 3000018");
static_assert(vs3::pfYUV420P10 == 3000019, "VapourSynth3.h: the value of pfYUV420P10 is 3000019");
static_assert(vs3::pfYUV422P10 == 3000020, "VapourSynth3.h: the value of pfYUV422P10 is 3000020");
static_assert(vs3::pfYUV444P10 == 3000021, "VapourSynth3.h: the value of pfYUV444P10 is 3000021");
static_assert(vs3::pfYUV420P16 == 3000022, "VapourSynth3.h: the value of pfYUV420P16 is 3000022");
static_assert(vs3::pfYUV422P16 == 3000023, "VapourSynth3.h: the value of pfYUV422P16 is 3000023");
static_assert(vs3::pfYUV444P16 == 3000024, "VapourSynth3.h: the value of pfYUV444P16 is 3000024");
static_assert(vs3::pfYUV444PH == 3000025, "VapourSynth3.h: the value of pfYUV444PH is 3000025");
static_assert(vs3::pfYUV444PS == 3000026, "VapourSynth3.h: the value of pfYUV444PS is 3000026");
static_assert(vs3::pfYUV420P12 == 3000027, "VapourSynth3.h: the value of pfYUV420P12 is 3000027");
static_assert(vs3::pfYUV422P12 == 3000028, "VapourSynth3.h: the value of pfYUV422P12 is 3000028");
static_assert(vs3::pfYUV444P12 == 3000029, "VapourSynth3.h: the value of pfYUV444P12 is 3000029");
static_assert(vs3::pfYUV420P14 == 3000030, "VapourSynth3.h: the value of pfYUV420P14 is 3000030");
static_assert(vs3::pfYUV422P14 == 3000031, "VapourSynth3.h: the value of pfYUV422P14 is 3000031");
static_assert(vs3::pfYUV444P14 == 3000032, "VapourSynth3.h: the value of pfYUV444P14 is 3000032");
static_assert(vs3::pfRGB24 == 2000010, "VapourSynth3.h: the value of pfRGB24 is 2000010");
static_assert(vs3::pfRGB27 == 2000011, "VapourSynth3.h: the value of pfRGB27 is 2000011");
static_assert(vs3::pfRGB30 == 2000012, "VapourSynth3.h: the value of pfRGB30 is 2000012");
static_assert(vs3::pfRGB48 == 2000013, "VapourSynth3.h: the value of pfRGB48 is 2000013");
static_assert(vs3::pfRGBH == 2000014, "VapourSynth3.h: the value of pfRGBH is 2000014");
static_assert(vs3::pfRGBS == 2000015, "VapourSynth3.h: the value of pfRGBS is 2000015");
static_assert(vs3::pfCompatBGR32 == 9000010, "VapourSynth3.h: the value of pfCompatBGR32 is 9000010");
static_assert(vs3::pfCompatYUY2 == 9000011, "VapourSynth3.h: the value of pfCompatYUY2 is 9000011");
static_assert(vs3::fmParallel == 100, "VapourSynth3.h: the value of fmParallel is 100");
static_assert(vs3::fmParallelRequests == 200, "VapourSynth3.h: the value of fmParallelRequests is 200");
static_assert(vs3::fmUnordered == 300, "VapourSynth3.h: the value of fmUnordered is 300");
static_assert(vs3::nfNoCache == 1, "VapourSynth3.h: the value of nfNoCache is 1");
static_assert(vs3::nfIsCache == 2, "VapourSynth3.h: the value of nfIsCache is 2");
static_assert(vs3::nfMakeLinear == 4, "VapourSynth3.h: the value of nfMakeLinear is 4");
static_assert(vs3::ptUnset == 117, "VapourSynth3.h: the value of ptUnset is 117");
static_assert(vs3::ptInt == 105, "VapourSynth3.h: the value of ptInt is 105");
static_assert(vs3::ptFloat == 102, "VapourSynth3.h: the value of ptFloat is 102");
static_assert(vs3::ptData == 115, "VapourSynth3.h: the value of ptData is 115");
static_assert(vs3::ptNode == 99, "VapourSynth3.h: the value of ptNode is 99");
static_assert(vs3::ptFrame == 118, "VapourSynth3.h: the value of ptFrame is 118");
static_assert(vs3::ptFunction == 109, "VapourSynth3.h: the value of ptFunction is 109");
static_assert(vs3::paReplace == 0, "VapourSynth3.h: the value of paReplace is 0");
static_assert(vs3::paAppend == 1, "VapourSynth3.h: the value of paAppend is 1");
static_assert(vs3::paTouch == 2, "VapourSynth3.h: the value of paTouch is 2");
static_assert(vs3::arInitial == 0, "VapourSynth3.h: the value of arInitial is 0");
static_assert(vs3::arFrameReady == 1, "VapourSynth3.h: the value of arFrameReady is 1");
static_assert(vs3::arAllFramesReady == 2, "VapourSynth3.h: the value of arAllFramesReady is 2");
static_assert(vs3::arError == -1, "VapourSynth3.h: the value of arError is -1");
static_assert(vs3::mtDebug == 0, "VapourSynth3.h: the value of mtDebug is 0");
static_assert(vs3::mtWarning == 1, "VapourSynth3.h: the value of mtWarning is 1");
static_assert(vs3::mtCritical == 2, "VapourSynth3.h: the value of mtCritical is 2");
static_assert(vs3::mtFatal == 3, "VapourSynth3.h: the value of mtFatal is 3");
