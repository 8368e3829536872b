// compiled by the check of C21 against the headers as they are; written by gen.py
#define VS_USE_API_41
#include <cstddef>
#include <type_traits>
#include "VapourSynth4.h"

static_assert(cfUndefined == 0, "VapourSynth4.h: the value of cfUndefined is 0");
static_assert(cfGray == 1, "VapourSynth4.h: the value of cfGray is 1");
static_assert(cfRGB == 2, "VapourSynth4.h: the value of cfRGB is 2");
static_assert(cfYUV == 3, "VapourSynth4.h: the value of cfYUV is 3");

static_assert(stInteger == 0, "VapourSynth4.h: the value of stInteger is 0");
static_assert(stFloat == 1, "VapourSynth4.h: the value of stFloat is 1");

static_assert(pfNone == 0, "VapourSynth4.h: the value of pfNone is 0");
static_assert(pfGray8 == 268959744, "VapourSynth4.h: the value of pfGray8 is 268959744");
static_assert(pfGray9 == 269025280, "VapourSynth4.h: the value of pfGray9 is 269025280");
static_assert(pfGray10 == 269090816, "VapourSynth4.h: the value of pfGray10 is 269090816");
static_assert(pfGray12 == 269221888, "VapourSynth4.h: the value of pfGray12 is 269221888");
static_assert(pfGray14 == 269352960, "VapourSynth4.h: the value of pfGray14 is 269352960");
static_assert(pfGray16 == 269484032, "VapourSynth4.h: the value of pfGray16 is 269484032");
static_assert(pfGray32 == 270532608, "VapourSynth4.h: the value of pfGray32 is 270532608");
static_assert(pfGrayH == 286261248, "VapourSynth4.h: the value of pfGrayH is 286261248");
static_assert(pfGrayS == 287309824, "VapourSynth4.h: the value of pfGrayS is 287309824");
static_assert(pfYUV410P8 == 805831170, "VapourSynth4.h: the value of pfYUV410P8 is 805831170");
static_assert(pfYUV411P8 == 805831168, "VapourSynth4.h: the value of pfYUV411P8 is 805831168");
static_assert(pfYUV440P8 == 805830657, "VapourSynth4.h: the value of pfYUV440P8 is 805830657");
static_assert(pfYUV420P8 == 805830913, "VapourSynth4.h: the value of pfYUV420P8 is 805830913");
static_assert(pfYUV422P8 == 805830912, "VapourSynth4.h: the value of pfYUV422P8 is 805830912");
static_assert(pfYUV444P8 == 805830656, "VapourSynth4.h: the value of pfYUV444P8 is 805830656");
static_assert(pfYUV420P9 == 805896449, "VapourSynth4.h: the value of pfYUV420P9 is 805896449");
static_assert(pfYUV422P9 == 805896448, "VapourSynth4.h: the value of pfYUV422P9 is 805896448");
static_assert(pfYUV444P9 == 805896192, "VapourSynth4.h: the value of pfYUV444P9 is 805896192");
static_assert(pfYUV420P10 == 805961985, "VapourSynth4.h: the value of pfYUV420P10 is 805961985");
static_assert(pfYUV422P10 == 805961984, "VapourSynth4.h: the value of pfYUV422P10 is 805961984");
static_assert(pfYUV444P10 == 805961728, "VapourSynth4.h: the value of pfYUV444P10 is 805961728");
static_assert(pfYUV420P12 == 806093057, "VapourSynth4.h: the value of pfYUV420P12 is 806093057");
static_assert(pfYUV422P12 == 806093056, "VapourSynth4.h: the value of pfYUV422P12 is 806093056");
static_assert(pfYUV444P12 == 806092800, "VapourSynth4.h: the value of pfYUV444P12 is 806092800");
static_assert(pfYUV420P14 == 806224129, "VapourSynth4.h: the value of pfYUV420P14 is 806224129");
static_assert(pfYUV422P14 == 806224128, "VapourSynth4.h: the value of pfYUV422P14 is 806224128");
static_assert(pfYUV444P14 == 806223872, "VapourSynth4.h: the value of pfYUV444P14 is 806223872");
static_assert(pfYUV410P16 == 806355458, "VapourSynth4.h: the value of pfYUV410P16 is 806355458");
static_assert(pfYUV411P16 == 806355456, "VapourSynth4.h: the value of pfYUV411P16 is 806355456");
static_assert(pfYUV440P16 == 806354945, "VapourSynth4.h: the value of pfYUV440P16 is 806354945");
static_assert(pfYUV420P16 == 806355201, "VapourSynth4.h: the value of pfYUV420P16 is 806355201");
static_assert(pfYUV422P16 == 806355200, "VapourSynth4.h: the value of pfYUV422P16 is 806355200");
static_assert(pfYUV444P16 == 806354944, "VapourSynth4.h: the value of pfYUV444P16 is 806354944");
static_assert(pfYUV410PH == 823132674, "VapourSynth4.h: the value of pfYUV410PH is 823132674");
static_assert(pfYUV410PS == 824181250, "VapourSynth4.h: the value of pfYUV410PS is 824181250");
static_assert(pfYUV411PH == 823132672, "VapourSynth4.h: the value of pfYUV411PH is 823132672");
static_assert(pfYUV411PS == 824181248, "VapourSynth4.h: the value of pfYUV411PS is 824181248");
static_assert(pfYUV440PH == 823132161, "VapourSynth4.h: the value of pfYUV440PH is 823132161");
static_assert(pfYUV440PS == 824180737, "VapourSynth4.h: the value of pfYUV440PS is 824180737");
static_assert(pfYUV420PH == 823132417, "VapourSynth4.h: the value of pfYUV420PH is 823132417");
static_assert(pfYUV420PS == 824180993, "VapourSynth4.h: the value of pfYUV420PS is 824180993");
static_assert(pfYUV422PH == 823132416, "VapourSynth4.h: the value of pfYUV422PH is 823132416");
static_assert(pfYUV422PS == 824180992, "VapourSynth4.h: the value of pfYUV422PS is 824180992");
static_assert(pfYUV444PH == 823132160, "VapourSynth4.h: the value of pfYUV444PH is 823132160");
static_assert(pfYUV444PS == 824180736, "VapourSynth4.h: the value of pfYUV444PS is 824180736");
static_assert(pfRGB24 == 537395200, "VapourSynth4.h: the value of pfRGB24 is 537395200");
static_assert(pfRGB27 == 537460736, "VapourSynth4.h: the value of pfRGB27 is 537460736");
static_assert(pfRGB30 == 537526272, "VapourSynth4.h: the value of pfRGB30 is 537526272");
static_assert(pfRGB36 == 537657344, "VapourSynth4.h: the value of pfRGB36 is 537657344");
static_assert(pfRGB42 == 537788416, "VapourSynth4.h: the value of pfRGB42 is 537788416");
static_assert(pfRGB48 == 537919488, "VapourSynth4.h: the value of pfRGB48 is 537919488");
static_assert(pfRGBH == 554696704, "VapourSynth4.h: the value of pfRGBH is 554696704");
static_assert(pfRGBS == 555745280, "VapourSynth4.h: the value of pfRGBS is 555745280");

static_assert(fmParallel == 0, "VapourSynth4.h: the value of fmParallel is 0");
static_assert(fmParallelRequests == 1, "VapourSynth4.h: the value of fmParallelRequests is 1");
static_assert(fmUnordered == 2, "VapourSynth4.h: the value of fmUnordered is 2");
static_assert(fmFrameState == 3, "VapourSynth4.h: the value of fmFrameState is 3");

static_assert(mtVideo == 1, "VapourSynth4.h: the value of mtVideo is 1");
static_assert(mtAudio == 2, "VapourSynth4.h: the value of mtAudio is 2");

static_assert(acFrontLeft == 0, "VapourSynth4.h: the value of acFrontLeft is 0");
static_assert(acFrontRight == 1, "VapourSynth4.h: the value of acFrontRight is 1");
static_assert(acFrontCenter == 2, "VapourSynth4.h: the value of acFrontCenter is 2");
static_assert(acLowFrequency == 3, "VapourSynth4.h: the value of acLowFrequency is 3");
static_assert(acBackLeft == 4, "VapourSynth4.h: the value of acBackLeft is 4");
static_assert(acBackRight == 5, "VapourSynth4.h: the value of acBackRight is 5");
static_assert(acFrontLeftOFCenter == 6, "VapourSynth4.h: the value of acFrontLeftOFCenter is 6");
static_assert(acFrontRightOFCenter == 7, "VapourSynth4.h: the value of acFrontRightOFCenter is 7");
static_assert(acBackCenter == 8, "VapourSynth4.h: the value of acBackCenter is 8");
static_assert(acSideLeft == 9, "VapourSynth4.h: the value of acSideLeft is 9");
static_assert(acSideRight == 10, "VapourSynth4.h: the value of acSideRight is 10");
static_assert(acTopCenter == 11, "VapourSynth4.h: the value of acTopCenter is 11");
static_assert(acTopFrontLeft == 12, "VapourSynth4.h: the value of acTopFrontLeft is 12");
static_assert(acTopFrontCenter == 13, "VapourSynth4.h: the value of acTopFrontCenter is 13");
static_assert(acTopFrontRight == 14, "VapourSynth4.h: the value of acTopFrontRight is 14");
static_assert(acTopBackLeft == 15, "VapourSynth4.h: the value of acTopBackLeft is 15");
static_assert(acTopBackCenter == 16, "VapourSynth4.h: the value of acTopBackCenter is 16");
static_assert(acTopBackRight == 17, "VapourSynth4.h: the value of acTopBackRight is 17");
static_assert(acStereoLeft == 29, "VapourSynth4.h: the value of acStereoLeft is 29");
static_assert(acStereoRight == 30, "VapourSynth4.h: the value of acStereoRight is 30");
static_assert(acWideLeft == 31, "VapourSynth4.h: the value of acWideLeft is 31");
static_assert(acWideRight == 32, "VapourSynth4.h: the value of acWideRight is 32");
static_assert(acSurroundDirectLeft == 33, "VapourSynth4.h: the value of acSurroundDirectLeft is 33");
static_assert(acSurroundDirectRight == 34, "VapourSynth4.h: the value of acSurroundDirectRight is 34");
static_assert(acLowFrequency2 == 35, "VapourSynth4.h: the value of acLowFrequency2 is 35");

static_assert(ptUnset == 0, "VapourSynth4.h: the value of ptUnset is 0");
static_assert(ptInt == 1, "VapourSynth4.h: the value of ptInt is 1");
static_assert(ptFloat == 2, "VapourSynth4.h: the value of ptFloat is 2");
static_assert(ptData == 3, "VapourSynth4.h: the value of ptData is 3");
static_assert(ptFunction == 4, "VapourSynth4.h: the value of ptFunction is 4");
static_assert(ptVideoNode == 5, "VapourSynth4.h: the value of ptVideoNode is 5");
static_assert(ptAudioNode == 6, "VapourSynth4.h: the value of ptAudioNode is 6");
static_assert(ptVideoFrame == 7, "VapourSynth4.h: the value of ptVideoFrame is 7");
static_assert(ptAudioFrame == 8, "VapourSynth4.h: the value of ptAudioFrame is 8");

static_assert(peSuccess == 0, "VapourSynth4.h: the value of peSuccess is 0");
static_assert(peUnset == 1, "VapourSynth4.h: the value of peUnset is 1");
static_assert(peType == 2, "VapourSynth4.h: the value of peType is 2");
static_assert(peIndex == 4, "VapourSynth4.h: the value of peIndex is 4");
static_assert(peError == 3, "VapourSynth4.h: the value of peError is 3");

static_assert(maReplace == 0, "VapourSynth4.h: the value of maReplace is 0");
static_assert(maAppend == 1, "VapourSynth4.h: the value of maAppend is 1");

static_assert(arInitial == 0, "VapourSynth4.h: the value of arInitial is 0");
static_assert(arAllFramesReady == 1, "VapourSynth4.h: the value of arAllFramesReady is 1");
static_assert(arError == -1, "VapourSynth4.h: the value of arError is -1");

static_assert(mtDebug == 0, "VapourSynth4.h: the value of mtDebug is 0");
static_assert(mtInformation == 1, "VapourSynth4.h: the value of mtInformation is 1");
static_assert(mtWarning == 2, "VapourSynth4.h: the value of mtWarning is 2");
static_assert(mtCritical == 3, "VapourSynth4.h: the value of mtCritical is 3");
static_assert(mtFatal == 4, "VapourSynth4.h: the value of mtFatal is 4");

static_assert(ccfEnableGraphInspection == 1, "VapourSynth4.h: the value of ccfEnableGraphInspection is 1");
static_assert(ccfDisableAutoLoading == 2, "VapourSynth4.h: the value of ccfDisableAutoLoading is 2");
static_assert(ccfDisableLibraryUnloading == 4, "VapourSynth4.h: the value of ccfDisableLibraryUnloading is 4");
static_assert(ccfEnableFrameRefDebug == 8, "VapourSynth4.h: the value of ccfEnableFrameRefDebug is 8");

static_assert(pcModifiable == 1, "VapourSynth4.h: the value of pcModifiable is 1");

static_assert(dtUnknown == -1, "VapourSynth4.h: the value of dtUnknown is -1");
static_assert(dtBinary == 0, "VapourSynth4.h: the value of dtBinary is 0");
static_assert(dtUtf8 == 1, "VapourSynth4.h: the value of dtUtf8 is 1");

static_assert(rpGeneral == 0, "VapourSynth4.h: the value of rpGeneral is 0");
static_assert(rpNoFrameReuse == 1, "VapourSynth4.h: the value of rpNoFrameReuse is 1");
static_assert(rpStrictSpatial == 2, "VapourSynth4.h: the value of rpStrictSpatial is 2");
static_assert(rpFrameReuseLastOnly == 3, "VapourSynth4.h: the value of rpFrameReuseLastOnly is 3");

static_assert(cmAuto == -1, "VapourSynth4.h: the value of cmAuto is -1");
static_assert(cmForceDisable == 0, "VapourSynth4.h: the value of cmForceDisable is 0");
static_assert(cmForceEnable == 1, "VapourSynth4.h: the value of cmForceEnable is 1");

static_assert(std::is_same_v<VSGetVapourSynthAPI, const VSAPI *(*)(int)>, "VapourSynth4.h: the type of VSGetVapourSynthAPI");
static_assert(std::is_same_v<VSPublicFunction, void (*)(const VSMap *, VSMap *, void *, VSCore *, const VSAPI *)>, "VapourSynth4.h: the type of VSPublicFunction");
static_assert(std::is_same_v<VSInitPlugin, void (*)(VSPlugin *, const VSPLUGINAPI *)>, "VapourSynth4.h: the type of VSInitPlugin");
static_assert(std::is_same_v<VSFreeFunctionData, void (*)(void *)>, "VapourSynth4.h: the type of VSFreeFunctionData");
static_assert(std::is_same_v<VSFilterGetFrame, const VSFrame *(*)(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *)>, "VapourSynth4.h: the type of VSFilterGetFrame");
static_assert(std::is_same_v<VSFilterFree, void (*)(void *, VSCore *, const VSAPI *)>, "VapourSynth4.h: the type of VSFilterFree");
static_assert(std::is_same_v<VSFrameDoneCallback, void (*)(void *, const VSFrame *, int, VSNode *, const char *)>, "VapourSynth4.h: the type of VSFrameDoneCallback");
static_assert(std::is_same_v<VSLogHandler, void (*)(int, const char *, void *)>, "VapourSynth4.h: the type of VSLogHandler");
static_assert(std::is_same_v<VSLogHandlerFree, void (*)(void *)>, "VapourSynth4.h: the type of VSLogHandlerFree");
static_assert(std::is_same_v<decltype(&getVapourSynthAPI), const VSAPI *(*)(int) noexcept>, "VapourSynth4.h: the type of getVapourSynthAPI");
static_assert(offsetof(VSVideoFormat, colorFamily) == 0, "VapourSynth4.h: VSVideoFormat.colorFamily is at offset 0");
static_assert(std::is_same_v<decltype(VSVideoFormat::colorFamily), int>, "VapourSynth4.h: the type of VSVideoFormat.colorFamily");
static_assert(offsetof(VSVideoFormat, sampleType) == 4, "VapourSynth4.h: VSVideoFormat.sampleType is at offset 4");
static_assert(std::is_same_v<decltype(VSVideoFormat::sampleType), int>, "VapourSynth4.h: the type of VSVideoFormat.sampleType");
static_assert(offsetof(VSVideoFormat, bitsPerSample) == 8, "VapourSynth4.h: VSVideoFormat.bitsPerSample is at offset 8");
static_assert(std::is_same_v<decltype(VSVideoFormat::bitsPerSample), int>, "VapourSynth4.h: the type of VSVideoFormat.bitsPerSample");
static_assert(offsetof(VSVideoFormat, bytesPerSample) == 12, "VapourSynth4.h: VSVideoFormat.bytesPerSample is at offset 12");
static_assert(std::is_same_v<decltype(VSVideoFormat::bytesPerSample), int>, "VapourSynth4.h: the type of VSVideoFormat.bytesPerSample");
static_assert(offsetof(VSVideoFormat, subSamplingW) == 16, "VapourSynth4.h: VSVideoFormat.subSamplingW is at offset 16");
static_assert(std::is_same_v<decltype(VSVideoFormat::subSamplingW), int>, "VapourSynth4.h: the type of VSVideoFormat.subSamplingW");
static_assert(offsetof(VSVideoFormat, subSamplingH) == 20, "VapourSynth4.h: VSVideoFormat.subSamplingH is at offset 20");
static_assert(std::is_same_v<decltype(VSVideoFormat::subSamplingH), int>, "VapourSynth4.h: the type of VSVideoFormat.subSamplingH");
static_assert(offsetof(VSVideoFormat, numPlanes) == 24, "VapourSynth4.h: VSVideoFormat.numPlanes is at offset 24");
static_assert(std::is_same_v<decltype(VSVideoFormat::numPlanes), int>, "VapourSynth4.h: the type of VSVideoFormat.numPlanes");
static_assert(offsetof(VSAudioFormat, sampleType) == 0, "VapourSynth4.h: VSAudioFormat.sampleType is at offset 0");
static_assert(std::is_same_v<decltype(VSAudioFormat::sampleType), int>, "VapourSynth4.h: the type of VSAudioFormat.sampleType");
static_assert(offsetof(VSAudioFormat, bitsPerSample) == 4, "VapourSynth4.h: VSAudioFormat.bitsPerSample is at offset 4");
static_assert(std::is_same_v<decltype(VSAudioFormat::bitsPerSample), int>, "VapourSynth4.h: the type of VSAudioFormat.bitsPerSample");
static_assert(offsetof(VSAudioFormat, bytesPerSample) == 8, "VapourSynth4.h: VSAudioFormat.bytesPerSample is at offset 8");
static_assert(std::is_same_v<decltype(VSAudioFormat::bytesPerSample), int>, "VapourSynth4.h: the type of VSAudioFormat.bytesPerSample");
static_assert(offsetof(VSAudioFormat, numChannels) == 12, "VapourSynth4.h: VSAudioFormat.numChannels is at offset 12");
static_assert(std::is_same_v<decltype(VSAudioFormat::numChannels), int>, "VapourSynth4.h: the type of VSAudioFormat.numChannels");
static_assert(offsetof(VSAudioFormat, channelLayout) == 16, "VapourSynth4.h: VSAudioFormat.channelLayout is at offset 16");
static_assert(std::is_same_v<decltype(VSAudioFormat::channelLayout), uint64_t>, "VapourSynth4.h: the type of VSAudioFormat.channelLayout");
static_assert(offsetof(VSCoreInfo, versionString) == 0, "VapourSynth4.h: VSCoreInfo.versionString is at offset 0");
static_assert(std::is_same_v<decltype(VSCoreInfo::versionString), const char *>, "VapourSynth4.h: the type of VSCoreInfo.versionString");
static_assert(offsetof(VSCoreInfo, core) == 8, "VapourSynth4.h: VSCoreInfo.core is at offset 8");
static_assert(std::is_same_v<decltype(VSCoreInfo::core), int>, "VapourSynth4.h: the type of VSCoreInfo.core");
static_assert(offsetof(VSCoreInfo, api) == 12, "VapourSynth4.h: VSCoreInfo.api is at offset 12");
static_assert(std::is_same_v<decltype(VSCoreInfo::api), int>, "VapourSynth4.h: the type of VSCoreInfo.api");
static_assert(offsetof(VSCoreInfo, numThreads) == 16, "VapourSynth4.h: VSCoreInfo.numThreads is at offset 16");
static_assert(std::is_same_v<decltype(VSCoreInfo::numThreads), int>, "VapourSynth4.h: the type of VSCoreInfo.numThreads");
static_assert(offsetof(VSCoreInfo, maxFramebufferSize) == 24, "VapourSynth4.h: VSCoreInfo.maxFramebufferSize is at offset 24");
static_assert(std::is_same_v<decltype(VSCoreInfo::maxFramebufferSize), int64_t>, "VapourSynth4.h: the type of VSCoreInfo.maxFramebufferSize");
static_assert(offsetof(VSCoreInfo, usedFramebufferSize) == 32, "VapourSynth4.h: VSCoreInfo.usedFramebufferSize is at offset 32");
static_assert(std::is_same_v<decltype(VSCoreInfo::usedFramebufferSize), int64_t>, "VapourSynth4.h: the type of VSCoreInfo.usedFramebufferSize");
static_assert(offsetof(VSCoreInfo2, versionString) == 0, "VapourSynth4.h: VSCoreInfo2.versionString is at offset 0");
static_assert(std::is_same_v<decltype(VSCoreInfo2::versionString), const char *>, "VapourSynth4.h: the type of VSCoreInfo2.versionString");
static_assert(offsetof(VSCoreInfo2, coreVersion) == 8, "VapourSynth4.h: VSCoreInfo2.coreVersion is at offset 8");
static_assert(std::is_same_v<decltype(VSCoreInfo2::coreVersion), int>, "VapourSynth4.h: the type of VSCoreInfo2.coreVersion");
static_assert(offsetof(VSCoreInfo2, apiVersion) == 12, "VapourSynth4.h: VSCoreInfo2.apiVersion is at offset 12");
static_assert(std::is_same_v<decltype(VSCoreInfo2::apiVersion), int>, "VapourSynth4.h: the type of VSCoreInfo2.apiVersion");
static_assert(offsetof(VSCoreInfo2, creationFlags) == 16, "VapourSynth4.h: VSCoreInfo2.creationFlags is at offset 16");
static_assert(std::is_same_v<decltype(VSCoreInfo2::creationFlags), int>, "VapourSynth4.h: the type of VSCoreInfo2.creationFlags");
static_assert(offsetof(VSCoreInfo2, numThreads) == 20, "VapourSynth4.h: VSCoreInfo2.numThreads is at offset 20");
static_assert(std::is_same_v<decltype(VSCoreInfo2::numThreads), int>, "VapourSynth4.h: the type of VSCoreInfo2.numThreads");
static_assert(offsetof(VSCoreInfo2, maxFramebufferSize) == 24, "VapourSynth4.h: VSCoreInfo2.maxFramebufferSize is at offset 24");
static_assert(std::is_same_v<decltype(VSCoreInfo2::maxFramebufferSize), int64_t>, "VapourSynth4.h: the type of VSCoreInfo2.maxFramebufferSize");
static_assert(offsetof(VSCoreInfo2, usedFramebufferSize) == 32, "VapourSynth4.h: VSCoreInfo2.usedFramebufferSize is at offset 32");
static_assert(std::is_same_v<decltype(VSCoreInfo2::usedFramebufferSize), int64_t>, "VapourSynth4.h: the type of VSCoreInfo2.usedFramebufferSize");
static_assert(offsetof(VSVideoInfo, format) == 0, "VapourSynth4.h: VSVideoInfo.format is at offset 0");
static_assert(std::is_same_v<decltype(VSVideoInfo::format), VSVideoFormat>, "VapourSynth4.h: the type of VSVideoInfo.format");
static_assert(offsetof(VSVideoInfo, fpsNum) == 32, "VapourSynth4.h: VSVideoInfo.fpsNum is at offset 32");
static_assert(std::is_same_v<decltype(VSVideoInfo::fpsNum), int64_t>, "VapourSynth4.h: the type of VSVideoInfo.fpsNum");
static_assert(offsetof(VSVideoInfo, fpsDen) == 40, "VapourSynth4.h: VSVideoInfo.fpsDen is at offset 40");
static_assert(std::is_same_v<decltype(VSVideoInfo::fpsDen), int64_t>, "VapourSynth4.h: the type of VSVideoInfo.fpsDen");
static_assert(offsetof(VSVideoInfo, width) == 48, "VapourSynth4.h: VSVideoInfo.width is at offset 48");
static_assert(std::is_same_v<decltype(VSVideoInfo::width), int>, "VapourSynth4.h: the type of VSVideoInfo.width");
static_assert(offsetof(VSVideoInfo, height) == 52, "VapourSynth4.h: VSVideoInfo.height is at offset 52");
static_assert(std::is_same_v<decltype(VSVideoInfo::height), int>, "VapourSynth4.h: the type of VSVideoInfo.height");
static_assert(offsetof(VSVideoInfo, numFrames) == 56, "VapourSynth4.h: VSVideoInfo.numFrames is at offset 56");
static_assert(std::is_same_v<decltype(VSVideoInfo::numFrames), int>, "VapourSynth4.h: the type of VSVideoInfo.numFrames");
static_assert(offsetof(VSAudioInfo, format) == 0, "VapourSynth4.h: VSAudioInfo.format is at offset 0");
static_assert(std::is_same_v<decltype(VSAudioInfo::format), VSAudioFormat>, "VapourSynth4.h: the type of VSAudioInfo.format");
static_assert(offsetof(VSAudioInfo, sampleRate) == 24, "VapourSynth4.h: VSAudioInfo.sampleRate is at offset 24");
static_assert(std::is_same_v<decltype(VSAudioInfo::sampleRate), int>, "VapourSynth4.h: the type of VSAudioInfo.sampleRate");
static_assert(offsetof(VSAudioInfo, numSamples) == 32, "VapourSynth4.h: VSAudioInfo.numSamples is at offset 32");
static_assert(std::is_same_v<decltype(VSAudioInfo::numSamples), int64_t>, "VapourSynth4.h: the type of VSAudioInfo.numSamples");
static_assert(offsetof(VSAudioInfo, numFrames) == 40, "VapourSynth4.h: VSAudioInfo.numFrames is at offset 40");
static_assert(std::is_same_v<decltype(VSAudioInfo::numFrames), int>, "VapourSynth4.h: the type of VSAudioInfo.numFrames");
static_assert(offsetof(VSPLUGINAPI, getAPIVersion) == 0, "VapourSynth4.h: VSPLUGINAPI.getAPIVersion is at offset 0");
static_assert(std::is_same_v<decltype(VSPLUGINAPI::getAPIVersion), int (*)() noexcept>, "VapourSynth4.h: the type of VSPLUGINAPI.getAPIVersion");
static_assert(offsetof(VSPLUGINAPI, configPlugin) == 8, "VapourSynth4.h: VSPLUGINAPI.configPlugin is at offset 8");
static_assert(std::is_same_v<decltype(VSPLUGINAPI::configPlugin), int (*)(const char *, const char *, const char *, int, int, int, VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSPLUGINAPI.configPlugin");
static_assert(offsetof(VSPLUGINAPI, registerFunction) == 16, "VapourSynth4.h: VSPLUGINAPI.registerFunction is at offset 16");
static_assert(std::is_same_v<decltype(VSPLUGINAPI::registerFunction), int (*)(const char *, const char *, const char *, VSPublicFunction, void *, VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSPLUGINAPI.registerFunction");
static_assert(offsetof(VSFilterDependency, source) == 0, "VapourSynth4.h: VSFilterDependency.source is at offset 0");
static_assert(std::is_same_v<decltype(VSFilterDependency::source), VSNode *>, "VapourSynth4.h: the type of VSFilterDependency.source");
static_assert(offsetof(VSFilterDependency, requestPattern) == 8, "VapourSynth4.h: VSFilterDependency.requestPattern is at offset 8");
static_assert(std::is_same_v<decltype(VSFilterDependency::requestPattern), int>, "VapourSynth4.h: the type of VSFilterDependency.requestPattern");
static_assert(offsetof(VSAPI, createVideoFilter) == 0, "VapourSynth4.h: VSAPI.createVideoFilter is at offset 0");
static_assert(std::is_same_v<decltype(VSAPI::createVideoFilter), void (*)(VSMap *, const char *, const VSVideoInfo *, VSFilterGetFrame, VSFilterFree, int, const VSFilterDependency *, int, void *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.createVideoFilter");
static_assert(offsetof(VSAPI, createVideoFilter2) == 8, "VapourSynth4.h: VSAPI.createVideoFilter2 is at offset 8");
static_assert(std::is_same_v<decltype(VSAPI::createVideoFilter2), VSNode *(*)(const char *, const VSVideoInfo *, VSFilterGetFrame, VSFilterFree, int, const VSFilterDependency *, int, void *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.createVideoFilter2");
static_assert(offsetof(VSAPI, createAudioFilter) == 16, "VapourSynth4.h: VSAPI.createAudioFilter is at offset 16");
static_assert(std::is_same_v<decltype(VSAPI::createAudioFilter), void (*)(VSMap *, const char *, const VSAudioInfo *, VSFilterGetFrame, VSFilterFree, int, const VSFilterDependency *, int, void *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.createAudioFilter");
static_assert(offsetof(VSAPI, createAudioFilter2) == 24, "VapourSynth4.h: VSAPI.createAudioFilter2 is at offset 24");
static_assert(std::is_same_v<decltype(VSAPI::createAudioFilter2), VSNode *(*)(const char *, const VSAudioInfo *, VSFilterGetFrame, VSFilterFree, int, const VSFilterDependency *, int, void *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.createAudioFilter2");
static_assert(offsetof(VSAPI, setLinearFilter) == 32, "VapourSynth4.h: VSAPI.setLinearFilter is at offset 32");
static_assert(std::is_same_v<decltype(VSAPI::setLinearFilter), int (*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.setLinearFilter");
static_assert(offsetof(VSAPI, setCacheMode) == 40, "VapourSynth4.h: VSAPI.setCacheMode is at offset 40");
static_assert(std::is_same_v<decltype(VSAPI::setCacheMode), void (*)(VSNode *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.setCacheMode");
static_assert(offsetof(VSAPI, setCacheOptions) == 48, "VapourSynth4.h: VSAPI.setCacheOptions is at offset 48");
static_assert(std::is_same_v<decltype(VSAPI::setCacheOptions), void (*)(VSNode *, int, int, int) noexcept>, "VapourSynth4.h: the type of VSAPI.setCacheOptions");
static_assert(offsetof(VSAPI, freeNode) == 56, "VapourSynth4.h: VSAPI.freeNode is at offset 56");
static_assert(std::is_same_v<decltype(VSAPI::freeNode), void (*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.freeNode");
static_assert(offsetof(VSAPI, addNodeRef) == 64, "VapourSynth4.h: VSAPI.addNodeRef is at offset 64");
static_assert(std::is_same_v<decltype(VSAPI::addNodeRef), VSNode *(*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.addNodeRef");
static_assert(offsetof(VSAPI, getNodeType) == 72, "VapourSynth4.h: VSAPI.getNodeType is at offset 72");
static_assert(std::is_same_v<decltype(VSAPI::getNodeType), int (*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.getNodeType");
static_assert(offsetof(VSAPI, getVideoInfo) == 80, "VapourSynth4.h: VSAPI.getVideoInfo is at offset 80");
static_assert(std::is_same_v<decltype(VSAPI::getVideoInfo), const VSVideoInfo *(*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.getVideoInfo");
static_assert(offsetof(VSAPI, getAudioInfo) == 88, "VapourSynth4.h: VSAPI.getAudioInfo is at offset 88");
static_assert(std::is_same_v<decltype(VSAPI::getAudioInfo), const VSAudioInfo *(*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.getAudioInfo");
static_assert(offsetof(VSAPI, newVideoFrame) == 96, "VapourSynth4.h: VSAPI.newVideoFrame is at offset 96");
static_assert(std::is_same_v<decltype(VSAPI::newVideoFrame), VSFrame *(*)(const VSVideoFormat *, int, int, const VSFrame *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.newVideoFrame");
static_assert(offsetof(VSAPI, newVideoFrame2) == 104, "VapourSynth4.h: VSAPI.newVideoFrame2 is at offset 104");
static_assert(std::is_same_v<decltype(VSAPI::newVideoFrame2), VSFrame *(*)(const VSVideoFormat *, int, int, const VSFrame **, const int *, const VSFrame *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.newVideoFrame2");
static_assert(offsetof(VSAPI, newAudioFrame) == 112, "VapourSynth4.h: VSAPI.newAudioFrame is at offset 112");
static_assert(std::is_same_v<decltype(VSAPI::newAudioFrame), VSFrame *(*)(const VSAudioFormat *, int, const VSFrame *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.newAudioFrame");
static_assert(offsetof(VSAPI, newAudioFrame2) == 120, "VapourSynth4.h: VSAPI.newAudioFrame2 is at offset 120");
static_assert(std::is_same_v<decltype(VSAPI::newAudioFrame2), VSFrame *(*)(const VSAudioFormat *, int, const VSFrame **, const int *, const VSFrame *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.newAudioFrame2");
static_assert(offsetof(VSAPI, freeFrame) == 128, "VapourSynth4.h: VSAPI.freeFrame is at offset 128");
static_assert(std::is_same_v<decltype(VSAPI::freeFrame), void (*)(const VSFrame *) noexcept>, "VapourSynth4.h: the type of VSAPI.freeFrame");
static_assert(offsetof(VSAPI, addFrameRef) == 136, "VapourSynth4.h: VSAPI.addFrameRef is at offset 136");
static_assert(std::is_same_v<decltype(VSAPI::addFrameRef), const VSFrame *(*)(const VSFrame *) noexcept>, "VapourSynth4.h: the type of VSAPI.addFrameRef");
static_assert(offsetof(VSAPI, copyFrame) == 144, "VapourSynth4.h: VSAPI.copyFrame is at offset 144");
static_assert(std::is_same_v<decltype(VSAPI::copyFrame), VSFrame *(*)(const VSFrame *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.copyFrame");
static_assert(offsetof(VSAPI, getFramePropertiesRO) == 152, "VapourSynth4.h: VSAPI.getFramePropertiesRO is at offset 152");
static_assert(std::is_same_v<decltype(VSAPI::getFramePropertiesRO), const VSMap *(*)(const VSFrame *) noexcept>, "VapourSynth4.h: the type of VSAPI.getFramePropertiesRO");
static_assert(offsetof(VSAPI, getFramePropertiesRW) == 160, "VapourSynth4.h: VSAPI.getFramePropertiesRW is at offset 160");
static_assert(std::is_same_v<decltype(VSAPI::getFramePropertiesRW), VSMap *(*)(VSFrame *) noexcept>, "VapourSynth4.h: the type of VSAPI.getFramePropertiesRW");
static_assert(offsetof(VSAPI, getStride) == 168, "VapourSynth4.h: VSAPI.getStride is at offset 168");
static_assert(std::is_same_v<decltype(VSAPI::getStride), ptrdiff_t (*)(const VSFrame *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.getStride");
static_assert(offsetof(VSAPI, getReadPtr) == 176, "VapourSynth4.h: VSAPI.getReadPtr is at offset 176");
static_assert(std::is_same_v<decltype(VSAPI::getReadPtr), const uint8_t *(*)(const VSFrame *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.getReadPtr");
static_assert(offsetof(VSAPI, getWritePtr) == 184, "VapourSynth4.h: VSAPI.getWritePtr is at offset 184");
static_assert(std::is_same_v<decltype(VSAPI::getWritePtr), uint8_t *(*)(VSFrame *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.getWritePtr");
static_assert(offsetof(VSAPI, getVideoFrameFormat) == 192, "VapourSynth4.h: VSAPI.getVideoFrameFormat is at offset 192");
static_assert(std::is_same_v<decltype(VSAPI::getVideoFrameFormat), const VSVideoFormat *(*)(const VSFrame *) noexcept>, "VapourSynth4.h: the type of VSAPI.getVideoFrameFormat");
static_assert(offsetof(VSAPI, getAudioFrameFormat) == 200, "VapourSynth4.h: VSAPI.getAudioFrameFormat is at offset 200");
static_assert(std::is_same_v<decltype(VSAPI::getAudioFrameFormat), const VSAudioFormat *(*)(const VSFrame *) noexcept>, "VapourSynth4.h: the type of VSAPI.getAudioFrameFormat");
static_assert(offsetof(VSAPI, getFrameType) == 208, "VapourSynth4.h: VSAPI.getFrameType is at offset 208");
static_assert(std::is_same_v<decltype(VSAPI::getFrameType), int (*)(const VSFrame *) noexcept>, "VapourSynth4.h: the type of VSAPI.getFrameType");
static_assert(offsetof(VSAPI, getFrameWidth) == 216, "VapourSynth4.h: VSAPI.getFrameWidth is at offset 216");
static_assert(std::is_same_v<decltype(VSAPI::getFrameWidth), int (*)(const VSFrame *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.getFrameWidth");
static_assert(offsetof(VSAPI, getFrameHeight) == 224, "VapourSynth4.h: VSAPI.getFrameHeight is at offset 224");
static_assert(std::is_same_v<decltype(VSAPI::getFrameHeight), int (*)(const VSFrame *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.getFrameHeight");
static_assert(offsetof(VSAPI, getFrameLength) == 232, "VapourSynth4.h: VSAPI.getFrameLength is at offset 232");
static_assert(std::is_same_v<decltype(VSAPI::getFrameLength), int (*)(const VSFrame *) noexcept>, "VapourSynth4.h: the type of VSAPI.getFrameLength");
static_assert(offsetof(VSAPI, getVideoFormatName) == 240, "VapourSynth4.h: VSAPI.getVideoFormatName is at offset 240");
static_assert(std::is_same_v<decltype(VSAPI::getVideoFormatName), int (*)(const VSVideoFormat *, char *) noexcept>, "VapourSynth4.h: the type of VSAPI.getVideoFormatName");
static_assert(offsetof(VSAPI, getAudioFormatName) == 248, "VapourSynth4.h: VSAPI.getAudioFormatName is at offset 248");
static_assert(std::is_same_v<decltype(VSAPI::getAudioFormatName), int (*)(const VSAudioFormat *, char *) noexcept>, "VapourSynth4.h: the type of VSAPI.getAudioFormatName");
static_assert(offsetof(VSAPI, queryVideoFormat) == 256, "VapourSynth4.h: VSAPI.queryVideoFormat is at offset 256");
static_assert(std::is_same_v<decltype(VSAPI::queryVideoFormat), int (*)(VSVideoFormat *, int, int, int, int, int, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.queryVideoFormat");
static_assert(offsetof(VSAPI, queryAudioFormat) == 264, "VapourSynth4.h: VSAPI.queryAudioFormat is at offset 264");
static_assert(std::is_same_v<decltype(VSAPI::queryAudioFormat), int (*)(VSAudioFormat *, int, int, uint64_t, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.queryAudioFormat");
static_assert(offsetof(VSAPI, queryVideoFormatID) == 272, "VapourSynth4.h: VSAPI.queryVideoFormatID is at offset 272");
static_assert(std::is_same_v<decltype(VSAPI::queryVideoFormatID), uint32_t (*)(int, int, int, int, int, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.queryVideoFormatID");
static_assert(offsetof(VSAPI, getVideoFormatByID) == 280, "VapourSynth4.h: VSAPI.getVideoFormatByID is at offset 280");
static_assert(std::is_same_v<decltype(VSAPI::getVideoFormatByID), int (*)(VSVideoFormat *, uint32_t, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.getVideoFormatByID");
static_assert(offsetof(VSAPI, getFrame) == 288, "VapourSynth4.h: VSAPI.getFrame is at offset 288");
static_assert(std::is_same_v<decltype(VSAPI::getFrame), const VSFrame *(*)(int, VSNode *, char *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.getFrame");
static_assert(offsetof(VSAPI, getFrameAsync) == 296, "VapourSynth4.h: VSAPI.getFrameAsync is at offset 296");
static_assert(std::is_same_v<decltype(VSAPI::getFrameAsync), void (*)(int, VSNode *, VSFrameDoneCallback, void *) noexcept>, "VapourSynth4.h: the type of VSAPI.getFrameAsync");
static_assert(offsetof(VSAPI, getFrameFilter) == 304, "VapourSynth4.h: VSAPI.getFrameFilter is at offset 304");
static_assert(std::is_same_v<decltype(VSAPI::getFrameFilter), const VSFrame *(*)(int, VSNode *, VSFrameContext *) noexcept>, "VapourSynth4.h: the type of VSAPI.getFrameFilter");
static_assert(offsetof(VSAPI, requestFrameFilter) == 312, "VapourSynth4.h: VSAPI.requestFrameFilter is at offset 312");
static_assert(std::is_same_v<decltype(VSAPI::requestFrameFilter), void (*)(int, VSNode *, VSFrameContext *) noexcept>, "VapourSynth4.h: the type of VSAPI.requestFrameFilter");
static_assert(offsetof(VSAPI, releaseFrameEarly) == 320, "VapourSynth4.h: VSAPI.releaseFrameEarly is at offset 320");
static_assert(std::is_same_v<decltype(VSAPI::releaseFrameEarly), void (*)(VSNode *, int, VSFrameContext *) noexcept>, "VapourSynth4.h: the type of VSAPI.releaseFrameEarly");
static_assert(offsetof(VSAPI, cacheFrame) == 328, "VapourSynth4.h: VSAPI.cacheFrame is at offset 328");
static_assert(std::is_same_v<decltype(VSAPI::cacheFrame), void (*)(const VSFrame *, int, VSFrameContext *) noexcept>, "VapourSynth4.h: the type of VSAPI.cacheFrame");
static_assert(offsetof(VSAPI, setFilterError) == 336, "VapourSynth4.h: VSAPI.setFilterError is at offset 336");
static_assert(std::is_same_v<decltype(VSAPI::setFilterError), void (*)(const char *, VSFrameContext *) noexcept>, "VapourSynth4.h: the type of VSAPI.setFilterError");
static_assert(offsetof(VSAPI, createFunction) == 344, "VapourSynth4.h: VSAPI.createFunction is at offset 344");
static_assert(std::is_same_v<decltype(VSAPI::createFunction), VSFunction *(*)(VSPublicFunction, void *, VSFreeFunctionData, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.createFunction");
static_assert(offsetof(VSAPI, freeFunction) == 352, "VapourSynth4.h: VSAPI.freeFunction is at offset 352");
static_assert(std::is_same_v<decltype(VSAPI::freeFunction), void (*)(VSFunction *) noexcept>, "VapourSynth4.h: the type of VSAPI.freeFunction");
static_assert(offsetof(VSAPI, addFunctionRef) == 360, "VapourSynth4.h: VSAPI.addFunctionRef is at offset 360");
static_assert(std::is_same_v<decltype(VSAPI::addFunctionRef), VSFunction *(*)(VSFunction *) noexcept>, "VapourSynth4.h: the type of VSAPI.addFunctionRef");
static_assert(offsetof(VSAPI, callFunction) == 368, "VapourSynth4.h: VSAPI.callFunction is at offset 368");
static_assert(std::is_same_v<decltype(VSAPI::callFunction), void (*)(VSFunction *, const VSMap *, VSMap *) noexcept>, "VapourSynth4.h: the type of VSAPI.callFunction");
static_assert(offsetof(VSAPI, createMap) == 376, "VapourSynth4.h: VSAPI.createMap is at offset 376");
static_assert(std::is_same_v<decltype(VSAPI::createMap), VSMap *(*)() noexcept>, "VapourSynth4.h: the type of VSAPI.createMap");
static_assert(offsetof(VSAPI, freeMap) == 384, "VapourSynth4.h: VSAPI.freeMap is at offset 384");
static_assert(std::is_same_v<decltype(VSAPI::freeMap), void (*)(VSMap *) noexcept>, "VapourSynth4.h: the type of VSAPI.freeMap");
static_assert(offsetof(VSAPI, clearMap) == 392, "VapourSynth4.h: VSAPI.clearMap is at offset 392");
static_assert(std::is_same_v<decltype(VSAPI::clearMap), void (*)(VSMap *) noexcept>, "VapourSynth4.h: the type of VSAPI.clearMap");
static_assert(offsetof(VSAPI, copyMap) == 400, "VapourSynth4.h: VSAPI.copyMap is at offset 400");
static_assert(std::is_same_v<decltype(VSAPI::copyMap), void (*)(const VSMap *, VSMap *) noexcept>, "VapourSynth4.h: the type of VSAPI.copyMap");
static_assert(offsetof(VSAPI, mapSetError) == 408, "VapourSynth4.h: VSAPI.mapSetError is at offset 408");
static_assert(std::is_same_v<decltype(VSAPI::mapSetError), void (*)(VSMap *, const char *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetError");
static_assert(offsetof(VSAPI, mapGetError) == 416, "VapourSynth4.h: VSAPI.mapGetError is at offset 416");
static_assert(std::is_same_v<decltype(VSAPI::mapGetError), const char *(*)(const VSMap *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetError");
static_assert(offsetof(VSAPI, mapNumKeys) == 424, "VapourSynth4.h: VSAPI.mapNumKeys is at offset 424");
static_assert(std::is_same_v<decltype(VSAPI::mapNumKeys), int (*)(const VSMap *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapNumKeys");
static_assert(offsetof(VSAPI, mapGetKey) == 432, "VapourSynth4.h: VSAPI.mapGetKey is at offset 432");
static_assert(std::is_same_v<decltype(VSAPI::mapGetKey), const char *(*)(const VSMap *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetKey");
static_assert(offsetof(VSAPI, mapDeleteKey) == 440, "VapourSynth4.h: VSAPI.mapDeleteKey is at offset 440");
static_assert(std::is_same_v<decltype(VSAPI::mapDeleteKey), int (*)(VSMap *, const char *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapDeleteKey");
static_assert(offsetof(VSAPI, mapNumElements) == 448, "VapourSynth4.h: VSAPI.mapNumElements is at offset 448");
static_assert(std::is_same_v<decltype(VSAPI::mapNumElements), int (*)(const VSMap *, const char *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapNumElements");
static_assert(offsetof(VSAPI, mapGetType) == 456, "VapourSynth4.h: VSAPI.mapGetType is at offset 456");
static_assert(std::is_same_v<decltype(VSAPI::mapGetType), int (*)(const VSMap *, const char *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetType");
static_assert(offsetof(VSAPI, mapSetEmpty) == 464, "VapourSynth4.h: VSAPI.mapSetEmpty is at offset 464");
static_assert(std::is_same_v<decltype(VSAPI::mapSetEmpty), int (*)(VSMap *, const char *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetEmpty");
static_assert(offsetof(VSAPI, mapGetInt) == 472, "VapourSynth4.h: VSAPI.mapGetInt is at offset 472");
static_assert(std::is_same_v<decltype(VSAPI::mapGetInt), int64_t (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetInt");
static_assert(offsetof(VSAPI, mapGetIntSaturated) == 480, "VapourSynth4.h: VSAPI.mapGetIntSaturated is at offset 480");
static_assert(std::is_same_v<decltype(VSAPI::mapGetIntSaturated), int (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetIntSaturated");
static_assert(offsetof(VSAPI, mapGetIntArray) == 488, "VapourSynth4.h: VSAPI.mapGetIntArray is at offset 488");
static_assert(std::is_same_v<decltype(VSAPI::mapGetIntArray), const int64_t *(*)(const VSMap *, const char *, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetIntArray");
static_assert(offsetof(VSAPI, mapSetInt) == 496, "VapourSynth4.h: VSAPI.mapSetInt is at offset 496");
static_assert(std::is_same_v<decltype(VSAPI::mapSetInt), int (*)(VSMap *, const char *, int64_t, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetInt");
static_assert(offsetof(VSAPI, mapSetIntArray) == 504, "VapourSynth4.h: VSAPI.mapSetIntArray is at offset 504");
static_assert(std::is_same_v<decltype(VSAPI::mapSetIntArray), int (*)(VSMap *, const char *, const int64_t *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetIntArray");
static_assert(offsetof(VSAPI, mapGetFloat) == 512, "VapourSynth4.h: VSAPI.mapGetFloat is at offset 512");
static_assert(std::is_same_v<decltype(VSAPI::mapGetFloat), double (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetFloat");
static_assert(offsetof(VSAPI, mapGetFloatSaturated) == 520, "VapourSynth4.h: VSAPI.mapGetFloatSaturated is at offset 520");
static_assert(std::is_same_v<decltype(VSAPI::mapGetFloatSaturated), float (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetFloatSaturated");
static_assert(offsetof(VSAPI, mapGetFloatArray) == 528, "VapourSynth4.h: VSAPI.mapGetFloatArray is at offset 528");
static_assert(std::is_same_v<decltype(VSAPI::mapGetFloatArray), const double *(*)(const VSMap *, const char *, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetFloatArray");
static_assert(offsetof(VSAPI, mapSetFloat) == 536, "VapourSynth4.h: VSAPI.mapSetFloat is at offset 536");
static_assert(std::is_same_v<decltype(VSAPI::mapSetFloat), int (*)(VSMap *, const char *, double, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetFloat");
static_assert(offsetof(VSAPI, mapSetFloatArray) == 544, "VapourSynth4.h: VSAPI.mapSetFloatArray is at offset 544");
static_assert(std::is_same_v<decltype(VSAPI::mapSetFloatArray), int (*)(VSMap *, const char *, const double *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetFloatArray");
static_assert(offsetof(VSAPI, mapGetData) == 552, "VapourSynth4.h: VSAPI.mapGetData is at offset 552");
static_assert(std::is_same_v<decltype(VSAPI::mapGetData), const char *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetData");
static_assert(offsetof(VSAPI, mapGetDataSize) == 560, "VapourSynth4.h: VSAPI.mapGetDataSize is at offset 560");
static_assert(std::is_same_v<decltype(VSAPI::mapGetDataSize), int (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetDataSize");
static_assert(offsetof(VSAPI, mapGetDataTypeHint) == 568, "VapourSynth4.h: VSAPI.mapGetDataTypeHint is at offset 568");
static_assert(std::is_same_v<decltype(VSAPI::mapGetDataTypeHint), int (*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetDataTypeHint");
static_assert(offsetof(VSAPI, mapSetData) == 576, "VapourSynth4.h: VSAPI.mapSetData is at offset 576");
static_assert(std::is_same_v<decltype(VSAPI::mapSetData), int (*)(VSMap *, const char *, const char *, int, int, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetData");
static_assert(offsetof(VSAPI, mapGetNode) == 584, "VapourSynth4.h: VSAPI.mapGetNode is at offset 584");
static_assert(std::is_same_v<decltype(VSAPI::mapGetNode), VSNode *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetNode");
static_assert(offsetof(VSAPI, mapSetNode) == 592, "VapourSynth4.h: VSAPI.mapSetNode is at offset 592");
static_assert(std::is_same_v<decltype(VSAPI::mapSetNode), int (*)(VSMap *, const char *, VSNode *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetNode");
static_assert(offsetof(VSAPI, mapConsumeNode) == 600, "VapourSynth4.h: VSAPI.mapConsumeNode is at offset 600");
static_assert(std::is_same_v<decltype(VSAPI::mapConsumeNode), int (*)(VSMap *, const char *, VSNode *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapConsumeNode");
static_assert(offsetof(VSAPI, mapGetFrame) == 608, "VapourSynth4.h: VSAPI.mapGetFrame is at offset 608");
static_assert(std::is_same_v<decltype(VSAPI::mapGetFrame), const VSFrame *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetFrame");
static_assert(offsetof(VSAPI, mapSetFrame) == 616, "VapourSynth4.h: VSAPI.mapSetFrame is at offset 616");
static_assert(std::is_same_v<decltype(VSAPI::mapSetFrame), int (*)(VSMap *, const char *, const VSFrame *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetFrame");
static_assert(offsetof(VSAPI, mapConsumeFrame) == 624, "VapourSynth4.h: VSAPI.mapConsumeFrame is at offset 624");
static_assert(std::is_same_v<decltype(VSAPI::mapConsumeFrame), int (*)(VSMap *, const char *, const VSFrame *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapConsumeFrame");
static_assert(offsetof(VSAPI, mapGetFunction) == 632, "VapourSynth4.h: VSAPI.mapGetFunction is at offset 632");
static_assert(std::is_same_v<decltype(VSAPI::mapGetFunction), VSFunction *(*)(const VSMap *, const char *, int, int *) noexcept>, "VapourSynth4.h: the type of VSAPI.mapGetFunction");
static_assert(offsetof(VSAPI, mapSetFunction) == 640, "VapourSynth4.h: VSAPI.mapSetFunction is at offset 640");
static_assert(std::is_same_v<decltype(VSAPI::mapSetFunction), int (*)(VSMap *, const char *, VSFunction *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapSetFunction");
static_assert(offsetof(VSAPI, mapConsumeFunction) == 648, "VapourSynth4.h: VSAPI.mapConsumeFunction is at offset 648");
static_assert(std::is_same_v<decltype(VSAPI::mapConsumeFunction), int (*)(VSMap *, const char *, VSFunction *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.mapConsumeFunction");
static_assert(offsetof(VSAPI, registerFunction) == 656, "VapourSynth4.h: VSAPI.registerFunction is at offset 656");
static_assert(std::is_same_v<decltype(VSAPI::registerFunction), int (*)(const char *, const char *, const char *, VSPublicFunction, void *, VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSAPI.registerFunction");
static_assert(offsetof(VSAPI, getPluginByID) == 664, "VapourSynth4.h: VSAPI.getPluginByID is at offset 664");
static_assert(std::is_same_v<decltype(VSAPI::getPluginByID), VSPlugin *(*)(const char *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginByID");
static_assert(offsetof(VSAPI, getPluginByNamespace) == 672, "VapourSynth4.h: VSAPI.getPluginByNamespace is at offset 672");
static_assert(std::is_same_v<decltype(VSAPI::getPluginByNamespace), VSPlugin *(*)(const char *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginByNamespace");
static_assert(offsetof(VSAPI, getNextPlugin) == 680, "VapourSynth4.h: VSAPI.getNextPlugin is at offset 680");
static_assert(std::is_same_v<decltype(VSAPI::getNextPlugin), VSPlugin *(*)(VSPlugin *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.getNextPlugin");
static_assert(offsetof(VSAPI, getPluginName) == 688, "VapourSynth4.h: VSAPI.getPluginName is at offset 688");
static_assert(std::is_same_v<decltype(VSAPI::getPluginName), const char *(*)(VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginName");
static_assert(offsetof(VSAPI, getPluginID) == 696, "VapourSynth4.h: VSAPI.getPluginID is at offset 696");
static_assert(std::is_same_v<decltype(VSAPI::getPluginID), const char *(*)(VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginID");
static_assert(offsetof(VSAPI, getPluginNamespace) == 704, "VapourSynth4.h: VSAPI.getPluginNamespace is at offset 704");
static_assert(std::is_same_v<decltype(VSAPI::getPluginNamespace), const char *(*)(VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginNamespace");
static_assert(offsetof(VSAPI, getNextPluginFunction) == 712, "VapourSynth4.h: VSAPI.getNextPluginFunction is at offset 712");
static_assert(std::is_same_v<decltype(VSAPI::getNextPluginFunction), VSPluginFunction *(*)(VSPluginFunction *, VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSAPI.getNextPluginFunction");
static_assert(offsetof(VSAPI, getPluginFunctionByName) == 720, "VapourSynth4.h: VSAPI.getPluginFunctionByName is at offset 720");
static_assert(std::is_same_v<decltype(VSAPI::getPluginFunctionByName), VSPluginFunction *(*)(const char *, VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginFunctionByName");
static_assert(offsetof(VSAPI, getPluginFunctionName) == 728, "VapourSynth4.h: VSAPI.getPluginFunctionName is at offset 728");
static_assert(std::is_same_v<decltype(VSAPI::getPluginFunctionName), const char *(*)(VSPluginFunction *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginFunctionName");
static_assert(offsetof(VSAPI, getPluginFunctionArguments) == 736, "VapourSynth4.h: VSAPI.getPluginFunctionArguments is at offset 736");
static_assert(std::is_same_v<decltype(VSAPI::getPluginFunctionArguments), const char *(*)(VSPluginFunction *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginFunctionArguments");
static_assert(offsetof(VSAPI, getPluginFunctionReturnType) == 744, "VapourSynth4.h: VSAPI.getPluginFunctionReturnType is at offset 744");
static_assert(std::is_same_v<decltype(VSAPI::getPluginFunctionReturnType), const char *(*)(VSPluginFunction *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginFunctionReturnType");
static_assert(offsetof(VSAPI, getPluginPath) == 752, "VapourSynth4.h: VSAPI.getPluginPath is at offset 752");
static_assert(std::is_same_v<decltype(VSAPI::getPluginPath), const char *(*)(const VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginPath");
static_assert(offsetof(VSAPI, getPluginVersion) == 760, "VapourSynth4.h: VSAPI.getPluginVersion is at offset 760");
static_assert(std::is_same_v<decltype(VSAPI::getPluginVersion), int (*)(const VSPlugin *) noexcept>, "VapourSynth4.h: the type of VSAPI.getPluginVersion");
static_assert(offsetof(VSAPI, invoke) == 768, "VapourSynth4.h: VSAPI.invoke is at offset 768");
static_assert(std::is_same_v<decltype(VSAPI::invoke), VSMap *(*)(VSPlugin *, const char *, const VSMap *) noexcept>, "VapourSynth4.h: the type of VSAPI.invoke");
static_assert(offsetof(VSAPI, createCore) == 776, "VapourSynth4.h: VSAPI.createCore is at offset 776");
static_assert(std::is_same_v<decltype(VSAPI::createCore), VSCore *(*)(int) noexcept>, "VapourSynth4.h: the type of VSAPI.createCore");
static_assert(offsetof(VSAPI, freeCore) == 784, "VapourSynth4.h: VSAPI.freeCore is at offset 784");
static_assert(std::is_same_v<decltype(VSAPI::freeCore), void (*)(VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.freeCore");
static_assert(offsetof(VSAPI, setMaxCacheSize) == 792, "VapourSynth4.h: VSAPI.setMaxCacheSize is at offset 792");
static_assert(std::is_same_v<decltype(VSAPI::setMaxCacheSize), int64_t (*)(int64_t, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.setMaxCacheSize");
static_assert(offsetof(VSAPI, setThreadCount) == 800, "VapourSynth4.h: VSAPI.setThreadCount is at offset 800");
static_assert(std::is_same_v<decltype(VSAPI::setThreadCount), int (*)(int, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.setThreadCount");
static_assert(offsetof(VSAPI, getCoreInfo) == 808, "VapourSynth4.h: VSAPI.getCoreInfo is at offset 808");
static_assert(std::is_same_v<decltype(VSAPI::getCoreInfo), void (*)(VSCore *, VSCoreInfo *) noexcept>, "VapourSynth4.h: the type of VSAPI.getCoreInfo");
static_assert(offsetof(VSAPI, getAPIVersion) == 816, "VapourSynth4.h: VSAPI.getAPIVersion is at offset 816");
static_assert(std::is_same_v<decltype(VSAPI::getAPIVersion), int (*)() noexcept>, "VapourSynth4.h: the type of VSAPI.getAPIVersion");
static_assert(offsetof(VSAPI, logMessage) == 824, "VapourSynth4.h: VSAPI.logMessage is at offset 824");
static_assert(std::is_same_v<decltype(VSAPI::logMessage), void (*)(int, const char *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.logMessage");
static_assert(offsetof(VSAPI, addLogHandler) == 832, "VapourSynth4.h: VSAPI.addLogHandler is at offset 832");
static_assert(std::is_same_v<decltype(VSAPI::addLogHandler), VSLogHandle *(*)(VSLogHandler, VSLogHandlerFree, void *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.addLogHandler");
static_assert(offsetof(VSAPI, removeLogHandler) == 840, "VapourSynth4.h: VSAPI.removeLogHandler is at offset 840");
static_assert(std::is_same_v<decltype(VSAPI::removeLogHandler), int (*)(VSLogHandle *, VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.removeLogHandler");
static_assert(offsetof(VSAPI, clearNodeCache) == 848, "VapourSynth4.h: VSAPI.clearNodeCache is at offset 848");
static_assert(std::is_same_v<decltype(VSAPI::clearNodeCache), void (*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.clearNodeCache");
static_assert(offsetof(VSAPI, clearCoreCaches) == 856, "VapourSynth4.h: VSAPI.clearCoreCaches is at offset 856");
static_assert(std::is_same_v<decltype(VSAPI::clearCoreCaches), void (*)(VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.clearCoreCaches");
static_assert(offsetof(VSAPI, getNodeName) == 864, "VapourSynth4.h: VSAPI.getNodeName is at offset 864");
static_assert(std::is_same_v<decltype(VSAPI::getNodeName), const char *(*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.getNodeName");
static_assert(offsetof(VSAPI, getNodeFilterMode) == 872, "VapourSynth4.h: VSAPI.getNodeFilterMode is at offset 872");
static_assert(std::is_same_v<decltype(VSAPI::getNodeFilterMode), int (*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.getNodeFilterMode");
static_assert(offsetof(VSAPI, getNumNodeDependencies) == 880, "VapourSynth4.h: VSAPI.getNumNodeDependencies is at offset 880");
static_assert(std::is_same_v<decltype(VSAPI::getNumNodeDependencies), int (*)(VSNode *) noexcept>, "VapourSynth4.h: the type of VSAPI.getNumNodeDependencies");
static_assert(offsetof(VSAPI, getNodeDependency) == 888, "VapourSynth4.h: VSAPI.getNodeDependency is at offset 888");
static_assert(std::is_same_v<decltype(VSAPI::getNodeDependency), const VSFilterDependency *(*)(VSNode *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.getNodeDependency");
static_assert(offsetof(VSAPI, getCoreNodeTiming) == 896, "VapourSynth4.h: VSAPI.getCoreNodeTiming is at offset 896");
static_assert(std::is_same_v<decltype(VSAPI::getCoreNodeTiming), int (*)(VSCore *) noexcept>, "VapourSynth4.h: the type of VSAPI.getCoreNodeTiming");
static_assert(offsetof(VSAPI, setCoreNodeTiming) == 904, "VapourSynth4.h: VSAPI.setCoreNodeTiming is at offset 904");
static_assert(std::is_same_v<decltype(VSAPI::setCoreNodeTiming), void (*)(VSCore *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.setCoreNodeTiming");
static_assert(offsetof(VSAPI, getNodeProcessingTime) == 912, "VapourSynth4.h: VSAPI.getNodeProcessingTime is at offset 912");
static_assert(std::is_same_v<decltype(VSAPI::getNodeProcessingTime), int64_t (*)(VSNode *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.getNodeProcessingTime");
static_assert(offsetof(VSAPI, getFreedNodeProcessingTime) == 920, "VapourSynth4.h: VSAPI.getFreedNodeProcessingTime is at offset 920");
static_assert(std::is_same_v<decltype(VSAPI::getFreedNodeProcessingTime), int64_t (*)(VSCore *, int) noexcept>, "VapourSynth4.h: the type of VSAPI.getFreedNodeProcessingTime");
static_assert(sizeof(VSVideoFormat) == 28, "VapourSynth4.h: the size of VSVideoFormat is 28");
static_assert(sizeof(VSAudioFormat) == 24, "VapourSynth4.h: the size of VSAudioFormat is 24");
static_assert(sizeof(VSCoreInfo) == 40, "VapourSynth4.h: the size of VSCoreInfo is 40");
static_assert(sizeof(VSCoreInfo2) == 40, "VapourSynth4.h: the size of VSCoreInfo2 is 40");
static_assert(sizeof(VSVideoInfo) == 64, "VapourSynth4.h: the size of VSVideoInfo is 64");
static_assert(sizeof(VSAudioInfo) == 48, "VapourSynth4.h: the size of VSAudioInfo is 48");
static_assert(sizeof(VSPLUGINAPI) >= 24, "VapourSynth4.h: the size of VSPLUGINAPI is 24");
static_assert(sizeof(VSFilterDependency) == 16, "VapourSynth4.h: the size of VSFilterDependency is 16");
static_assert(sizeof(VSAPI) >= 928, "VapourSynth4.h: the size of VSAPI is 928");
static_assert(VAPOURSYNTH_API_MAJOR == 4, "VapourSynth4.h: the value of VAPOURSYNTH_API_MAJOR is 4");
static_assert(VAPOURSYNTH_API_MINOR == 1, "VapourSynth4.h: the value of VAPOURSYNTH_API_MINOR is 1");
static_assert(VAPOURSYNTH_API_VERSION == 262145, "VapourSynth4.h: the value of VAPOURSYNTH_API_VERSION is 262145");
static_assert(VS_AUDIO_FRAME_SAMPLES == 3072, "VapourSynth4.h: the value of VS_AUDIO_FRAME_SAMPLES is 3072");
