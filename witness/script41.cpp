// compiled by the check of C21 against the headers as they are; written by gen.py
#include <cstddef>
#include <type_traits>
#include "VSScript4.h"

static_assert(std::is_same_v<decltype(&getVSScriptAPI), const VSSCRIPTAPI *(*)(int) noexcept>, "VSScript4.h: the type of getVSScriptAPI");
static_assert(offsetof(VSSCRIPTAPI, getAPIVersion) == 0, "VSScript4.h: VSSCRIPTAPI.getAPIVersion is at offset 0");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::getAPIVersion), int (*)() noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.getAPIVersion");
static_assert(offsetof(VSSCRIPTAPI, getVSAPI) == 8, "VSScript4.h: VSSCRIPTAPI.getVSAPI is at offset 8");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::getVSAPI), const VSAPI *(*)(int) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.getVSAPI");
static_assert(offsetof(VSSCRIPTAPI, createScript) == 16, "VSScript4.h: VSSCRIPTAPI.createScript is at offset 16");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::createScript), VSScript *(*)(VSCore *) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.createScript");
static_assert(offsetof(VSSCRIPTAPI, getCore) == 24, "VSScript4.h: VSSCRIPTAPI.getCore is at offset 24");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::getCore), VSCore *(*)(VSScript *) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.getCore");
static_assert(offsetof(VSSCRIPTAPI, evaluateBuffer) == 32, "VSScript4.h: VSSCRIPTAPI.evaluateBuffer is at offset 32");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::evaluateBuffer), int (*)(VSScript *, const char *, const char *) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.evaluateBuffer");
static_assert(offsetof(VSSCRIPTAPI, evaluateFile) == 40, "VSScript4.h: VSSCRIPTAPI.evaluateFile is at offset 40");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::evaluateFile), int (*)(VSScript *, const char *) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.evaluateFile");
static_assert(offsetof(VSSCRIPTAPI, getError) == 48, "VSScript4.h: VSSCRIPTAPI.getError is at offset 48");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::getError), const char *(*)(VSScript *) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.getError");
static_assert(offsetof(VSSCRIPTAPI, getExitCode) == 56, "VSScript4.h: VSSCRIPTAPI.getExitCode is at offset 56");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::getExitCode), int (*)(VSScript *) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.getExitCode");
static_assert(offsetof(VSSCRIPTAPI, getVariable) == 64, "VSScript4.h: VSSCRIPTAPI.getVariable is at offset 64");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::getVariable), int (*)(VSScript *, const char *, VSMap *) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.getVariable");
static_assert(offsetof(VSSCRIPTAPI, setVariables) == 72, "VSScript4.h: VSSCRIPTAPI.setVariables is at offset 72");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::setVariables), int (*)(VSScript *, const VSMap *) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.setVariables");
static_assert(offsetof(VSSCRIPTAPI, getOutputNode) == 80, "VSScript4.h: VSSCRIPTAPI.getOutputNode is at offset 80");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::getOutputNode), VSNode *(*)(VSScript *, int) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.getOutputNode");
static_assert(offsetof(VSSCRIPTAPI, getOutputAlphaNode) == 88, "VSScript4.h: VSSCRIPTAPI.getOutputAlphaNode is at offset 88");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::getOutputAlphaNode), VSNode *(*)(VSScript *, int) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.getOutputAlphaNode");
static_assert(offsetof(VSSCRIPTAPI, getAltOutputMode) == 96, "VSScript4.h: VSSCRIPTAPI.getAltOutputMode is at offset 96");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::getAltOutputMode), int (*)(VSScript *, int) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.getAltOutputMode");
static_assert(offsetof(VSSCRIPTAPI, freeScript) == 104, "VSScript4.h: VSSCRIPTAPI.freeScript is at offset 104");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::freeScript), void (*)(VSScript *) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.freeScript");
static_assert(offsetof(VSSCRIPTAPI, evalSetWorkingDir) == 112, "VSScript4.h: VSSCRIPTAPI.evalSetWorkingDir is at offset 112");
static_assert(std::is_same_v<decltype(VSSCRIPTAPI::evalSetWorkingDir), void (*)(VSScript *, int) noexcept>, "VSScript4.h: the type of VSSCRIPTAPI.evalSetWorkingDir");
static_assert(sizeof(VSSCRIPTAPI) >= 120, "VSScript4.h: the size of VSSCRIPTAPI is 120");
static_assert(VSSCRIPT_API_MAJOR == 4, "VSScript4.h: the value of VSSCRIPT_API_MAJOR is 4");
static_assert(VSSCRIPT_API_MINOR == 1, "VSScript4.h: the value of VSSCRIPT_API_MINOR is 1");
static_assert(VSSCRIPT_API_VERSION == 262145, "VSScript4.h: the value of VSSCRIPT_API_VERSION is 262145");
