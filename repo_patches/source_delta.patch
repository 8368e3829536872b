From a6a2e3f301c3e457103a4550bcf8c9f042678c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:27 +0000
Subject: [PATCH 01/29] fix: SplitPlanes released its clip only on success

The error return for variable format clips kept the node reference forever.
---
 src/core/simplefilters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 6b82c43..5839ca2 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -635,6 +635,7 @@ static void VS_CC splitPlanesCreate(const VSMap *in, VSMap *out, void *userData,
 
     if (vi->format.colorFamily == cfUndefined) {
         vsapi->mapSetError(out, "SplitPlanes: only constant format clips supported");
+        vsapi->freeNode(node);
         return;
     }
 
-- 
2.43.0


From c78b30ea72c58b1b27466abed99176fd78c6ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:25 +0000
Subject: [PATCH 02/29] fix: VSNode::setLinear read the cache size after
 releasing its lock

---
 src/core/vscore.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 49a9fbc..0701847 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -988,6 +988,7 @@ const VSMap *VSNode::getCreationFunctionArguments(int level) const {
 }
 
 int VSNode::setLinear() {
+    int linearFrames;
     {
         size_t threadCount = core->threadPool->threadCount();
         std::lock_guard<std::mutex> lock(cacheMutex);
@@ -997,9 +998,10 @@ int VSNode::setLinear() {
         cacheLastOnly = false;
         cache.setFixedSize(true);
         cache.setMaxFrames(static_cast<int>(threadCount) * 2 + 20);
+        linearFrames = cache.getMaxFrames() / 2;
     }
     registerCache(cacheEnabled);
-    return cache.getMaxFrames() / 2;
+    return linearFrames;
 }
 
 void VSNode::setCacheMode(int mode) {
-- 
2.43.0


From 4a10f6a57a08698643b12917c7521b6b06d50593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:10 +0000
Subject: [PATCH 03/29] fix: VSPlugin::registerFunction called log handlers
 while holding functionLock

---
 src/core/vscore.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 0701847..56b2138 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2407,9 +2407,10 @@ bool VSPlugin::registerFunction(const std::string &name, const std::string &args
         return false;
     }
 
-    std::lock_guard<std::mutex> lock(functionLock);
+    std::unique_lock<std::mutex> lock(functionLock);
 
     if (funcs.count(name)) {
+        lock.unlock(); // log handlers may look up functions
         core->logMessage(mtCritical, "API MISUSE! Tried to register function '" + name + "' more than once for plugin " + id);
         return false;
     }
@@ -2417,6 +2418,7 @@ bool VSPlugin::registerFunction(const std::string &name, const std::string &args
     try {
         funcs.emplace(std::make_pair(name, VSPluginFunction(name, args, returnType, argsFunc, functionData, this)));
     } catch (std::runtime_error &e) {
+        lock.unlock();
         core->logMessage(mtCritical, "API MISUSE! Function '" + name + "' failed to register with error: " + e.what());
         return false;
     }
-- 
2.43.0


From f7613df110a34910a6bc5124e5ff9b33e358b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 04/29] fix: treat a frame of the wrong media type as a fatal
 error

VSNode::getFrameInternal chose what to compare by the type of the frame, so an
audio node returning a video frame was never noticed.
---
 src/core/vscore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 56b2138..053ebea 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1081,6 +1081,9 @@ PVSFrame VSNode::getFrameInternal(int n, int activationReason, VSFrameContext *f
     if (r) {
         assert(r->getFrameType());
 
+        if (r->getFrameType() != nodeType)
+            core->logFatal("Filter " + name + " returned a frame that's not of the declared media type");
+
         if (r->getFrameType() == mtVideo) {
             const VSVideoFormat *fi = r->getVideoFormat();
 
-- 
2.43.0


From 5919e494548dffc17ad566a6ed282c371a0c9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 05/29] fix: newVideoFrame2 must not share planes with a
 different sample size

The stride is computed from the new format, so a plane with fewer bytes per
sample was accessed beyond its end.
---
 src/core/vscore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 053ebea..d765646 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -237,6 +237,8 @@ VSFrame::VSFrame(const VSVideoFormat &f, int width, int height, const VSFrame *
                 core->logFatal("Error in frame creation: plane " + std::to_string(plane[i]) + " does not exist in the source frame");
             if (planeSrc[i]->getHeight(plane[i]) != getHeight(i) || planeSrc[i]->getWidth(plane[i]) != getWidth(i))
                 core->logFatal("Error in frame creation: dimensions of plane " + std::to_string(plane[i]) + " do not match. Source: " + std::to_string(planeSrc[i]->getWidth(plane[i])) + "x" + std::to_string(planeSrc[i]->getHeight(plane[i])) + "; destination: " + std::to_string(getWidth(i)) + "x" + std::to_string(getHeight(i)));
+            if (planeSrc[i]->format.vf.bytesPerSample != format.vf.bytesPerSample)
+                core->logFatal("Error in frame creation: bytes per sample of plane " + std::to_string(plane[i]) + " do not match. Source: " + std::to_string(planeSrc[i]->format.vf.bytesPerSample) + "; destination: " + std::to_string(format.vf.bytesPerSample));
             data[i] = planeSrc[i]->data[plane[i]];
             data[i]->add_ref();
         } else {
-- 
2.43.0


From fe8b363f92dd4e36b4ed8a7ee0e2b092cceef0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 06/29] fix: reject audio frames that do not fit their buffers

The buffer always holds VS_AUDIO_FRAME_SAMPLES samples per channel; longer frames
and channels with another sample size were accessed beyond its end.
---
 src/core/vscore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index d765646..ea7fd1b 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -262,7 +262,7 @@ VSFrame::VSFrame(const VSAudioFormat &f, int numSamples, const VSFrame *propSrc,
         core->frameRefs.insert(this);
     }
 
-    if (numSamples <= 0)
+    if (numSamples <= 0 || numSamples > VS_AUDIO_FRAME_SAMPLES)
         core->logFatal("Error in frame creation: bad number of samples (" + std::to_string(numSamples) + ")");
 
     format.af = f;
@@ -286,7 +286,7 @@ VSFrame::VSFrame(const VSAudioFormat &f, int numSamples, const VSFrame * const *
         core->frameRefs.insert(this);
     }
 
-    if (numSamples <= 0)
+    if (numSamples <= 0 || numSamples > VS_AUDIO_FRAME_SAMPLES)
         core->logFatal("Error in frame creation: bad number of samples (" + std::to_string(numSamples) + ")");
 
     format.af = f;
@@ -304,6 +304,8 @@ VSFrame::VSFrame(const VSAudioFormat &f, int numSamples, const VSFrame * const *
                 core->logFatal("Error in frame creation: channel " + std::to_string(channel[i]) + " does not exist in the source frame");
             if (channelSrc[i]->getFrameLength() != getFrameLength())
                 core->logFatal("Error in frame creation: length of frame does not match. Source: " + std::to_string(channelSrc[i]->getFrameLength()) + "; destination: " + std::to_string(getFrameLength()));
+            if (channelSrc[i]->format.af.bytesPerSample != format.af.bytesPerSample)
+                core->logFatal("Error in frame creation: bytes per sample of channel " + std::to_string(channel[i]) + " do not match. Source: " + std::to_string(channelSrc[i]->format.af.bytesPerSample) + "; destination: " + std::to_string(format.af.bytesPerSample));
             memcpy(getWritePtr(i), channelSrc[i]->getReadPtr(channel[i]), getFrameLength() * format.af.bytesPerSample);
         }
     }
-- 
2.43.0


From 81df9be4f88dd7244bab5e34603cbcbc93367e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 07/29] fix: Lut and Lut2 shared unprocessed planes with
 another sample size

With planes and bits given the planes left out were attached to the output frame
as they are, although its format has more or fewer bytes per sample.
---
 src/core/lutfilters.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index d1dd677..927725b 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -281,6 +281,10 @@ static void VS_CC lutCreate(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int i = 0; i < d->vi_out.format.numPlanes; i++)
+            if (!d->process[i] && d->vi_out.format.bytesPerSample != d->vi->format.bytesPerSample)
+                RETERROR("Lut: all planes must be processed when the output has a different number of bytes per sample");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
@@ -592,6 +596,10 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int i = 0; i < d->vi_out.format.numPlanes; i++)
+            if (!d->process[i] && d->vi_out.format.bytesPerSample != d->vi[0]->format.bytesPerSample)
+                RETERROR("Lut2: all planes must be processed when the output has a different number of bytes per sample");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
-- 
2.43.0


From 7338387bf7e8791fb6d4069bc85ccb365d21458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 08/29] fix: report unusable plugin paths as errors

std::filesystem::absolute() and exists() throw filesystem_error for paths
that are empty, too long or can't be examined, and only VSException is
caught on the way out. std.LoadPlugin(path="") or a manifest with an
overlong entry terminated the process instead of setting an error.
---
 src/core/vscore.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index ea7fd1b..7c4ae4c 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2251,7 +2251,10 @@ static void VS_CC configPlugin3(const char *identifier, const char *defaultNames
 
 VSPlugin::VSPlugin(const std::filesystem::path &relFilename, const std::string &forcedNamespace, const std::string &forcedId, bool altSearchPath, bool loadCPUOptimized, std::string separator, VSCore *core)
     : fnamespace(forcedNamespace), id(forcedId), core(core) {
-    std::filesystem::path fullPath = std::filesystem::absolute(relFilename);
+    std::error_code pathError;
+    std::filesystem::path fullPath = std::filesystem::absolute(relFilename, pathError);
+    if (pathError)
+        throw VSException("Failed to load " + relFilename.u8string() + ". The path is invalid: " + pathError.message());
 
 #ifdef VS_TARGET_CPU_X86
     if (loadCPUOptimized) {
@@ -2269,7 +2272,8 @@ VSPlugin::VSPlugin(const std::filesystem::path &relFilename, const std::string &
 
             std::filesystem::path abiLevelPath = std::filesystem::path(fullPath).replace_extension();
             abiLevelPath += newExtension;
-            if (std::filesystem::exists(abiLevelPath)) {
+            std::error_code existsError;
+            if (std::filesystem::exists(abiLevelPath, existsError)) {
                 fullPath = abiLevelPath;
                 return true;
             }
-- 
2.43.0


From 0b7cf47936a960468da6a82d7428b3240de2b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 09/29] fix: don't terminate on a manifest consisting only of
 line breaks

The position of the first line was npos and passed to substr() which threw
out_of_range through createCore and LoadAllPlugins.
---
 src/core/vscore.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 7c4ae4c..cd28610 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1877,14 +1877,11 @@ bool VSCore::loadPluginManifest(const std::filesystem::path &path) {
     std::vector<std::string> lines;
 
     size_t lastPos = contents.find_first_not_of("\r\n", 0);
-    size_t pos = contents.find_first_of("\r\n", lastPos + 1);
-    while (pos != std::string::npos) {
+    while (lastPos != std::string::npos) {
+        size_t pos = contents.find_first_of("\r\n", lastPos);
         lines.push_back(contents.substr(lastPos, pos - lastPos));
-        lastPos = contents.find_first_not_of("\r\n", pos + 1);
-        pos = contents.find_first_of("\r\n", lastPos);
+        lastPos = contents.find_first_not_of("\r\n", pos);
     }
-    if (lastPos != std::string::npos)
-        lines.push_back(contents.substr(lastPos));
 
     if (lines.empty() || lines[0] != "[VapourSynth Manifest V1]") {
         logMessage(mtCritical, ("Invalid header in manifest: " + manifestPath.u8string()).c_str());
-- 
2.43.0


From 8d88955dd572da993c3f2e22744780bddfb89b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 10/29] fix: match property names without std::regex in
 RemoveFrameProps

std::regex is compiled and matched recursively, so a pattern or name of
some ten thousand characters overflowed the stack, or left the creation
function as an uncaught regex_error with a larger one.
---
 src/core/simplefilters.cpp | 57 +++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 5839ca2..f7109e3 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -25,7 +25,6 @@
 #include <cstdlib>
 #include <cstring>
 #include <memory>
-#include <regex>
 #include <algorithm>
 #include <bit>
 #include "VSHelper4.h"
@@ -2316,12 +2315,35 @@ static void VS_CC setFramePropsCreate(const VSMap *in, VSMap *out, void *userDat
 // RemoveFrameProps
 
 typedef struct {
-    std::vector<std::regex> delProps;
+    std::vector<std::string> delProps;
     bool all;
 } RemoveFramePropsDataExtra;
 
 typedef SingleNodeData<RemoveFramePropsDataExtra> RemoveFramePropsData;
 
+// Match the whole string against a glob pattern ('*' and '?' wildcards).
+static bool globMatch(const char *str, const char *pattern) {
+    const char *star = nullptr;
+    const char *retry = nullptr;
+    while (*str) {
+        if (*pattern == '*') {
+            star = ++pattern;
+            retry = str;
+        } else if (*pattern == '?' || *pattern == *str) {
+            ++pattern;
+            ++str;
+        } else if (star) {
+            pattern = star;
+            str = ++retry;
+        } else {
+            return false;
+        }
+    }
+    while (*pattern == '*')
+        ++pattern;
+    return !*pattern;
+}
+
 static const VSFrame *VS_CC removeFramePropsGetFrame(int n, int activationReason, void *instanceData, void **frameData, VSFrameContext *frameCtx, VSCore *core, const VSAPI *vsapi) {
     RemoveFramePropsData *d = reinterpret_cast<RemoveFramePropsData *>(instanceData);
 
@@ -2343,7 +2365,7 @@ static const VSFrame *VS_CC removeFramePropsGetFrame(int n, int activationReason
                 for (const auto &iter : d->delProps) {
                     // implementation detail that may change: all keys are stored in a std::map internally which means they're sorted and this won't skip anything
                     const char *key = vsapi->mapGetKey(props, i);
-                    if (std::regex_match(key, iter)) {
+                    if (globMatch(key, iter.c_str())) {
                         vsapi->mapDeleteKey(props, key);
                         --i;
                         numKeys = vsapi->mapNumKeys(props);
@@ -2359,33 +2381,6 @@ static const VSFrame *VS_CC removeFramePropsGetFrame(int n, int activationReason
     return nullptr;
 }
 
-// Translate a glob pattern ('*' and '?' wildcards) into an anchored ECMAScript
-// regex. Every other regex metacharacter is escaped so an arbitrary property
-// name can't be misinterpreted as regex syntax or throw std::regex_error.
-static std::string globToRegex(const std::string &pattern) {
-    std::string r = "^";
-    for (char c : pattern) {
-        switch (c) {
-        case '*':
-            r += "(.*)";
-            break;
-        case '?':
-            r += '.';
-            break;
-        case '.': case '^': case '$': case '+': case '(': case ')':
-        case '[': case ']': case '{': case '}': case '|': case '\\':
-            r += '\\';
-            r += c;
-            break;
-        default:
-            r += c;
-            break;
-        }
-    }
-    r += "$";
-    return r;
-}
-
 static void VS_CC removeFramePropsCreate(const VSMap *in, VSMap *out, void *userData, VSCore *core, const VSAPI *vsapi) {
     std::unique_ptr<RemoveFramePropsData> d(new RemoveFramePropsData(vsapi));
 
@@ -2393,7 +2388,7 @@ static void VS_CC removeFramePropsCreate(const VSMap *in, VSMap *out, void *user
     d->all = (num_props < 0);
 
     for (int i = 0; i < num_props; i++)
-        d->delProps.push_back(std::regex(globToRegex(vsapi->mapGetData(in, "props", i, nullptr)), std::regex::ECMAScript));
+        d->delProps.push_back(vsapi->mapGetData(in, "props", i, nullptr));
 
     d->node = vsapi->mapGetNode(in, "clip", 0, nullptr);
 
-- 
2.43.0


From 99c45d0b8dd23130f06c1fa93d23dabe57d6e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:12 +0000
Subject: [PATCH 11/29] fix: release the GIL while calling functions and
 setting the thread count

---
 src/cython/vapoursynth.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index ff695af..80b46a6 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -959,7 +959,9 @@ cdef class Func(object):
         inm = self.funcs.createMap()
         try:
             dictToMap(kwargs, inm, NULL, vsapi)
-            self.funcs.callFunction(self.ref, inm, outm)
+            # the function may wait for other threads that need the gil
+            with nogil:
+                self.funcs.callFunction(self.ref, inm, outm)
             error = self.funcs.mapGetError(outm)
             if error:
                 msg_str = error.decode('utf-8')
@@ -3081,7 +3083,8 @@ cdef class Core(object):
     @num_threads.setter
     def num_threads(self, int value):
         self.ensure_valid()
-        self.funcs.setThreadCount(value, self.core)
+        with nogil:
+            self.funcs.setThreadCount(value, self.core)
 
     @property
     def max_cache_size(self):
-- 
2.43.0


From fac61e4a18f2188215a0c1aec2f0d4463c99f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:17 +0000
Subject: [PATCH 12/29] fix: raise instead of using handles that died with
 their environment or frame

---
 src/cython/vapoursynth.pyx | 53 +++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 80b46a6..1b62e72 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -451,6 +451,8 @@ cdef class EnvironmentPolicyAPI:
 
     def get_core_ptr(self, EnvironmentData environment_data):
         self.ensure_policy_matches()
+        if environment_data.core is None:
+            return ctypes.c_void_p(None)
         return ctypes.c_void_p(<uintptr_t>environment_data.core.core)
 
     def destroy_environment(self, EnvironmentData env):
@@ -1164,9 +1166,11 @@ cdef void dictToMap(dict ndict, VSMap *inm, VSCore *core, const VSAPI *funcs) ex
                 if funcs.mapSetData(inm, ckey, v, <int>len(v), dtBinary, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawNode):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawFrame):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, Func):
@@ -1199,9 +1203,11 @@ cdef void typedDictToMap(dict ndict, dict atypes, VSMap *inm, VSCore *core, cons
 
         for v in val:
             if (atypes[key][:5] == 'vnode' and isinstance(v, VideoNode)) or (atypes[key][:5] == 'anode' and isinstance(v, AudioNode)):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif ((atypes[key][:6] == 'vframe') and isinstance(v, VideoFrame)) or (atypes[key][:6] == 'aframe' and isinstance(v, AudioFrame)):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif atypes[key][:4] == 'func' and isinstance(v, Func):
@@ -1431,9 +1437,11 @@ cdef class FrameProps(object):
         try:
             for v in val:
                 if isinstance(v, RawNode):
+                    (<RawNode>v).ensure_valid()
                     if funcs.mapSetNode(m, b, (<RawNode>v).node, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, RawFrame):
+                    (<RawFrame>v)._ensure_open()
                     if funcs.mapSetFrame(m, b, (<RawFrame>v).constf, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, Func):
@@ -2264,6 +2272,8 @@ cdef class RawNode(object):
     cdef bint _inspectable(self):
         if self.funcs.getAPIVersion() != VAPOURSYNTH_API_VERSION:
             return False
+        if self.node == NULL:
+            return False
         return bool(self.core.flags & ccfEnableGraphInspection)
 
     def is_inspectable(self, version=None):
@@ -2273,28 +2283,33 @@ cdef class RawNode(object):
 
     @property
     def node_name(self):
+        self.ensure_valid()
         return self.funcs.getNodeName(self.node).decode("utf-8")
 
     @property
     def timings(self):
+        self.ensure_valid()
         return self.funcs.getNodeProcessingTime(self.node, False)
 
     @timings.setter
     def timings(self, bint value):
         if value != 0:
             raise ValueError("You can only set timings to 0, to reset its counter!")
+        self.ensure_valid()
         self.funcs.getNodeProcessingTime(self.node, True)
 
     @property
     def mode(self):
+        self.ensure_valid()
         return FilterMode(self.funcs.getNodeFilterMode(self.node))
 
     @property
     def dependencies(self):
-        return tuple(
+        self.ensure_valid()
+        return tuple([
             createNode(self.funcs.addNodeRef(self.funcs.getNodeDependency(self.node, idx).source), self.funcs, self.core)
             for idx in range(self.funcs.getNumNodeDependencies(self.node))
-        )
+        ])
 
     @property
     def _name(self):
@@ -2425,6 +2440,7 @@ cdef class VideoNode(RawNode):
     def set_output(self, int index = 0, VideoNode alpha = None, int alt_output = 0):
         self.ensure_valid()
         if alpha is not None:
+            alpha.ensure_valid()
             if (self.vi.width != alpha.vi.width) or (self.vi.height != alpha.vi.height):
                 raise Error('Alpha clip dimensions must match the main video')
             if (self.num_frames != alpha.num_frames):
@@ -2514,6 +2530,7 @@ cdef class VideoNode(RawNode):
                 if y4m:
                     write(b"FRAME\n")
 
+                (<VideoFrame>frame)._ensure_open()
                 constf = (<VideoFrame>frame).constf
                 fi = lib.getVideoFrameFormat(constf)
                 for p in range(fi.numPlanes):
@@ -2534,6 +2551,7 @@ cdef class VideoNode(RawNode):
                     if y4m:
                         raise ValueError("Can only apply y4m headers to clips without alpha")
 
+                    (<VideoFrame>alpha)._ensure_open()
                     constf = (<VideoFrame>alpha).constf
                     fi = lib.getVideoFrameFormat(constf)
                     for p in range(fi.numPlanes):
@@ -2825,6 +2843,7 @@ cdef class AudioNode(RawNode):
 
             for idx, frame in enumerate(self.frames(prefetch, backlog, close=True)):
                 af = <AudioFrame>frame
+                af._ensure_open()
                 num_samples_in_frame = af.funcs.getFrameLength(af.constf)
                 required_size = <size_t>num_samples_in_frame * self.num_channels * bytes_per_output_sample
 
@@ -3017,20 +3036,24 @@ cdef class CoreTimings(object):
 
     @property
     def enabled(self):
+        self.core.ensure_valid()
         return bool(self.core.funcs.getCoreNodeTiming(self.core.core))
 
     @enabled.setter
     def enabled(self, bint enabled):
+        self.core.ensure_valid()
         self.core.funcs.setCoreNodeTiming(self.core.core, enabled)
 
     @property
     def freed_nodes(self):
+        self.core.ensure_valid()
         return self.core.funcs.getFreedNodeProcessingTime(self.core.core, False)
 
     @freed_nodes.setter
     def freed_nodes(self, bint value):
         if value != 0:
             raise ValueError("You can only set freed_nodes to 0, to reset its counter!")
+        self.core.ensure_valid()
         self.core.funcs.getFreedNodeProcessingTime(self.core.core, True)
 
     def __repr__(self):
@@ -3129,19 +3152,23 @@ cdef class Core(object):
             raise AttributeError('No attribute with the name ' + name + ' exists. Did you mistype a plugin namespace or forget to install a plugin?')
 
     def plugins(self):
+        self.ensure_valid()
         cdef VSPlugin *plugin = self.funcs.getNextPlugin(NULL, self.core)
         while plugin:
             tmp = createPlugin(plugin, self.funcs, self)
-            plugin = self.funcs.getNextPlugin(plugin, self.core)
             yield tmp
+            self.ensure_valid()
+            plugin = self.funcs.getNextPlugin(plugin, self.core)
 
     def query_video_format(self, int color_family, int sample_type, int bits_per_sample, int subsampling_w = 0, int subsampling_h = 0):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.queryVideoFormat(&fmt, color_family, sample_type, bits_per_sample, subsampling_w, subsampling_h, self.core):
             raise Error('Invalid format specified')
         return createVideoFormat(&fmt, self.funcs, self.core)
 
     def get_video_format(self, uint32_t id):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, id, self.core):
             raise Error('Invalid format id specified')
@@ -3149,6 +3176,7 @@ cdef class Core(object):
             return createVideoFormat(&fmt, self.funcs, self.core)
 
     def create_video_frame(self, int format, int width, int height):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, format, self.core):
             raise Error('Invalid format id specified')
@@ -3157,6 +3185,7 @@ cdef class Core(object):
         return createVideoFrame(ref, self.funcs, self.core)
 
     def log_message(self, int message_type, str message):
+        self.ensure_valid()
         # released gil, the log api dispatches to handlers that acquire the gil so calling in
         # while holding it can deadlock against a thread mid message delivery
         cdef bytes message_bytes = message.encode('utf-8')
@@ -3166,6 +3195,7 @@ cdef class Core(object):
 
     def add_log_handler(self, handler_func):
         handler_func(mtDebug, 'New message handler installed from python')
+        self.ensure_valid()
         cdef LogHandle lh = createLogHandle(handler_func)
         Py_INCREF(lh)
         cdef void *userData = <void *>lh
@@ -3176,6 +3206,7 @@ cdef class Core(object):
         return lh
 
     def remove_log_handler(self, LogHandle handle):
+        self.ensure_valid()
         cdef VSLogHandle *h = handle.handle
         cdef bint result
         with nogil:
@@ -3183,10 +3214,12 @@ cdef class Core(object):
         return result
 
     def clear_cache(self):
+        self.ensure_valid()
         self.funcs.clearCoreCaches(self.core)
 
     @property
     def core_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3194,6 +3227,7 @@ cdef class Core(object):
 
     @property
     def api_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3224,6 +3258,7 @@ cdef class Core(object):
         )
 
     def __str__(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3370,6 +3405,7 @@ cdef class Plugin(object):
     def __getattr__(self, name):
         tname = name.encode('utf-8')
         cdef const char *cname = tname
+        self.core.ensure_valid()
         cdef VSPluginFunction *func = self.funcs.getPluginFunctionByName(cname, self.plugin)
 
         if func:
@@ -3378,14 +3414,17 @@ cdef class Plugin(object):
             raise AttributeError('There is no function named ' + name)
 
     def functions(self):
+        self.core.ensure_valid()
         cdef VSPluginFunction *func = self.funcs.getNextPluginFunction(NULL, self.plugin)
         while func:
             tmp = createFunction(func, self, self.funcs)
-            func = self.funcs.getNextPluginFunction(func, self.plugin)
             yield tmp
+            self.core.ensure_valid()
+            func = self.funcs.getNextPluginFunction(func, self.plugin)
 
     @property
     def version(self):
+        self.core.ensure_valid()
         ver = <int>self.funcs.getPluginVersion(self.plugin)
 
         ver_major = (ver >> 16)
@@ -3395,6 +3434,7 @@ cdef class Plugin(object):
 
     @property
     def plugin_path(self):
+        self.core.ensure_valid()
         cdef const char *ppath = self.funcs.getPluginPath(self.plugin)
         if ppath:
             return ppath.decode('utf-8')
@@ -3526,6 +3566,7 @@ cdef class Function(object):
 
         if (filterAllInts or ((self.name == 'SetFrameProps') and ('_ColorRange' in ndict))):
             warnings.warn('The _ColorRange frame property has been deprecated, use _Range instead', DeprecationWarning)
+        self.plugin.core.ensure_valid()
         inm = self.funcs.createMap()
 
         dtomsuccess = True
@@ -3976,7 +4017,7 @@ cdef public api VSNode *vpy4_getOutput(VSScript *se, int index) nogil:
         if isinstance(node, VideoOutputTuple):
             node = node[0]
 
-        if isinstance(node, RawNode):
+        if isinstance(node, RawNode) and (<RawNode>node).node != NULL:
             return (<RawNode>node).funcs.addNodeRef((<RawNode>node).node)
         else:
             return NULL
@@ -3992,7 +4033,7 @@ cdef public api VSNode *vpy4_getAlphaOutput(VSScript *se, int index) nogil:
 
         if isinstance(node, VideoOutputTuple):
             node = node[1]
-            if isinstance(node, RawNode):
+            if isinstance(node, RawNode) and (<RawNode>node).node != NULL:
                 return (<RawNode>node).funcs.addNodeRef((<RawNode>node).node)
         return NULL
 
-- 
2.43.0


From 8400b2b9eb3ed2f3d405ac89edc3035de8ae67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:17 +0000
Subject: [PATCH 13/29] fix: iterate over a snapshot of the frame property
 names

---
 src/cython/vapoursynth.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 1b62e72..29e7207 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1482,8 +1482,10 @@ cdef class FrameProps(object):
         cdef const VSMap *m = self.funcs.getFramePropertiesRO(self.frame.constf)
         cdef int numkeys = self.funcs.mapNumKeys(m)
 
-        for i in range(numkeys):
-            yield self.funcs.mapGetKey(m, i).decode('utf-8')
+        # the map may change or go away between two yields
+        keys = [self.funcs.mapGetKey(m, i).decode('utf-8') for i in range(numkeys)]
+        for key in keys:
+            yield key
 
     def __len__(self):
         self.frame._ensure_open()
-- 
2.43.0


From 13aebf3459581b74f07dd765e104ca5a19aaa952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 14/29] fix: always call the callback of a requested frame

---
 src/cython/vapoursynth.pyx | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 29e7207..c3a045c 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1049,22 +1049,29 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
         d = <CallbackData>data
 
         try:
-            if d.node.node == NULL or d.node.core is None:
-                if f != NULL:
-                    d.funcs.freeFrame(f)
-                error = Error("Use of invalidated VideoNode (the environment has been destroyed).")
-            elif f == NULL:
-                error_str = 'Internal error - no error message.'
-                if errormsg != NULL:
-                    error_str = errormsg.decode('utf-8')
-                py_exc = d.env.retrieve_exception(error_str) if d.env is not None else None
-                error = py_exc or Error(error_str)
-            else:
-                result = createConstFrame(f, d.funcs, d.node.core.core)
+            try:
+                if d.node.node == NULL or d.node.core is None:
+                    if f != NULL:
+                        d.funcs.freeFrame(f)
+                    error = Error("Use of invalidated VideoNode (the environment has been destroyed).")
+                elif f == NULL:
+                    error_str = 'Internal error - no error message.'
+                    if errormsg != NULL:
+                        error_str = errormsg.decode('utf-8', 'replace')
+                    py_exc = d.env.retrieve_exception(error_str) if d.env is not None else None
+                    error = py_exc or Error(error_str)
+                else:
+                    result = createConstFrame(f, d.funcs, d.node.core.core)
+            except BaseException as e:
+                # whoever requested the frame is still waiting for an answer
+                error = e
 
             try:
-                with use_environment(d.env).use():
+                if d.env is None:
                     d.callback(result, error)
+                else:
+                    with use_environment(d.env).use():
+                        d.callback(result, error)
             except:
                 traceback.print_exc()
         finally:
-- 
2.43.0


From e8592784b3d9fec973bff31d9b6527f381e203f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 15/29] fix: deliver log messages that are not valid UTF-8

---
 src/cython/vapoursynth.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index c3a045c..bb58339 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -384,7 +384,7 @@ cdef void _unset_logger(EnvironmentData env):
 
 cdef void __stdcall _logCb(int msgType, const char *msg, void *userData) noexcept nogil:
     with gil:
-        message = msg.decode("utf-8")
+        message = msg.decode("utf-8", "replace")
         (<object>userData)(msgType, message)
 
 cdef void __stdcall _logFree(void* userData) noexcept nogil:
@@ -3028,7 +3028,7 @@ cdef LogHandle createLogHandle(object handler_func):
 
 cdef void __stdcall log_handler_wrapper(int msgType, const char *msg, void *userData) noexcept nogil:
     with gil:
-        (<LogHandle>userData).handler_func(msgType, msg.decode('utf-8'))
+        (<LogHandle>userData).handler_func(msgType, msg.decode('utf-8', 'replace'))
 
 cdef void __stdcall log_handler_free(void *userData) noexcept nogil:
     with gil:
-- 
2.43.0


From d354436991469378bfc4811947d1447fcc011642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 16/29] fix: report Python errors whose text cannot be encoded

---
 src/cython/vapoursynth.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index bb58339..2ac5834 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3714,10 +3714,10 @@ cdef void __stdcall publicFunction(const VSMap *inm, VSMap *outm, void *userData
             if (isinstance(e, BaseException) and not isinstance(e, Exception)) or isinstance(e, FutureCancelledError):
                 exc_id = d.env.store_exception(e) if d.env is not None else 0
                 tb_str = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
-                emsg = f"[VS_PY_EXC_ID:{exc_id}]\n{tb_str}".encode('utf-8')
+                emsg = f"[VS_PY_EXC_ID:{exc_id}]\n{tb_str}".encode('utf-8', 'backslashreplace')
                 vsapi.mapSetError(outm, emsg)
             else:
-                emsg = b'\n' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)).encode('utf-8')
+                emsg = b'\n' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)).encode('utf-8', 'backslashreplace')
                 vsapi.mapSetError(outm, emsg)
 
 
@@ -3891,19 +3891,19 @@ cdef int _vpy_evaluate(VSScript *se, bytes script, str filename):
         except OverflowError:
             se.exitCode = 1
         errstr = 'Python exit with code ' + str(e.code) + '\n'
-        errstr = errstr.encode('utf-8')
+        errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 3
     except BaseException, e:
         errstr = 'Python exception: ' + str(e) + '\n\n' + traceback.format_exc()
-        errstr = errstr.encode('utf-8')
+        errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 2
     except:
         errstr = 'Unspecified Python exception' + '\n\n' + traceback.format_exc()
-        errstr = errstr.encode('utf-8')
+        errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 1
@@ -3917,7 +3917,7 @@ cdef public api int vpy4_createScript(VSScript *se) nogil:
 
         except:
             errstr = 'Unspecified Python exception' + '\n\n' + traceback.format_exc()
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 1
@@ -3945,7 +3945,7 @@ cdef public api int vpy4_evaluateBuffer(VSScript *se, const char *buffer, const
 
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 2
@@ -3961,13 +3961,13 @@ cdef public api int vpy4_evaluateFile(VSScript *se, const char *scriptFilename)
             return vpy4_evaluateBuffer(se, script, scriptFilename)
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 2
         except:
             errstr = 'Unspecified file reading exception'
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 1
-- 
2.43.0


From c48a1e5a24c956ed10149d95252cd385ee818bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 17/29] fix: fail when getting or setting variables of a script
 without an environment

---
 src/cython/vapoursynth.pyx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 2ac5834..75f2d22 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -4100,26 +4100,26 @@ cdef const VSAPI *getVSAPIInternal() nogil:
 
 cdef public api int vpy4_getVariable(VSScript *se, const char *name, VSMap *dst) nogil:
     with gil:
-        with _vsscript_use_environment(se.id).use():
-            pyenvdict = <dict>se.pyenvdict
-            try:
+        try:
+            with _vsscript_use_environment(se.id).use():
+                pyenvdict = <dict>se.pyenvdict
                 dname = name.decode('utf-8')
                 read_var = { dname:pyenvdict[dname]}
                 core = vsscript_get_core_internal(_get_vsscript_policy().get_environment(se.id))
                 dictToMap(read_var, dst, core.core, core.funcs)
                 return 0
-            except:
-                return 1
+        except:
+            return 1
 
 cdef public api int vpy4_setVariables(VSScript *se, const VSMap *vars) nogil:
     with gil:
-        with _vsscript_use_environment(se.id).use():
-            pyenvdict = <dict>se.pyenvdict
-            try:
+        try:
+            with _vsscript_use_environment(se.id).use():
+                pyenvdict = <dict>se.pyenvdict
                 pyenvdict.update(mapToDict(vars, False))
                 return 0
-            except:
-                return 1
+        except:
+            return 1
 
 cdef public api int vpy4_initVSScript() nogil:
     with gil:
-- 
2.43.0


From ea1d9fbc2f3e00cbed910b82bc37f3d90767d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 18/29] fix: vspipe frees the maps twice when trimming fails

mapError is one of result and alphaResult, so freeing all three frees one of
them twice. The alpha node that is replaced by a trimmed one was never freed.
---
 src/vspipe/vspipe.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 5c19fd7..b510229 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1199,7 +1199,6 @@ int main(int argc, char **argv) {
 
             if (mapError) {
                 fprintf(stderr, "%s\n", vsapi->mapGetError(mapError));
-                vsapi->freeMap(mapError);
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
                 vsapi->freeNode(node);
@@ -1209,6 +1208,8 @@ int main(int argc, char **argv) {
             } else {
                 vsapi->freeNode(node);
                 node = vsapi->mapGetNode(result, "clip", 0, nullptr);
+                vsapi->freeNode(alphaNode);
+                alphaNode = nullptr;
                 if (alphaResult)
                     alphaNode = vsapi->mapGetNode(alphaResult, "clip", 0, nullptr);
                 vsapi->freeMap(result);
-- 
2.43.0


From b8dace99dc11911124b2ec846283d3980e1dcbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 19/29] fix: vspipe counts a frame as done before it is written

The counters the main thread waits for were changed without the mutex and
before the frame was written, so it could wake up spuriously, see the last
frame as completed and close the output while the callback still wrote to it.
---
 src/vspipe/vspipe.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index b510229..400d49e 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -296,6 +296,9 @@ static std::string doubleToString(double v) {
 static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSNode *rnode, const char *errorMsg) {
     VSPipeOutputData *data = reinterpret_cast<VSPipeOutputData *>(userData);
 
+    // The main thread must not see the last frame as completed until it has been written
+    std::lock_guard<std::mutex> lock(data->mutex);
+
     bool printToConsole = false;
     bool hasMeaningfulFPS = false;
     double fps = 0;
@@ -430,10 +433,8 @@ static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSN
         }
     }
 
-    if (data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames) {
-        std::lock_guard<std::mutex> lock(data->mutex);
+    if (data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames)
         data->condition.notify_one();
-    }
 }
 
 static std::string floatBitsToLetter(int bits) {
-- 
2.43.0


From f8174c188713fec360e6ce6ca9ec4c9acf7386fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 20/29] fix: vspipe ends with status 0 when its output can't be
 written

Data is buffered, so a full disk is often only noticed when the stream is
flushed or closed. Look at the state of each stream then.
---
 src/vspipe/vspipe.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 400d49e..fc17951 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -287,6 +287,17 @@ static void outputFrame(const VSFrame *frame, VSPipeOutputData *data) {
     }
 }
 
+static bool finishFile(FILE *f, bool close, const char *name) {
+    if (!f)
+        return true;
+    bool failed = !!ferror(f);
+    if ((close ? fclose(f) : fflush(f)) != 0)
+        failed = true;
+    if (failed)
+        fprintf(stderr, "Error: failed to write %s, errno: %d\n", name, errno);
+    return !failed;
+}
+
 static std::string doubleToString(double v) {
     char buffer[100];
     auto res = std::to_chars(buffer, buffer + sizeof(buffer), v, std::chars_format::fixed, 20);
@@ -1135,7 +1146,7 @@ int main(int argc, char **argv) {
             vsapi->freeNode(mainNode);
         }
         vssapi->freeScript(se);
-        return 0;
+        return finishFile(outFile, closeOutFile, "output") ? 0 : 1;
     }
 
     VSNode *node = vssapi->getOutputNode(se, opts.outputIndex);
@@ -1286,14 +1297,14 @@ int main(int argc, char **argv) {
         }
     }
 
-    if (outFile && closeOutFile)
-        fclose(outFile);
-    if (timecodesFile)
-        fclose(timecodesFile);
-    if (jsonFile)
-        fclose(jsonFile);
-    if (filterTimeGraphFile)
-        fclose(filterTimeGraphFile);
+    if (!finishFile(outFile, closeOutFile, "output"))
+        success = false;
+    if (!finishFile(timecodesFile, true, "timecodes"))
+        success = false;
+    if (!finishFile(jsonFile, true, "JSON"))
+        success = false;
+    if (!finishFile(filterTimeGraphFile, true, "filter time graph"))
+        success = false;
 
     vsapi->freeNode(node);
     vsapi->freeNode(alphaNode);
-- 
2.43.0


From 98d8aed55555e209915c6afea6801c5c6ecacbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 21/29] fix: vspipe silently drops script arguments

Names that aren't identifiers are refused by mapSetData and values that aren't
UTF-8 by setVariables. Neither result was looked at.
---
 src/vspipe/vspipe.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index fc17951..a78f631 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1054,10 +1054,21 @@ int main(int argc, char **argv) {
     vssapi->evalSetWorkingDir(se, 1);
     if (!opts.scriptArgs.empty()) {
         VSMap *foldedArgs = vsapi->createMap();
-        for (const auto &iter : opts.scriptArgs)
-            vsapi->mapSetData(foldedArgs, iter.first.c_str(), iter.second.c_str(), static_cast<int>(iter.second.size()), dtUtf8, maAppend);
-        vssapi->setVariables(se, foldedArgs);
+        const char *failedArg = nullptr;
+        for (const auto &iter : opts.scriptArgs) {
+            if (vsapi->mapSetData(foldedArgs, iter.first.c_str(), iter.second.c_str(), static_cast<int>(iter.second.size()), dtUtf8, maAppend))
+                failedArg = iter.first.c_str();
+        }
+        bool setFailed = !!vssapi->setVariables(se, foldedArgs);
         vsapi->freeMap(foldedArgs);
+        if (failedArg || setFailed) {
+            if (failedArg)
+                fprintf(stderr, "Invalid argument name specified: %s\n", failedArg);
+            else
+                fprintf(stderr, "Failed to pass the arguments to the script\n");
+            vssapi->freeScript(se);
+            return 1;
+        }
     }
     vssapi->evaluateFile(se, opts.scriptFilename.u8string().c_str());
 
-- 
2.43.0


From d0a0c4503025b1126947b5258ef392ea1724f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 22/29] fix: vspipe ignores numbers that are out of range

std::from_chars consumes the whole number and leaves the result alone when it
doesn't fit, so the option silently had no effect. The same goes for an empty
string.
---
 src/vspipe/vspipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index a78f631..5c0a594 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -640,12 +640,12 @@ static const char *colorFamilyToString(int colorFamily) {
 
 static bool svToInt64(const std::string_view &s, int64_t &result) {
     auto res = std::from_chars(s.data(), s.data() + s.size(), result);
-    return (res.ptr == s.data() + s.size());
+    return (res.ec == std::errc() && res.ptr == s.data() + s.size());
 }
 
 static bool svToInt(const std::string_view &s, int &result) {
     auto res = std::from_chars(s.data(), s.data() + s.size(), result);
-    return (res.ptr == s.data() + s.size());
+    return (res.ec == std::errc() && res.ptr == s.data() + s.size());
 }
 
 static bool printVersion(const VSAPI *vsapi) {
-- 
2.43.0


From 54e4e9b7678f5370eb2ba0bb71e5c233678ed959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:11 +0000
Subject: [PATCH 23/29] fix: plugin functions leak their maps when arguments or
 results cannot be converted

---
 src/cython/vapoursynth.pyx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 75f2d22..252ea79 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3576,6 +3576,8 @@ cdef class Function(object):
         if (filterAllInts or ((self.name == 'SetFrameProps') and ('_ColorRange' in ndict))):
             warnings.warn('The _ColorRange frame property has been deprecated, use _Range instead', DeprecationWarning)
         self.plugin.core.ensure_valid()
+        tname = self.name.encode('utf-8')
+        cname = tname
         inm = self.funcs.createMap()
 
         dtomsuccess = True
@@ -3588,15 +3590,13 @@ cdef class Function(object):
             self.funcs.freeMap(inm)
             dtomsuccess = False
             dtomexceptmsg = str(e)
-        except Exception:
+        except:
             self.funcs.freeMap(inm)
             raise
 
         if dtomsuccess == False:
             raise Error(self.name + ': ' + dtomexceptmsg)
 
-        tname = self.name.encode('utf-8')
-        cname = tname
         with nogil:
             outm = self.funcs.invoke(self.plugin.plugin, cname, inm)
         self.funcs.freeMap(inm)
@@ -3611,9 +3611,10 @@ cdef class Function(object):
             py_exc = env.retrieve_exception(msg_str) if env is not None else None
             raise py_exc or Error(msg_str)
 
-        retdict = mapToDict(outm, True)
-        self.funcs.freeMap(outm)
-        return retdict
+        try:
+            return mapToDict(outm, True)
+        finally:
+            self.funcs.freeMap(outm)
 
     def __repr__(self):
         sig = self.__signature__
-- 
2.43.0


From a0c91b8d762a1a363762e3409c5ed8298928eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:11 +0000
Subject: [PATCH 24/29] fix: AudioNode.output leaks its buffers when the file
 has no write

---
 src/cython/vapoursynth.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 252ea79..0f18b48 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2812,6 +2812,8 @@ cdef class AudioNode(RawNode):
         else:
             raise Error(f"Unsupported bit depth for output: {self.bits_per_sample}")
 
+        write = fileobj.write
+
         interleave_buffer = <uint8_t *>malloc(buffer_size)
         if not interleave_buffer:
             raise Error("Failed to allocate interleave buffer")
@@ -2821,8 +2823,6 @@ cdef class AudioNode(RawNode):
             free(interleave_buffer)
             raise Error("Failed to allocate source pointers array")
 
-        write = fileobj.write
-
         try:
             if progress_update is not None:
                 progress_update(0, self.num_frames)
-- 
2.43.0


From 4e99123fbde80a2057efa8c87e0c5428b846727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:11 +0000
Subject: [PATCH 25/29] fix: set_logger keeps the logger when it fails

---
 src/cython/vapoursynth.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 0f18b48..006826d 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -443,7 +443,11 @@ cdef class EnvironmentPolicyAPI:
 
     def set_logger(self, env, logger):
         Py_INCREF(logger)
-        _set_logger(env, _logCb, _logFree, <void *>logger)
+        try:
+            _set_logger(env, _logCb, _logFree, <void *>logger)
+        except:
+            Py_DECREF(logger)
+            raise
 
     def get_vapoursynth_api(self, int version):
         self.ensure_policy_matches()
-- 
2.43.0


From 33ecf4cf1b593198432c492fc20f66e74ca37050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:33 +0000
Subject: [PATCH 26/29] fix: check the type of the environment given to
 EnvironmentPolicy.is_alive

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 006826d..2a4b8fb 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -304,7 +304,7 @@ class EnvironmentPolicy(object):
     def is_alive(self, environment):
         if environment is None:
             return False
-        cdef EnvironmentData env = <EnvironmentData>environment
+        cdef EnvironmentData env = environment
         return env.alive
 
 
-- 
2.43.0


From 597e6df8e015ab8f978c05c642f0dbdd60de3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:33 +0000
Subject: [PATCH 27/29] fix: don't assume that the _Alpha property is a frame
 when writing a clip

---
 src/cython/vapoursynth.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 2a4b8fb..c01dd8d 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2564,6 +2564,9 @@ cdef class VideoNode(RawNode):
                     if y4m:
                         raise ValueError("Can only apply y4m headers to clips without alpha")
 
+                    if not isinstance(alpha, VideoFrame):
+                        raise ValueError("The _Alpha property must be a video frame")
+
                     (<VideoFrame>alpha)._ensure_open()
                     constf = (<VideoFrame>alpha).constf
                     fi = lib.getVideoFrameFormat(constf)
-- 
2.43.0


From 3cab5faf210d81b33858408ca9089342094138b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:33 +0000
Subject: [PATCH 28/29] fix: use the environment's core for functions passed to
 Function.__call__

---
 src/cython/vapoursynth.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index c01dd8d..3227fee 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -986,6 +986,8 @@ cdef Func createFuncPython(object func, VSCore *core, const VSAPI *funcs):
     cdef EnvironmentData env = _env_current()
     if env is None:
         raise Error('Internal environment id not set. Did the environment die?')
+    if core == NULL:
+        core = _get_core().core
     fdata = createFuncData(func, core, env)
 
     Py_INCREF(fdata)
-- 
2.43.0


From 546fb32e3a567f3bd60f3e796774c40bce1d5e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:49 +0000
Subject: [PATCH 29/29] fix: don't crash when None is passed for an environment
 or log handle

---
 src/cython/vapoursynth.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 3227fee..3d9b5de 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -453,13 +453,13 @@ cdef class EnvironmentPolicyAPI:
         self.ensure_policy_matches()
         return ctypes.c_void_p(<uintptr_t>getVapourSynthAPI(version))
 
-    def get_core_ptr(self, EnvironmentData environment_data):
+    def get_core_ptr(self, EnvironmentData environment_data not None):
         self.ensure_policy_matches()
         if environment_data.core is None:
             return ctypes.c_void_p(None)
         return ctypes.c_void_p(<uintptr_t>environment_data.core.core)
 
-    def destroy_environment(self, EnvironmentData env):
+    def destroy_environment(self, EnvironmentData env not None):
         self.ensure_policy_matches()
         if not env.alive:
             return
@@ -3223,7 +3223,7 @@ cdef class Core(object):
         lh.handle = handle
         return lh
 
-    def remove_log_handler(self, LogHandle handle):
+    def remove_log_handler(self, LogHandle handle not None):
         self.ensure_valid()
         cdef VSLogHandle *h = handle.handle
         cdef bint result
-- 
2.43.0

