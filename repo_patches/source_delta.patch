From cb1e0b1a042f3a80f07f0784481d12f7a85c2e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:32 +0000
Subject: [PATCH 01/32] fix: keep the last character for line counting when the
 RIB input buffer wraps

On wrap-around the two look-back characters are copied to the start of the
buffer, but reading resumed at index 1 and overwrote the second of them, so
line-ending detection compared against the wrong character: a CRLF pair
straddling the wrap was counted as two lines, and CR x LF as one.
---
 libs/riutil/ribinputbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/riutil/ribinputbuffer.cpp b/libs/riutil/ribinputbuffer.cpp
index b6e33dd..3222376 100644
--- a/libs/riutil/ribinputbuffer.cpp
+++ b/libs/riutil/ribinputbuffer.cpp
@@ -100,7 +100,7 @@ void RibInputBuffer::bufferNextChars()
 		m_buffer[0] = m_buffer[m_bufSize-2];
 		m_buffer[1] = m_buffer[m_bufSize-1];
 		// Reset buffer position
-		m_bufPos = 1;
+		m_bufPos = 2;
 	}
 	// Now fill the buffer with as many characters as possible using a
 	// non-blocking read with readsome().
-- 
2.43.0


From 8d04ad8db29272570fca4e695a9240ba13730e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:11 +0000
Subject: [PATCH 02/32] fix: keep the formatted inline declaration alive while
 RibWriter prints a parameter

---
 libs/riutil/ribwriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/riutil/ribwriter.cpp b/libs/riutil/ribwriter.cpp
index 8e8671e..d63fb1b 100644
--- a/libs/riutil/ribwriter.cpp
+++ b/libs/riutil/ribwriter.cpp
@@ -631,12 +631,14 @@ class RibWriter : public Ri::Renderer
                 catch(XqValidation&)
                 { }
                 const char* token = param.name();
-                std::ostringstream fmt;
+                std::string inlineToken;
                 if(useInlineDecl)
                 {
                     // Format inline declarations.
+                    std::ostringstream fmt;
                     fmt << CqPrimvarToken(param.spec(), param.name());
-                    token = fmt.str().c_str();
+                    inlineToken = fmt.str();
+                    token = inlineToken.c_str();
                 }
                 switch(param.spec().storageType())
                 {
-- 
2.43.0


From 2e69beaeda14965369791e63f872839101a0841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 03/32] fix: keep parameter names valid when several in a RIB
 parameter list end in white space

---
 libs/riutil/ribparser_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/ribparser_impl.h b/libs/riutil/ribparser_impl.h
index 7b98c37..16af431 100644
--- a/libs/riutil/ribparser_impl.h
+++ b/libs/riutil/ribparser_impl.h
@@ -39,6 +39,8 @@
 
 #include <aqsis/aqsis.h>
 
+#include <deque>
+
 #include <boost/shared_ptr.hpp>
 #include <boost/noncopyable.hpp>
 
@@ -205,7 +207,7 @@ class RibParserImpl : public RibParser
 
         // Storage for parameter list parsing
         std::vector<Ri::Param> m_paramListStorage;
-        std::vector<std::string> m_paramNameStorage;
+        std::deque<std::string> m_paramNameStorage;
 
         /// Number of color components
         int m_numColorComps;
-- 
2.43.0


From d80d57e5794ce2d69a342a982a4b73aadcf74436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:34 +0000
Subject: [PATCH 04/32] fix: ignore ElseIf and Else outside a conditional
 instead of reading an empty stack

---
 libs/riutil/renderutil_filter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index fc5e090..090af89 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -263,8 +263,9 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().ElseIf(condition);
                     return;
                 }
-                // If previous level conditional was inactive, just return.
-                if(m_ifInactiveStack.top())
+                // If outside any conditional (invalid scoping), or the previous
+                // level conditional was inactive, just return.
+                if(m_ifInactiveStack.empty() || m_ifInactiveStack.top())
                     return;
                 if(m_trueClauseFound)
                 {
@@ -292,7 +293,7 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().Else();
                     return;
                 }
-                if(m_ifInactiveStack.top())
+                if(m_ifInactiveStack.empty() || m_ifInactiveStack.top())
                     return;
                 // Else clause is activated when we haven't found a true
                 // If/ElseIf clause yet
-- 
2.43.0


From 83462d027a737f335508ed93c416faa37368b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:34 +0000
Subject: [PATCH 05/32] fix: restore the enclosing conditional's state after a
 nested IfBegin/IfEnd

---
 libs/riutil/renderutil_filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index 090af89..f103c07 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -61,6 +61,7 @@ class RenderUtilFilter : public Ri::Filter
         // Conditional testing stuff
         IfElseTestCallback m_ifElseTest;
         std::stack<bool> m_ifInactiveStack;
+        std::stack<bool> m_trueClauseFoundStack;
         bool m_trueClauseFound;
         bool m_ifInactive;
 #       define IF_ELSE_TEST if(m_ifInactive) return;
@@ -108,6 +109,7 @@ class RenderUtilFilter : public Ri::Filter
             m_inObject(false),
             m_ifElseTest(conditionTest),
             m_ifInactiveStack(),
+            m_trueClauseFoundStack(),
             m_trueClauseFound(false),
             m_ifInactive(false)
         { }
@@ -245,6 +247,7 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 }
                 m_ifInactiveStack.push(m_ifInactive);
+                m_trueClauseFoundStack.push(m_trueClauseFound);
                 if(m_ifInactive)
                     return;
                 m_trueClauseFound = m_ifElseTest(condition);
@@ -317,6 +320,8 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 m_ifInactive = m_ifInactiveStack.top();
                 m_ifInactiveStack.pop();
+                m_trueClauseFound = m_trueClauseFoundStack.top();
+                m_trueClauseFoundStack.pop();
             }
         }
 
-- 
2.43.0


From f2d742eb27efa791f2482bef4010132e86381e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:48 +0000
Subject: [PATCH 06/32] fix: keep an archive or object alive while it is
 replayed, even if it redefines itself

---
 libs/riutil/renderutil_filter.cpp | 42 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index f103c07..4591833 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -38,6 +38,8 @@
 #include <vector>
 #include <stack>
 
+#include <boost/shared_ptr.hpp>
+
 #include <aqsis/util/exception.h>
 #include "ricxx_cache.h"
 #include <aqsis/riutil/errorhandler.h>
@@ -53,8 +55,9 @@ class RenderUtilFilter : public Ri::Filter
 {
     private:
         // Caching stuff
-        std::vector<CachedRiStream*> m_archives;
-        std::vector<CachedRiStream*> m_objectInstances;
+        typedef boost::shared_ptr<CachedRiStream> CachedRiStreamPtr;
+        std::vector<CachedRiStreamPtr> m_archives;
+        std::vector<CachedRiStreamPtr> m_objectInstances;
         CachedRiStream* m_currCache;
         int m_nested;
         bool m_inObject;
@@ -69,7 +72,7 @@ class RenderUtilFilter : public Ri::Filter
         // Find a cached stream in a given cache.
         //
         // Return -1 if not found.
-        static int findCachedStream(std::vector<CachedRiStream*>& cache, const char* name)
+        static int findCachedStream(std::vector<CachedRiStreamPtr>& cache, const char* name)
         {
             for(int i = 0, iend = cache.size(); i < iend; ++i)
                 if(cache[i]->name() == name)
@@ -81,7 +84,7 @@ class RenderUtilFilter : public Ri::Filter
         //
         // If a stream with the same name already exists, the new stream
         // replaces the old one.
-        static CachedRiStream* newCachedStream(std::vector<CachedRiStream*>& cache,
+        static CachedRiStream* newCachedStream(std::vector<CachedRiStreamPtr>& cache,
                                    const char* name)
         {
             // First search to make sure we haven't already defined a stream
@@ -89,14 +92,13 @@ class RenderUtilFilter : public Ri::Filter
             int index = findCachedStream(cache, name);
             if(index >= 0)
             {
-                delete cache[index];
-                cache[index] = new CachedRiStream(name);
-                return cache[index];
+                cache[index].reset(new CachedRiStream(name));
+                return cache[index].get();
             }
             else
             {
-                cache.push_back(new CachedRiStream(name));
-                return cache.back();
+                cache.push_back(CachedRiStreamPtr(new CachedRiStream(name)));
+                return cache.back().get();
             }
         }
 
@@ -114,14 +116,6 @@ class RenderUtilFilter : public Ri::Filter
             m_ifInactive(false)
         { }
 
-        ~RenderUtilFilter()
-        {
-            for(size_t i = 0; i < m_archives.size(); ++i)
-                delete m_archives[i];
-            for(size_t i = 0; i < m_objectInstances.size(); ++i)
-                delete m_objectInstances[i];
-        }
-
         //--------------------------------------------------
         // Inline archive handling
         virtual RtVoid ArchiveBegin(RtConstToken name, const ParamList& pList)
@@ -160,7 +154,12 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the archive name in the cached archives.
             int index = findCachedStream(m_archives, name);
             if(index >= 0)
-                m_archives[index]->replay(services().firstFilter());
+            {
+                // Hold on to the stream, since it may be redefined by one of
+                // the calls it contains.
+                CachedRiStreamPtr stream = m_archives[index];
+                stream->replay(services().firstFilter());
+            }
             else
             {
                 // If not found in our archive list it's probably on-disk, so
@@ -218,7 +217,12 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the object instance name
             int index = findCachedStream(m_objectInstances, name);
             if(index >= 0)
-                m_objectInstances[index]->replay(services().firstFilter());
+            {
+                // Hold on to the stream, since it may be redefined by one of
+                // the calls it contains.
+                CachedRiStreamPtr stream = m_objectInstances[index];
+                stream->replay(services().firstFilter());
+            }
             else
             {
                 // If we didn't find it, error
-- 
2.43.0


From d8ae6c87f71653efb430e82ffbdb7346e2f6743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:22 +0000
Subject: [PATCH 07/32] fix: refuse ArchiveEnd outside an archive instead of
 closing whichever block is open

---
 libs/riutil/ri.xml             | 3 +++
 libs/riutil/ricxx_validate.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/libs/riutil/ri.xml b/libs/riutil/ri.xml
index ab6c4d6..110453f 100644
--- a/libs/riutil/ri.xml
+++ b/libs/riutil/ri.xml
@@ -3469,6 +3469,9 @@
 			<ReturnType>RtVoid</ReturnType>
 			<Arguments/>
 			<Rib/>
+			<ValidScope>
+				<Archive/>
+			</ValidScope>
 		</Procedure>
 
 	</Procedures>
diff --git a/libs/riutil/ricxx_validate.cpp b/libs/riutil/ricxx_validate.cpp
index 0922266..845221b 100644
--- a/libs/riutil/ricxx_validate.cpp
+++ b/libs/riutil/ricxx_validate.cpp
@@ -2032,6 +2032,7 @@ RtVoid RiCxxValidate::ArchiveBegin(RtConstToken name, const ParamList& pList)
 
 RtVoid RiCxxValidate::ArchiveEnd()
 {
+    checkScope(ApiScope(Scope_Archive), "ArchiveEnd");
     popAttributes();
     nextFilter().ArchiveEnd();
     popScope(Scope_Archive);
-- 
2.43.0


From 14d828f4e4b3ea896c817973e63b2b2b2cec8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:19 +0000
Subject: [PATCH 08/32] fix: ceilPow2 shifted a 32-bit value by 32 bits or more

---
 include/aqsis/math/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/math/math.h b/include/aqsis/math/math.h
index cf00244..69f0a7b 100644
--- a/include/aqsis/math/math.h
+++ b/include/aqsis/math/math.h
@@ -142,7 +142,7 @@ inline TqFloat radToDeg(const TqFloat a)
 inline TqUint ceilPow2(const TqUint x)
 {
 	TqUint y = x - 1;
-	for (TqUint i = 1; i; i <<= 1)
+	for (TqUint i = 1; i < 32; i <<= 1)
 		y |= y >> i;
 	// y is now the next highest power of two minus 1.
 	return y + 1;
@@ -203,7 +203,7 @@ inline bool isClose(TqFloat x1, TqFloat x2,
  */
 //inline TqUint ceilPow2Minus1(TqUint x)
 //{
-//	for (TqUint i = 1; i; i <<= 1)
+//	for (TqUint i = 1; i < 32; i <<= 1)
 //		x |= x >> i;
 //	return x;
 //}
-- 
2.43.0


From 498fb7fd695f3dcdf9a9e2a881bda02601e9a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:00 +0000
Subject: [PATCH 09/32] fix: spread the grid sampler's time samples instead of
 making them all zero

---
 libs/core/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/grid.cpp b/libs/core/grid.cpp
index 5b50009..260477a 100644
--- a/libs/core/grid.cpp
+++ b/libs/core/grid.cpp
@@ -49,7 +49,7 @@ void CqGridSampler::setupGridPattern()
 	}
 
 	// Fill in motion blur and LoD with the same regular grid
-	TqFloat dt = 1/nSamples;
+	TqFloat dt = 1.0f/nSamples;
 	TqFloat sample = dt*0.5;
 	for(TqInt i = 0; i < nSamples; ++i)
 	{
-- 
2.43.0


From e1ae9ddb98d5a84460fe418c15d3720e9bc7c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:00 +0000
Subject: [PATCH 10/32] fix: attenuate the opacity behind a matte surface by
 its opacity, not its colour

---
 libs/core/imagepixel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 2531912..724a0c9 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -207,9 +207,9 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 						lerp( sample_data[Sample_OBlue], samplecolor.b(), 0.0f )
 					);
 					sampleopacity = CqColor(
-						lerp( sample_data[Sample_Red], sampleopacity.r(), 0.0f ),
-						lerp( sample_data[Sample_Green], sampleopacity.g(), 0.0f ),
-						lerp( sample_data[Sample_Blue], sampleopacity.b(), 0.0f )
+						lerp( sample_data[Sample_ORed], sampleopacity.r(), 0.0f ),
+						lerp( sample_data[Sample_OGreen], sampleopacity.g(), 0.0f ),
+						lerp( sample_data[Sample_OBlue], sampleopacity.b(), 0.0f )
 					);
 				}
 				else
-- 
2.43.0


From a5d15ac8cd26c4d22670c8a03bda16a20eba3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:59 +0000
Subject: [PATCH 11/32] fix: average depth filter counted the nearest surface
 by its composited opacity

---
 libs/core/imagepixel.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 724a0c9..4c91b17 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -193,6 +193,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 			bool samplehit = false;
 			TqFloat opaqueDepths[2] = { sampleData.occlZ, FLT_MAX };
 			TqFloat maxOpaqueDepth = FLT_MAX;
+			TqFloat totOpaqueDepth = 0.0f;
+			TqInt opaqueCount = 0;
 
 			for ( std::vector<SqImageSample>::reverse_iterator sample = sampleData.data.rbegin();
 			        sample != sampleData.data.rend();
@@ -236,6 +238,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					// Store the max opaque depth too, if not already stored.
 					if(!(maxOpaqueDepth < FLT_MAX))
 						maxOpaqueDepth = sample_data[Sample_Depth];
+					totOpaqueDepth += sample_data[Sample_Depth];
+					++opaqueCount;
 				}
 				samplehit = true;
 			}
@@ -278,21 +282,7 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					}
 					else if ( depthfilter == Filter_Average )
 					{
-						std::vector<SqImageSample>::iterator sample;
-						TqFloat totDepth = 0.0f;
-						TqInt totCount = 0;
-						for ( sample = sampleData.data.begin(); sample != sampleData.data.end(); sample++ )
-						{
-							TqFloat* sample_data = sampleHitData(*sample);
-							if(sample_data[Sample_ORed] >= zThreshold.r() || sample_data[Sample_OGreen] >= zThreshold.g() || sample_data[Sample_OBlue] >= zThreshold.b())
-							{
-								totDepth += sample_data[Sample_Depth];
-								totCount++;
-							}
-						}
-						totDepth /= totCount;
-
-						occlDepth = totDepth;
+						occlDepth = opaqueCount > 0 ? totOpaqueDepth/opaqueCount : FLT_MAX;
 					}
 					// Default to "min"
 				}
-- 
2.43.0


From fc0332addef9d1aa30cf370ace274e50912325ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:00 +0000
Subject: [PATCH 12/32] fix: grow buckets smaller than the filter overlap
 instead of failing on a negative cache size

---
 libs/core/optioncache.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/core/optioncache.cpp b/libs/core/optioncache.cpp
index 0f9b68d..4fa8f53 100644
--- a/libs/core/optioncache.cpp
+++ b/libs/core/optioncache.cpp
@@ -21,6 +21,7 @@
 
 #include "optioncache.h"
 
+#include <aqsis/math/math.h>
 #include <aqsis/util/logging.h>
 #include <aqsis/util/sstring.h>
 
@@ -82,6 +83,10 @@ void SqOptionCache::cacheOptions(const IqOptions& opts)
 		xBucketSize = bktSize[0];
 		yBucketSize = bktSize[1];
 	}
+	// Neighbouring buckets share the samples where their filters overlap, so a
+	// bucket can't be smaller than the overlap.
+	xBucketSize = max(xBucketSize, max<TqInt>(1, 2*lfloor(xFiltSize/2.0f)));
+	yBucketSize = max(yBucketSize, max<TqInt>(1, 2*lfloor(yFiltSize/2.0f)));
 	// Eye split bound
 	maxEyeSplits = 10;
 	if(const TqInt* splits = opts.GetIntegerOption("limits", "eyesplits"))
-- 
2.43.0


From d7f4cdff59031fe706d65115648b6942d36ade09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:07 +0000
Subject: [PATCH 13/32] fix: keep a moving micropolygon at its nearest key
 outside the motion keys when bounding it

---
 libs/core/micropolygon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index 287a952..31466a6 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -1728,7 +1728,8 @@ void CqMicroPolygonMotion::BuildBoundList(TqUint timeRanges)
 		const CqBound& end1 = m_Keys[endKey]->GetBound();
 		TqFloat end1Time = m_Times[endKey];
 
-		TqFloat mix = (time - end0Time) / (end1Time - end0Time);
+		// Outside the keys the micropolygon stays at the nearest key.
+		TqFloat mix = clamp((time - end0Time) / (end1Time - end0Time), 0.0f, 1.0f);
 		CqBound mid(end0);
 		mid.vecMin() += mix * (end1.vecMin() - end0.vecMin());
 		mid.vecMax() += mix * (end1.vecMax() - end0.vecMax());
-- 
2.43.0


From 46c3b6b60626ca158924101fecf70b6a9f44953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 14/32] fix: moving points lost their samples at negative
 shutter times because SubBound did not override the base

---
 libs/core/geometry/points.cpp | 58 ++++++++++++++++++++---------------
 libs/core/geometry/points.h   |  2 +-
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/libs/core/geometry/points.cpp b/libs/core/geometry/points.cpp
index b9a4ff6..051797e 100644
--- a/libs/core/geometry/points.cpp
+++ b/libs/core/geometry/points.cpp
@@ -842,34 +842,42 @@ void CqMicroPolygonMotionPoints::BuildBoundList( TqUint timeRanges )
 
 	assert( NULL != m_Keys[0] );
 
-	CqBound start = m_Keys[0]->GetBound();
-	TqFloat	startTime = m_Times[ 0 ];
-	TqInt cTimes = m_Keys.size();
-	for ( TqInt i = 1; i < cTimes; i++ )
+	const TqFloat* shutter = QGetRenderContext()->poptCurrent()->GetFloatOption( "System", "Shutter" );
+
+	// arbitary number of divisions, should be related to screen size of blur
+	const TqInt divisions = 4;
+	const TqFloat dt = ( shutter[1] - shutter[0] ) / divisions;
+	const TqUint lastKey = m_Keys.size() - 1;
+	TqUint endKey = lastKey > 0 ? 1 : 0;
+	TqUint startKey = 0;
+	CqBound bound = m_Keys[0]->GetBound();
+	m_BoundList.SetSize( divisions );
+	for ( TqInt d = 0; d < divisions; d++ )
 	{
-		CqBound end = m_Keys[i]->GetBound();
-		CqBound mid0( start );
-		CqBound mid1;
-		TqFloat endTime = m_Times[ i ];
-		TqFloat time = startTime;
-
-		TqInt d;
-		// arbitary number of divisions, should be related to screen size of blur
-		TqInt divisions = 4;
-		TqFloat delta = 1.0f / static_cast<TqFloat>( divisions );
-		m_BoundList.SetSize( divisions );
-		for ( d = 1; d <= divisions; d++ )
+		TqFloat time = shutter[0] + ( d + 1 ) * dt;
+		// Find the keys around the end of this period.
+		while ( time > m_Times[ endKey ] && endKey < lastKey )
+			++endKey;
+		// Interpolate the bound at the end of the period; outside the keys the
+		// point stays at the nearest key.
+		CqBound mid = m_Keys[ endKey ]->GetBound();
+		if ( endKey > 0 )
 		{
-			mid1.vecMin() = delta * ( end.vecMin() - start.vecMin() ) + start.vecMin();
-			mid1.vecMax() = delta * ( end.vecMax() - start.vecMax() ) + start.vecMax();
-			mid0.Encapsulate(&mid1);
-			m_BoundList.Set( d-1, mid0, time );
-			time = delta * ( endTime - startTime ) + startTime;
-			mid0 = mid1;
-			delta += delta;
+			const CqBound& end0 = m_Keys[ endKey - 1 ]->GetBound();
+			const CqBound& end1 = m_Keys[ endKey ]->GetBound();
+			TqFloat mix = clamp( ( time - m_Times[ endKey - 1 ] ) / ( m_Times[ endKey ] - m_Times[ endKey - 1 ] ), 0.0f, 1.0f );
+			mid.vecMin() = end0.vecMin() + mix * ( end1.vecMin() - end0.vecMin() );
+			mid.vecMax() = end0.vecMax() + mix * ( end1.vecMax() - end0.vecMax() );
 		}
-		start = end;
-		startTime = endTime;
+		bound.Encapsulate( &mid );
+		// Include the keys passed during the period.
+		while ( startKey + 1 < endKey )
+		{
+			CqBound B( m_Keys[ ++startKey ]->GetBound() );
+			bound.Encapsulate( &B );
+		}
+		m_BoundList.Set( d, bound, time - dt );
+		bound = mid;
 	}
 	m_BoundReady = true;
 }
diff --git a/libs/core/geometry/points.h b/libs/core/geometry/points.h
index a803aab..561728d 100644
--- a/libs/core/geometry/points.h
+++ b/libs/core/geometry/points.h
@@ -471,7 +471,7 @@ class CqMicroPolygonMotionPoints : public CqMicroPolygon
 				BuildBoundList( timeRanges );
 			return ( m_BoundList.Size() );
 		}
-		virtual	CqBound			SubBound( TqInt iIndex, TqFloat& time )
+		virtual	CqBound			SubBound( TqInt iIndex, TqFloat& time ) const
 		{
 			if ( !m_BoundReady )
 			{
-- 
2.43.0


From c85f26bb1b4d5eb0cc81164e81feb48fc5175535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:57 +0000
Subject: [PATCH 15/32] fix: give the shader VM the logical not the shader
 compiler emits

---
 libs/shadervm/shaderstack.h | 33 +++++++++++++++++++++++++++++++++
 libs/shadervm/shadervm.cpp  |  1 +
 libs/shadervm/shadervm.h    |  1 +
 libs/shadervm/shadervm1.cpp | 11 +++++++++++
 4 files changed, 46 insertions(+)

diff --git a/libs/shadervm/shaderstack.h b/libs/shadervm/shaderstack.h
index 7a5fde5..b31c0cf 100644
--- a/libs/shadervm/shaderstack.h
+++ b/libs/shadervm/shaderstack.h
@@ -84,6 +84,7 @@ static CqMatrix temp_matrix;
 #define	OpADD_FF(a,b,Res,State)		OpADD(temp_float,temp_float,temp_float,a,b,Res,State)
 #define	OpSUB_FF(a,b,Res,State)		OpSUB(temp_float,temp_float,temp_float,a,b,Res,State)
 #define	OpNEG_F(a,Res,State)		OpNEG(temp_float,a,Res,State)
+#define	OpNOT_F(a,Res,State)		OpNOT(temp_float,a,Res,State)
 
 #define	OpMUL_PP(a,b,Res,State)		OpMUL(temp_point,temp_point,temp_point,a,b,Res,State)
 #define	OpDIV_PP(a,b,Res,State)		OpDIV(temp_point,temp_point,temp_point,a,b,Res,State)
@@ -598,6 +599,38 @@ inline void	OpNEG( A& a, IqShaderData* pA, IqShaderData* pRes,
 	}
 }
 
+/* Templatised logical not operator.
+ */
+template <class A>
+inline void	OpNOT( A& a, IqShaderData* pA, IqShaderData* pRes,
+		const CqBitVector& RunningState )
+{
+	A vA;
+	A* pdA;
+	TqInt i, ii;
+
+	bool fAVar = pA->Size() > 1;
+
+	if ( fAVar )
+	{
+		/* Varying, must go accross all processing each element. */
+		pA->GetValuePtr( pdA );
+		ii = pA->Size();
+		for ( i = 0; i < ii; i++ )
+		{
+			if ( RunningState.Value( i ) )
+				pRes->SetValue( static_cast<A>( !( *pdA ) ), i );
+			pdA++;
+		}
+	}
+	else
+	{
+		/* Uniform, simple one shot case. */
+		pA->GetValue( vA );
+		pRes->SetValue( static_cast<A>( !vA ) );
+	}
+}
+
 namespace detail {
 
 template<typename T1, typename T2>
diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index 35ee5b1..f6c0643 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -199,6 +199,7 @@ SqOpCodeTrans CqShaderVM::m_TransTable[] =
         {"addff", 0, &CqShaderVM::SO_addff, 0, {0}},
         {"subff", 0, &CqShaderVM::SO_subff, 0, {0}},
         {"negf", 0, &CqShaderVM::SO_negf, 0, {0}},
+        {"notf", 0, &CqShaderVM::SO_notf, 0, {0}},
 
         {"mulpp", 0, &CqShaderVM::SO_mulpp, 0, {0}},
         {"divpp", 0, &CqShaderVM::SO_divpp, 0, {0}},
diff --git a/libs/shadervm/shadervm.h b/libs/shadervm/shadervm.h
index 8760a98..0e5cc30 100644
--- a/libs/shadervm/shadervm.h
+++ b/libs/shadervm/shadervm.h
@@ -458,6 +458,7 @@ class AQSIS_SHADERVM_SHARE CqShaderVM : public CqShaderStack, public IqShader, p
 		void	SO_addff();
 		void	SO_subff();
 		void	SO_negf();
+		void	SO_notf();
 		void	SO_mulpp();
 		void	SO_divpp();
 		void	SO_addpp();
diff --git a/libs/shadervm/shadervm1.cpp b/libs/shadervm/shadervm1.cpp
index f7db1ff..a400f8e 100644
--- a/libs/shadervm/shadervm1.cpp
+++ b/libs/shadervm/shadervm1.cpp
@@ -895,6 +895,17 @@ void CqShaderVM::SO_negf()
 	RELEASE( A );
 }
 
+void CqShaderVM::SO_notf()
+{
+	AUTOFUNC;
+	POPV( A );
+	RESULT(type_float, __fVarying?class_varying:class_uniform);
+	if(m_pEnv->IsRunning())
+		OpNOT_F( A, pResult, m_pEnv->RunningState() );
+	Push( pResult );
+	RELEASE( A );
+}
+
 void CqShaderVM::SO_mulpp()
 {
 	AUTOFUNC;
-- 
2.43.0


From 321bb974e72769c56b5f4be337b029c60a4b5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:54 +0000
Subject: [PATCH 16/32] fix: the derivative of a uniform shader value read past
 its end; it is zero

---
 libs/shadervm/shaderexecenv/shaderexecenv.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/shadervm/shaderexecenv/shaderexecenv.h b/libs/shadervm/shaderexecenv/shaderexecenv.h
index dca6219..e9bfeb0 100644
--- a/libs/shadervm/shaderexecenv/shaderexecenv.h
+++ b/libs/shadervm/shaderexecenv/shaderexecenv.h
@@ -669,6 +669,9 @@ void clearPointCloudCache();
 template<typename T>
 T CqShaderExecEnv::diffU(IqShaderData* var, TqInt gridIdx)
 {
+	// A uniform variable has only one value, which doesn't vary over the grid.
+	if(var->Class() != class_varying)
+		return T();
 	const T* data = 0;
 	var->GetValuePtr(data);
 	return m_diff.diffU(data, m_diffUidx[gridIdx], m_diffVidx[gridIdx]);
@@ -677,6 +680,9 @@ T CqShaderExecEnv::diffU(IqShaderData* var, TqInt gridIdx)
 template<typename T>
 T CqShaderExecEnv::diffV(IqShaderData* var, TqInt gridIdx)
 {
+	// A uniform variable has only one value, which doesn't vary over the grid.
+	if(var->Class() != class_varying)
+		return T();
 	const T* data = 0;
 	var->GetValuePtr(data);
 	return m_diff.diffV(data, m_diffUidx[gridIdx], m_diffVidx[gridIdx]);
-- 
2.43.0


From a90e4bad06e0f333f6843161404db43bf6adf963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:53 +0000
Subject: [PATCH 17/32] fix: one-sided shader derivatives were half the
 difference between consecutive grid points

---
 include/aqsis/math/derivatives.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/math/derivatives.h b/include/aqsis/math/derivatives.h
index b4856f0..e3cac81 100644
--- a/include/aqsis/math/derivatives.h
+++ b/include/aqsis/math/derivatives.h
@@ -192,9 +192,9 @@ inline T CqGridDiff::diff(const T* data, bool useCentred, TqInt stride,
 		// differece *between* grid points, which corresponds to
 		// micropolygons centres.
 		if(n == nSize-1)
-			return 0.5*(data[0] - data[-stride]);
+			return data[0] - data[-stride];
 		else
-			return 0.5*(data[stride] - data[0]);
+			return data[stride] - data[0];
 	}
 }
 
-- 
2.43.0


From 4da91e9b189c114ca7ec294cca47298bb02ba9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:01 +0000
Subject: [PATCH 18/32] fix: shader vtransform and ntransform with a matrix
 treated vectors and normals as points

---
 libs/shadervm/shaderexecenv/shadeops_matrx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
index 25e0c5a..24b1a4a 100644
--- a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
@@ -294,7 +294,7 @@ void CqShaderExecEnv::SO_vtransformm( IqShaderData* tospace, IqShaderData* p, Iq
 			(tospace)->GetMatrix(_aq_tospace,__iGrid);
 			CqVector3D _aq_p;
 			(p)->GetVector(_aq_p,__iGrid);
-			(Result)->SetVector(_aq_tospace * _aq_p,__iGrid);
+			(Result)->SetVector(vectorTransform(_aq_tospace) * _aq_p,__iGrid);
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
@@ -429,7 +429,7 @@ void CqShaderExecEnv::SO_ntransformm( IqShaderData* tospace, IqShaderData* p, Iq
 			(tospace)->GetMatrix(_aq_tospace,__iGrid);
 			CqVector3D _aq_p;
 			(p)->GetNormal(_aq_p,__iGrid);
-			(Result)->SetNormal(_aq_tospace * _aq_p,__iGrid);
+			(Result)->SetNormal(normalTransform(_aq_tospace) * _aq_p,__iGrid);
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
-- 
2.43.0


From 2c2397ad4b99072ee6fd0c13dc13212001f50d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:13 +0000
Subject: [PATCH 19/32] fix: 32 bit image channels turned white into black

Converting from float computed range*x + 0.5 in single precision, which for
32 bit integers rounds the maximum up by one and so wraps to the minimum.
Compute the conversion in double precision.
---
 include/aqsis/tex/buffers/imagechannel.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/aqsis/tex/buffers/imagechannel.h b/include/aqsis/tex/buffers/imagechannel.h
index 9510e05..3a71e6b 100644
--- a/include/aqsis/tex/buffers/imagechannel.h
+++ b/include/aqsis/tex/buffers/imagechannel.h
@@ -324,10 +324,11 @@ inline T CqImageChannelTyped<T>::convertFromFloat(TqFloatConv src)
 {
 	if(std::numeric_limits<T>::is_integer)
 	{
-		// result = integer
-		return static_cast<T>(lround(clamp<TqFloatConv>(src, 0, 1) *
-					( static_cast<TqFloatConv>(std::numeric_limits<T>::max())
-					- static_cast<TqFloatConv>(std::numeric_limits<T>::min()) )
+		// result = integer (computed in double precision, since the limits of
+		// the 32 bit types aren't representable in single precision)
+		return static_cast<T>(lround(clamp<double>(src, 0, 1) *
+					( static_cast<double>(std::numeric_limits<T>::max())
+					- static_cast<double>(std::numeric_limits<T>::min()) )
 					+ std::numeric_limits<T>::min()
 				));
 	}
-- 
2.43.0


From 9b2360233a6b5dea91dc0c567d4052b74efa6ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:13 +0000
Subject: [PATCH 20/32] fix: lost samples at corners of textures clamped in one
 direction only

Where a filter support covers the corner region of a texture which is clamped
in one direction and periodic in the other, the periodic coordinate was not
translated back into the buffer, so that region contributed no samples.
Downsampled images and texture lookups lost brightness there.
---
 include/aqsis/tex/filtering/filtertexture.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/aqsis/tex/filtering/filtertexture.h b/include/aqsis/tex/filtering/filtertexture.h
index c2fbfd1..dbabec6 100644
--- a/include/aqsis/tex/filtering/filtertexture.h
+++ b/include/aqsis/tex/filtering/filtertexture.h
@@ -178,14 +178,16 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 		else
 		{
 			// clamped in x direction, but not in y direction.
-			// Here we perform a normal iteration over y, but leave 
+			// Here we perform a normal iteration over y (translated back
+			// into the buffer for periodic wrapping), but leave x clamped.
 			TqInt xClamp = clamp(tlX, 0, buffer.width()-1);
-			SqFilterSupport clampedSupport(SqFilterSupport1D(xClamp, xClamp+1), tileSupport.sy);
+			SqFilterSupport clampedSupport(xClamp, xClamp+1,
+					tileSupport.sy.start - tlY, tileSupport.sy.end - tlY);
 			for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 					i.inSupport(); ++i)
 			{
 				for(TqInt ix = tileSupport.sx.start; ix < tileSupport.sx.end; ++ix)
-					sampleAccum.accumulate(ix, i.y(), *i);
+					sampleAccum.accumulate(ix, i.y() + tlY, *i);
 			}
 		}
 	}
@@ -194,12 +196,13 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 		// clamped in y direction, but not in x direction.  This is just an
 		// inverted (and slightly duplicated :-/ ) version of the code above
 		TqInt yClamp = clamp(tlY, 0, buffer.height()-1);
-		SqFilterSupport clampedSupport(tileSupport.sx, SqFilterSupport1D(yClamp, yClamp+1));
+		SqFilterSupport clampedSupport(tileSupport.sx.start - tlX,
+				tileSupport.sx.end - tlX, yClamp, yClamp+1);
 		for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 				i.inSupport(); ++i)
 		{
 			for(TqInt iy = tileSupport.sy.start; iy < tileSupport.sy.end; ++iy)
-				sampleAccum.accumulate(i.x(), iy, *i);
+				sampleAccum.accumulate(i.x() + tlX, iy, *i);
 		}
 	}
 	else
-- 
2.43.0


From 0ffc3968a688133f943f757bc73a993315c09099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:48 +0000
Subject: [PATCH 21/32] fix: C API parameter names dangled when two tokens
 ended in white space

g_nameStorage was a vector that reallocated while the parameter list pointed
into it, and it was never emptied.
---
 libs/riutil/ri2ricxx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index f4770ca..e251d31 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -36,6 +36,7 @@
 
 #include <aqsis/riutil/ri2ricxx.h>
 
+#include <deque>
 #include <vector>
 #include <set>
 #include <stack>
@@ -200,7 +201,8 @@ void riToRiCxxEnd()
 namespace {
 
 std::vector<Ri::Param> g_pList;
-std::vector<std::string> g_nameStorage;
+// A deque, because adding a name must not move those already referred to.
+std::deque<std::string> g_nameStorage;
 
 // Build a Ri::ParamList from the corresponding C API (count,tokens[],values[])
 //
@@ -213,6 +215,7 @@ Ri::ParamList buildParamList(RtInt count, RtToken tokens[], RtPointer values[],
     if(count == 0)
         return Ri::ParamList();
     g_pList.clear();
+    g_nameStorage.clear();
     for(int i = 0; i < count; ++i)
     {
         const char* nameBegin = 0;
-- 
2.43.0


From 8e22a0f3a604f0d743182afe332c296a248ac92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:48 +0000
Subject: [PATCH 22/32] fix: count of uniform values of a NuPatch

A NURBS patch has (1+nu-uorder)*(1+nv-vorder) segments, which is the number of
uniform values (RISpec 3.2; CqSurfaceNURBS::cUniform).  The validator refused
correct uniform data, and the C API read past the end of it.
---
 libs/riutil/ri.xml             | 2 +-
 libs/riutil/ri2ricxx.cpp       | 2 +-
 libs/riutil/ricxx_validate.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/ri.xml b/libs/riutil/ri.xml
index 110453f..4062473 100644
--- a/libs/riutil/ri.xml
+++ b/libs/riutil/ri.xml
@@ -2254,7 +2254,7 @@
 			</Arguments>
 			<Rib/>
 			<IClassLengths>
-				<Uniform>(1+nu-uorder+1)*(1+nv-vorder+1)</Uniform>
+				<Uniform>(1+nu-uorder)*(1+nv-vorder)</Uniform>
 				<Varying>(1+nu-uorder+1)*(1+nv-vorder+1)</Varying>
 				<Vertex>nu*nv</Vertex>
 			</IClassLengths>
diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index e251d31..46c7253 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -1178,7 +1178,7 @@ RtVoid RiNuPatchV(RtInt nu, RtInt uorder, RtFloat uknot_in[], RtFloat umin, RtFl
     Ri::FloatArray uknot(uknot_in, nu+uorder);
     Ri::FloatArray vknot(vknot_in, nv+vorder);
     IClassCounts iclassCounts(1,1,1,1,1);
-    iclassCounts.uniform = (1+nu-uorder+1)*(1+nv-vorder+1);
+    iclassCounts.uniform = (1+nu-uorder)*(1+nv-vorder);
     iclassCounts.varying = (1+nu-uorder+1)*(1+nv-vorder+1);
     iclassCounts.vertex = nu*nv;
     iclassCounts.facevarying = iclassCounts.varying;
diff --git a/libs/riutil/ricxx_validate.cpp b/libs/riutil/ricxx_validate.cpp
index 845221b..4d58699 100644
--- a/libs/riutil/ricxx_validate.cpp
+++ b/libs/riutil/ricxx_validate.cpp
@@ -1510,7 +1510,7 @@ RtVoid RiCxxValidate::NuPatch(RtInt nu, RtInt uorder, const FloatArray& uknot,
         );
     }
     SqInterpClassCounts iclassCounts(1,1,1,1,1);
-    iclassCounts.uniform = (1+nu-uorder+1)*(1+nv-vorder+1);
+    iclassCounts.uniform = (1+nu-uorder)*(1+nv-vorder);
     iclassCounts.varying = (1+nu-uorder+1)*(1+nv-vorder+1);
     iclassCounts.vertex = nu*nv;
     iclassCounts.facevarying = iclassCounts.varying;
-- 
2.43.0


From c3e2d337aff28b22fd7287ad1da00dfde346000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:14 +0000
Subject: [PATCH 23/32] fix: colors of fewer than three components were read
 past their end

After ColorSamples with one or two samples, Color and Opacity took three floats
from an array of one or two.
---
 libs/riutil/ribparser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/riutil/ribparser.cpp b/libs/riutil/ribparser.cpp
index a9e3231..4b5a817 100644
--- a/libs/riutil/ribparser.cpp
+++ b/libs/riutil/ribparser.cpp
@@ -268,6 +268,11 @@ inline const T& toFloatBasedType(Ri::FloatArray a,
     if(desc && ncomps != a.size())
         AQSIS_THROW_XQERROR(XqParseError, EqE_BadToken,
                             "wrong number of components for " << desc);
+    // Colors have as many components as the last ColorSamples said.
+    if(a.size()*sizeof(RtFloat) < sizeof(T))
+        AQSIS_THROW_XQERROR(XqParseError, EqE_BadToken,
+                            "colors of fewer than three components are "
+                            "not supported");
     return *reinterpret_cast<const T*>(a.begin());
 }
 
-- 
2.43.0


From a5313ab57973aa539365b238b4f2e4f4a8099915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:56 +0000
Subject: [PATCH 24/32] fix: array sizes of declarations out of range

"float[0] x", "float[-3] x" and "float[4294967298] x" (read as 2) were
accepted, and led to wrong or negative lengths of parameters.
---
 libs/riutil/primvartoken.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/primvartoken.cpp b/libs/riutil/primvartoken.cpp
index ad6b7dc..0007fa0 100644
--- a/libs/riutil/primvartoken.cpp
+++ b/libs/riutil/primvartoken.cpp
@@ -37,6 +37,7 @@
 
 #include <aqsis/riutil/primvartoken.h>
 
+#include <climits>
 #include <cstring>
 
 #include <aqsis/util/exception.h>
@@ -187,9 +188,12 @@ Ri::TypeSpec parseDeclaration(const char* token, const char** nameStart,
 		if(!nextToken(begin, end))
 			RETURN_ERROR("expected array size after '['");
 		char* convEnd = 0;
-		spec.arraySize = std::strtol(begin, &convEnd, 10);
+		long arraySize = std::strtol(begin, &convEnd, 10);
 		if(convEnd != end)
 			RETURN_ERROR("array size must be an integer");
+		if(arraySize <= 0 || arraySize > INT_MAX)
+			RETURN_ERROR("array size out of range");
+		spec.arraySize = static_cast<int>(arraySize);
 		// Consume a "]" token
 		if(!nextToken(begin, end) || *begin != ']')
 			RETURN_ERROR("expected ']' after array size");
-- 
2.43.0


From 33db6948cf21f012a16e896cb8ad17542835712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:46 +0000
Subject: [PATCH 25/32] fix: uniform variables of patch meshes took the values
 of the first row

Every patch of a mesh has its own value of a uniform variable, counted along u
and then v; the rows after the first reused the values of the first.
---
 libs/core/geometry/patch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/core/geometry/patch.cpp b/libs/core/geometry/patch.cpp
index 5dcbd14..1d4b4f4 100644
--- a/libs/core/geometry/patch.cpp
+++ b/libs/core/geometry/patch.cpp
@@ -1053,7 +1053,7 @@ void CqSurfacePatchMeshBicubic::SplitInternally()
 					// Copy any 'uniform' class primitive variables.
 					CqParameter * pNewUP = ( *iUP ) ->CloneType( ( *iUP ) ->strName().c_str(), ( *iUP ) ->Count() );
 					pNewUP->SetSize( pSurface->cUniform() );
-					pNewUP->SetValue( ( *iUP ), 0, j );
+					pNewUP->SetValue( ( *iUP ), 0, i * m_uPatches + j );
 					pSurface->AddPrimitiveVariable( pNewUP );
 				}
 				else if ( ( *iUP ) ->Class() == class_constant )
@@ -1268,7 +1268,7 @@ TqInt CqSurfacePatchMeshBilinear::Split( std::vector<boost::shared_ptr<CqSurface
 					// Copy any 'uniform' class primitive variables.
 					CqParameter * pNewUP = ( *iUP ) ->CloneType( ( *iUP ) ->strName().c_str(), ( *iUP ) ->Count() );
 					pNewUP->SetSize( pSurface->cUniform() );
-					pNewUP->SetValue( ( *iUP ), 0, j );
+					pNewUP->SetValue( ( *iUP ), 0, i * m_uPatches + j );
 					pSurface->AddPrimitiveVariable( pNewUP );
 				}
 				else if ( ( *iUP ) ->Class() == class_constant )
-- 
2.43.0


From a1b81fe21af05291cb66911d9f6ea6eb58c5de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:14 +0000
Subject: [PATCH 26/32] fix: Hermite and power basis patches were distorted by
 made-up weights

The basis functions of these bases do not sum to one, so converting the weights
(all one) of a patch given by plain points gave weights other than one, by which
its control points were then divided.
---
 libs/core/geometry/patch.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/core/geometry/patch.cpp b/libs/core/geometry/patch.cpp
index 1d4b4f4..0920f5e 100644
--- a/libs/core/geometry/patch.cpp
+++ b/libs/core/geometry/patch.cpp
@@ -460,6 +460,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 
 						// Store the data into a matrix for conversion.
 						CqMatrix matCPx, matCPy, matCPz, matCPh;
+						bool rational = false;
 						for ( i = 0; i < 4; i++ )
 						{
 							for ( j = 0; j < 4; j++ )
@@ -468,6 +469,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 								matCPy[ i ][ j ] = pParam->pValue( i*4 + j )[0][1];
 								matCPz[ i ][ j ] = pParam->pValue( i*4 + j )[0][2];
 								matCPh[ i ][ j ] = pParam->pValue( i*4 + j )[0][3];
+								rational = rational || matCPh[ i ][ j ] != 1.0f;
 							}
 						}
 						matCPx.SetfIdentity( false );
@@ -480,6 +482,8 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 						matCPz = matuConv.Transpose() * matCPz * matvConv;
 						matCPh = matuConv.Transpose() * matCPh * matvConv;
 
+						// A patch without weights stays so, also where the basis functions do not
+						// sum to one (Hermite tangents, power basis coefficients).
 						for ( i = 0; i < 4; i++ )
 						{
 							for ( j = 0; j < 4; j++ )
@@ -487,7 +491,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 								pParam->pValue( i*4 + j )[0][0] = matCPx[ i ][ j ];
 								pParam->pValue( i*4 + j )[0][1] = matCPy[ i ][ j ];
 								pParam->pValue( i*4 + j )[0][2] = matCPz[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][3] = matCPh[ i ][ j ];
+								pParam->pValue( i*4 + j )[0][3] = rational ? matCPh[ i ][ j ] : 1.0f;
 							}
 						}
 					}
-- 
2.43.0


From 86f9ecee2ea73e78fa174856dcc55f63eef15cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:46 +0000
Subject: [PATCH 27/32] fix: vertex arrays of bicubic patches

Splitting a patch left vertex arrays with four values in place of sixteen, which
dicing then read past; only the first element of an array was converted to the
Bezier basis.
---
 libs/core/geometry/patch.cpp | 94 +++++++++++++++++++-----------------
 libs/core/parameters.h       |  7 +++
 2 files changed, 56 insertions(+), 45 deletions(-)

diff --git a/libs/core/geometry/patch.cpp b/libs/core/geometry/patch.cpp
index 0920f5e..acf7219 100644
--- a/libs/core/geometry/patch.cpp
+++ b/libs/core/geometry/patch.cpp
@@ -93,37 +93,40 @@ void bicubicPatchNatSubdiv(CqParameter* pParam, CqParameter* pResult1,
 	CqParameterTyped<T, SLT>* pTParam = static_cast<CqParameterTyped<T, SLT>*>( pParam );
 	CqParameterTyped<T, SLT>* pTResult1 = static_cast<CqParameterTyped<T, SLT>*>( pResult1 );
 	CqParameterTyped<T, SLT>* pTResult2 = static_cast<CqParameterTyped<T, SLT>*>( pResult2 );
-	if ( u )
+	for ( TqInt i = 0; i < pParam->Count(); i++ )
 	{
-		for ( iv = 0; iv < 4; iv++ )
+		if ( u )
 		{
-			TqUint ivo = ( iv * 4 );
-			pTResult1->pValue() [ ivo + 0 ] = pTParam->pValue() [ ivo + 0 ];
-			pTResult1->pValue() [ ivo + 1 ] = static_cast<T>( ( pTParam->pValue() [ ivo + 0 ] + pTParam->pValue() [ ivo + 1 ] ) / 2.0f );
-			pTResult1->pValue() [ ivo + 2 ] = static_cast<T>( pTResult1->pValue() [ ivo + 1 ] / 2.0f + ( pTParam->pValue() [ ivo + 1 ] + pTParam->pValue() [ ivo + 2 ] ) / 4.0f );
+			for ( iv = 0; iv < 4; iv++ )
+			{
+				TqUint ivo = ( iv * 4 );
+				pTResult1->pValue( ivo + 0 ) [ i ] = pTParam->pValue( ivo + 0 ) [ i ];
+				pTResult1->pValue( ivo + 1 ) [ i ] = static_cast<T>( ( pTParam->pValue( ivo + 0 ) [ i ] + pTParam->pValue( ivo + 1 ) [ i ] ) / 2.0f );
+				pTResult1->pValue( ivo + 2 ) [ i ] = static_cast<T>( pTResult1->pValue( ivo + 1 ) [ i ] / 2.0f + ( pTParam->pValue( ivo + 1 ) [ i ] + pTParam->pValue( ivo + 2 ) [ i ] ) / 4.0f );
 
-			pTResult2->pValue() [ ivo + 3 ] = pTParam->pValue() [ ivo + 3 ];
-			pTResult2->pValue() [ ivo + 2 ] = static_cast<T>( ( pTParam->pValue() [ ivo + 2 ] + pTParam->pValue() [ ivo + 3 ] ) / 2.0f );
-			pTResult2->pValue() [ ivo + 1 ] = static_cast<T>( pTResult2->pValue() [ ivo + 2 ] / 2.0f + ( pTParam->pValue() [ ivo + 1 ] + pTParam->pValue() [ ivo + 2 ] ) / 4.0f );
+				pTResult2->pValue( ivo + 3 ) [ i ] = pTParam->pValue( ivo + 3 ) [ i ];
+				pTResult2->pValue( ivo + 2 ) [ i ] = static_cast<T>( ( pTParam->pValue( ivo + 2 ) [ i ] + pTParam->pValue( ivo + 3 ) [ i ] ) / 2.0f );
+				pTResult2->pValue( ivo + 1 ) [ i ] = static_cast<T>( pTResult2->pValue( ivo + 2 ) [ i ] / 2.0f + ( pTParam->pValue( ivo + 1 ) [ i ] + pTParam->pValue( ivo + 2 ) [ i ] ) / 4.0f );
 
-			pTResult1->pValue() [ ivo + 3 ] = static_cast<T>( ( pTResult1->pValue() [ ivo + 2 ] + pTResult2->pValue() [ ivo + 1 ] ) / 2.0f );
-			pTResult2->pValue() [ ivo + 0 ] = pTResult1->pValue() [ ivo + 3 ];
+				pTResult1->pValue( ivo + 3 ) [ i ] = static_cast<T>( ( pTResult1->pValue( ivo + 2 ) [ i ] + pTResult2->pValue( ivo + 1 ) [ i ] ) / 2.0f );
+				pTResult2->pValue( ivo + 0 ) [ i ] = pTResult1->pValue( ivo + 3 ) [ i ];
+			}
 		}
-	}
-	else
-	{
-		for ( iu = 0; iu < 4; iu++ )
+		else
 		{
-			pTResult1->pValue() [ 0 + iu ] = pTParam->pValue() [ 0 + iu ];
-			pTResult1->pValue() [ 4 + iu ] = static_cast<T>( ( pTParam->pValue() [ 0 + iu ] + pTParam->pValue() [ 4 + iu ] ) / 2.0f );
-			pTResult1->pValue() [ 8 + iu ] = static_cast<T>( pTResult1->pValue() [ 4 + iu ] / 2.0f + ( pTParam->pValue() [ 4 + iu ] + pTParam->pValue() [ 8 + iu ] ) / 4.0f );
+			for ( iu = 0; iu < 4; iu++ )
+			{
+				pTResult1->pValue( 0 + iu ) [ i ] = pTParam->pValue( 0 + iu ) [ i ];
+				pTResult1->pValue( 4 + iu ) [ i ] = static_cast<T>( ( pTParam->pValue( 0 + iu ) [ i ] + pTParam->pValue( 4 + iu ) [ i ] ) / 2.0f );
+				pTResult1->pValue( 8 + iu ) [ i ] = static_cast<T>( pTResult1->pValue( 4 + iu ) [ i ] / 2.0f + ( pTParam->pValue( 4 + iu ) [ i ] + pTParam->pValue( 8 + iu ) [ i ] ) / 4.0f );
 
-			pTResult2->pValue() [ 12 + iu ] = pTParam->pValue() [ 12 + iu ];
-			pTResult2->pValue() [ 8 + iu ] = static_cast<T>( ( pTParam->pValue() [ 8 + iu ] + pTParam->pValue() [ 12 + iu ] ) / 2.0f );
-			pTResult2->pValue() [ 4 + iu ] = static_cast<T>( pTResult2->pValue() [ 8 + iu ] / 2.0f + ( pTParam->pValue() [ 4 + iu ] + pTParam->pValue() [ 8 + iu ] ) / 4.0f );
+				pTResult2->pValue( 12 + iu ) [ i ] = pTParam->pValue( 12 + iu ) [ i ];
+				pTResult2->pValue( 8 + iu ) [ i ] = static_cast<T>( ( pTParam->pValue( 8 + iu ) [ i ] + pTParam->pValue( 12 + iu ) [ i ] ) / 2.0f );
+				pTResult2->pValue( 4 + iu ) [ i ] = static_cast<T>( pTResult2->pValue( 8 + iu ) [ i ] / 2.0f + ( pTParam->pValue( 4 + iu ) [ i ] + pTParam->pValue( 8 + iu ) [ i ] ) / 4.0f );
 
-			pTResult1->pValue() [ 12 + iu ] = static_cast<T>( ( pTResult1->pValue() [ 8 + iu ] + pTResult2->pValue() [ 4 + iu ] ) / 2.0f );
-			pTResult2->pValue() [ 0 + iu ] = pTResult1->pValue() [ 12 + iu ];
+				pTResult1->pValue( 12 + iu ) [ i ] = static_cast<T>( ( pTResult1->pValue( 8 + iu ) [ i ] + pTResult2->pValue( 4 + iu ) [ i ] ) / 2.0f );
+				pTResult2->pValue( 0 + iu ) [ i ] = pTResult1->pValue( 12 + iu ) [ i ];
+			}
 		}
 	}
 }
@@ -410,6 +413,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 		if ( ( *iUP ) ->Class() == class_vertex )
 		{
 			TqInt ptype = (*iUP)->Type();
+			for ( TqInt a = 0; a < (*iUP)->Count(); a++ )
 			switch( ptype )
 			{
 					case type_point:
@@ -425,9 +429,9 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 						{
 							for ( j = 0; j < 4; j++ )
 							{
-								matCPx[ i ][ j ] = pParam->pValue( i*4 + j )[0][0];
-								matCPy[ i ][ j ] = pParam->pValue( i*4 + j )[0][1];
-								matCPz[ i ][ j ] = pParam->pValue( i*4 + j )[0][2];
+								matCPx[ i ][ j ] = pParam->pValue( i*4 + j )[a][0];
+								matCPy[ i ][ j ] = pParam->pValue( i*4 + j )[a][1];
+								matCPz[ i ][ j ] = pParam->pValue( i*4 + j )[a][2];
 								matCPh[ i ][ j ] = 1.0f;
 							}
 						}
@@ -445,9 +449,9 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 						{
 							for ( j = 0; j < 4; j++ )
 							{
-								pParam->pValue( i*4 + j )[0][0] = matCPx[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][1] = matCPy[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][2] = matCPz[ i ][ j ];
+								pParam->pValue( i*4 + j )[a][0] = matCPx[ i ][ j ];
+								pParam->pValue( i*4 + j )[a][1] = matCPy[ i ][ j ];
+								pParam->pValue( i*4 + j )[a][2] = matCPz[ i ][ j ];
 							}
 						}
 					}
@@ -465,10 +469,10 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 						{
 							for ( j = 0; j < 4; j++ )
 							{
-								matCPx[ i ][ j ] = pParam->pValue( i*4 + j )[0][0];
-								matCPy[ i ][ j ] = pParam->pValue( i*4 + j )[0][1];
-								matCPz[ i ][ j ] = pParam->pValue( i*4 + j )[0][2];
-								matCPh[ i ][ j ] = pParam->pValue( i*4 + j )[0][3];
+								matCPx[ i ][ j ] = pParam->pValue( i*4 + j )[a][0];
+								matCPy[ i ][ j ] = pParam->pValue( i*4 + j )[a][1];
+								matCPz[ i ][ j ] = pParam->pValue( i*4 + j )[a][2];
+								matCPh[ i ][ j ] = pParam->pValue( i*4 + j )[a][3];
 								rational = rational || matCPh[ i ][ j ] != 1.0f;
 							}
 						}
@@ -488,10 +492,10 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 						{
 							for ( j = 0; j < 4; j++ )
 							{
-								pParam->pValue( i*4 + j )[0][0] = matCPx[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][1] = matCPy[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][2] = matCPz[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][3] = rational ? matCPh[ i ][ j ] : 1.0f;
+								pParam->pValue( i*4 + j )[a][0] = matCPx[ i ][ j ];
+								pParam->pValue( i*4 + j )[a][1] = matCPy[ i ][ j ];
+								pParam->pValue( i*4 + j )[a][2] = matCPz[ i ][ j ];
+								pParam->pValue( i*4 + j )[a][3] = rational ? matCPh[ i ][ j ] : 1.0f;
 							}
 						}
 					}
@@ -508,9 +512,9 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 						{
 							for ( j = 0; j < 4; j++ )
 							{
-								matRed[ i ][ j ] = pParam->pValue( i*4 + j )[0][0];
-								matGreen[ i ][ j ] = pParam->pValue( i*4 + j )[0][1];
-								matBlue[ i ][ j ] = pParam->pValue( i*4 + j )[0][2];
+								matRed[ i ][ j ] = pParam->pValue( i*4 + j )[a][0];
+								matGreen[ i ][ j ] = pParam->pValue( i*4 + j )[a][1];
+								matBlue[ i ][ j ] = pParam->pValue( i*4 + j )[a][2];
 							}
 						}
 						matRed.SetfIdentity( false );
@@ -525,9 +529,9 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 						{
 							for ( j = 0; j < 4; j++ )
 							{
-								pParam->pValue( i*4 + j )[0][0] = matRed[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][1] = matGreen[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][2] = matBlue[ i ][ j ];
+								pParam->pValue( i*4 + j )[a][0] = matRed[ i ][ j ];
+								pParam->pValue( i*4 + j )[a][1] = matGreen[ i ][ j ];
+								pParam->pValue( i*4 + j )[a][2] = matBlue[ i ][ j ];
 							}
 						}
 					}
@@ -543,7 +547,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 						for ( i = 0; i < 4; i++ )
 						{
 							for ( j = 0; j < 4; j++ )
-								matCPx[ i ][ j ] = pParam->pValue( i*4 + j )[0];
+								matCPx[ i ][ j ] = pParam->pValue( i*4 + j )[a];
 						}
 						matCPx.SetfIdentity( false );
 						matCPx = matuConv.Transpose() * matCPx * matvConv;
@@ -551,7 +555,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 						for ( i = 0; i < 4; i++ )
 						{
 							for ( j = 0; j < 4; j++ )
-								pParam->pValue( i*4 + j )[0] = matCPx[ i ][ j ];
+								pParam->pValue( i*4 + j )[a] = matCPx[ i ][ j ];
 						}
 					}
 					break;
diff --git a/libs/core/parameters.h b/libs/core/parameters.h
index 2ee6730..cd1dc88 100644
--- a/libs/core/parameters.h
+++ b/libs/core/parameters.h
@@ -1245,6 +1245,13 @@ class CqParameterTypedVertexArray : public CqParameterTypedVaryingArray<T, I, SL
 		{
 			return ( class_vertex );
 		}
+		virtual void	Subdivide( CqParameter* pResult1, CqParameter* pResult2, bool u, IqSurface* pSurface = 0 )
+		{
+			assert( pResult1->Type() == this->Type() && pResult1->Type() == this->Type() &&
+			        pResult1->Class() == Class() && pResult1->Class() == Class() );
+			assert( NULL != pSurface );
+			pSurface->NaturalSubdivide( this, pResult1, pResult2, u );
+		}
 		virtual	void	Dice( TqInt u, TqInt v, IqShaderData* pResult, IqSurface* pSurface = 0 )
 		{
 			// Just promote the uniform value to varying by duplication.
-- 
2.43.0


From 31e939c6ad813bc0b1dbdd23a72935208143b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:46 +0000
Subject: [PATCH 28/32] fix: elements of array variables lost or left in object
 space

Constant and uniform arrays kept only their first element when a mesh was taken
apart, and only the first elements of arrays of points, vectors and normals were
transformed.
---
 libs/core/geometry/surface.cpp |  8 ++++----
 libs/core/parameters.h         | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/libs/core/geometry/surface.cpp b/libs/core/geometry/surface.cpp
index 2139179..71531f8 100644
--- a/libs/core/geometry/surface.cpp
+++ b/libs/core/geometry/surface.cpp
@@ -633,28 +633,28 @@ void	CqSurface::Transform( const CqMatrix& matTx, const CqMatrix& matITTx, const
 		if ( ( *iUP ) ->Type() == type_point )
 		{
 			CqParameterTyped<CqVector3D, CqVector3D>* pTPV = static_cast<CqParameterTyped<CqVector3D, CqVector3D>*>( ( *iUP ) );
-			TqInt size = ( *iUP ) ->Size();
+			TqInt size = ( *iUP ) ->Size() * ( *iUP ) ->Count();
 			for ( i = 0; i < size; i++ )
 				pTPV->pValue() [ i ] = matTx * pTPV->pValue() [ i ];
 		}
 		else if ( ( *iUP ) ->Type() == type_normal )
 		{
 			CqParameterTyped<CqVector3D, CqVector3D>* pTPV = static_cast<CqParameterTyped<CqVector3D, CqVector3D>*>( ( *iUP ) );
-			TqInt size = ( *iUP ) ->Size();
+			TqInt size = ( *iUP ) ->Size() * ( *iUP ) ->Count();
 			for ( i = 0; i < size; i++ )
 				pTPV->pValue() [ i ] = matITTx * pTPV->pValue() [ i ];
 		}
 		if ( ( *iUP ) ->Type() == type_vector )
 		{
 			CqParameterTyped<CqVector3D, CqVector3D>* pTPV = static_cast<CqParameterTyped<CqVector3D, CqVector3D>*>( ( *iUP ) );
-			TqInt size = ( *iUP ) ->Size();
+			TqInt size = ( *iUP ) ->Size() * ( *iUP ) ->Count();
 			for ( i = 0; i < size; i++ )
 				pTPV->pValue() [ i ] = matRTx * pTPV->pValue() [ i ];
 		}
 		if ( ( *iUP ) ->Type() == type_hpoint )
 		{
 			CqParameterTyped<CqVector4D, CqVector3D>* pTPV = static_cast<CqParameterTyped<CqVector4D, CqVector3D>*>( ( *iUP ) );
-			TqInt size = ( *iUP ) ->Size();
+			TqInt size = ( *iUP ) ->Size() * ( *iUP ) ->Count();
 			for ( i = 0; i < size; i++ )
 				pTPV->pValue() [ i ] = matTx * pTPV->pValue() [ i ];
 		}
diff --git a/libs/core/parameters.h b/libs/core/parameters.h
index cd1dc88..9c395bc 100644
--- a/libs/core/parameters.h
+++ b/libs/core/parameters.h
@@ -1053,6 +1053,18 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 			return ( &m_aValues[ 0 ] );
 		}
 
+		virtual	void	SetValue(const CqParameter* pFrom, TqInt idxTarget, TqInt idxSource )
+		{
+			assert( pFrom->Type() == this->Type() );
+			assert( pFrom->Count() == this->Count() );
+
+			const CqParameterTyped<T, SLT>* pFromTyped = static_cast<const CqParameterTyped<T, SLT>*>( pFrom );
+			T* pTargetValues = pValue( idxTarget );
+			const T* pSourceValues = pFromTyped->pValue( idxSource );
+			for(TqInt index = 0; index < this->Count(); index++ )
+				pTargetValues[ index ] = pSourceValues[ index ];
+		}
+
 		/** Assignment operator.
 		 */
 		CqParameterTypedUniformArray<T, I, SLT>& operator=( const CqParameterTypedUniformArray<T, I, SLT>& From )
@@ -1190,6 +1202,18 @@ class CqParameterTypedConstantArray : public CqParameterTyped<T, SLT>
 			return ( &m_aValues[ 0 ] );
 		}
 
+		virtual	void	SetValue(const CqParameter* pFrom, TqInt idxTarget, TqInt idxSource )
+		{
+			assert( pFrom->Type() == this->Type() );
+			assert( pFrom->Count() == this->Count() );
+
+			const CqParameterTyped<T, SLT>* pFromTyped = static_cast<const CqParameterTyped<T, SLT>*>( pFrom );
+			T* pTargetValues = pValue( idxTarget );
+			const T* pSourceValues = pFromTyped->pValue( idxSource );
+			for(TqInt index = 0; index < this->Count(); index++ )
+				pTargetValues[ index ] = pSourceValues[ index ];
+		}
+
 		/** Assignment operator.
 		 */
 		CqParameterTypedConstantArray<T, I, SLT>& operator=( const CqParameterTypedUniformArray<T, I, SLT>& From )
-- 
2.43.0


From 0cf478a696c4846dbaa371d023c47e744121d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 29/32] fix: undiceable NURBS surfaces were split twice along u

When the split direction was v, the geometry was split along u and the
variables along v; the halves were then split along u again.
---
 libs/core/geometry/nurbs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/geometry/nurbs.cpp b/libs/core/geometry/nurbs.cpp
index 98e58ba..2bc56cc 100644
--- a/libs/core/geometry/nurbs.cpp
+++ b/libs/core/geometry/nurbs.cpp
@@ -1593,7 +1593,7 @@ TqInt CqSurfaceNURBS::Split( std::vector<boost::shared_ptr<CqSurface> >& aSplits
 
 	// If this primitive is being split because it spans the e and hither planes, then
 	// we should split in both directions to ensure we overcome the crossing.
-	SplitNURBS( *pNew1, *pNew2, m_SplitDir == SplitDir_U || !m_fDiceable );
+	SplitNURBS( *pNew1, *pNew2, m_SplitDir == SplitDir_U );
 
 	std::vector<CqParameter*>::iterator iUP;
 	for ( iUP = m_aUserParams.begin(); iUP != m_aUserParams.end(); iUP++ )
-- 
2.43.0


From 74601f05b9a334a28eab9bcf8d8f1f7b6353cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 30/32] fix: rational NURBS surfaces were evaluated as if all
 weights were equal

Sums of homogeneous control points project each point first, so the
weights had no effect on the shape.
---
 libs/core/geometry/nurbs.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/libs/core/geometry/nurbs.h b/libs/core/geometry/nurbs.h
index 0cdc65e..f145b6e 100644
--- a/libs/core/geometry/nurbs.h
+++ b/libs/core/geometry/nurbs.h
@@ -253,18 +253,42 @@ class CqSurfaceNURBS : public CqSurface
 			TqUint uind = uspan - uDegree();
 
 			T S = T();
+			zeroSum( S );
 			TqUint l, k;
 			for ( l = 0; l <= vDegree(); l++ )
 			{
 				T temp = T();
+				zeroSum( temp );
 				TqUint vind = vspan - vDegree() + l;
 				for ( k = 0; k <= uDegree(); k++ )
-					temp = static_cast<T>( temp + Nu[ k ] * ( pParam->pValue( ( vind * m_cuVerts ) + uind + k )[arrayIndex] ) );
-				S = static_cast<T>( S + Nv[ l ] * temp );
+					addWeighted( temp, Nu[ k ], pParam->pValue( ( vind * m_cuVerts ) + uind + k )[arrayIndex] );
+				addWeighted( S, Nv[ l ], temp );
 			}
 			return ( S );
 		}
 
+		/** Start and extend a weighted sum of control values. The sum of
+		 *  homogeneous points is taken over all four coordinates, so that
+		 *  the weights of a rational surface are kept.
+		 */
+		template <class T>
+		static void	zeroSum( T& )
+		{}
+		static void	zeroSum( CqVector4D& sum )
+		{
+			sum = CqVector4D( 0.0f, 0.0f, 0.0f, 0.0f );
+		}
+		template <class T>
+		static void	addWeighted( T& sum, TqFloat w, const T& val )
+		{
+			sum = static_cast<T>( sum + w * val );
+		}
+		static void	addWeighted( CqVector4D& sum, TqFloat w, const CqVector4D& val )
+		{
+			sum = CqVector4D( sum.x() + w * val.x(), sum.y() + w * val.y(),
+			                  sum.z() + w * val.z(), sum.h() + w * val.h() );
+		}
+
 		CqVector4D	EvaluateWithNormal( TqFloat u, TqFloat v, CqVector4D& P );
 		void	SplitNURBS( CqSurfaceNURBS& nrbA, CqSurfaceNURBS& nrbB, bool dirflag );
 		void	SubdivideSegments( std::vector<boost::shared_ptr<CqSurfaceNURBS> >& Array );
-- 
2.43.0


From 373cf25850bab4437afcae86c44b0eccdf1e2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:34 +0000
Subject: [PATCH 31/32] fix: a polygon with an invalid index garbled all
 following polygons of its mesh

The indices following the invalid one were taken for those of the next
faces.
---
 libs/core/geometry/polygon.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/core/geometry/polygon.cpp b/libs/core/geometry/polygon.cpp
index 3da1f3b..047da93 100644
--- a/libs/core/geometry/polygon.cpp
+++ b/libs/core/geometry/polygon.cpp
@@ -556,6 +556,8 @@ TqInt CqSurfacePointsPolygons::Split( std::vector<boost::shared_ptr<CqSurface> >
 			pSurface->aIndices() [ i ] = m_PointIndices[ iP ];
 			iP++;
 		}
+		// Step over the rest of a face which was given up.
+		iP += m_PointCounts[ poly ] - i;
 		if ( fValid )
 		{
 			aSplits.push_back( pSurface );
-- 
2.43.0


From 7685bbe66df9487923d3e1263bf26f98559f7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:14 +0000
Subject: [PATCH 32/32] fix: uniform array variables kept the values of one
 face only

---
 libs/core/parameters.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/libs/core/parameters.h b/libs/core/parameters.h
index 9c395bc..c9d804a 100644
--- a/libs/core/parameters.h
+++ b/libs/core/parameters.h
@@ -950,18 +950,16 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 {
 	public:
 		CqParameterTypedUniformArray( const char* strName, TqInt Count = 1 ) :
-				CqParameterTyped<T, SLT>( strName, Count )
+				CqParameterTyped<T, SLT>( strName, Count ),
+				m_size( 1 )
 		{
 			m_aValues.resize( Count );
 		}
 		CqParameterTypedUniformArray( const CqParameterTypedUniformArray<T, I, SLT>& From ) :
-				CqParameterTyped<T, SLT>( From )
-		{
-			m_aValues.resize( From.m_Count );
-			TqUint i;
-			for ( i = 0; i < (TqUint)From.m_Count; i++ )
-				m_aValues[ i ] = From.m_aValues[ i ];
-		}
+				CqParameterTyped<T, SLT>( From ),
+				m_aValues( From.m_aValues ),
+				m_size( From.m_size )
+		{}
 		virtual	~CqParameterTypedUniformArray()
 	{}
 
@@ -982,10 +980,13 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 			return ( I );
 		}
 		virtual	void	SetSize( TqInt size )
-		{}
+		{
+			m_size = size;
+			m_aValues.resize( m_size*this->m_Count );
+		}
 		virtual	TqUint	Size() const
 		{
-			return ( 1 );
+			return ( m_size );
 		}
 		virtual	void	Clear()
 		{}
@@ -1044,13 +1045,13 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 		}
 		virtual	const	T*	pValue( const TqInt Index ) const
 		{
-			assert( 0 < m_aValues.size() );
-			return ( &m_aValues[ 0 ] );
+			assert( Index < static_cast<TqInt>( m_size ) );
+			return ( &m_aValues[ Index*this->m_Count ] );
 		}
 		virtual	T*	pValue( const TqInt Index )
 		{
-			assert( 0 < m_aValues.size() );
-			return ( &m_aValues[ 0 ] );
+			assert( Index < static_cast<TqInt>( m_size ) );
+			return ( &m_aValues[ Index*this->m_Count ] );
 		}
 
 		virtual	void	SetValue(const CqParameter* pFrom, TqInt idxTarget, TqInt idxSource )
@@ -1073,6 +1074,7 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 			TqInt i2 = 0;
 			for (typename  std::vector<T>::iterator i = From.m_aValues.begin(); i != From.m_aValues.end(); i++, i2++ )
 				m_aValues[ i2 ] = ( *i );
+			m_size = From.m_size;
 			return ( *this );
 		}
 
@@ -1085,7 +1087,8 @@ class CqParameterTypedUniformArray : public CqParameterTyped<T, SLT>
 			return ( new CqParameterTypedUniformArray<T, I, SLT>( strName, Count ) );
 		}
 	private:
-		std::vector<T>	m_aValues;	///< Array of uniform values.
+		std::vector<T>	m_aValues;	///< Arrays of uniform values, one after another.
+		TqUint			m_size;		///< Number of arrays.
 }
 ;
 
-- 
2.43.0

