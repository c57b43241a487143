From 1063c43392a5fba11f2787f399cc365954136049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 001/106] fix: arithmetic encoder: test the index before
 reading when trimming trailing zeros

---
 source/Spiht/src/ArithEnc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Spiht/src/ArithEnc.cpp b/source/Spiht/src/ArithEnc.cpp
index 9eae9eb..0ef911e 100644
--- a/source/Spiht/src/ArithEnc.cpp
+++ b/source/Spiht/src/ArithEnc.cpp
@@ -121,7 +121,7 @@ void ArithEnc::encode(std::vector<unsigned char> &instream, std::vector<int> &co
 
   // cut off unnecessary zeros at end
   int index_end = (int)outstream.size() - 1;
-  while (outstream.at(index_end) == 0 && index_end >= 0) {
+  while (index_end >= 0 && outstream.at(index_end) == 0) {
     index_end--;
   }
   outstream.resize(index_end + 1);
-- 
2.43.0


From 17164eef643692a14e67e0dc7e2a637c1b344f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 002/106] fix: round to the nearest code when quantising
 floats, so that decoded values are stable when written again

---
 source/IOHaptics/include/IOBinaryPrimitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 6f94023..822d2f0 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -114,7 +114,7 @@ public:
     auto normalizedValue = (value - minValue) / (maxValue - minValue);
     normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
     auto maxIntValue = static_cast<T>(std::pow(2, bitCount) - 1);
-    auto intValue = static_cast<T>((double)(normalizedValue)*maxIntValue);
+    auto intValue = static_cast<T>(std::round((double)(normalizedValue)*maxIntValue));
     writeNBits<T, bitCount>(intValue, output);
   }
 
-- 
2.43.0


From c5a963342a6ec166a97acb5b823c4f003049d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 003/106] fix: writeString: write as many bytes as the length
 field says

---
 source/IOHaptics/src/IOBinaryPrimitives.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryPrimitives.cpp b/source/IOHaptics/src/IOBinaryPrimitives.cpp
index 2d6c14b..e8499ac 100644
--- a/source/IOHaptics/src/IOBinaryPrimitives.cpp
+++ b/source/IOHaptics/src/IOBinaryPrimitives.cpp
@@ -54,7 +54,7 @@ auto IOBinaryPrimitives::writeVector(const haptics::types::Vector &vector,
 auto IOBinaryPrimitives::writeString(const std::string &text, std::vector<bool> &output) -> void {
   auto stringSize = static_cast<uint8_t>(text.size() > UINT8_MAX ? UINT8_MAX : text.size());
   writeNBits<uint8_t, BYTE_SIZE>(stringSize, output);
-  for (auto byte : text) {
+  for (auto byte : text.substr(0, stringSize)) {
     for (uint8_t j = 0; j < BYTE_SIZE; j++) {
       output.push_back(((byte >> (BYTE_SIZE - j - 1)) & 1U) == 1);
     }
-- 
2.43.0


From e7b5eaa34bc4695557bbbd8c6338e6f78ee16381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 004/106] fix: interpolation: produce the last sample when the
 last two control points are one sample apart

---
 source/Tools/src/Tools.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 08e1097..65d8633 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -97,7 +97,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (t <= points.back().first && i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -117,7 +117,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (t <= points.back().first && i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -183,7 +183,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> output;
   double t = 0;
   int i = 0;
-  while (t < x.back()) {
+  while (t <= x.back() && i + 1 < static_cast<int>(x.size())) {
     double delta = t - x[i];
     while (t <= x[i + 1]) {
       double amp = a[i] + b[i] * delta + c[i] * std::pow(delta, 2) + d[i] * std::pow(delta, 3);
@@ -396,7 +396,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   int i = 0;
   double amp = 0;
 
-  while (t < points.back().first) {
+  while (t <= points.back().first && i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
-- 
2.43.0


From a56ea8cedf8917ae38746c6c0703f667d7821e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 005/106] fix: cubicInterpolation: evaluate the spline at each
 sample, not once per segment

---
 source/Tools/src/Tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 65d8633..7315193 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -184,8 +184,8 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   double t = 0;
   int i = 0;
   while (t <= x.back() && i + 1 < static_cast<int>(x.size())) {
-    double delta = t - x[i];
     while (t <= x[i + 1]) {
+      double delta = t - x[i];
       double amp = a[i] + b[i] * delta + c[i] * std::pow(delta, 2) + d[i] * std::pow(delta, 3);
       output.push_back(amp);
       t += 1;
-- 
2.43.0


From 01f7e66d7c409b1e76cc8125b953ae31fd80dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 006/106] fix: replacing the metadata of a perception, channel
 or band takes over its avatar and priority

---
 source/Types/src/Channel.cpp    | 3 +++
 source/Types/src/Haptics.cpp    | 5 ++++-
 source/Types/src/Perception.cpp | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index b207ef8..db69f3e 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -96,6 +96,9 @@ auto Channel::replaceBandMetadataAt(int index, haptics::types::Band &newBand) ->
     return false;
   }
   bands[index].setBandType(newBand.getBandType());
+  if (newBand.getPriority().has_value()) {
+    bands[index].setPriority(newBand.getPriority().value());
+  }
   if (bands[index].getBandType() == BandType::Curve) {
     bands[index].setCurveType(newBand.getCurveTypeOrDefault());
   }
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index c291d0f..b389cc3 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -75,9 +75,12 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
     return false;
   }
   perceptions[index].setId(newPerception.getId());
-  perceptions[index].setAvatarId(newPerception.getId());
+  perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
+  if (newPerception.getPriority().has_value()) {
+    perceptions[index].setPriority(newPerception.getPriority().value());
+  }
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 1da1137..a6accae 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -125,6 +125,9 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
   channels[index].setId(newChannel.getId());
   auto desc = newChannel.getDescription();
   channels[index].setDescription(desc);
+  if (newChannel.getPriority().has_value()) {
+    channels[index].setPriority(newChannel.getPriority().value());
+  }
   channels[index].setGain(newChannel.getGain());
   channels[index].setMixingWeight(newChannel.getMixingWeight());
   channels[index].setBodyPartMask(newChannel.getBodyPartMask());
-- 
2.43.0


From d379e692e895c4f9608ba5c141944b08c862ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 007/106] fix: getEffectTimeLength: an effect none of whose
 keyframes has a position has no length

---
 source/Types/src/Effect.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 20277af..5dfe04c 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -408,6 +408,9 @@ auto Effect::getEffectTimeLength(types::BandType bandType, double transientDurat
   auto lastKeyframe =
       std::find_if(keyframes.rbegin(), keyframes.rend(),
                    [](haptics::types::Keyframe k) { return k.getRelativePosition().has_value(); });
+  if (lastKeyframe == keyframes.rend()) {
+    return 0;
+  }
   switch (bandType) {
   case types::BandType::Transient:
     return lastKeyframe->getRelativePosition().has_value()
-- 
2.43.0


From eb352207162e6567a37852411b990ec0f4f97938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 008/106] fix: CRC: protect single packets, check packets in
 the order they were protected, and end the group after the check

---
 source/IOHaptics/src/IOStream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 333c926..b482ba8 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2273,7 +2273,7 @@ auto IOStream::writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<b
 
   std::vector<bool> quotient = std::vector<bool>();
   int nbPackets = 0;
-  if (bitstream.empty()) {
+  if (bitstream.size() == 1) {
     quotient = bitstream[0];
     nbPackets++;
   } else if (bitstream.size() > 1) {
@@ -2332,10 +2332,11 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
     return false;
   }
   int index = 0;
-  while (crc.nbPackets-- > 0) {
-    protectedPackets.insert(protectedPackets.begin(), bitstream[index].begin(),
+  while (crc.nbPackets > 0) {
+    protectedPackets.insert(protectedPackets.end(), bitstream[index].begin(),
                             bitstream[index].end());
     index++;
+    crc.nbPackets--;
   }
   bool res = false;
   if (crc.value16 > 0) {
-- 
2.43.0


From ff79db240daf85678e208262819e30c46a05b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 009/106] fix: CRC: a check code of zero is a check code

---
 source/IOHaptics/include/IOStream.h | 1 +
 source/IOHaptics/src/IOStream.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index b545703..5bc2933 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -82,6 +82,7 @@ public:
     uint16_t polynomial16 = CRC16_POLYNOMIAL;
     uint32_t polynomial32 = CRC32_POLYNOMIAL;
     uint8_t nbPackets = 0;
+    bool is32Bits = false;
     uint16_t value16 = 0;
     uint32_t value32 = 0;
   };
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b482ba8..5216b89 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2300,24 +2300,28 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
     -> bool {
   int idx = 0;
   if (mihsPacketType == MIHSPacketType::CRC16) {
+    crc.is32Bits = false;
     crc.nbPackets = 1;
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::CRC32) {
+    crc.is32Bits = true;
     crc.nbPackets = 1;
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC16) {
+    crc.is32Bits = false;
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC32) {
+    crc.is32Bits = true;
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
@@ -2339,7 +2343,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
     crc.nbPackets--;
   }
   bool res = false;
-  if (crc.value16 > 0) {
+  if (!crc.is32Bits) {
     std::bitset<CRC16_NB_BITS> polynomialBits(crc.polynomial16);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
@@ -2354,7 +2358,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
       crc.value16 = 0;
       res = false;
     }
-  } else if (crc.value32 > 0) {
+  } else {
     std::bitset<CRC32_NB_BITS> polynomialBits(crc.polynomial32);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
-- 
2.43.0


From 5729af7fd09483d09bf1adc92bc2af646af8a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 010/106] fix: library effects: write the effects of a
 timeline, not the enclosing effect again

---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 628c2f7..f54181d 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -365,7 +365,7 @@ auto IOBinary::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
   types::Effect timelineEffect;
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
     timelineEffect = libraryEffect.getTimelineEffectAt(i);
-    writeLibraryEffect(libraryEffect, output);
+    writeLibraryEffect(timelineEffect, output);
   }
   return true;
 }
-- 
2.43.0


From 626a2fadd210d2ee3b56e9eeddf7ed9e8814489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 011/106] fix: composite effects: write the effects of the
 timeline, not the enclosing effect again

---
 source/IOHaptics/src/IOBinaryBands.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 92e2821..4166c98 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -463,23 +463,23 @@ auto IOBinaryBands::writeTimelineEffect(types::Effect &effect, types::Band &band
     auto position = static_cast<uint32_t>(timelineEffect.getPosition());
     IOBinaryPrimitives::writeNBits<uint32_t, EFFECT_POSITION>(position, output);
 
-    if (effect.getEffectType() == types::EffectType::Reference) {
-      writeReferenceEffect(effect, output);
-    } else if (effect.getEffectType() == types::EffectType::Composite) {
-      writeTimelineEffect(effect, band, output);
+    if (timelineEffect.getEffectType() == types::EffectType::Reference) {
+      writeReferenceEffect(timelineEffect, output);
+    } else if (timelineEffect.getEffectType() == types::EffectType::Composite) {
+      writeTimelineEffect(timelineEffect, band, output);
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-        IOBinaryBands::writeTransientEffect(effect, output);
+        IOBinaryBands::writeTransientEffect(timelineEffect, output);
         break;
       case types::BandType::Curve:
-        IOBinaryBands::writeCurveEffect(effect, output);
+        IOBinaryBands::writeCurveEffect(timelineEffect, output);
         break;
       case types::BandType::VectorialWave:
-        IOBinaryBands::writeVectorialEffect(effect, output);
+        IOBinaryBands::writeVectorialEffect(timelineEffect, output);
         break;
       case types::BandType::WaveletWave:
-        IOBinaryBands::writeWaveletEffect(effect, output);
+        IOBinaryBands::writeWaveletEffect(timelineEffect, output);
         break;
       default:
         return false;
-- 
2.43.0


From 31872ee13332fb5d0a1cc9d41a0b8248b73c4e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 012/106] fix: HMPG channels: the reserved device id means no
 reference device

---
 source/IOHaptics/src/IOBinary.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index f54181d..b01f442 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -596,8 +596,10 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
     t.setId(IOBinaryPrimitives::readNBits<short, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
-    t.setReferenceDeviceId(
-        IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits));
+    auto deviceId = IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits);
+    if (deviceId < REFDEV_MAX_ID) {
+      t.setReferenceDeviceId(deviceId);
+    }
     t.setGain(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_GAIN>(file, -MAX_FLOAT,
                                                                            MAX_FLOAT, unusedBits));
     t.setMixingWeight(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_MIXING_WEIGHT>(
-- 
2.43.0


From 8672caa7c090060a5ad619f84fd21d09e9c92fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 013/106] fix: vectorial keyframes without a position are
 written at 0

---
 source/IOHaptics/src/IOBinaryBands.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 4166c98..5e46aef 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -345,7 +345,7 @@ auto IOBinaryBands::writeVectorialEffect(types::Effect &effect, std::vector<bool
       IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
           amplitude, output, -MAX_AMPLITUDE, MAX_AMPLITUDE);
     }
-    auto position = static_cast<uint16_t>(myKeyframe.getRelativePosition().value() *
+    auto position = static_cast<uint16_t>(myKeyframe.getRelativePosition().value_or(0) *
                                           1); // TODO: convert from MS to ticks
     IOBinaryPrimitives::writeNBits<uint16_t, KEYFRAME_POSITION>(position, output);
 
-- 
2.43.0


From 70f5c76c38bbb7cf300f22363cf96065350f5775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 014/106] fix: HMPG wavelet blocks: the block length is in
 ticks already, place block n at n block lengths

---
 source/IOHaptics/src/IOBinaryBands.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 5e46aef..c697014 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -108,7 +108,7 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
 }
 
 auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
-                                 std::vector<bool> &unusedBits, const unsigned int timescale)
+                                 std::vector<bool> &unusedBits, const unsigned int /*timescale*/)
     -> bool {
   for (int effectIndex = 0; effectIndex < static_cast<int>(band.getEffectsSize()); effectIndex++) {
     auto myEffect = band.getEffectAt(effectIndex);
@@ -118,8 +118,7 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
-      position = effectIndex * band.getBlockLengthOrDefault() * static_cast<int>(timescale) /
-                 band.getUpperFrequencyLimit();
+      position = effectIndex * band.getBlockLengthOrDefault();
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
-- 
2.43.0


From fd5f714d9285eaef87e2c08d953faae6bdd261b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 015/106] fix: HMPG wavelet bands: the length of a block in
 ticks may be truncated, look for the nearest power of two

---
 source/IOHaptics/src/IOBinaryBands.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index c697014..1aeeae5 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -87,8 +87,8 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto bl_ticks = band.getBlockLength().value();
     auto blockLength_samples =
-        (int)((double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit());
-    auto blockLength_code = (int)log2(blockLength_samples) - 4;
+        (double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit();
+    auto blockLength_code = (int)round(log2(blockLength_samples)) - 4;
     if (blockLength_code < 0) {
       std::cerr << "wavelet blocklength too small" << std::endl;
     }
-- 
2.43.0


From 36a3ac8264be4c40578cef61a5bcbcbdccd1a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 016/106] fix: HMPG channels: ids use all 16 bits

---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index b01f442..8bc2f7e 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -593,7 +593,7 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
   // for each channel
   for (unsigned short i = 0; i < channelCount; i++) {
     types::Channel t;
-    t.setId(IOBinaryPrimitives::readNBits<short, MDCHANNEL_ID>(file, unusedBits));
+    t.setId(IOBinaryPrimitives::readNBits<uint16_t, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
     auto deviceId = IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits);
-- 
2.43.0


From 9e85928b0b4095c02de302611fa911f4d980fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 017/106] fix: HJIF: a perception may name its semantic scheme,
 refuse it only when it is not a URN

---
 source/IOHaptics/src/IOJson.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index d0b2604..fb54229 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -279,9 +279,9 @@ auto IOJson::semanticConformanceCheckPerception(types::Perception &perception,
   }
 
   // Check the URN
-  // TODO
+  const std::regex urn_regex("^[uU][rR][nN]:[A-Za-z0-9][A-Za-z0-9-]{0,30}[A-Za-z0-9]:.+$");
   auto semanticSchemeURN = perception.getEffectSemanticScheme();
-  if (semanticSchemeURN) {
+  if (semanticSchemeURN && !std::regex_match(*semanticSchemeURN, urn_regex)) {
     std::cerr << "The semantic scheme URN of perception " << id << " is invalid." << std::endl;
     conformant = false;
   }
-- 
2.43.0


From 727201114540708eeba24ba979e04ede2d7456c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 018/106] fix: HJIF wavelet payloads: keep trailing zero bytes,
 and do not read before the first bit of a payload of zeros

---
 source/IOHaptics/src/IOJson.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index fb54229..6bc418c 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1691,13 +1691,6 @@ auto IOJson::bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned cha
       index++;
     }
   }
-  if (!out.empty()) {
-    int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
-      index_end--;
-    }
-    out.resize(index_end + 1);
-  }
 }
 
 auto IOJson::bits2bytes(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void {
@@ -1747,12 +1740,9 @@ auto IOJson::base642bits(std::vector<unsigned char> &in, std::vector<unsigned ch
       compare = compare >> 1;
     }
   }
-  if (!out.empty()) {
-    int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
-      index_end--;
-    }
-    out.resize(index_end + 1);
+  // drop the padding of the last character, but no whole byte
+  while (out.size() % BYTE_SIZE_IO != 0 && out.back() == 0) {
+    out.pop_back();
   }
 }
 
@@ -1782,7 +1772,7 @@ auto IOJson::bits2base64(std::vector<unsigned char> &in, std::vector<unsigned ch
       temp = 0;
     }
   }
-  if (temp > 0) {
+  if (compare != COMPARE_START) {
     if (BASE64_UPPER_1 <= temp && temp <= BASE64_UPPER_2) {
       temp += DIFF_UPPER;
     } else if (BASE64_LOWER_1 <= temp && temp <= BASE64_LOWER_2) {
-- 
2.43.0


From 4c12ae23d0a23294a4aacecd422e0e2654678883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 019/106] fix: HJIF: a level above 255 is not a valid level

---
 source/IOHaptics/src/IOJson.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 6bc418c..dd1d995 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -649,7 +649,8 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
 
   auto version = std::string(jsonTree["version"].GetString());
   auto profile = std::string(jsonTree["profile"].GetString());
-  auto level = static_cast<uint8_t>(jsonTree["level"].GetUint());
+  // levels that do not fit must not wrap around to a valid one
+  auto level = static_cast<uint8_t>(std::min(jsonTree["level"].GetUint(), 255U));
   auto date = std::string(jsonTree["date"].GetString());
   auto description = std::string(jsonTree["description"].GetString());
   haptic.setVersion(version);
-- 
2.43.0


From 8c9dbc1f76cbadbbd99ac321b7fc5ae417494c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 020/106] fix: isPowerOfTwo: a negative number is not a power
 of two

---
 source/Tools/src/Tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 7315193..fd22e4c 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -433,6 +433,6 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   return !s.empty() && it == s.end();
 }
 
-[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n != 0) && ((n & (n - 1)) == 0); }
+[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n > 0) && ((n & (n - 1)) == 0); }
 
 } // namespace haptics::tools
-- 
2.43.0


From 657b711ef77f3152e2c460c74e3ce8fceccc3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 021/106] fix: HJIF: check the semantic keywords of library
 effects too

---
 source/IOHaptics/src/IOJson.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index dd1d995..0b3d030 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -585,6 +585,19 @@ auto IOJson::semanticConformanceCheckLibraryEffect(types::Effect &effect,
               << " is not unique." << std::endl;
     conformant = false;
   }
+
+  // check semantic
+  auto semantic = effect.getSemantic();
+  if (semantic.has_value()) {
+    if ((!perception.getEffectSemanticScheme().has_value() ||
+         perception.getEffectSemanticScheme().value() ==
+             "urn:mpeg:mpegi:haptics:effectsemantic:2023") &&
+        types::stringToEffectSemantic.count(semantic.value()) == 0) {
+      std::cerr << "Library effect " << id << " in perception " << perception.getId()
+                << " uses invalid semantic keywords." << std::endl;
+      conformant = false;
+    }
+  }
   return conformant;
 }
 
-- 
2.43.0


From 5439cd9bdd16eaf4c737d45abe11435ea44e574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 022/106] fix: MIHS: do not skip the neighbour of a removed
 empty component

---
 source/IOHaptics/src/IOStream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 5216b89..f98423f 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -623,14 +623,14 @@ auto IOStream::writeAllBands(StreamWriter &swriter, MIHSPacketType mihsPacketTyp
 }
 
 auto IOStream::checkHapticComponent(types::Haptics &haptic) -> void {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
+  // Iterate backwards: removing a component shifts the ones after it
+  for (auto i = static_cast<int>(haptic.getPerceptionsSize()) - 1; i >= 0; i--) {
     types::Perception &perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    for (auto j = static_cast<int>(perception.getChannelsSize()) - 1; j >= 0; j--) {
       types::Channel &channel = perception.getChannelAt(j);
-      std::vector<types::Band> bands = std::vector<types::Band>();
-      for (auto k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
+      for (auto k = static_cast<int>(channel.getBandsSize()) - 1; k >= 0; k--) {
         types::Band &band = channel.getBandAt(k);
-        for (auto l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
+        for (auto l = static_cast<int>(band.getEffectsSize()) - 1; l >= 0; l--) {
           types::Effect &effect = band.getEffectAt(l);
           if (band.getBandType() != types::BandType::WaveletWave &&
               effect.getEffectType() == types::EffectType::Basis &&
-- 
2.43.0


From 8f6671a417cdc8dd102f82dea713ca179a68c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 023/106] fix: MIHS: write a keyframe whose optional values are
 absent

---
 source/IOHaptics/src/IOStream.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index f98423f..383321e 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2459,7 +2459,7 @@ auto IOStream::writeEffectBasis(types::Effect effect, StreamWriter &swriter, int
   int tsFX = effect.getPosition();
   for (auto j = 0; j < static_cast<int>(effect.getKeyframesSize()); j++) {
     types::Keyframe kf = effect.getKeyframeAt(j);
-    int currentTime = kf.getRelativePosition().value() + tsFX;
+    int currentTime = kf.getRelativePosition().value_or(0) + tsFX;
     if (currentTime < swriter.time + static_cast<int>(swriter.packetDuration) &&
         currentTime >= swriter.time) {
       if (firstKf) {
@@ -2532,14 +2532,14 @@ auto IOStream::readKeyframe(std::vector<bool> &bitstream, types::Keyframe &keyfr
 auto IOStream::writeTransient(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
   std::vector<bool> bufBits = std::vector<bool>();
   IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
-      keyframe.getAmplitudeModulation().value(), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
+      keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
 
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bitstream);
 
-  std::bitset<KEYFRAME_FREQUENCY> freqBits(keyframe.getFrequencyModulation().value());
+  std::bitset<KEYFRAME_FREQUENCY> freqBits(keyframe.getFrequencyModulation().value_or(0));
   std::string freqStr = freqBits.to_string();
   IOBinaryPrimitives::writeStrBits(freqStr, bitstream);
   return true;
@@ -2561,9 +2561,9 @@ auto IOStream::readTransient(std::vector<bool> &bitstream, types::Keyframe &keyf
 auto IOStream::writeCurve(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
   std::vector<bool> bufBits = std::vector<bool>();
   IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
-      keyframe.getAmplitudeModulation().value(), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
+      keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bitstream);
   return true;
@@ -2590,7 +2590,7 @@ auto IOStream::writeVectorial(types::Keyframe &keyframe, std::vector<bool> &bits
     bufbitstream.insert(bufbitstream.end(), bufBits.begin(), bufBits.end());
     informationMask |= 0b01;
   }
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bufbitstream);
 
-- 
2.43.0


From d227301a0da4241efe2a33f93073c1cbb75e371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 024/106] fix: MIHS: keep effects that overlap in time, and
 flag a packet dependent if any effect continues

---
 source/IOHaptics/src/IOStream.cpp | 32 +++++++++++--------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 383321e..7447f07 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1973,9 +1973,10 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
 }
 auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  // Exit this function only when 1 packet is full or last keyframes of the band is reached
+  // Collects what every effect has in this packet; returns true once nothing is left after it
+  bool endBand = true;
+  swriter.auType = AUType::RAU;
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
-    bool endEffect = false;
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
       int nextId = 0;
@@ -1990,40 +1991,29 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
     if (effect.getEffectType() == types::EffectType::Basis) {
       int bufKFCount = 0;
       bool isRAU = true;
-      bool endPacket = false;
-      if (writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
-        endEffect = true;
-      } else {
-        endPacket = true;
+      if (!writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
+        endBand = false;
       }
       if (bufKFCount > 0) {
         swriter.keyframesCount.push_back(bufKFCount);
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = isRAU ? AUType::RAU : AUType::DAU;
-      }
-      if (endEffect && i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
-      }
-      if (endPacket) {
-        return false;
+        if (!isRAU) {
+          swriter.auType = AUType::DAU;
+        }
       }
     } else if (effect.getEffectType() == types::EffectType::Reference) {
       if (effect.getPosition() >= swriter.time &&
           effect.getPosition() < swriter.time + static_cast<int>(swriter.packetDuration)) {
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = AUType::RAU;
         swriter.keyframesCount.push_back(0);
-      } else if (effect.getPosition() > swriter.time + static_cast<int>(swriter.packetDuration)) {
-        return false;
-      }
-      if (i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
+      } else if (effect.getPosition() >= swriter.time + static_cast<int>(swriter.packetDuration)) {
+        endBand = false;
       }
     }
   }
-  return true;
+  return endBand;
 }
 
 auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
-- 
2.43.0


From 5f6fb543a45920a7cfd291c72661c73fde6c0a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 025/106] fix: MIHS: write spatial data once per band and in
 the syntax the reader knows

---
 source/IOHaptics/src/IOStream.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 7447f07..0c562ab 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -35,6 +35,7 @@
 #include <IOHaptics/include/IOBinaryFields.h>
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
+#include <limits>
 
 namespace haptics::io {
 
@@ -2136,18 +2137,12 @@ auto IOStream::writePayloadPacket(StreamWriter &swriter,
 
 auto IOStream::writeSpatialData(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  swriter.auType = AUType::RAU;
-  swriter.time = 0;
-
-  std::vector<bool> bandBitstream = writeEffectHeader(swriter);
-  std::bitset<DB_EFFECT_COUNT> fxCountBits(swriter.bandStream.band.getEffectsSize());
-  std::string fxCountStr = fxCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(fxCountStr, bandBitstream);
-
-  IOBinaryBands::writeBandBody(swriter.bandStream.band, bandBitstream);
-  bitstream.push_back(bandBitstream);
-
-  return true;
+  // Spatial data is not split: the whole band fits in the first packet
+  const unsigned int packetDuration = swriter.packetDuration;
+  swriter.packetDuration = std::numeric_limits<int>::max();
+  const bool success = packetizeBand(swriter, bitstream);
+  swriter.packetDuration = packetDuration;
+  return success;
 }
 auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream) -> bool {
 
@@ -2172,15 +2167,14 @@ auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &
         bandStream.id = bandId++;
         bandStream.band = swriter.channel.getBandAt(k);
         swriter.bandStream = bandStream;
+        linearizeTimeline(swriter.bandStream.band);
         if (spatial) {
           writeSpatialData(swriter, bandBitstream);
-          expBitstream.push_back(bandBitstream);
         } else {
-          linearizeTimeline(swriter.bandStream.band);
           packetizeBand(swriter, bandBitstream);
-          expBitstream.push_back(bandBitstream);
-          bandBitstream.clear();
         }
+        expBitstream.push_back(bandBitstream);
+        bandBitstream.clear();
       }
     }
   }
-- 
2.43.0


From 6520cbed0df3f31af3804a056aec4c810b125e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 026/106] fix: MIHS: write every wavelet block, in the unit it
 starts in, and place it by that unit's time

---
 source/IOHaptics/include/IOStream.h |  4 +--
 source/IOHaptics/src/IOStream.cpp   | 43 ++++++++++++++++-------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 5bc2933..d2098ee 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -200,11 +200,11 @@ private:
   static auto writePayloadPacket(StreamWriter &swriter,
                                  std::vector<std::vector<bool>> bufPacketBitstream,
                                  std::vector<bool> &packetBits) -> std::vector<bool>;
-  static auto writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
+  static auto writeWaveletPayloadPacket(types::Effect &effect, std::vector<bool> bufPacketBitstream,
                                         std::vector<bool> &packetBits, StreamWriter &swriter)
       -> std::vector<bool>;
   static auto readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                types::Effect &effect, int &length, unsigned int timescale) -> bool;
+                                types::Effect &effect, int &length, unsigned int time) -> bool;
   static auto writeEffectHeader(StreamWriter &swriter) -> std::vector<bool>;
   static auto writeEffectBasis(types::Effect effect, StreamWriter &swriter, int &kfCount, bool &rau,
                                std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 0c562ab..8315ed5 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1921,12 +1921,15 @@ auto IOStream::packetizeBand(StreamWriter &swriter, std::vector<std::vector<bool
   swriter.time = 0;
   if (swriter.bandStream.band.getBandType() == types::BandType::WaveletWave) {
     createWaveletPayload(swriter, bufPacketBitstream);
-    for (auto &bufpacket : bufPacketBitstream) {
+    for (auto i = 0; i < static_cast<int>(bufPacketBitstream.size()); i++) {
+      auto effect = swriter.bandStream.band.getEffectAt(i);
       swriter.auType = AUType::RAU;
+      // The blocks that start in the same window share a unit
+      swriter.time =
+          effect.getPosition() - effect.getPosition() % static_cast<int>(swriter.packetDuration);
       packetBits = writeEffectHeader(swriter);
-      packetBits = writeWaveletPayloadPacket(bufpacket, packetBits, swriter);
+      packetBits = writeWaveletPayloadPacket(effect, bufPacketBitstream[i], packetBits, swriter);
       bitstreams.push_back(packetBits);
-      swriter.time += static_cast<int>(swriter.bandStream.band.getBlockLengthOrDefault());
     }
   } else {
     while (!createPayloadPacket(swriter, bufPacketBitstream)) {
@@ -1957,18 +1960,11 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
       !swriter.bandStream.band.getBlockLength().has_value()) {
     return false;
   }
-  int nbWaveBlock = static_cast<int>(swriter.packetDuration) /
-                    static_cast<int>(swriter.bandStream.band.getBlockLength().value());
-  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize());
-       i += nbWaveBlock) {
+  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     std::vector<bool> bufbitstream = std::vector<bool>();
     types::Effect bufEffect = swriter.bandStream.band.getEffectAt(i);
     IOBinaryBands::writeWaveletEffect(bufEffect, bufbitstream);
     bitstream.push_back(bufbitstream);
-    int overflow = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - (i + nbWaveBlock);
-    if (overflow < 0) {
-      nbWaveBlock = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - i;
-    }
   }
   return true;
 }
@@ -2040,7 +2036,8 @@ auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
   return packetBits;
 }
 
-auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
+auto IOStream::writeWaveletPayloadPacket(types::Effect &effect,
+                                         std::vector<bool> bufPacketBitstream,
                                          std::vector<bool> &packetBits, StreamWriter &swriter)
     -> std::vector<bool> {
   std::bitset<DB_EFFECT_COUNT> fxCountBits(1);
@@ -2056,13 +2053,13 @@ auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
   std::string effectTypeStr = effectTypeBits.to_string();
   IOBinaryPrimitives::writeStrBits(effectTypeStr, packetBits);
 
-  if (swriter.bandStream.band.getEffectAt(0).getSemantic().has_value()) {
+  if (effect.getSemantic().has_value()) {
     std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(1);
     std::string flagSemanticStr = flagSemanticBits.to_string();
     IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
 
-    types::EffectSemantic semantic = types::stringToEffectSemantic.at(
-        swriter.bandStream.band.getEffectAt(0).getSemantic().value());
+    types::EffectSemantic semantic =
+        types::stringToEffectSemantic.at(effect.getSemantic().value());
     std::bitset<EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2> semanticBits(
         static_cast<int>(semantic));
     std::string semanticStr = semanticBits.to_string();
@@ -2228,7 +2225,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
     } else {
       types::Effect effect;
       IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
-                                  sreader.timescale);
+                                  sreader.time);
       effects.push_back(effect);
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
@@ -2378,7 +2375,7 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
 }
 
 auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                 types::Effect &effect, int &length, const unsigned int timescale)
+                                 types::Effect &effect, int &length, const unsigned int time)
     -> bool {
   int idx = 0;
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
@@ -2397,8 +2394,16 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
     effect.setSemantic(semantic);
   }
 
-  int effectPos = static_cast<int>(timescale) * band.getBlockLength().value() *
-                  static_cast<int>(band.getEffectsSize()) / band.getUpperFrequencyLimit();
+  // Blocks start at multiples of the block length: this is the first one of the unit that is free
+  int effectPos = static_cast<int>(time);
+  const int blockLength = band.getBlockLengthOrDefault();
+  if (blockLength > 0 && effectPos % blockLength != 0) {
+    effectPos += blockLength - effectPos % blockLength;
+  }
+  if (band.getEffectsSize() > 0) {
+    auto lastEffect = band.getEffectAt(static_cast<int>(band.getEffectsSize()) - 1);
+    effectPos = std::max(effectPos, lastEffect.getPosition() + blockLength);
+  }
   effect.setPosition(effectPos);
 
   IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
-- 
2.43.0


From 9ef45877cf2b7d643a33eea0543935141b9f0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 027/106] fix: MIHS: honour the first sync, and those that
 follow one that was missed

---
 source/IOHaptics/src/IOStream.cpp | 47 ++++++++++++++-----------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 8315ed5..0934717 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -140,8 +140,23 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
   writeMIHSUnit(MIHSUnitType::Initialization, initPackets, initUnit, swriter);
   bitstream.push_back(initUnit);
   types::Sync nextSync;
-  int syncIdx = 0;
-  getNextSync(haptic, nextSync, syncIdx);
+  int syncIdx = -1;
+  if (haptic.getSyncsSize() > 0) {
+    syncIdx = 0;
+    nextSync = haptic.getSyncsAt(syncIdx);
+  }
+  // Adds an initialization unit if a sync is due; one that falls inside a unit is given up
+  auto writeSyncUnit = [&]() {
+    while (syncIdx != -1 && nextSync.getTimestamp() < swriter.time) {
+      getNextSync(haptic, nextSync, syncIdx);
+    }
+    if (syncIdx != -1 && nextSync.getTimestamp() == swriter.time) {
+      std::vector<bool> syncUnit = std::vector<bool>();
+      writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
+      getNextSync(haptic, nextSync, syncIdx);
+      bitstream.push_back(syncUnit);
+    }
+  };
 
   std::vector<std::vector<bool>> dataPackets = std::vector<std::vector<bool>>();
   writeMIHSPacket(MIHSPacketType::Data, swriter, dataPackets);
@@ -155,6 +170,7 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
       writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
       if (silentUnit.size() > UNIT_TYPE) {
         bitstream.push_back(silentUnit);
+        writeSyncUnit();
       }
       first = false;
     }
@@ -172,23 +188,13 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
         std::vector<bool> temporalUnit = std::vector<bool>();
         writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
         bitstream.push_back(temporalUnit);
-        if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
-          std::vector<bool> syncUnit = std::vector<bool>();
-          writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-          getNextSync(haptic, nextSync, syncIdx);
-          bitstream.push_back(syncUnit);
-        }
+        writeSyncUnit();
         if (swriter.time != packetTS) {
           std::vector<std::vector<bool>> silentPackets{bufUnit[bufUnit.size() - 1], packet};
           std::vector<bool> silentUnit = std::vector<bool>();
           if (writeMIHSUnit(MIHSUnitType::Silent, silentPackets, silentUnit, swriter)) {
             bitstream.push_back(silentUnit);
-            if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
-              std::vector<bool> syncUnit = std::vector<bool>();
-              writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-              getNextSync(haptic, nextSync, syncIdx);
-              bitstream.push_back(syncUnit);
-            }
+            writeSyncUnit();
           }
         }
         bufUnit.clear();
@@ -201,12 +207,7 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
     writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
     bitstream.push_back(temporalUnit);
     bufUnit.clear();
-    if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
-      std::vector<bool> syncUnit = std::vector<bool>();
-      writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-      getNextSync(haptic, nextSync, syncIdx);
-      bitstream.push_back(syncUnit);
-    }
+    writeSyncUnit();
   }
   silentUnitSyncFlag(bitstream);
   return true;
@@ -2801,12 +2802,6 @@ auto IOStream::getNextSync(types::Haptics &haptic, types::Sync &sync, int &idx)
     idx = -1;
     return false;
   }
-  if (idx == 0 && haptic.getSyncsAt(0).getTimestamp() == 0) {
-    if (haptic.getSyncsSize() == 1) {
-      idx = -1;
-      return false;
-    }
-  }
   sync = haptic.getSyncsAt(++idx);
   return true;
 }
-- 
2.43.0


From 5e41deb50cbbc618d9e28e2d3508d3b6111d4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 028/106] fix: MIHS: write a custom avatar that has no mesh

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 0934717..acc5a6e 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -960,7 +960,7 @@ auto IOStream::writeAvatar(types::Avatar &avatar, std::vector<bool> &bitstream)
   IOBinaryPrimitives::writeStrBits(avatarTypeStr, bitstream);
 
   if (static_cast<int>(avatar.getType()) == 0) {
-    std::string mesh = avatar.getMesh().value();
+    std::string mesh = avatar.getMesh().value_or("");
     std::bitset<AVATAR_MESH_COUNT> avatarMeshCountBits(mesh.size());
     std::string avatarMeshCountStr = avatarMeshCountBits.to_string();
     IOBinaryPrimitives::writeStrBits(avatarMeshCountStr, bitstream);
-- 
2.43.0


From 29ef27e7c1a7e53ed989509e6b68c60174ca7bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 029/106] fix: MIHS: read a unit to its end, report a unit that
 cannot be read, skip dependent packets while waiting

---
 source/IOHaptics/src/IOStream.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index acc5a6e..441281c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -69,7 +69,7 @@ auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) ->
   int index = 0;
   for (auto &packet : bitstream) {
     if (!readMIHSUnit(packet, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     if (crc.nbPackets != 0) {
       if (!checkCRC(bitstream, crc)) {
@@ -257,9 +257,10 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   index += UNIT_RESERVED;
 
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
-  while (index < unitLength) {
+  const int unitEnd = index + unitLength;
+  while (index < unitEnd) {
     if (!readMIHSPacket(packets, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
     packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
@@ -2185,7 +2186,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.auType = static_cast<AUType>(IOBinaryPrimitives::readUInt(bitstream, idx, DB_AU_TYPE));
 
   if (sreader.waitSync && sreader.auType == AUType::DAU) {
-    return false;
+    return true; // skipped until the next independent packet
   }
   if (sreader.waitSync) {
     sreader.waitSync = false;
-- 
2.43.0


From d327d3c15800505ab2301685450e15b5d137cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 030/106] fix: MIHS: look a channel up in its own perception

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 20 +++++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index d2098ee..2e25676 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -261,7 +261,7 @@ private:
   template <class T> static auto searchInList(std::vector<T> &list, T &item, int id) -> bool;
   static auto searchInList(std::vector<BandStream> &list, BandStream &item, int id) -> bool;
   static auto searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int;
-  static auto searchChannelInHaptic(types::Haptics &haptic, int id) -> int;
+  static auto searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int;
   static auto searchBandInHaptic(StreamReader &sreader, int id) -> int;
 
   static auto readListObject(std::vector<bool> &bitstream, int fxCount, types::Band &band,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 441281c..7563a72 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -708,7 +708,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     if (channelIndex == -1) {
       sreader.haptic.getPerceptionAt(perceIndex).addChannel(sreader.channel);
     } else {
@@ -722,7 +722,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     int bandIndex = searchBandInHaptic(sreader, sreader.bandStream.id);
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
@@ -1810,7 +1810,7 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
   sreader.perception = sreader.haptic.getPerceptionAt(perceIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  int channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2201,7 +2201,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.perception = sreader.haptic.getPerceptionAt(perceptionIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  auto channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  auto channelIndex = searchChannelInHaptic(sreader.haptic, perceptionIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2625,13 +2625,11 @@ auto IOStream::searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int {
   }
   return -1;
 }
-auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int id) -> int {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
-    types::Perception perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
-      if (id == perception.getChannelAt(j).getId()) {
-        return j;
-      }
+auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int {
+  types::Perception &perception = haptic.getPerceptionAt(perceptionIndex);
+  for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    if (id == perception.getChannelAt(j).getId()) {
+      return j;
     }
   }
   return -1;
-- 
2.43.0


From a977234454aa6d8f110804add9c693c954cdb527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 031/106] fix: MIHS: a band index equal to the number of bands
 is out of range

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 7563a72..afc739e 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -727,7 +727,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
         static_cast<int>(
-            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <
+            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <=
             bandIndex) {
       sreader.haptic.getPerceptionAt(perceIndex)
           .getChannelAt(channelIndex)
-- 
2.43.0


From 09a1ace21242d5d09a48844e70d14940a761bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 032/106] fix: MIHS: a timing packet gives the time in ticks
 like every other one

---
 source/IOHaptics/src/IOStream.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index afc739e..25bda9b 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -681,9 +681,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
   std::vector<bool> payload = std::vector<bool>(packet.begin() + index, packet.end());
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
-    readTiming(sreader, payload);
-    sreader.time = (sreader.time * TIME_TO_MS) / sreader.timescale;
-    return true;
+    return readTiming(sreader, payload);
   }
   case (MIHSPacketType::MetadataHaptics): {
     return readMetadataHaptics(sreader.haptic, payload);
-- 
2.43.0


From 0fb71f1df27ca45b5f68969cdb7e0cc1f6663be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 033/106] fix: MIHS: do not append keyframes to a reference of
 the same id

---
 source/IOHaptics/src/IOStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 25bda9b..2a313ab 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2721,7 +2721,9 @@ auto IOStream::addEffectToHaptic(types::Haptics &haptic, int perceptionIndex, in
                                           .getBandAt(bandIndex)
                                           .getEffectAt(i);
 
-        if (effect.getId() == hapticEffect.getId()) {
+        // references are identified by the library effect they name
+        if (hapticEffect.getEffectType() == types::EffectType::Basis &&
+            effect.getId() == hapticEffect.getId()) {
           for (size_t j = 0; j < effect.getKeyframesSize(); j++) {
             hapticEffect.addKeyframe(effect.getKeyframeAt(static_cast<int>(j)));
           }
-- 
2.43.0


From 2c3e7134915444bd511f6a1832303951ce21b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 034/106] fix: MIHS: do not add an avatar again when its
 metadata is repeated

---
 source/IOHaptics/src/IOStream.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 2a313ab..62a3f26 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -940,7 +940,17 @@ auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bi
     return false;
   }
   for (auto avatar : avatarList) {
-    haptic.addAvatar(avatar);
+    // The same metadata may be received again
+    bool known = false;
+    for (auto i = 0; i < static_cast<int>(haptic.getAvatarsSize()) && !known; i++) {
+      if (haptic.getAvatarAt(i).getId() == avatar.getId()) {
+        haptic.getAvatarAt(i) = avatar;
+        known = true;
+      }
+    }
+    if (!known) {
+      haptic.addAvatar(avatar);
+    }
   }
   return true;
 }
-- 
2.43.0


From 34c1071056d1c433af728de045e8acf891cdbde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 035/106] fix: do not invent a semantic scheme when metadata is
 replaced

---
 source/Types/src/Haptics.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index b389cc3..f7ca432 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -84,8 +84,10 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
-  auto semantic = newPerception.getEffectSemanticSchemeOrDefault();
-  perceptions[index].setEffectSemanticScheme(semantic);
+  if (newPerception.getEffectSemanticScheme().has_value()) {
+    auto semantic = newPerception.getEffectSemanticScheme().value();
+    perceptions[index].setEffectSemanticScheme(semantic);
+  }
   perceptions[index].clearReferenceDevices();
   for (auto i = 0; i < static_cast<int>(newPerception.getReferenceDevicesSize()); i++) {
     perceptions[index].addReferenceDevice(newPerception.getReferenceDeviceAt(i));
-- 
2.43.0


From 7eb1cdc07b3ff6ec208e3b7e2e6f5401b1485c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 036/106] fix: MIHS: a sampling frequency that needs all 32
 bits has a sample count too

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 62a3f26..2842c7f 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1627,7 +1627,7 @@ auto IOStream::writeMetadataChannel(StreamWriter &swriter, std::vector<bool> &bi
     }
   }
 
-  int freqSampling = static_cast<int>(swriter.channel.getFrequencySampling().value_or(0));
+  const uint32_t freqSampling = swriter.channel.getFrequencySampling().value_or(0);
   std::bitset<MDCHANNEL_FREQ_SAMPLING> maxFreqBits(freqSampling);
   valueStr = maxFreqBits.to_string();
   IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-- 
2.43.0


From 895b049d461957ec028d2eeb665cc9f11870822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 037/106] fix: linearize: expand the references inside
 composite effects too

---
 source/Types/include/Perception.h |  1 +
 source/Types/src/Perception.cpp   | 36 +++++++++++++++++++++++--------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 14e079c..f8c4881 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -158,6 +158,7 @@ public:
   auto getEffectById(int id) -> std::optional<Effect>;
 
 private:
+  auto expandReferences(Effect &effect, std::vector<int> &parents) -> void;
   static constexpr int8_t DEFAULT_UNIT_EXPONENT = -3;
   static constexpr int8_t DEFAULT_PERCEPTION_UNIT_EXPONENT = 0;
   inline static const std::string DEFAULT_SEMANTIC_SCHEME =
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index a6accae..27be599 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Types/include/Perception.h>
+#include <algorithm>
 
 namespace haptics::types {
 
@@ -314,21 +315,38 @@ auto Perception::linearizeLibrary() -> void {
       auto numEffects = static_cast<int>(band.getEffectsSize());
       for (int k = 0; k < numEffects; k++) {
         auto effect = band.getEffectAt(k);
-        if (effect.getEffectType() == EffectType::Reference) {
-          auto refEffect = getEffectById(effect.getId());
-          if (refEffect.has_value()) {
-            Effect basisEffect(refEffect.value());
-            basisEffect.setPosition(effect.getPosition());
-            basisEffect.setId(-1);
-            getChannelAt(i).getBandAt(j).replaceEffectAt(k, basisEffect);
-          }
-        }
+        std::vector<int> parents;
+        expandReferences(effect, parents);
+        getChannelAt(i).getBandAt(j).replaceEffectAt(k, effect);
       }
     }
   }
   effectLibrary.clear();
 }
 
+auto Perception::expandReferences(Effect &effect, std::vector<int> &parents) -> void {
+  const int id = effect.getId();
+  const bool isReference = effect.getEffectType() == EffectType::Reference;
+  if (isReference) {
+    auto refEffect = getEffectById(id);
+    if (!refEffect.has_value() ||
+        std::find(parents.begin(), parents.end(), id) != parents.end()) {
+      return; // unknown, or contains itself
+    }
+    Effect basisEffect(refEffect.value());
+    basisEffect.setPosition(effect.getPosition());
+    basisEffect.setId(-1);
+    effect = basisEffect;
+    parents.push_back(id);
+  }
+  for (int i = 0; i < static_cast<int>(effect.getTimelineSize()); i++) {
+    expandReferences(effect.getTimelineEffectAt(i), parents);
+  }
+  if (isReference) {
+    parents.pop_back();
+  }
+}
+
 auto Perception::refactorEffects() -> void {
   for (int i = 0; i < static_cast<int>(getChannelsSize()); i++) {
     auto channel = getChannelAt(i);
-- 
2.43.0


From 6636100263327cf91eb1a8d0b07345d33e8a5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 038/106] fix: refactor: do not reuse an identifier of the
 effect library

---
 source/Types/src/Perception.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 27be599..5581f31 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -362,7 +362,10 @@ auto Perception::refactorEffects() -> void {
         auto sameEffects = searchForEquivalentEffects(refEffect, i);
         if (sameEffects.size() > 1) {
           Effect basisEffect(refEffect);
-          auto newId = static_cast<int>(getEffectLibrarySize());
+          int newId = 0;
+          for (auto &libraryEffect : effectLibrary) {
+            newId = std::max(newId, libraryEffect.getId() + 1);
+          }
           basisEffect.setId(newId);
           basisEffect.setPosition(0);
           for (const auto &t : sameEffects) {
-- 
2.43.0


From 75b27c4b31148b9dd207a2553e1c856a6084135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 039/106] fix: refactor: do not take wavelet blocks for effects
 without keyframes

---
 source/Types/src/Perception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 5581f31..6592482 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -393,6 +393,9 @@ auto Perception::searchForEquivalentEffects(Effect &effect, int startingChannel)
     auto numBands2 = static_cast<int>(channel2.getBandsSize());
     for (int m = 0; m < numBands2; m++) {
       auto band2 = channel2.getBandAt(m);
+      if (band2.getBandType() == BandType::WaveletWave) {
+        continue;
+      }
       auto numEffects2 = static_cast<int>(band2.getEffectsSize());
       for (int n = 0; n < numEffects2; n++) {
         if (effect.isEquivalent(band2.getEffectAt(n))) {
-- 
2.43.0


From 40e4bd848d855a9e44d31eac4697835b5faabb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 040/106] fix: refactor: effects with different semantics are
 not the same effect

---
 source/Types/src/Effect.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 5dfe04c..eb9a9b9 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -163,7 +163,8 @@ auto Effect::addKeyframe(std::optional<int> position, std::optional<double> ampl
 
 auto Effect::isEquivalent(Effect &effect) -> bool {
   if (effectType != EffectType::Basis || effect.effectType != EffectType::Basis ||
-      phase != effect.getPhase() || baseSignal != effect.getBaseSignal()) {
+      phase != effect.getPhase() || baseSignal != effect.getBaseSignal() ||
+      semantic != effect.getSemantic()) {
     return false;
   }
 
-- 
2.43.0


From 0b43b3e1f27499ea4065c95eb4a5b9f782b92276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 041/106] fix: HMPG, MIHS: quantise in double precision, so
 that 32 bit values do not drift when written again

---
 source/IOHaptics/include/IOBinaryPrimitives.h | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 822d2f0..07b418b 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -93,9 +93,10 @@ public:
                              std::vector<bool> &unusedBits) -> float {
     auto intValue = readNBits<T, bitCount>(file, unusedBits);
     auto maxIntValue = static_cast<uint64_t>(std::pow(2, bitCount) - 1);
-    auto normalizedValue = intValue / static_cast<float>(maxIntValue);
-    normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
-    auto value = normalizedValue * (maxValue - minValue) + minValue;
+    auto normalizedValue = static_cast<double>(intValue) / static_cast<double>(maxIntValue);
+    normalizedValue = std::clamp<double>(normalizedValue, 0, 1);
+    auto value = static_cast<float>(
+        normalizedValue * (static_cast<double>(maxValue) - minValue) + minValue);
     return value;
   }
 
@@ -111,10 +112,11 @@ public:
   template <class T, size_t bitCount>
   static auto writeFloatNBits(float value, std::vector<bool> &output, float minValue,
                               float maxValue) -> void {
-    auto normalizedValue = (value - minValue) / (maxValue - minValue);
-    normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
+    auto normalizedValue =
+        (static_cast<double>(value) - minValue) / (static_cast<double>(maxValue) - minValue);
+    normalizedValue = std::clamp<double>(normalizedValue, 0, 1);
     auto maxIntValue = static_cast<T>(std::pow(2, bitCount) - 1);
-    auto intValue = static_cast<T>(std::round((double)(normalizedValue)*maxIntValue));
+    auto intValue = static_cast<T>(std::round(normalizedValue * maxIntValue));
     writeNBits<T, bitCount>(intValue, output);
   }
 
@@ -151,9 +153,10 @@ public:
     }
     auto intValue = std::bitset<length>(str).to_ulong();
     auto maxIntValue = static_cast<uint64_t>(std::pow(2, length) - 1);
-    auto normalizedValue = intValue / static_cast<float>(maxIntValue);
-    normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
-    auto value = normalizedValue * (maxValue - minValue) + minValue;
+    auto normalizedValue = static_cast<double>(intValue) / static_cast<double>(maxIntValue);
+    normalizedValue = std::clamp<double>(normalizedValue, 0, 1);
+    auto value = static_cast<float>(
+        normalizedValue * (static_cast<double>(maxValue) - minValue) + minValue);
     startIdx += static_cast<int>(length);
     return value;
   }
-- 
2.43.0


From c907ce03ff2faf3a890b4c1c86ac02612918b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 042/106] fix: rendering a transient keyframe without amplitude
 never ended

---
 source/Types/src/Effect.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index eb9a9b9..c537eea 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -323,13 +323,11 @@ auto Effect::EvaluateTransient(double position, double transientDuration) -> dou
 
   double res = 0;
   while (it != keyframes.rend() && checkingFunction(*it)) {
-    if (!it->getAmplitudeModulation().has_value()) {
-      continue;
+    if (it->getAmplitudeModulation().has_value()) {
+      res += std::sin(4 * M_PI * (relativePosition - it->getRelativePosition().value()) /
+                      transientDuration) *
+             it->getAmplitudeModulation().value();
     }
-
-    res += std::sin(4 * M_PI * (relativePosition - it->getRelativePosition().value()) /
-                    transientDuration) *
-           it->getAmplitudeModulation().value();
     it++;
   }
 
-- 
2.43.0


From d731a520e159d8e00a321ead5a50df793243939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 043/106] fix: rendering: the phase of a vectorial effect took
 ticks for milliseconds

---
 source/Types/src/Effect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index c537eea..ac09078 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -250,11 +250,11 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
             pos - (firstFrequencyKeyframeBeforePositionIt->getRelativePosition().has_value()
                        ? firstFrequencyKeyframeBeforePositionIt->getRelativePosition().value()
                        : 0);
-        phi += M_PI * deltaT * MS_2_S *
+        phi += M_PI * deltaT / static_cast<double>(timescale) *
                (firstFrequencyKeyframeBeforePositionIt->getFrequencyModulation().value() +
                 firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value());
       } else if (pos > 0) { // first keyframe with frequency value
-        phi += 2 * M_PI * pos * MS_2_S *
+        phi += 2 * M_PI * pos / static_cast<double>(timescale) *
                firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value();
       }
     }
-- 
2.43.0


From 897cfa9d509230188cefe7a16057a5f2f2821b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 044/106] fix: rendering: phase jump behind the last frequency
 keyframe

---
 source/Types/src/Effect.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index ac09078..c456ec9 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -292,6 +292,8 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
         });
     if (frequencyKeyframeIt < keyframes.rend()) {
       freq_modulation = frequencyKeyframeIt->getFrequencyModulation().value();
+      // phi is the phase at this keyframe
+      relativePosition -= frequencyKeyframeIt->getRelativePosition().value_or(0);
     }
   }
 
-- 
2.43.0


From 062185cba325528626874b7ab4894ab41cc4c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 045/106] fix: rendering: the phase was lost where the
 frequency is 0

---
 source/Types/src/Effect.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index c456ec9..792f985 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -382,20 +382,18 @@ auto Effect::EvaluateKeyframes(double position, types::CurveType curveType, unsi
   const double half = .5;
   const double quarter = .25;
 
-  if (frequency != 0) {
-    time += phase / (2 * M_PI * frequency);
-  }
+  const double cycles = time * frequency + phase / (2 * M_PI);
   switch (this->getBaseSignalOrDefault()) {
   case BaseSignal::Sine:
-    return std::sin(2 * M_PI * time * frequency);
+    return std::sin(2 * M_PI * cycles);
   case BaseSignal::Square:
-    return 1 - 2 * std::round(time * frequency - std::floor(time * frequency));
+    return 1 - 2 * std::round(cycles - std::floor(cycles));
   case BaseSignal::Triangle:
-    return 1 - 4 * std::abs(std::round(time * frequency - quarter) - (time * frequency - quarter));
+    return 1 - 4 * std::abs(std::round(cycles - quarter) - (cycles - quarter));
   case BaseSignal::SawToothUp:
-    return 2 * (time * frequency - std::floor(time * frequency + half));
+    return 2 * (cycles - std::floor(cycles + half));
   case BaseSignal::SawToothDown:
-    return 2 * (std::floor(time * frequency + half) - time * frequency);
+    return 2 * (std::floor(cycles + half) - cycles);
   default:
     return 1;
   }
-- 
2.43.0


From dfdd48b26734950a44db7f9f252a50120e59491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 046/106] fix: rendering: a curve was 0 at its last keyframe

---
 source/Types/src/Effect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 792f985..2d2905a 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -343,7 +343,7 @@ auto Effect::EvaluateKeyframes(double position, types::CurveType curveType, unsi
   auto k_after = std::find_if(
       keyframes.begin(), keyframes.end(), [relativePosition](haptics::types::Keyframe k) {
         return k.getRelativePosition().has_value() && k.getAmplitudeModulation().has_value() &&
-               k.getRelativePosition() > relativePosition;
+               k.getRelativePosition() >= relativePosition;
       });
 
   if (k_after < keyframes.end()) {
-- 
2.43.0


From 0fd1b789c9c730e07ada46cbe952e5a9e1726aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 047/106] fix: rendering: wavelet samples were repeated or
 skipped by rounding errors

---
 source/Types/src/Effect.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 2d2905a..aa55f92 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -304,7 +304,8 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
 auto Effect::EvaluateWavelet(double position, int fs, unsigned int timescale) -> double {
   double relativePosition = (position - this->getPosition()) * (double)fs /
                             (double)timescale; // relative position in samples rel. to fs
-  int index = std::floor(relativePosition);
+  const double rounding = 1e-6; // the position may be a little below that of its sample
+  int index = static_cast<int>(std::floor(relativePosition + rounding));
 
   auto samples = this->getWaveletSamples();
   if (index >= (int)samples.size()) {
-- 
2.43.0


From 2dbad349fd37aa04257e8d4af76af397fbf5cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 048/106] fix: rendering: limit the sum of all bands, not each
 partial sum

---
 source/Types/src/Channel.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index db69f3e..5184e8c 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -195,12 +195,14 @@ auto Channel::EvaluateChannel(uint32_t sampleCount, int fs, int pad, unsigned in
     std::vector<double> bandAmp = b.EvaluationBand(sampleCount, fs, pad, timescale);
     for (uint32_t i = 0; i < bandAmp.size(); i++) {
       channelAmp[i] += bandAmp[i];
-      if (channelAmp[i] < -1) {
-        channelAmp[i] = -1;
-      }
-      if (channelAmp[i] > 1) {
-        channelAmp[i] = 1;
-      }
+    }
+  }
+  for (auto &amp : channelAmp) {
+    if (amp < -1) {
+      amp = -1;
+    }
+    if (amp > 1) {
+      amp = 1;
     }
   }
   return channelAmp;
-- 
2.43.0


From 03b5586657010f7b51d2c14e9adfd334585435be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 049/106] fix: rendering: single instants and blocks of samples
 sum up the same effects

---
 source/Types/src/Band.cpp | 46 ++++++++-------------------------------
 1 file changed, 9 insertions(+), 37 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index bf5df0f..21fc51f 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -123,25 +123,13 @@ auto Band::removeEffectAt(int index) -> bool {
 
 auto Band::Evaluate(double position, int lowFrequencyLimit, int highFrequencyLimit,
                     unsigned int timescale) -> double {
-  // OUT OUF BOUND CHECK
-  if (effects.empty() ||
-      ((this->bandType != types::BandType::WaveletWave) &&
-       (position > effects.back().getPosition() +
-                       effects.back().getEffectTimeLength(bandType, TRANSIENT_DURATION_MS) ||
-        position < 0))) {
-    return 0;
-  }
-
-  for (auto it = effects.end() - 1; it >= effects.begin(); it--) {
-    if (it->getPosition() <= position) {
-      return EvaluationSwitch(position, &*it, lowFrequencyLimit, highFrequencyLimit, timescale);
-    }
-    if (it == effects.begin()) {
-      break;
+  double res = 0;
+  for (auto &effect : effects) {
+    if (effect.getPosition() <= position) {
+      res += EvaluationSwitch(position, &effect, lowFrequencyLimit, highFrequencyLimit, timescale);
     }
   }
-
-  return 0;
+  return res;
 }
 
 auto Band::EvaluationSwitch(double position, haptics::types::Effect *effect, int lowFrequencyLimit,
@@ -230,26 +218,10 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
     break;
   default:
     for (uint32_t ti = 0; ti < sampleCount; ti++) {
-      double position = timescale * (static_cast<double>(ti) / static_cast<double>(fs) -
-                                     (pad * MS_2_S)); // position in ticks needed
-      if (effects.empty() ||
-          ((position > effects.back().getPosition() +
-                           effects.back().getEffectTimeLength(
-                               bandType, Band::getTransientDuration(timescale)) ||
-            position < 0) &&
-           (this->bandType != types::BandType::WaveletWave))) {
-        bandAmp[ti] = 0;
-      } // TODO: TRANSIENT_DURATION_MS: should it be transformed to ticks?
-
-      for (auto it = effects.end() - 1; it >= effects.begin(); it--) {
-        if (it->getPosition() <= position) {
-          bandAmp[ti] +=
-              EvaluationSwitch(position, &*it, lowerFrequencyLimit, upperFrequencyLimit, timescale);
-        }
-        if (it == effects.begin()) {
-          break;
-        }
-      }
+      // position in ticks needed; whole ticks are exact
+      double position = ti * static_cast<double>(timescale) / fs -
+                        pad * static_cast<double>(timescale) / S_2_MS;
+      bandAmp[ti] = Evaluate(position, lowerFrequencyLimit, upperFrequencyLimit, timescale);
     }
     break;
   }
-- 
2.43.0


From b15a9eb2d6bad882261085bfc69ac68b68752053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 050/106] fix: rendering of curve bands: position, two
 keyframes, gaps and missing values, all curve types at an instant

---
 source/Tools/include/Tools.h |  3 ++
 source/Tools/src/Tools.cpp   | 19 ++++++++
 source/Types/src/Band.cpp    | 84 +++++++++++++++---------------------
 source/Types/src/Effect.cpp  | 24 ++++++++++-
 4 files changed, 79 insertions(+), 51 deletions(-)

diff --git a/source/Tools/include/Tools.h b/source/Tools/include/Tools.h
index 1da3c7b..4efa1a2 100644
--- a/source/Tools/include/Tools.h
+++ b/source/Tools/include/Tools.h
@@ -82,6 +82,9 @@ namespace haptics::tools {
 [[nodiscard]] auto interpolationCodec(const std::vector<std::pair<int, double>> &points,
                                       types::CurveType curveType) -> std::vector<double>;
 
+[[nodiscard]] auto curveInterpolation(const std::vector<std::pair<int, double>> &points,
+                                      types::CurveType curveType) -> std::vector<double>;
+
 [[nodiscard]] auto isNumber(const std::string &s) -> bool;
 
 [[nodiscard]] auto isPowerOfTwo(int n) -> bool;
diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index fd22e4c..77c85b7 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -425,6 +425,25 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   return interpolation;
 }
 
+[[nodiscard]] auto curveInterpolation(const std::vector<std::pair<int, double>> &points,
+                                      types::CurveType curveType) -> std::vector<double> {
+  if (points.size() == 1) {
+    return {points.front().second};
+  }
+  switch (curveType) {
+  case types::CurveType::Linear:
+    return linearInterpolation2(points);
+  case types::CurveType::Akima:
+    return points.size() > 2 ? akimaInterpolation(points) : linearInterpolation2(points);
+  case types::CurveType::Bezier:
+    return points.size() > 2 ? bezierInterpolation(points) : linearInterpolation2(points);
+  case types::CurveType::Bspline:
+    return points.size() > 2 ? bsplineInterpolation(points) : linearInterpolation2(points);
+  default:
+    return cubicInterpolation2(points);
+  }
+}
+
 [[nodiscard]] auto isNumber(const std::string &s) -> bool {
   std::string::const_iterator it = s.begin();
   while (it != s.end() && std::isdigit(*it) != 0) {
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 21fc51f..f93ac67 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -34,6 +34,7 @@
 #include <Tools/include/Tools.h>
 #include <Types/include/Band.h>
 #include <algorithm>
+#include <cmath>
 
 namespace haptics::types {
 
@@ -161,59 +162,44 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
   std::vector<double> bandAmp(sampleCount, 0);
   switch (this->bandType) {
   case BandType::Curve:
-    for (auto e : effects) {
-      std::vector<std::pair<int, double>> keyframes(
-          e.getKeyframesSize()); // keyframes converted to position relative to fs
+    for (auto &e : effects) {
+      // keyframes in samples relative to fs, counted from the start of the effect
+      std::vector<std::pair<int, double>> keyframes;
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
-        types::Keyframe myKeyframe;
-        myKeyframe = e.getKeyframeAt(i);
-        keyframes[i].first = static_cast<int>(myKeyframe.getRelativePosition().value() * fs /
-                                              timescale); // assuming position in ticks as input
-        if (i > 0) {
-          keyframes[i].first -= keyframes[0].first;
+        const types::Keyframe &myKeyframe = e.getKeyframeAt(i);
+        if (!myKeyframe.getRelativePosition().has_value() ||
+            !myKeyframe.getAmplitudeModulation().has_value()) {
+          continue;
         }
-        keyframes[i].second = myKeyframe.getAmplitudeModulation().value();
-      }
-      keyframes[0].first = 0;
-      std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
-      if (keyframes.size() == 2) {
-        effectAmp = haptics::tools::linearInterpolation2(keyframes);
-      } else {
-        switch (getCurveTypeOrDefault()) {
-        case CurveType::Linear:
-          effectAmp = haptics::tools::linearInterpolation2(keyframes);
-          break;
-        case CurveType::Cubic:
-          effectAmp = haptics::tools::cubicInterpolation2(keyframes);
-          break;
-        case CurveType::Akima:
-          effectAmp = haptics::tools::akimaInterpolation(keyframes);
-          break;
-        case CurveType::Bezier:
-          effectAmp = haptics::tools::bezierInterpolation(keyframes);
-          break;
-        case CurveType::Bspline:
-          effectAmp = haptics::tools::bsplineInterpolation(keyframes);
-          break;
-        default:
-          effectAmp = haptics::tools::cubicInterpolation2(keyframes);
-          break;
-        }
-
-        int count = 0;
-        int position =
-            static_cast<int>((e.getPosition() + pad) * fs *
-                             timescale); // position converted from ticks to samples rel. to fs
-        if (position < 0) {
-          count = -position;
-          position = 0;
-        }
-        for (int i = position;
-             (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
-          bandAmp[i] += effectAmp[count];
-          count++;
+        const int sample = static_cast<int>(std::round(
+            myKeyframe.getRelativePosition().value() * static_cast<double>(fs) / timescale));
+        const double amplitude = myKeyframe.getAmplitudeModulation().value();
+        if (!keyframes.empty() && keyframes.back().first >= sample) {
+          keyframes.back().second = amplitude;
+        } else {
+          keyframes.emplace_back(sample, amplitude);
         }
       }
+      if (keyframes.empty()) {
+        continue;
+      }
+      // the first amplitude is held from the start of the effect
+      const int first = keyframes.front().first;
+      for (auto &keyframe : keyframes) {
+        keyframe.first -= first;
+      }
+      std::vector<double> effectAmp =
+          haptics::tools::curveInterpolation(keyframes, getCurveTypeOrDefault());
+      effectAmp.insert(effectAmp.begin(), first, keyframes.front().second);
+
+      // position converted from ticks (and ms of padding) to samples rel. to fs
+      const int position = static_cast<int>(
+          std::round((e.getPosition() / static_cast<double>(timescale) + pad * MS_2_S) * fs));
+      for (int count = std::max(-position, 0); count < static_cast<int>(effectAmp.size()) &&
+                                               position + count < static_cast<int>(sampleCount);
+           count++) {
+        bandAmp[position + count] += effectAmp[count];
+      }
     }
     break;
   default:
diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index aa55f92..c2424ce 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -364,14 +364,34 @@ auto Effect::EvaluateKeyframes(double position, types::CurveType curveType, unsi
 
     double t = relativePosition / static_cast<double>(timescale);
     switch (curveType) {
+    case types::CurveType::Unknown:
     case types::CurveType::Cubic: {
       double h = t1 - t0;
       return f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3);
     }
     case types::CurveType::Linear:
       return (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0);
-    default:
-      return 0;
+    default: {
+      // these curves depend on all keyframes: compute the whole curve, one value per tick
+      std::vector<std::pair<int, double>> points;
+      for (const auto &k : keyframes) {
+        if (k.getRelativePosition().has_value() && k.getAmplitudeModulation().has_value() &&
+            (points.empty() || points.back().first < k.getRelativePosition().value())) {
+          points.emplace_back(k.getRelativePosition().value(), k.getAmplitudeModulation().value());
+        }
+      }
+      const int first = points.front().first;
+      for (auto &point : points) {
+        point.first -= first;
+      }
+      const auto curve = tools::curveInterpolation(points, curveType);
+      const auto index = static_cast<int>(std::floor(relativePosition)) - first;
+      if (index < 0 || index + 1 >= static_cast<int>(curve.size())) {
+        return index < 0 ? points.front().second : curve.back();
+      }
+      const double part = relativePosition - std::floor(relativePosition);
+      return curve[index] * (1 - part) + curve[index + 1] * part;
+    }
     }
   }
 
-- 
2.43.0


From bd0a6a2820bc8aa4ddca5db3f2516dbc3362ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 051/106] fix: synthesizer: the padding is in milliseconds, not
 ticks

---
 source/Synthesizer/src/Helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Synthesizer/src/Helper.cpp b/source/Synthesizer/src/Helper.cpp
index 04b8a82..cb341f0 100644
--- a/source/Synthesizer/src/Helper.cpp
+++ b/source/Synthesizer/src/Helper.cpp
@@ -99,7 +99,7 @@ namespace haptics::synthesizer {
   for (uint32_t i = 0; i < haptic.getPerceptionsSize(); i++) {
     for (uint32_t j = 0; j < haptic.getPerceptionAt((int)i).getChannelsSize(); j++) {
       types::Channel myChannel;
-      auto sampleCount = static_cast<uint32_t>(std::round(fs * (timeLength + 2 * pad) / timescale));
+      auto sampleCount = static_cast<uint32_t>(std::round(fs * (timeLength / timescale + 2 * pad * MS_2_S)));
       myChannel = haptic.getPerceptionAt((int)i).getChannelAt((int)j);
       std::vector<double> channelAmp = myChannel.EvaluateChannel(sampleCount, fs, pad, timescale);
       const double perceptionUnitFactor =
-- 
2.43.0


From 5f560fb808917f562671a031b464faeeda2f1900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 052/106] fix: synthesizer: documents without a timescale have
 the default one

---
 source/Synthesizer/src/Helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Synthesizer/src/Helper.cpp b/source/Synthesizer/src/Helper.cpp
index cb341f0..5e872b5 100644
--- a/source/Synthesizer/src/Helper.cpp
+++ b/source/Synthesizer/src/Helper.cpp
@@ -49,7 +49,7 @@ namespace haptics::synthesizer {
   types::Effect effect;
   double maxLength = 0;
   double currentLength = 0;
-  unsigned int timescale = haptic.getTimescale().value();
+  unsigned int timescale = haptic.getTimescaleOrDefault();
   for (uint32_t perceptionIndex = 0; perceptionIndex < haptic.getPerceptionsSize();
        perceptionIndex++) {
     perception = haptic.getPerceptionAt((int)perceptionIndex);
@@ -95,7 +95,7 @@ namespace haptics::synthesizer {
   }
   std::vector<std::vector<double>> amplitudes;
 
-  unsigned int timescale = haptic.getTimescale().value();
+  unsigned int timescale = haptic.getTimescaleOrDefault();
   for (uint32_t i = 0; i < haptic.getPerceptionsSize(); i++) {
     for (uint32_t j = 0; j < haptic.getPerceptionAt((int)i).getChannelsSize(); j++) {
       types::Channel myChannel;
-- 
2.43.0


From 6fa5991fa485724e676a01523a6cd27ad1fa601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 053/106] fix: wavelet decoder: the block length is in ticks,
 not milliseconds

---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index e1d7fbc..3fc3008 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -64,8 +64,8 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     return;
   }
   size_t numBlocks = band.getEffectsSize();
-  auto bl = (int)(band.getBlockLengthOrDefault() * MS_2_S_WAVELET *
-                  (double)band.getUpperFrequencyLimit());
+  auto bl = (int)std::lround(band.getBlockLengthOrDefault() *
+                             (double)band.getUpperFrequencyLimit() / timescale);
   int dwtlevel = (int)log2((double)bl / 4);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
-- 
2.43.0


From 2370dc1b047a87a22b7ea72c9a5a3adb44fb44c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 054/106] fix: wavelet decoder: blocks are played at their own
 position, also behind a missing one

---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index 3fc3008..41d89bc 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -77,8 +77,7 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     spihtDec.decodeEffect(bitstream, block_dwt, bl, scalar, bits);
     scalar /= pow(2, (double)bits);
     Effect newEffect;
-    newEffect.setPosition(
-        (int)((double)b * (double)bl * (double)timescale / (double)band.getUpperFrequencyLimit()));
+    newEffect.setPosition(effect.getPosition());
     auto block_time = std::vector<double>();
     decodeBlock(block_dwt, block_time, scalar, dwtlevel);
     newEffect.setWaveletSamples(block_time);
-- 
2.43.0


From e85ee1225d09c59b63236d74647860e48923d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 055/106] fix: wavelet decoder: decodeBand took ticks for
 samples and ignored the number of bits

---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index 41d89bc..5145774 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -40,7 +40,8 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
     return std::vector<double>();
   }
   size_t numBlocks = band.getEffectsSize();
-  int bl = band.getBlockLength().value() * band.getUpperFrequencyLimit() / timescale;
+  auto bl = (int)std::lround(band.getBlockLength().value() *
+                             (double)band.getUpperFrequencyLimit() / timescale);
   int dwtlevel = (int)log2((double)bl / 4);
   std::vector<double> sig_rec(numBlocks * bl, 0);
 
@@ -51,9 +52,17 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
     double scalar = 0;
     int bits = 0;
     spihtDec.decodeEffect(bitstream, block_dwt, bl, scalar, bits);
+    scalar /= pow(2, (double)bits);
     std::vector<double> block_time(bl);
     decodeBlock(block_dwt, block_time, scalar, dwtlevel);
-    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + effect.getPosition());
+    // position converted from ticks to samples
+    const auto start = static_cast<size_t>(
+        std::lround(effect.getPosition() * (double)band.getUpperFrequencyLimit() / timescale));
+    if (sig_rec.size() < start + bl) {
+      sig_rec.resize(start + bl, 0);
+    }
+    std::copy(block_time.begin(), block_time.end(),
+              sig_rec.begin() + static_cast<std::ptrdiff_t>(start));
   }
   return sig_rec;
 }
-- 
2.43.0


From f6b951120c6b7bc434e0bf39d6eeaf290d9ba088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 056/106] fix: length of a band: wavelet blocks last for the
 block length, and the last effect need not end last

---
 source/Types/src/Band.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index f93ac67..a52d628 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -215,12 +215,15 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
 }
 
 auto Band::getBandTimeLength(unsigned int timescale) -> double {
-  if (this->effects.empty()) {
-    return 0;
+  double length = 0;
+  for (auto &effect : this->effects) {
+    double effectLength = this->getBandType() == BandType::WaveletWave
+                              ? this->getBlockLengthOrDefault()
+                              : effect.getEffectTimeLength(
+                                    this->getBandType(), Band::getTransientDuration(timescale));
+    length = std::max(length, effect.getPosition() + effectLength);
   }
-  return this->effects.back().getPosition() +
-         this->effects.back().getEffectTimeLength(this->getBandType(),
-                                                  Band::getTransientDuration(timescale));
+  return length;
 }
 
 //[[nodiscard]] auto Band::getTimescale() const -> int { return this->timescale; }
-- 
2.43.0


From 52ca04556fea560a32d34858c8f129e375486d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 057/106] fix: wavelet encoder: a band of a silent block got
 more bits than there are

---
 source/Encoder/src/WaveletEncoder.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/WaveletEncoder.cpp b/source/Encoder/src/WaveletEncoder.cpp
index 60a2550..0fe863d 100644
--- a/source/Encoder/src/WaveletEncoder.cpp
+++ b/source/Encoder/src/WaveletEncoder.cpp
@@ -32,6 +32,7 @@
  */
 
 #include "../include/WaveletEncoder.h"
+#include <algorithm>
 
 namespace haptics::encoder {
 
@@ -122,11 +123,17 @@ void WaveletEncoder::encodeBlock(std::vector<double> &block_time, int bitbudget,
 
     updateNoise(pm_result.bandenergy, noiseenergy, SNR, MNR, pm_result.SMR);
     for (uint32_t i = 0; i < book.size(); i++) {
-      if (bitalloc[i] >= spiht::MAXBITS) {
+      if (bitalloc[i] >= spiht::MAXBITS || noiseenergy[i] == 0) {
         MNR[i] = INFINITY;
       }
     }
     size_t index = findMinInd(MNR);
+    if (bitalloc[index] >= spiht::MAXBITS) {
+      // no noise left anywhere (silence): any band that is not full
+      index = std::find_if(bitalloc.begin(), bitalloc.end(),
+                           [](int bits) { return bits < spiht::MAXBITS; }) -
+              bitalloc.begin();
+    }
     if (bitalloc_sum - bitalloc[book.size() - 1] >= spiht::MAXBITS * dwtlevel) {
       int temp = bitalloc[book.size() - 1];
       bitalloc[book.size() - 1] = bitbudget - spiht::MAXBITS * dwtlevel;
-- 
2.43.0


From 5ea9cc6f093ff64f5db1221e0810e5061eed4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 058/106] fix: psychohaptic model: the block length of the
 first model was used for all later ones

---
 source/PsychohapticModel/src/PsychohapticModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/PsychohapticModel/src/PsychohapticModel.cpp b/source/PsychohapticModel/src/PsychohapticModel.cpp
index 9c5f552..465be71 100644
--- a/source/PsychohapticModel/src/PsychohapticModel.cpp
+++ b/source/PsychohapticModel/src/PsychohapticModel.cpp
@@ -81,9 +81,9 @@ auto PsychohapticModel::getSMR(std::vector<double> &block) -> modelResult {
     i = i * sqrt(2 * (double)bl);
   }
 
-  static double correction = 1 / sqrt((double)bl);
+  const double correction = 1 / sqrt((double)bl);
   std::transform(spect_complex.begin(), spect_complex.end() - (long long)bl, spect_mag.begin(),
-                 [](std::complex<double> a) {
+                 [correction](std::complex<double> a) {
                    return LOGFACTOR_SPECT *
                           log10(correction * sqrt(a.real() * a.real() + a.imag() * a.imag()));
                  });
-- 
2.43.0


From 1d5c0fdf47d2177f80049ed30cc59463a57d588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 059/106] fix: OHM: body part masks with the highest bit of a
 byte set were read with all higher bits set

---
 source/Tools/src/OHMData.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 9398652..5563112 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -121,8 +121,10 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
       std::array<char, 4> bodyPartMaskBytes{};
       file.read(bodyPartMaskBytes.data(), 4);
       channel.bodyPartMask = static_cast<Body>(
-          (bodyPartMaskBytes[0] << threeBytesShift) | (bodyPartMaskBytes[1] << twoBytesShift) |
-          (bodyPartMaskBytes[2] << oneByteShift) | bodyPartMaskBytes[3]);
+          (static_cast<uint32_t>(static_cast<uint8_t>(bodyPartMaskBytes[0])) << threeBytesShift) |
+          (static_cast<uint32_t>(static_cast<uint8_t>(bodyPartMaskBytes[1])) << twoBytesShift) |
+          (static_cast<uint32_t>(static_cast<uint8_t>(bodyPartMaskBytes[2])) << oneByteShift) |
+          static_cast<uint32_t>(static_cast<uint8_t>(bodyPartMaskBytes[3])));
 
       element.channelsMetadata.push_back(channel);
     }
-- 
2.43.0


From 751aa2cb52763266b79bf7e8b556e76d1be50ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 060/106] fix: OHM: loading another file kept the elements of
 the one before

---
 source/Tools/src/OHMData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 5563112..18c436e 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -89,6 +89,7 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
   description = std::string(descriptionBytes.data(), descriptionByteSize);
   description.erase(description.find_last_not_of('\x00') + 1);
 
+  elementsMetadata.clear();
   for (int i = 0; i < numElements; i++) {
     HapticElementMetadata element;
     std::array<char, fileNameByteSize> hapticObjectFileNameBytes{};
-- 
2.43.0


From afe2f20a82d7a64113564d945cce4dc1907fb4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 061/106] fix: AHAP: parameter curves that lie before or behind
 a continuous event were read out of bounds

---
 source/Encoder/src/AhapEncoder.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index b437ccd..8ebc49a 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -360,6 +360,11 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
         return a.first >= continuous.getPosition();
       });
 
+  // IF ALL KEYFRAMES ARE BEFORE THE EVENT, NO MODULATION
+  if (first_kf_a == amplitudes->end()) {
+    return;
+  }
+
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_a->first == continuous.getPosition() && first_kf_a != amplitudes->end() - 1) {
     continuous.getKeyframeAt(0).setAmplitudeModulation(
@@ -376,6 +381,9 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
   for (auto it = first_kf_a; it < amplitudes->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      if (it == amplitudes->begin()) {
+        break; // ALL KEYFRAMES ARE AFTER THE EVENT
+      }
       float amp = static_cast<float>(haptics::tools::linearInterpolation(
           *(it - 1), *it, continuous.getPosition() + lastKeyframe.getRelativePosition().value()));
       lastKeyframe.setAmplitudeModulation(amp * lastKeyframe.getAmplitudeModulation().value());
@@ -410,6 +418,11 @@ auto AhapEncoder::modulateContinuousOnFrequency(
       frequencies->begin(), frequencies->end(),
       [continuous](std::pair<int, double> a) { return a.first >= continuous.getPosition(); });
 
+  // IF ALL KEYFRAMES ARE BEFORE THE EVENT, NO MODULATION
+  if (first_kf_f == frequencies->end()) {
+    return;
+  }
+
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_f->first == continuous.getPosition() && first_kf_f != frequencies->end() - 1) {
     double freq_d = first_kf_f->second + base_freq;
@@ -432,6 +445,9 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   for (auto it = first_kf_f; it < frequencies->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      if (it == frequencies->begin()) {
+        break; // ALL KEYFRAMES ARE AFTER THE EVENT
+      }
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-- 
2.43.0


From ae0fd5af04c8ad69eb739b786e7aea2e7b790fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 062/106] fix: AHAP: the sharpness of an event counted twice at
 its end

---
 source/Encoder/src/AhapEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 8ebc49a..ee88114 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -451,7 +451,7 @@ auto AhapEncoder::modulateContinuousOnFrequency(
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-      freq = std::clamp(freq + base_freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
+      freq = std::clamp(freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
       lastKeyframe.setFrequencyModulation(static_cast<int>(std::round(
           haptics::tools::genericNormalization(BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX,
                                                ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX, freq))));
-- 
2.43.0


From 352a05e42cbda4155938ee2b4f3c866503513599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 063/106] fix: AHAP: transients in time order, and no transient
 band without transients

---
 source/Encoder/src/AhapEncoder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index ee88114..1d7853d 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -148,6 +148,10 @@ namespace haptics::encoder {
   types::Band myBand =
       types::Band(types::BandType::Transient, MIN_AHAP_FREQUENCY, MAX_AHAP_FREQUENCY);
   types::Effect transientEffect;
+  std::stable_sort(transients.begin(), transients.end(),
+                   [](const types::Effect &a, const types::Effect &b) {
+                     return a.getPosition() < b.getPosition();
+                   });
   for (types::Effect e : transients) {
     auto pos = e.getPosition();
     for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
@@ -156,7 +160,9 @@ namespace haptics::encoder {
       transientEffect.addKeyframe(keyframe);
     }
   }
-  myBand.addEffect(transientEffect);
+  if (transientEffect.getKeyframesSize() > 0) {
+    myBand.addEffect(transientEffect);
+  }
   if (myBand.getEffectsSize() > 0) {
     myChannel.addBand(myBand);
   }
-- 
2.43.0


From ed096e498f513ecfdfe7c958d88752f987b65854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 064/106] fix: AHAP: the frequency of a modulated transient
 left the range of its band

---
 source/Encoder/src/AhapEncoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 1d7853d..a0c9d6f 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -280,7 +280,8 @@ namespace haptics::encoder {
       int freq = static_cast<int>(haptics::tools::genericNormalization(
           BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX, ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX, f));
       // SUM FREQUENCY MODULATION
-      k.setFrequencyModulation(freq + k.getFrequencyModulation().value());
+      k.setFrequencyModulation(std::clamp(freq + k.getFrequencyModulation().value(),
+                                          ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX));
     } else if (first_kf_f == frequencies->begin()) {
       k.setFrequencyModulation(ACTUAL_FREQUENCY_MAX);
     }
-- 
2.43.0


From 49d23aa938628615b2ebbe1f049fe04dd4d971f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 065/106] fix: AHAP: the points of parameter curves are rounded
 like events, and in time order

---
 source/Encoder/src/AhapEncoder.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index a0c9d6f..f085c33 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -115,6 +115,13 @@ namespace haptics::encoder {
     }
   }
 
+  // the points of several curves
+  auto earlier = [](const std::pair<int, double> &a, const std::pair<int, double> &b) {
+    return a.first < b.first;
+  };
+  std::stable_sort(amplitudes.begin(), amplitudes.end(), earlier);
+  std::stable_sort(frequencies.begin(), frequencies.end(), earlier);
+
   for (auto &e : pattern) {
 
     if (e.HasMember("Event")) {
@@ -203,8 +210,9 @@ namespace haptics::encoder {
     std::pair<int, double> k;
     // TIME + curve offset
 
-    k.first = static_cast<int>((kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) *
-                               (double)timescale);
+    k.first = static_cast<int>(
+        std::round((kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) *
+                   (double)timescale));
     // VALUE
     k.second = kahap["ParameterValue"].GetDouble();
 
-- 
2.43.0


From 2c4cd76c79cd43497c0c5501205a3549b82e70bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 066/106] fix: AHAP: malformed pattern elements are refused
 instead of undefined behaviour

---
 source/Encoder/src/AhapEncoder.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index f085c33..509be17 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -96,6 +96,14 @@ namespace haptics::encoder {
 
   // FOR LOOP ON KEYFRAMES
   for (auto &e : pattern) {
+    if (!e.IsObject() ||
+        (e.HasMember("ParameterCurve") && (!e["ParameterCurve"].IsObject() ||
+                                           !e["ParameterCurve"].HasMember("ParameterID"))) ||
+        (e.HasMember("Event") &&
+         (!e["Event"].IsObject() || !e["Event"].HasMember("EventType")))) {
+      std::cerr << "Invalid AHAP input file: invalid element in Pattern" << std::endl;
+      return EXIT_FAILURE;
+    }
     if (e.HasMember("ParameterCurve")) {
       if (e["ParameterCurve"]["ParameterID"] == "HapticIntensityControl") {
         ret = extractKeyframes(e["ParameterCurve"].GetObject(), &amplitudes, timescale);
@@ -202,7 +210,7 @@ namespace haptics::encoder {
   }
 
   for (auto &kahap : parameterCurve["ParameterCurveControlPoints"].GetArray()) {
-    if (!kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
+    if (!kahap.IsObject() || !kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
         !kahap.HasMember("ParameterValue") || !kahap["ParameterValue"].IsNumber()) {
       continue;
     }
@@ -222,6 +230,17 @@ namespace haptics::encoder {
   return EXIT_SUCCESS;
 }
 
+// every parameter has a name and a number
+static auto hasValidParameters(const rapidjson::Value::Object &event) -> bool {
+  for (auto &param : event["EventParameters"].GetArray()) {
+    if (!param.IsObject() || !param.HasMember("ParameterID") ||
+        !param.HasMember("ParameterValue") || !param["ParameterValue"].IsNumber()) {
+      return false;
+    }
+  }
+  return true;
+}
+
 [[nodiscard]] auto AhapEncoder::extractTransients(
     const rapidjson::Value::Object &event, std::vector<haptics::types::Effect> *transients,
     const std::vector<std::pair<int, double>> *amplitudes,
@@ -229,7 +248,8 @@ namespace haptics::encoder {
   if (!event.HasMember("Time") || !event["Time"].IsNumber() || !event.HasMember("EventType") ||
       !event["EventType"].IsString() ||
       std::string(event["EventType"].GetString()) != "HapticTransient" ||
-      !event.HasMember("EventParameters") || !event["EventParameters"].IsArray()) {
+      !event.HasMember("EventParameters") || !event["EventParameters"].IsArray() ||
+      !hasValidParameters(event)) {
     return EXIT_FAILURE;
   }
 
@@ -310,7 +330,8 @@ namespace haptics::encoder {
       !event["EventType"].IsString() ||
       std::string(event["EventType"].GetString()) != "HapticContinuous" ||
       !event.HasMember("EventDuration") || !event["EventDuration"].IsNumber() ||
-      !event.HasMember("EventParameters") || !event["EventParameters"].IsArray()) {
+      !event.HasMember("EventParameters") || !event["EventParameters"].IsArray() ||
+      !hasValidParameters(event)) {
     return EXIT_FAILURE;
   }
 
-- 
2.43.0


From 7afdf1741daab51ff6877b3d48164f0f5ab47bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 067/106] fix: IVS: a nested repeat replaced the whole tree of
 repeats

researchNode was a reference to the root: following a child assigned the child
to the root, and the repeats (and launches) outside of it were lost.
---
 source/Encoder/src/IvsEncoder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 7e91457..52a2d5d 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -79,20 +79,20 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     auto repeatTree = RepeatNode{nullptr, {}, {}};
     for (pugi::xml_node &repeatEvent : sortedRepeatEvents) {
       auto currentNode = RepeatNode{&repeatEvent, {}, {}};
-      RepeatNode &researchNode = repeatTree;
+      RepeatNode *researchNode = &repeatTree;
       bool continue_search = false;
       do {
-        if (researchNode.children.empty()) {
+        if (researchNode->children.empty()) {
           break;
         }
 
-        auto lastChild = researchNode.children.back();
+        auto &lastChild = researchNode->children.back();
         continue_search = isRepeatNested(lastChild.value, currentNode.value);
         if (continue_search) {
-          researchNode = lastChild;
+          researchNode = &lastChild;
         }
       } while (continue_search);
-      researchNode.children.push_back(currentNode);
+      researchNode->children.push_back(currentNode);
     }
 
     pugi::xml_node basisEffect = {};
-- 
2.43.0


From ba8fb21513aaa53625d78030cc5dc3fab0b0229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 068/106] fix: IVS: a launch earlier than all others was put
 behind them

linearize() needs the launches of a node in time order: the early launch was
delayed by the repeats between.
---
 source/Encoder/include/IvsEncoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 9cd34f6..9c77b67 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -118,7 +118,7 @@ private:
         }
       }
 
-      auto it = myEffects.end();
+      auto it = myEffects.begin();
       auto it_effects = myEffects.begin();
       int effectPosition = myEffect.getPosition();
       for (; it_effects < myEffects.end(); it_effects++) {
-- 
2.43.0


From a750f76da492ef33e6fb8bf3fdc906c8e57cf9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 069/106] fix: IVS: repeats nested three deep took less time
 than their content

linearize() returned the extra time of a node without that of the nodes in it.
---
 source/Encoder/include/IvsEncoder.h | 11 +++++++----
 source/Encoder/src/IvsEncoder.cpp   |  3 +--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 9c77b67..6dbcac2 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -130,7 +130,8 @@ private:
       return true;
     }
 
-    auto linearize(std::vector<types::Effect> &effectLibrary, int &delay) -> int {
+    // returns how much longer the node takes when it is played with all its repetitions
+    auto linearize(std::vector<types::Effect> &effectLibrary, int delay) -> int {
       int count = 0;
       int duration = 0;
       if (value != nullptr) {
@@ -140,6 +141,7 @@ private:
       auto myEffects_it = myEffects.begin();
       auto children_it = children.begin();
       int delay_tmp = 0;
+      int nestedDelay = 0;
       std::vector<types::Effect> linearized_effects;
       for (; myEffects_it < myEffects.end() && children_it < children.end();) {
         int repeat_position =
@@ -153,7 +155,7 @@ private:
           myEffects_it++;
         } else {
           delay_tmp = children_it->linearize(linearized_effects, delay);
-          duration += delay_tmp;
+          nestedDelay += delay_tmp;
           delay += delay_tmp;
           children_it++;
         }
@@ -166,9 +168,10 @@ private:
       }
       for (; children_it < children.end(); children_it++) {
         delay_tmp = children_it->linearize(linearized_effects, delay);
-        duration += delay_tmp;
+        nestedDelay += delay_tmp;
         delay += delay_tmp;
       }
+      duration += nestedDelay;
 
       for (int i = 0; i <= count; i++) {
         for (types::Effect e : linearized_effects) {
@@ -177,7 +180,7 @@ private:
         }
       }
 
-      return count * duration;
+      return count * duration + nestedDelay;
     }
   };
 };
diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 52a2d5d..2193853 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -111,8 +111,7 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     }
 
     std::vector<types::Effect> repeatedEffectsSet;
-    int delay = 0;
-    repeatTree.linearize(repeatedEffectsSet, delay);
+    repeatTree.linearize(repeatedEffectsSet, 0);
 
     for (haptics::types::Effect &myEffect : repeatedEffectsSet) {
       IvsEncoder::injectIntoBands(myEffect, myChannel, timescale);
-- 
2.43.0


From ac9e7a879bbf66b5b138c11e9c3f4a595da2e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 070/106] fix: IVS: some times were a tick early (4007 ms
 became 4006 ticks at 1 kHz)

---
 source/Encoder/src/IvsEncoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 2193853..973a5e9 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -34,6 +34,7 @@
 #include <Encoder/include/IvsEncoder.h>
 #include <Tools/include/Tools.h>
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <limits>
 
@@ -414,7 +415,7 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
 }
 
 auto IvsEncoder::millisecondsToTimeScale(int milliseconds, unsigned int timescale) -> int {
-  return static_cast<int>(static_cast<double>(milliseconds) * MS_2_S *
-                          static_cast<double>(timescale));
+  return static_cast<int>(std::round(static_cast<double>(milliseconds) * MS_2_S *
+                                     static_cast<double>(timescale)));
 }
 } // namespace haptics::encoder
-- 
2.43.0


From 16d7951af06350af8c93d209a640d19e1bba489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 071/106] fix: IVS: the channels of several timelines had the
 same id

---
 source/Encoder/src/IvsEncoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 973a5e9..906f2b0 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -58,7 +58,8 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     haptics::types::Channel myChannel;
     if (out.getChannelsSize() <= static_cast<size_t>(channelId)) {
       std::string timelineName = IvsEncoder::getName(&timeline);
-      myChannel = haptics::types::Channel(0, timelineName.append(" - ").append(date), 1, 1, 0);
+      myChannel =
+          haptics::types::Channel(channelId, timelineName.append(" - ").append(date), 1, 1, 0);
       out.addChannel(myChannel);
     };
     myChannel = out.getChannelAt(channelId);
-- 
2.43.0


From 7382ba3b49c98c653c690cfc1beb71e00e4f16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 072/106] fix: IVS: an effect with an unknown waveform became
 one with an invalid base signal

---
 source/Encoder/src/IvsEncoder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 906f2b0..32d0807 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -160,7 +160,11 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
   int freq = 0;
   std::string effectType = basisEffect->attribute("type").as_string();
   if (effectType == "periodic") {
-    out->setBaseSignal(IvsEncoder::getWaveform(basisEffect));
+    auto waveform = IvsEncoder::getWaveform(basisEffect);
+    if (static_cast<int>(waveform) < 0) {
+      return false;
+    }
+    out->setBaseSignal(waveform);
     freq = static_cast<int>(1.0 / (static_cast<float>(periodLength) * MS_2_S));
   } else if (effectType == "magsweep") {
     out->setBaseSignal(types::BaseSignal::Sine);
-- 
2.43.0


From d0cea40a9ed98efa8521c47bd934365027220964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 073/106] fix: IVS: a fade time of 0 faded the whole effect out

Only the last keyframe got the fade level, so the amplitude went there from the
start (an attack time of 0 already means no attack).
---
 source/Encoder/src/IvsEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 32d0807..f05f2cd 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -204,7 +204,7 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
   }
 
   int fadeDuration = IvsEncoder::getFadeTime(basisEffect);
-  if (fadeDuration != -1) {
+  if (fadeDuration > 0) {
     fadeDuration = IvsEncoder::millisecondsToTimeScale(fadeDuration, timescale);
     int fadeTime = duration - fadeDuration;
 
-- 
2.43.0


From 1f4a015aad937da016e78f57d958353cf416d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 074/106] fix: MIHS: reading a file that is missing or empty
 succeeded with an empty document

---
 source/IOHaptics/src/IOStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 2842c7f..965eb6a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -63,7 +63,9 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
   std::vector<std::vector<bool>> bitstream = std::vector<std::vector<bool>>();
-  loadFile(filePath, bitstream);
+  if (!loadFile(filePath, bitstream)) {
+    return false;
+  }
   StreamReader sreader = initializeStream();
   CRC crc;
   int index = 0;
-- 
2.43.0


From 56f0907afc7001d5225ac8fbeda4fa6446bbca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 075/106] fix: MIHS: a unit longer than the rest of the file
 made the reader allocate and fill up to 4 GB

---
 source/IOHaptics/src/IOStream.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 965eb6a..6eef74d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -110,15 +110,24 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
     // read packet header
     int unitNBits =
         UNIT_TYPE + UNIT_SYNC + UNIT_LAYER + UNIT_DURATION + UNIT_LENGTH + UNIT_RESERVED;
+    if (length - byteCount < static_cast<unsigned int>(unitNBits / BYTE_SIZE)) {
+      std::cerr << filePath << ": Truncated unit header!" << std::endl;
+      return false;
+    }
     IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket);
     byteCount += static_cast<int>(unitNBits / BYTE_SIZE);
     // read packet payload length
     int lengthIdx = unitNBits - (UNIT_LENGTH + UNIT_RESERVED);
-    int bytesToRead = IOBinaryPrimitives::readUInt(bufPacket, lengthIdx, UNIT_LENGTH);
+    auto bytesToRead = static_cast<unsigned int>(
+        IOBinaryPrimitives::readUInt(bufPacket, lengthIdx, UNIT_LENGTH));
+    if (length - byteCount < bytesToRead) {
+      std::cerr << filePath << ": Truncated unit!" << std::endl;
+      return false;
+    }
 
     // int bytesToRead = readPacketLength(bufPacket);
     //  read paylaod
-    IOBinaryPrimitives::readNBytes(file, bytesToRead, bufPacket);
+    IOBinaryPrimitives::readNBytes(file, static_cast<int>(bytesToRead), bufPacket);
     byteCount += bytesToRead;
     bitset.push_back(bufPacket);
   }
-- 
2.43.0


From 758daa433ca6e6b6cd6225eebb351f48349cce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 076/106] fix: HMPG: a truncated file was read as if zeros
 followed, with counts up to 65535 at every level

---
 source/IOHaptics/include/IOBinaryPrimitives.h |  5 ++++-
 source/IOHaptics/src/IOBinary.cpp             | 18 +++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 07b418b..8e51f9d 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -41,6 +41,7 @@
 #include <cmath>
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -67,7 +68,9 @@ public:
                                                                   ? nbBitsToRead / BYTE_SIZE
                                                                   : (nbBitsToRead / BYTE_SIZE) + 1);
       std::vector<char> bytes(nbBytesToRead);
-      file.read(bytes.data(), nbBytesToRead);
+      if (!file.read(bytes.data(), nbBytesToRead)) {
+        throw std::out_of_range("unexpected end of data");
+      }
       for (auto byte : bytes) {
         for (uint8_t i = 0; i < BYTE_SIZE; i++) {
           bitset.push_back(((byte >> (BYTE_SIZE - i - 1)) & 1U) == 1);
diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 8bc2f7e..ff8b90a 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -44,11 +44,12 @@ auto IOBinary::loadMemory(IOMemoryBuffer &in, types::Haptics &out) -> bool {
   std::istream istr(&in);
 
   std::vector<bool> unusedBits;
-  bool res = readFileHeader(out, istr, unusedBits);
-  if (res) {
-    readFileBody(out, istr, unusedBits);
+  try {
+    return readFileHeader(out, istr, unusedBits) && readFileBody(out, istr, unusedBits);
+  } catch (const std::out_of_range &) {
+    std::cerr << "Truncated binary data!" << std::endl;
+    return false;
   }
-  return res;
 }
 
 auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> bool {
@@ -68,9 +69,12 @@ auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> boo
     return false;
   }
   std::vector<bool> unusedBits;
-  bool res = IOBinary::readFileHeader(out, file, unusedBits);
-  if (res) {
-    IOBinary::readFileBody(out, file, unusedBits);
+  bool res = false;
+  try {
+    res = IOBinary::readFileHeader(out, file, unusedBits) &&
+          IOBinary::readFileBody(out, file, unusedBits);
+  } catch (const std::out_of_range &) {
+    std::cerr << filePath << ": Truncated file!" << std::endl;
   }
 
   file.close();
-- 
2.43.0


From d5a62be5f08294f971879eeaf68f3d683a1d9171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 077/106] fix: HMPG: a wavelet band with an upper limit of 0 Hz
 or a block length beyond int was undefined behaviour

---
 source/IOHaptics/src/IOBinary.cpp      |  2 +-
 source/IOHaptics/src/IOBinaryBands.cpp | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index ff8b90a..dea7e48 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -778,7 +778,7 @@ auto IOBinary::readFileBody(types::Haptics &haptic, std::istream &file,
         myBand = myChannel.getBandAt(bandIndex);
         if (!IOBinaryBands::readBandHeader(myBand, file, unusedBits,
                                            haptic.getTimescaleOrDefault())) {
-          continue;
+          return false;
         }
 
         if (!IOBinaryBands::readBandBody(myBand, file, unusedBits,
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 1aeeae5..7e0e79b 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -39,6 +39,9 @@
 
 namespace haptics::io {
 
+// 2^(code + 4) samples have to fit in an int
+constexpr int MAX_BLOCK_LENGTH_CODE = 26;
+
 auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
                                    std::vector<bool> &unusedBits, const unsigned int timescale)
     -> bool {
@@ -51,6 +54,10 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto blockLength_code =
         IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BLK_LEN>(file, unusedBits);
+    if (blockLength_code > MAX_BLOCK_LENGTH_CODE) {
+      std::cerr << "Invalid wavelet block length" << std::endl;
+      return false;
+    }
     blockLength_samp = static_cast<int>(pow(2, blockLength_code + 4));
   }
 
@@ -63,6 +70,10 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
   band.setUpperFrequencyLimit(static_cast<int>(upperFrequencyLimit));
 
   if (band.getBandType() == types::BandType::WaveletWave) {
+    if (upperFrequencyLimit == 0) {
+      std::cerr << "Invalid wavelet band: the upper frequency limit is 0" << std::endl;
+      return false;
+    }
     auto blockLength_ticks = static_cast<int>(blockLength_samp * timescale / upperFrequencyLimit);
     band.setBlockLength(blockLength_ticks);
   }
-- 
2.43.0


From 2a23ceb7434ac68a461dfba32f9e62fd8178835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 078/106] fix: HMPG: reading a band took time quadratic in the
 number of effects it says it has

---
 source/IOHaptics/src/IOBinaryBands.cpp | 5 +----
 source/Types/include/Band.h            | 2 ++
 source/Types/src/Band.cpp              | 1 +
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 7e0e79b..81cc01d 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -78,10 +78,7 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
     band.setBlockLength(blockLength_ticks);
   }
   auto effectCount = IOBinaryPrimitives::readNBits<uint16_t, MDBAND_EFFECT_COUNT>(file, unusedBits);
-  for (unsigned int i = 0; i < effectCount; i++) {
-    types::Effect e;
-    band.addEffect(e);
-  }
+  band.appendEmptyEffects(effectCount);
 
   return true;
 }
diff --git a/source/Types/include/Band.h b/source/Types/include/Band.h
index 5928047..122d604 100644
--- a/source/Types/include/Band.h
+++ b/source/Types/include/Band.h
@@ -85,6 +85,8 @@ public:
   auto setLowerFrequencyLimit(int newLowerFrequencyLimit) -> void;
   auto getEffectsSize() -> size_t;
   auto getEffectAt(int index) -> haptics::types::Effect &;
+  // Appends effects at position 0, to be replaced one after the other
+  auto appendEmptyEffects(size_t count) -> void;
   auto addEffect(haptics::types::Effect &newEffect) -> void;
   auto replaceEffectAt(int index, haptics::types::Effect &newEffect) -> bool;
   auto removeEffectAt(int index) -> bool;
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index a52d628..79738a3 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -87,6 +87,7 @@ auto Band::getEffectsSize() -> size_t { return effects.size(); }
 
 auto Band::getEffectAt(int index) -> haptics::types::Effect & { return effects.at(index); }
 
+auto Band::appendEmptyEffects(size_t count) -> void { effects.resize(effects.size() + count); }
 auto Band::addEffect(Effect &newEffect) -> void {
   auto it = std::find_if(effects.begin(), effects.end(), [newEffect](Effect &e) {
     return e.getPosition() > newEffect.getPosition();
-- 
2.43.0


From 4736e949dc66a36e501962427dbb9b28cb8d7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 079/106] fix: MIHS: units and packets that end too early were
 read out of bounds; a folder was read without end

---
 source/IOHaptics/include/IOBinaryPrimitives.h | 21 ++++++++++++--
 source/IOHaptics/include/IOStream.h           |  2 ++
 source/IOHaptics/src/IOStream.cpp             | 28 ++++++++++++++++---
 3 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 8e51f9d..edce96d 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -143,9 +143,18 @@ public:
     }
   }
 
+  // Throws unless there are as many bits behind the index
+  static auto requireBits(const std::vector<bool> &bitstream, int startIdx, int length) -> void {
+    if (startIdx < 0 || length < 0 || static_cast<size_t>(startIdx) > bitstream.size() ||
+        bitstream.size() - static_cast<size_t>(startIdx) < static_cast<size_t>(length)) {
+      throw std::out_of_range("unexpected end of data");
+    }
+  }
+
   template <size_t length>
   static auto readFloatNBits(std::vector<bool> &bitstream, int &startIdx, float minValue,
                              float maxValue) -> float {
+    requireBits(bitstream, startIdx, static_cast<int>(length));
     std::string str;
     for (auto i = startIdx; i < static_cast<int>(startIdx + length); i++) {
       if (bitstream[i]) {
@@ -170,7 +179,8 @@ public:
       bitstream.push_back(c == '1');
     }
   }
-  static auto readUInt(std::vector<bool> bitstream, int &startIdx, int length) -> int {
+  static auto readUInt(const std::vector<bool> &bitstream, int &startIdx, int length) -> int {
+    requireBits(bitstream, startIdx, length);
     std::string tsBits;
     for (int i = startIdx; i < startIdx + length; i++) {
       if ((bitstream[i])) {
@@ -189,6 +199,7 @@ public:
     if (bitstream.empty()) {
       return EXIT_FAILURE;
     }
+    requireBits(bitstream, startIdx, length);
     if (bitstream[startIdx]) {
       bitstream.flip();
       return -(readUInt(bitstream, startIdx, length) + 1);
@@ -196,7 +207,9 @@ public:
     return readUInt(bitstream, startIdx, length);
   }
 
-  static auto readString(std::vector<bool> bitstream, int &startIdx, int length) -> std::string {
+  static auto readString(const std::vector<bool> &bitstream, int &startIdx, int length)
+      -> std::string {
+    requireBits(bitstream, startIdx, length * BYTE_SIZE);
     std::string res;
     for (int i = startIdx; i < startIdx + (BYTE_SIZE * length); i += BYTE_SIZE) {
       std::string bitsStr;
@@ -216,7 +229,9 @@ public:
 
   static auto readNBytes(std::istream &file, int nbBytes, std::vector<bool> &bitstream) -> bool {
     std::vector<char> bytes(nbBytes);
-    file.read(bytes.data(), nbBytes);
+    if (!file.read(bytes.data(), nbBytes)) {
+      return false;
+    }
     for (auto byte : bytes) {
       for (uint8_t i = 0; i < BYTE_SIZE; i++) {
         bitstream.push_back(((byte >> (BYTE_SIZE - i - 1)) & 1U) == 1);
diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 2e25676..13dac24 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -146,6 +146,8 @@ public:
   static auto initializeStream() -> StreamReader;
 
 private:
+  static auto readMIHSUnitPackets(std::vector<bool> &mihsunit, StreamReader &sreader, CRC &crc)
+      -> bool;
   struct StartTimeIdx {
     int time = 0;
     int idx = 0;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 6eef74d..213c50c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -114,7 +114,11 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
       std::cerr << filePath << ": Truncated unit header!" << std::endl;
       return false;
     }
-    IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket);
+    if (!IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE),
+                                        bufPacket)) {
+      std::cerr << filePath << ": Cannot read file!" << std::endl;
+      return false;
+    }
     byteCount += static_cast<int>(unitNBits / BYTE_SIZE);
     // read packet payload length
     int lengthIdx = unitNBits - (UNIT_LENGTH + UNIT_RESERVED);
@@ -127,7 +131,10 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
 
     // int bytesToRead = readPacketLength(bufPacket);
     //  read paylaod
-    IOBinaryPrimitives::readNBytes(file, static_cast<int>(bytesToRead), bufPacket);
+    if (!IOBinaryPrimitives::readNBytes(file, static_cast<int>(bytesToRead), bufPacket)) {
+      std::cerr << filePath << ": Cannot read file!" << std::endl;
+      return false;
+    }
     byteCount += bytesToRead;
     bitset.push_back(bufPacket);
   }
@@ -253,6 +260,16 @@ auto IOStream::silentUnitSyncFlag(std::vector<std::vector<bool>> &bitstream) ->
 }
 
 auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader, CRC &crc) -> bool {
+  try {
+    return readMIHSUnitPackets(mihsunit, sreader, crc);
+  } catch (const std::out_of_range &) {
+    std::cerr << "Invalid MIHS unit!" << std::endl;
+    return false;
+  }
+}
+
+auto IOStream::readMIHSUnitPackets(std::vector<bool> &mihsunit, StreamReader &sreader, CRC &crc)
+    -> bool {
   int index = 0;
   IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_TYPE);
   // MIHSUnitType unitType = static_cast<MIHSUnitType>(unitTypeInt);
@@ -265,7 +282,7 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
 
   sreader.packetDuration = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_DURATION);
   int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
-  index += UNIT_RESERVED;
+  IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_RESERVED);
 
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
   const int unitEnd = index + unitLength;
@@ -273,6 +290,8 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
     if (!readMIHSPacket(packets, sreader, crc)) {
       return false;
     }
+    IOBinaryPrimitives::requireBits(mihsunit, index,
+                                    static_cast<int>(sreader.packetLength) + H_NBITS);
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
     packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
   }
@@ -688,7 +707,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
   MIHSPacketType mihsPacketType = readMIHSPacketType(packet);
   int index = H_MIHS_PACKET_TYPE;
   sreader.packetLength = IOBinaryPrimitives::readUInt(packet, index, H_PAYLOAD_LENGTH) * BYTE_SIZE;
-  index += H_RESERVED;
+  IOBinaryPrimitives::readUInt(packet, index, H_RESERVED);
   std::vector<bool> payload = std::vector<bool>(packet.begin() + index, packet.end());
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
@@ -1502,6 +1521,7 @@ auto IOStream::readReferenceDevice(std::vector<bool> &bitstream, types::Referenc
   int bodyPartMask = IOBinaryPrimitives::readUInt(bitstream, idx, REFDEV_BODY_PART_MASK);
   refDevice.setBodyPartMask(static_cast<uint32_t>(bodyPartMask));
 
+  IOBinaryPrimitives::requireBits(bitstream, idx, REFDEV_OPT_FIELDS);
   std::vector<bool> mask(bitstream.begin() + idx, bitstream.begin() + idx + REFDEV_OPT_FIELDS);
   idx += REFDEV_OPT_FIELDS;
   int maskIdx = 0;
-- 
2.43.0


From e1cebb2720c76f20e7b7eee8dc7274302da550b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 080/106] fix: HJIF: members of a wrong type or missing effect
 ids and positions were undefined behaviour

---
 source/IOHaptics/src/IOJson.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 0b3d030..b321117 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -660,6 +660,13 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
     return false;
   }
 
+  if (!(jsonTree["version"].IsString() && jsonTree["profile"].IsString() &&
+        jsonTree["level"].IsUint() && jsonTree["date"].IsString() &&
+        jsonTree["description"].IsString())) {
+    std::cerr << "Invalid HJIF input file: invalid required field" << std::endl;
+    return false;
+  }
+
   auto version = std::string(jsonTree["version"].GetString());
   auto profile = std::string(jsonTree["profile"].GetString());
   // levels that do not fit must not wrap around to a valid one
@@ -818,6 +825,11 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       }
     }
 
+    if (!IOJsonPrimitives::hasInt(jsonEffect, "id") ||
+        !IOJsonPrimitives::hasInt(jsonEffect, "position")) {
+      std::cerr << "Missing or invalid effect id or position" << std::endl;
+      continue;
+    }
     auto effectId = jsonEffect["id"].GetInt();
     auto position = jsonEffect["position"].GetInt();
 
@@ -835,7 +847,7 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       auto semantic = std::string(jsonEffect["semantic_keywords"].GetString());
       effect.setSemantic(semantic);
     }
-    if (jsonEffect.HasMember("keyframes")) {
+    if (IOJsonPrimitives::hasArray(jsonEffect, "keyframes")) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
 
@@ -870,7 +882,7 @@ auto IOJson::loadChannels(const rapidjson::Value &jsonChannels, types::Perceptio
       std::cerr << "Missing or invalid channel mixing coefficient" << std::endl;
       continue;
     }
-    if (!IOJsonPrimitives::hasNumber(jsonChannel, "body_part_mask")) {
+    if (!IOJsonPrimitives::hasUint(jsonChannel, "body_part_mask")) {
       std::cerr << "Missing or invalid channel body part mask" << std::endl;
       continue;
     }
@@ -1032,13 +1044,17 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
         continue;
       }
       if (band.getBandType() == types::BandType::WaveletWave) {
-        if (!jsonEffect.HasMember("wavelet_stream")) {
+        if (!IOJsonPrimitives::hasString(jsonEffect, "wavelet_stream")) {
           std::cerr << "Missing wavelet_stream" << std::endl;
           continue;
         }
       }
     }
 
+    if (!IOJsonPrimitives::hasInt(jsonEffect, "position")) {
+      std::cerr << "Missing or invalid effect position" << std::endl;
+      continue;
+    }
     auto position = jsonEffect["position"].GetInt();
     types::Effect effect(position, effectType);
     if (jsonEffect.HasMember("phase") && jsonEffect["phase"].IsNumber()) {
@@ -1059,7 +1075,7 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     if (jsonEffect.HasMember("keyframes") && jsonEffect["keyframes"].IsArray()) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
-    if (jsonEffect.HasMember("wavelet_stream")) {
+    if (IOJsonPrimitives::hasString(jsonEffect, "wavelet_stream")) {
       loadingSuccess = loadingSuccess && loadBitstream(jsonEffect["wavelet_stream"], effect);
     }
 
-- 
2.43.0


From 35ceb06ba3b8234afa5670e8264c7ee8aa13199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 081/106] fix: HMPG, MIHS: timelines nested in each other
 thousands of times overflowed the stack

---
 source/IOHaptics/include/IOBinary.h           | 3 ++-
 source/IOHaptics/include/IOBinaryBands.h      | 2 +-
 source/IOHaptics/include/IOBinaryPrimitives.h | 2 ++
 source/IOHaptics/include/IOStream.h           | 2 +-
 source/IOHaptics/src/IOBinary.cpp             | 7 +++++--
 source/IOHaptics/src/IOBinaryBands.cpp        | 7 +++++--
 source/IOHaptics/src/IOStream.cpp             | 7 +++++--
 7 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/include/IOBinary.h b/source/IOHaptics/include/IOBinary.h
index 45c3693..80d28c4 100644
--- a/source/IOHaptics/include/IOBinary.h
+++ b/source/IOHaptics/include/IOBinary.h
@@ -91,7 +91,8 @@ private:
                                    std::vector<bool> &unusedBits) -> bool;
   static auto readLibrary(types::Perception &perception, std::istream &file,
                           std::vector<bool> &unusedBits) -> bool;
-  static auto readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits) -> types::Effect;
+  static auto readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits, int depth = 0)
+      -> types::Effect;
   static auto readChannelsHeader(types::Perception &perception, std::istream &file,
                                  std::vector<bool> &unusedBits) -> bool;
 
diff --git a/source/IOHaptics/include/IOBinaryBands.h b/source/IOHaptics/include/IOBinaryBands.h
index 893a127..da5c0fd 100644
--- a/source/IOHaptics/include/IOBinaryBands.h
+++ b/source/IOHaptics/include/IOBinaryBands.h
@@ -85,7 +85,7 @@ private:
   static auto readReferenceEffect(types::Effect &effect, int &idx, std::vector<bool> &bitstream)
       -> bool;
   static auto readTimelineEffect(types::Effect &effect, types::Band &band, std::istream &file,
-                                 std::vector<bool> &unusedBits) -> bool;
+                                 std::vector<bool> &unusedBits, int depth = 0) -> bool;
   static auto readTimelineEffect(types::Effect &effect, types::Band &band, int &idx,
                                  std::vector<bool> &bitstream) -> bool;
 };
diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index edce96d..235327f 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -52,6 +52,8 @@ constexpr float MAX_AMPLITUDE = 1;
 constexpr float MAX_PHASE = 6.28318;
 constexpr int VECTOR_AXIS_SIZE = 8;
 constexpr int BYTE_SIZE = 8;
+// Timelines nested deeper than this are refused
+constexpr int MAX_TIMELINE_DEPTH = 256;
 class IOBinaryPrimitives {
 public:
   static auto readVector(std::istream &file, std::vector<bool> &unusedBits)
diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 13dac24..11dc2a4 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -242,7 +242,7 @@ private:
                                   int &length) -> bool;
   static auto readLibrary(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
   static auto readLibraryEffect(types::Effect &libraryEffect, int &idx,
-                                std::vector<bool> &bitstream) -> bool;
+                                std::vector<bool> &bitstream, int depth = 0) -> bool;
   static auto readMetadataChannel(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
   static auto readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
   static auto readSpatialData(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index dea7e48..b4dbbe2 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -264,8 +264,11 @@ auto IOBinary::writePerceptionsHeader(types::Haptics &haptic, std::vector<bool>
   return true;
 }
 
-auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits)
+auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits, int depth)
     -> types::Effect {
+  if (depth > MAX_TIMELINE_DEPTH) {
+    throw std::out_of_range("timelines nested too deep");
+  }
   types::Effect effect = types::Effect();
   auto id = IOBinaryPrimitives::readNBits<int, EFFECT_ID>(file, unusedBits);
   auto position = IOBinaryPrimitives::readNBits<int, EFFECT_POSITION>(file, unusedBits);
@@ -310,7 +313,7 @@ auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBi
   auto timelineEffectCount =
       IOBinaryPrimitives::readNBits<unsigned short, EFFECT_TIMELINE_COUNT>(file, unusedBits);
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
-    auto timelineEffect = readLibraryEffect(file, unusedBits);
+    auto timelineEffect = readLibraryEffect(file, unusedBits, depth + 1);
     effect.addTimelineEffect(timelineEffect);
   }
   return effect;
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 81cc01d..f03a768 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -419,7 +419,10 @@ auto IOBinaryBands::writeReferenceEffect(types::Effect &effect, std::vector<bool
 }
 
 auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band, std::istream &file,
-                                       std::vector<bool> &unusedBits) -> bool {
+                                       std::vector<bool> &unusedBits, int depth) -> bool {
+  if (depth > MAX_TIMELINE_DEPTH) {
+    throw std::out_of_range("timelines nested too deep");
+  }
   auto timelineEffectCount =
       IOBinaryPrimitives::readNBits<uint16_t, EFFECT_TIMELINE_COUNT>(file, unusedBits);
 
@@ -434,7 +437,7 @@ auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band,
     if (effectType == types::EffectType::Reference) {
       readReferenceEffect(myEffect, file, unusedBits);
     } else if (effectType == types::EffectType::Composite) {
-      readTimelineEffect(myEffect, band, file, unusedBits);
+      readTimelineEffect(myEffect, band, file, unusedBits, depth + 1);
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 213c50c..e1b13a8 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1197,7 +1197,10 @@ auto IOStream::readLibrary(StreamReader &sreader, std::vector<bool> &bitstream)
   return success;
 }
 auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
-                                 std::vector<bool> &bitstream) -> bool {
+                                 std::vector<bool> &bitstream, int depth) -> bool {
+  if (depth > MAX_TIMELINE_DEPTH) {
+    throw std::out_of_range("timelines nested too deep");
+  }
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
   libraryEffect.setId(id);
 
@@ -1249,7 +1252,7 @@ auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
   auto timelineEffectCount = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TIMELINE_COUNT);
   for (int i = 0; i < timelineEffectCount; i++) {
     types::Effect timelineEffect;
-    success &= readLibraryEffect(timelineEffect, idx, bitstream);
+    success &= readLibraryEffect(timelineEffect, idx, bitstream, depth + 1);
     libraryEffect.addTimelineEffect(timelineEffect);
   }
 
-- 
2.43.0


From 00fa230a4a7a2fa05a7a60d1cf7e48995f52f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 082/106] fix: HJIF: deeply nested JSON overflowed the stack

---
 source/IOHaptics/src/IOJson.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index b321117..124b749 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -633,8 +633,35 @@ auto IOJson::schemaConformanceCheck(const rapidjson::Document &hjifFile,
   return true;
 }
 
+namespace {
+// The parser and all that visits its tree are recursive: follows a document as far as it is sane
+struct NestingCheck : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, NestingCheck> {
+  static constexpr int MAX_NESTING = 512;
+  int depth = 0;
+  auto StartObject() -> bool { return ++depth <= MAX_NESTING; }
+  auto EndObject(rapidjson::SizeType /*count*/) -> bool {
+    depth--;
+    return true;
+  }
+  auto StartArray() -> bool { return ++depth <= MAX_NESTING; }
+  auto EndArray(rapidjson::SizeType /*count*/) -> bool {
+    depth--;
+    return true;
+  }
+};
+} // namespace
+
 auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bool {
   bool loadingSuccess = true;
+  {
+    std::ifstream check(filePath);
+    rapidjson::IStreamWrapper checkStream(check);
+    NestingCheck nesting;
+    if (rapidjson::Reader().Parse(checkStream, nesting).IsError()) {
+      std::cerr << "Invalid HJIF input file: JSON parsing error" << std::endl;
+      return false;
+    }
+  }
   std::ifstream ifs(filePath);
   rapidjson::IStreamWrapper isw(ifs);
   rapidjson::Document jsonTree;
-- 
2.43.0


From e3b91b6580fae0ae4a8c0e2e2f4f27360734b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 083/106] fix: HJIF: long URIs, URNs and dates overflowed the
 stack in std::regex

---
 source/IOHaptics/include/IOJson.h |  1 +
 source/IOHaptics/src/IOJson.cpp   | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index 31eae46..bb057da 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -102,6 +102,7 @@ public:
   static constexpr float MIN_UNIT_VECTOR_NORM = 0.99F;
   static constexpr float MAX_UNIT_VECTOR_NORM = 1.01F;
   static constexpr int MIN_VERSION_YEAR = 2023;
+  static constexpr size_t MAX_URN_NAMESPACE_END = 36; // "urn:" and 32 characters
 
   static auto versionCheck(const std::string &version, bool log) -> bool;
   static auto dateCheck(const std::string &date, bool log) -> bool;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 124b749..7241d17 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -81,9 +81,9 @@ auto MyRemoteSchemaDocumentProvider::GetRemoteDocument(const char *uri, rapidjso
 }
 
 auto IOJson::URICheck(const std::string &uri, bool log) -> bool {
-  const std::regex txt_regex(R"(^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?)");
-  std::smatch pieces_match;
-  if (!regex_search(uri, pieces_match, txt_regex) || pieces_match[0] == "") {
+  // The generic syntax ^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))? has a match in
+  // every text, and std::regex overflows the stack with long ones
+  if (uri.empty()) {
     if (log) {
       std::cerr << "Invalid URI, the URI format shall conform to RFC3986." << std::endl;
     }
@@ -94,7 +94,7 @@ auto IOJson::URICheck(const std::string &uri, bool log) -> bool {
 
 auto IOJson::dateCheck(const std::string &date, bool log) -> bool {
   const std::regex txt_regex("[+-]?[0-9]{4}(-[01][0-9](-[0-3][0-9](T[0-2][0-9]:[0-5][0-9]:?([0-5]["
-                             "0-9](.[0-9]+)?)?[+-][0-2][0-9]:[0-5][0-9]Z?)?)?)?");
+                             "0-9](.[0-9]{1,32})?)?[+-][0-2][0-9]:[0-5][0-9]Z?)?)?)?");
   std::smatch pieces_match;
   if (!regex_search(date, pieces_match, txt_regex)) {
     if (log) {
@@ -279,9 +279,16 @@ auto IOJson::semanticConformanceCheckPerception(types::Perception &perception,
   }
 
   // Check the URN
-  const std::regex urn_regex("^[uU][rR][nN]:[A-Za-z0-9][A-Za-z0-9-]{0,30}[A-Za-z0-9]:.+$");
+  // (urn_regex matches what comes before the last part, which may be too long for std::regex)
+  const std::regex urn_regex("^[uU][rR][nN]:[A-Za-z0-9][A-Za-z0-9-]{0,30}[A-Za-z0-9]:");
   auto semanticSchemeURN = perception.getEffectSemanticScheme();
-  if (semanticSchemeURN && !std::regex_match(*semanticSchemeURN, urn_regex)) {
+  auto isURN = [&urn_regex](const std::string &text) {
+    const auto end = text.find(':', text.find(':') + 1);
+    return end != std::string::npos && end <= MAX_URN_NAMESPACE_END &&
+           std::regex_match(text.substr(0, end + 1), urn_regex) && end + 1 < text.size() &&
+           text.find_first_of("\r\n") == std::string::npos;
+  };
+  if (semanticSchemeURN && !isURN(*semanticSchemeURN)) {
     std::cerr << "The semantic scheme URN of perception " << id << " is invalid." << std::endl;
     conformant = false;
   }
-- 
2.43.0


From 9fea6bb091162bc0ca1cbbdcf0b8cf780bd523ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 084/106] fix: HMPG, MIHS: positions beyond int overflowed

---
 source/IOHaptics/src/IOBinaryBands.cpp |  6 +++++-
 source/IOHaptics/src/IOStream.cpp      | 27 ++++++++++++++++++--------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index f03a768..c307bb6 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -126,7 +126,11 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
-      position = effectIndex * band.getBlockLengthOrDefault();
+      const auto blockStart = static_cast<int64_t>(effectIndex) * band.getBlockLengthOrDefault();
+      if (blockStart > std::numeric_limits<int>::max()) {
+        return false;
+      }
+      position = static_cast<int>(blockStart);
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index e1b13a8..624a5d7 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2265,11 +2265,15 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
       if (!readListObject(effectsBitsList, fxCount, sreader.bandStream.band, effects, idx)) {
         return false;
       }
-      addTimestampEffect(effects, static_cast<int>(sreader.time));
+      if (!addTimestampEffect(effects, static_cast<int>(sreader.time))) {
+        return false;
+      }
     } else {
       types::Effect effect;
-      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
-                                  sreader.time);
+      if (!IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
+                                       sreader.time)) {
+        return false;
+      }
       effects.push_back(effect);
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
@@ -2439,16 +2443,20 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
   }
 
   // Blocks start at multiples of the block length: this is the first one of the unit that is free
-  int effectPos = static_cast<int>(time);
+  auto effectPos = static_cast<int64_t>(static_cast<int>(time));
   const int blockLength = band.getBlockLengthOrDefault();
   if (blockLength > 0 && effectPos % blockLength != 0) {
     effectPos += blockLength - effectPos % blockLength;
   }
   if (band.getEffectsSize() > 0) {
     auto lastEffect = band.getEffectAt(static_cast<int>(band.getEffectsSize()) - 1);
-    effectPos = std::max(effectPos, lastEffect.getPosition() + blockLength);
+    effectPos =
+        std::max(effectPos, static_cast<int64_t>(lastEffect.getPosition()) + blockLength);
   }
-  effect.setPosition(effectPos);
+  if (effectPos > std::numeric_limits<int>::max()) {
+    return false;
+  }
+  effect.setPosition(static_cast<int>(effectPos));
 
   IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
   length += idx;
@@ -2787,8 +2795,11 @@ auto IOStream::addEffectToHaptic(types::Haptics &haptic, int perceptionIndex, in
 }
 auto IOStream::addTimestampEffect(std::vector<types::Effect> &effects, int timestamp) -> bool {
   for (auto &e : effects) {
-    int relativeTime = e.getPosition();
-    e.setPosition(relativeTime + timestamp);
+    const auto position = static_cast<int64_t>(e.getPosition()) + timestamp;
+    if (position < std::numeric_limits<int>::min() || position > std::numeric_limits<int>::max()) {
+      return false;
+    }
+    e.setPosition(static_cast<int>(position));
   }
   return true;
 }
-- 
2.43.0


From 12d7887861aaa2ee98499cfe3cdbc8cd9e52767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 085/106] fix: MIHS: checking a protected group took time
 quadratic in its length

---
 source/IOHaptics/src/IOStream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 624a5d7..c0e287b 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2410,15 +2410,15 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
   for (size_t i = 0; i < polynomial.size(); i++) {
     bitstream.push_back(false);
   }
-  while (bitstream.size() > polynomial.size()) {
-    bool msb = bitstream[0];
-    bitstream = std::vector<bool>(bitstream.begin() + 1, bitstream.end());
-    if (msb) {
+  const size_t steps = bitstream.size() - polynomial.size();
+  for (size_t start = 0; start < steps; start++) {
+    if (bitstream[start]) {
       for (size_t i = 0; i < polynomial.size(); i++) {
-        bitstream[i] = bitstream[i] != polynomial[i];
+        bitstream[start + 1 + i] = bitstream[start + 1 + i] != polynomial[i];
       }
     }
   }
+  bitstream.erase(bitstream.begin(), bitstream.begin() + static_cast<ptrdiff_t>(steps));
   return true;
 }
 
-- 
2.43.0


From b3b174e76728ca8849b5fad08f6e9a6d1b542a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 086/106] fix: MIHS: reading a unit took time quadratic in the
 number of its packets

---
 source/IOHaptics/src/IOStream.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index c0e287b..e1da5ea 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -284,16 +284,18 @@ auto IOStream::readMIHSUnitPackets(std::vector<bool> &mihsunit, StreamReader &sr
   int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
   IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_RESERVED);
 
-  std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
   const int unitEnd = index + unitLength;
   while (index < unitEnd) {
-    if (!readMIHSPacket(packets, sreader, crc)) {
+    int lengthIndex = index + H_MIHS_PACKET_TYPE;
+    const int packetBits =
+        IOBinaryPrimitives::readUInt(mihsunit, lengthIndex, H_PAYLOAD_LENGTH) * BYTE_SIZE + H_NBITS;
+    IOBinaryPrimitives::requireBits(mihsunit, index, packetBits);
+    const auto packet = std::vector<bool>(mihsunit.begin() + index,
+                                          mihsunit.begin() + index + packetBits);
+    if (!readMIHSPacket(packet, sreader, crc)) {
       return false;
     }
-    IOBinaryPrimitives::requireBits(mihsunit, index,
-                                    static_cast<int>(sreader.packetLength) + H_NBITS);
-    index += static_cast<int>(sreader.packetLength) + H_NBITS;
-    packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
+    index += packetBits;
   }
   sreader.time += sreader.packetDuration;
   return true;
-- 
2.43.0


From 42ae7e2e5a1bdc86f9fc4bf1cf48bce0813eb646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 087/106] fix: decoder: success was reported when the output
 could not be written

---
 source/Decoder/src/main.cpp       |  4 +++-
 source/IOHaptics/include/IOJson.h |  2 +-
 source/IOHaptics/src/IOJson.cpp   | 10 ++++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/Decoder/src/main.cpp b/source/Decoder/src/main.cpp
index f0c41d3..53ab0df 100644
--- a/source/Decoder/src/main.cpp
+++ b/source/Decoder/src/main.cpp
@@ -100,6 +100,8 @@ auto main(int argc, char *argv[]) -> int {
   //  }
   //}
 
-  IOJson::writeFile(hapticFile, output);
+  if (!IOJson::writeFile(hapticFile, output)) {
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index bb057da..4ee0cfb 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -162,7 +162,7 @@ public:
   static auto extractSyncs(types::Haptics &haptic, rapidjson::Value &jsonSyncs,
                            rapidjson::Document &jsonTree) -> void;
 
-  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> void;
+  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> bool;
 
   static auto bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
   static auto bits2bytes(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 7241d17..340e31a 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1283,7 +1283,7 @@ auto IOJson::loadVector(const rapidjson::Value &jsonVector, types::Vector &vecto
   return true;
 }
 
-auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> void {
+auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> bool {
   auto jsonTree = rapidjson::Document(rapidjson::kObjectType);
   if (versionCheck(haptic.getVersion(), false)) {
     jsonTree.AddMember("version",
@@ -1326,9 +1326,15 @@ auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &fileP
   extractSyncs(haptic, jsonSyncs, jsonTree);
   jsonTree.AddMember("syncs", jsonSyncs, jsonTree.GetAllocator());
   std::ofstream file(filePath);
+  if (!file) {
+    std::cerr << filePath << ": Cannot open file!" << std::endl;
+    return false;
+  }
   rapidjson::OStreamWrapper osw(file);
   rapidjson::Writer<rapidjson::OStreamWrapper> writer(osw);
-  jsonTree.Accept(writer);
+  const bool complete = jsonTree.Accept(writer);
+  file.close();
+  return complete && !file.fail();
 }
 
 auto IOJson::extractPerceptions(types::Haptics &haptic, rapidjson::Value &jsonPerceptions,
-- 
2.43.0


From 5d87677eb611d4a9deefefe0d7b22a6bb7c9d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 088/106] fix: decoder: a stream with an undefined enumeration
 value ended the tool with an exception

---
 source/Decoder/src/main.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/Decoder/src/main.cpp b/source/Decoder/src/main.cpp
index 53ab0df..06214a1 100644
--- a/source/Decoder/src/main.cpp
+++ b/source/Decoder/src/main.cpp
@@ -36,6 +36,7 @@
 #include <IOHaptics/include/IOStream.h>
 #include <Tools/include/InputParser.h>
 #include <Types/include/Haptics.h>
+#include <exception>
 
 using haptics::io::IOBinary;
 using haptics::io::IOJson;
@@ -91,16 +92,21 @@ auto main(int argc, char *argv[]) -> int {
   Haptics hapticFile;
   // if (inputParser.cmdOptionExists("-s") || inputParser.cmdOptionExists("--streaming")) {
 
-  if (!IOStream::readFile(filename, hapticFile)) {
-    return EXIT_FAILURE;
-  }
+  try {
+    if (!IOStream::readFile(filename, hapticFile)) {
+      return EXIT_FAILURE;
+    }
   //} else {
   //  if (!IOBinary::loadFile(filename, hapticFile)) {
   //    return EXIT_FAILURE;
   //  }
   //}
 
-  if (!IOJson::writeFile(hapticFile, output)) {
+    if (!IOJson::writeFile(hapticFile, output)) {
+      return EXIT_FAILURE;
+    }
+  } catch (const std::exception &e) { // e.g. a modality that does not exist
+    std::cerr << filename << ": " << e.what() << std::endl;
     return EXIT_FAILURE;
   }
   return EXIT_SUCCESS;
-- 
2.43.0


From 73bd2f0d4954bbaca4ce90bc1c9478ac4f8b5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 089/106] fix: wavelet decoder: damaged payloads and short or
 odd blocks were read out of bounds

---
 source/Spiht/src/Spiht_Dec.cpp               | 12 ++++++++++--
 source/WaveletDecoder/src/WaveletDecoder.cpp | 18 ++++++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/source/Spiht/src/Spiht_Dec.cpp b/source/Spiht/src/Spiht_Dec.cpp
index f69bfb4..3f25e0d 100644
--- a/source/Spiht/src/Spiht_Dec.cpp
+++ b/source/Spiht/src/Spiht_Dec.cpp
@@ -39,6 +39,12 @@ void Spiht_Dec::decodeEffect(std::vector<unsigned char> &in, std::vector<int> &o
                              double &wavmax, int &bits) {
   std::vector<unsigned char> in_bits;
   ArithDec::convert2bits(in, in_bits);
+  if (origlength <= 0) {
+    out.clear();
+    wavmax = 0;
+    bits = 0;
+    return;
+  }
   auto level = (int)(log2((double)origlength) - 2);
   wavmax = 0;
   bits = 0;
@@ -70,7 +76,8 @@ void Spiht_Dec::decode(std::vector<unsigned char> &bitstream, std::vector<int> &
 }
 
 void Spiht_Dec::initLists(int origlength, int level) {
-  int bandsize = 2 << ((int)log2((double)origlength) - level);
+  // short blocks are a single band
+  int bandsize = std::min(2 << ((int)log2((double)origlength) - level), origlength);
   LIP.clear();
   LIS1.clear();
   LIS2.clear();
@@ -126,7 +133,8 @@ void Spiht_Dec::sortingPass(std::vector<int> &out, int origlength, int compare)
   for (int i = 0; i < LISsize; i++) {
     // type A
     if (*it2 == 0) {
-      if (getBit(CONTEXT_3) == 1) {
+      // in damaged data, coefficients without children may be said to have significant ones
+      if (getBit(CONTEXT_3) == 1 && 2 * *it1 + 1 < origlength) {
         int y = *it1;
         // Children
         int index = 2 * y;
diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index 5145774..b027fc5 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -35,6 +35,20 @@
 
 namespace haptics::waveletdecoder {
 
+namespace {
+// a block is split as long as its parts can be halved
+auto getLevels(int blockLength) -> int {
+  if (blockLength < 4) {
+    return 0;
+  }
+  int levels = (int)log2((double)blockLength / 4);
+  while (blockLength % (1 << levels) != 0) {
+    levels--;
+  }
+  return levels;
+}
+} // namespace
+
 auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double> {
   if (band.getBandType() != BandType::WaveletWave || !band.getBlockLength().has_value()) {
     return std::vector<double>();
@@ -42,7 +56,7 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
   size_t numBlocks = band.getEffectsSize();
   auto bl = (int)std::lround(band.getBlockLength().value() *
                              (double)band.getUpperFrequencyLimit() / timescale);
-  int dwtlevel = (int)log2((double)bl / 4);
+  int dwtlevel = getLevels(bl);
   std::vector<double> sig_rec(numBlocks * bl, 0);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
@@ -75,7 +89,7 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
   size_t numBlocks = band.getEffectsSize();
   auto bl = (int)std::lround(band.getBlockLengthOrDefault() *
                              (double)band.getUpperFrequencyLimit() / timescale);
-  int dwtlevel = (int)log2((double)bl / 4);
+  int dwtlevel = getLevels(bl);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
     Effect effect = band.getEffectAt((int)b);
-- 
2.43.0


From 4d7cae67a07d32b97db143cb749ef3c8806a7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 090/106] fix: wavelet rendering copied the whole block for
 every sample

---
 source/Types/src/Effect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index c2424ce..39a2752 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -307,7 +307,7 @@ auto Effect::EvaluateWavelet(double position, int fs, unsigned int timescale) ->
   const double rounding = 1e-6; // the position may be a little below that of its sample
   int index = static_cast<int>(std::floor(relativePosition + rounding));
 
-  auto samples = this->getWaveletSamples();
+  const auto &samples = this->getWaveletSamples();
   if (index >= (int)samples.size()) {
     return 0;
   }
-- 
2.43.0


From e2ce2b98b95e003f3c7ff2b46e19e80b6711a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 091/106] fix: rendering: keyframes at one instant or before
 their effect gave no number or an exception

---
 source/Tools/src/Tools.cpp | 2 +-
 source/Types/src/Band.cpp  | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 77c85b7..60be6a4 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -47,7 +47,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     return start_a;
   }
 
-  if (x > end) {
+  if (x >= end) {
     return end_a;
   }
 
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 79738a3..1b9993f 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -191,11 +191,13 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       }
       std::vector<double> effectAmp =
           haptics::tools::curveInterpolation(keyframes, getCurveTypeOrDefault());
-      effectAmp.insert(effectAmp.begin(), first, keyframes.front().second);
+      effectAmp.insert(effectAmp.begin(), std::max(first, 0), keyframes.front().second);
 
       // position converted from ticks (and ms of padding) to samples rel. to fs
-      const int position = static_cast<int>(
-          std::round((e.getPosition() / static_cast<double>(timescale) + pad * MS_2_S) * fs));
+      const int position =
+          static_cast<int>(
+              std::round((e.getPosition() / static_cast<double>(timescale) + pad * MS_2_S) * fs)) +
+          std::min(first, 0);
       for (int count = std::max(-position, 0); count < static_cast<int>(effectAmp.size()) &&
                                                position + count < static_cast<int>(sampleCount);
            count++) {
-- 
2.43.0


From f153f24acd3cc57d6227017215e8fcba3dc5a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:09 +0000
Subject: [PATCH 092/106] fix: packets too long for their length field were
 written with a wrong length

---
 source/IOHaptics/src/IOStream.cpp | 72 +++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index e1da5ea..4861d05 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -149,11 +149,13 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
   swriter.packetDuration = packetDuration;
   swriter.timescale = haptic.getTimescaleOrDefault();
   std::vector<std::vector<bool>> initPackets = std::vector<std::vector<bool>>();
-  writeMIHSPacket(MIHSPacketType::MetadataHaptics, swriter, initPackets);
-  writeMIHSPacket(MIHSPacketType::MetadataPerception, swriter, initPackets);
-  writeMIHSPacket(MIHSPacketType::EffectLibrary, swriter, initPackets);
-  writeMIHSPacket(MIHSPacketType::MetadataChannel, swriter, initPackets);
-  writeMIHSPacket(MIHSPacketType::MetadataBand, swriter, initPackets);
+  if (!writeMIHSPacket(MIHSPacketType::MetadataHaptics, swriter, initPackets) ||
+      !writeMIHSPacket(MIHSPacketType::MetadataPerception, swriter, initPackets) ||
+      !writeMIHSPacket(MIHSPacketType::EffectLibrary, swriter, initPackets) ||
+      !writeMIHSPacket(MIHSPacketType::MetadataChannel, swriter, initPackets) ||
+      !writeMIHSPacket(MIHSPacketType::MetadataBand, swriter, initPackets)) {
+    return false;
+  }
   std::vector<bool> initUnit = std::vector<bool>();
   writeMIHSUnit(MIHSUnitType::Initialization, initPackets, initUnit, swriter);
   bitstream.push_back(initUnit);
@@ -177,7 +179,9 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
   };
 
   std::vector<std::vector<bool>> dataPackets = std::vector<std::vector<bool>>();
-  writeMIHSPacket(MIHSPacketType::Data, swriter, dataPackets);
+  if (!writeMIHSPacket(MIHSPacketType::Data, swriter, dataPackets)) {
+    return false;
+  }
   std::vector<std::vector<bool>> bufUnit = std::vector<std::vector<bool>>();
   swriter.time = 0;
   bool first = true;
@@ -508,8 +512,10 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
   case MIHSPacketType::Timing: {
     std::vector<bool> mihsPacketPayload = std::vector<bool>();
     writeTiming(swriter, mihsPacketPayload);
-    writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
-                          mihsPacketHeader);
+    if (!writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
+                               mihsPacketHeader)) {
+      return false;
+    }
     mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
                             mihsPacketPayload.end());
     padToByteBoundary(mihsPacketHeader);
@@ -519,8 +525,10 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
   case MIHSPacketType::MetadataHaptics: {
     std::vector<bool> mihsPacketPayload = std::vector<bool>();
     writeMetadataHaptics(swriter.haptic, mihsPacketPayload);
-    writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
-                          mihsPacketHeader);
+    if (!writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
+                               mihsPacketHeader)) {
+      return false;
+    }
     mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
                             mihsPacketPayload.end());
     padToByteBoundary(mihsPacketHeader);
@@ -532,8 +540,10 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
     for (auto i = 0; i < static_cast<int>(swriter.haptic.getPerceptionsSize()); i++) {
       swriter.perception = swriter.haptic.getPerceptionAt(i);
       writeMetadataPerception(swriter, mihsPacketPayload);
-      writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
-                            mihsPacketHeader);
+      if (!writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
+                                 mihsPacketHeader)) {
+        return false;
+      }
       mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
                               mihsPacketPayload.end());
       padToByteBoundary(mihsPacketHeader);
@@ -548,8 +558,10 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
     for (auto i = 0; i < static_cast<int>(swriter.haptic.getPerceptionsSize()); i++) {
       if (swriter.haptic.getPerceptionAt(i).getEffectLibrarySize() != 0) {
         writeLibrary(swriter.haptic.getPerceptionAt(i), mihsPacketPayload);
-        writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
-                              mihsPacketHeader);
+        if (!writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
+                                   mihsPacketHeader)) {
+          return false;
+        }
         mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
                                 mihsPacketPayload.end());
         padToByteBoundary(mihsPacketHeader);
@@ -568,8 +580,10 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
            j++) {
         swriter.channel = swriter.perception.getChannelAt(j);
         writeMetadataChannel(swriter, mihsPacketPayload);
-        writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
-                              mihsPacketHeader);
+        if (!writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
+                                   mihsPacketHeader)) {
+          return false;
+        }
         mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
                                 mihsPacketPayload.end());
         padToByteBoundary(mihsPacketHeader);
@@ -587,7 +601,9 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
     std::vector<std::vector<bool>> mihsPacketPayload = std::vector<std::vector<bool>>();
     writeData(swriter, mihsPacketPayload);
     for (auto data : mihsPacketPayload) {
-      writeMIHSPacketHeader(mihsPacketType, static_cast<int>(data.size()), mihsPacketHeader);
+      if (!writeMIHSPacketHeader(mihsPacketType, static_cast<int>(data.size()), mihsPacketHeader)) {
+        return false;
+      }
       mihsPacketHeader.insert(mihsPacketHeader.end(), data.begin(), data.end());
       padToByteBoundary(mihsPacketHeader);
       bitstream.push_back(mihsPacketHeader);
@@ -598,8 +614,10 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
   case MIHSPacketType::InitializationTiming: {
     std::vector<bool> mihsPacketPayload = std::vector<bool>();
     writeInitializationTiming(swriter, mihsPacketPayload);
-    writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
-                          mihsPacketHeader);
+    if (!writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
+                               mihsPacketHeader)) {
+      return false;
+    }
     mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
                             mihsPacketPayload.end());
     padToByteBoundary(mihsPacketHeader);
@@ -616,8 +634,10 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
       crcLevel = 1;
     }
     writeCRC(bitstream, mihsPacketPayload, crcLevel);
-    writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
-                          mihsPacketHeader);
+    if (!writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
+                               mihsPacketHeader)) {
+      return false;
+    }
     mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
                             mihsPacketPayload.end());
     padToByteBoundary(mihsPacketHeader);
@@ -644,8 +664,10 @@ auto IOStream::writeAllBands(StreamWriter &swriter, MIHSPacketType mihsPacketTyp
         swriter.bandStream.id = bandId++;
         writeMetadataBand(swriter, mihsPacketPayload);
         padToByteBoundary(mihsPacketPayload);
-        writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
-                              mihsPacketHeader);
+        if (!writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
+                                   mihsPacketHeader)) {
+          return false;
+        }
         mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
                                 mihsPacketPayload.end());
         bitstream.push_back(mihsPacketHeader);
@@ -697,6 +719,10 @@ auto IOStream::writeMIHSPacketHeader(MIHSPacketType mihsPacketType, int payloadS
   if (mihsPacketType == MIHSPacketType::Data) {
     payloadSizeByte -= DB_DURATION / BYTE_SIZE;
   }
+  if (payloadSizeByte >= (1 << H_PAYLOAD_LENGTH)) {
+    std::cerr << "A packet is too long for its length field!" << std::endl;
+    return false;
+  }
   std::bitset<H_PAYLOAD_LENGTH> payloadSizeBits(payloadSizeByte);
   const std::string payloadSizeStr = payloadSizeBits.to_string();
   IOBinaryPrimitives::writeStrBits(payloadSizeStr, bitstream);
-- 
2.43.0


From 385b23e2cd8999ea07ecd545f58df78ae3d6b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:09 +0000
Subject: [PATCH 093/106] fix: the stream reader confused bands when a document
 has more than 256 of them

---
 source/IOHaptics/include/IOStream.h |  4 +++-
 source/IOHaptics/src/IOStream.cpp   | 14 ++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 11dc2a4..bac0fdc 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -74,6 +74,8 @@ class IOStream {
 public:
   struct BandStream {
     int id = -1;
+    int perceptionId = -1;
+    int channelId = -1;
     types::Band band = types::Band();
     int index = -1;
   };
@@ -264,7 +266,7 @@ private:
   static auto searchInList(std::vector<BandStream> &list, BandStream &item, int id) -> bool;
   static auto searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int;
   static auto searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int;
-  static auto searchBandInHaptic(StreamReader &sreader, int id) -> int;
+  static auto searchBandInHaptic(StreamReader &sreader, const BandStream &band) -> int;
 
   static auto readListObject(std::vector<bool> &bitstream, int fxCount, types::Band &band,
                              std::vector<types::Effect> &fxList, int &length) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 4861d05..737856f 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -779,7 +779,9 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
     int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
-    int bandIndex = searchBandInHaptic(sreader, sreader.bandStream.id);
+    sreader.bandStream.perceptionId = sreader.perception.getId();
+    sreader.bandStream.channelId = sreader.channel.getId();
+    int bandIndex = searchBandInHaptic(sreader, sreader.bandStream);
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
         static_cast<int>(
@@ -2279,7 +2281,9 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.bandStream.index = -1;
   sreader.bandStream.id = -1;
   sreader.bandStream.id = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_ID);
-  sreader.bandStream.index = searchBandInHaptic(sreader, sreader.bandStream.id);
+  sreader.bandStream.perceptionId = perceptionId;
+  sreader.bandStream.channelId = channelId;
+  sreader.bandStream.index = searchBandInHaptic(sreader, sreader.bandStream);
   if (sreader.bandStream.index == -1) {
     return false;
   }
@@ -2713,9 +2717,11 @@ auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex
   return -1;
 }
 
-auto IOStream::searchBandInHaptic(StreamReader &sreader, int id) -> int {
+auto IOStream::searchBandInHaptic(StreamReader &sreader, const BandStream &band) -> int {
+  // Band ids wrap around, they are only unique within a channel
   for (auto &bandBuf : sreader.bandStreamsHaptic) {
-    if (bandBuf.id == id) {
+    if (bandBuf.id == band.id && bandBuf.perceptionId == band.perceptionId &&
+        bandBuf.channelId == band.channelId) {
       return bandBuf.index;
     }
   }
-- 
2.43.0


From 9cc946b7b1c0d7cf21ad9fa9b52c775b88ea6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 094/106] fix: silences longer than the duration field were
 written with a wrong duration

---
 source/IOHaptics/src/IOStream.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 737856f..20c816c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -35,6 +35,7 @@
 #include <IOHaptics/include/IOBinaryFields.h>
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
+#include <algorithm>
 #include <limits>
 
 namespace haptics::io {
@@ -190,9 +191,12 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
       std::vector<std::vector<bool>> firstPacket = std::vector<std::vector<bool>>{packet};
       std::vector<bool> silentUnit = std::vector<bool>();
       writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
-      if (silentUnit.size() > UNIT_TYPE) {
+      while (silentUnit.size() > UNIT_TYPE) {
         bitstream.push_back(silentUnit);
         writeSyncUnit();
+        // a long silence takes more than one unit
+        silentUnit.clear();
+        writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
       }
       first = false;
     }
@@ -211,13 +215,14 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
         writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
         bitstream.push_back(temporalUnit);
         writeSyncUnit();
-        if (swriter.time != packetTS) {
+        while (packetTS - swriter.time >= packetDuration) {
           std::vector<std::vector<bool>> silentPackets{bufUnit[bufUnit.size() - 1], packet};
           std::vector<bool> silentUnit = std::vector<bool>();
-          if (writeMIHSUnit(MIHSUnitType::Silent, silentPackets, silentUnit, swriter)) {
-            bitstream.push_back(silentUnit);
-            writeSyncUnit();
+          if (!writeMIHSUnit(MIHSUnitType::Silent, silentPackets, silentUnit, swriter)) {
+            return false;
           }
+          bitstream.push_back(silentUnit);
+          writeSyncUnit();
         }
         bufUnit.clear();
         bufUnit.push_back(packet);
@@ -441,7 +446,8 @@ auto IOStream::writeMIHSUnitSilent(std::vector<std::vector<bool>> &listPackets,
                                    std::vector<bool> &mihsunit, StreamWriter &swriter) -> bool {
   if (listPackets.size() == 1) {
     int tFirst =
-        readPacketTS(std::vector<bool>(listPackets[0].begin() + H_NBITS, listPackets[0].end()));
+        readPacketTS(std::vector<bool>(listPackets[0].begin() + H_NBITS, listPackets[0].end())) -
+        static_cast<int>(swriter.time);
     if (tFirst >= static_cast<int>(swriter.packetDuration)) {
       std::bitset<UNIT_SYNC> syncBits(0);
       std::string syncStr = syncBits.to_string();
@@ -449,7 +455,7 @@ auto IOStream::writeMIHSUnitSilent(std::vector<std::vector<bool>> &listPackets,
       std::bitset<UNIT_LAYER> layerBits(swriter.layer);
       std::string layerStr = layerBits.to_string();
       IOBinaryPrimitives::writeStrBits(layerStr, mihsunit);
-      int duration = tFirst;
+      int duration = std::min(tFirst, (1 << UNIT_DURATION) - 1);
       if (duration % swriter.packetDuration != 0) {
         duration = duration - (duration % static_cast<int>(swriter.packetDuration));
       }
@@ -477,7 +483,7 @@ auto IOStream::writeMIHSUnitSilent(std::vector<std::vector<bool>> &listPackets,
     int start = swriter.time;
     int end =
         readPacketTS(std::vector<bool>(listPackets[1].begin() + H_NBITS, listPackets[1].end()));
-    int duration = end - start;
+    int duration = std::min(end - start, (1 << UNIT_DURATION) - 1);
     if (duration % swriter.packetDuration != 0) {
       duration = duration - (duration % static_cast<int>(swriter.packetDuration));
     }
-- 
2.43.0


From 9cf3d5fa29f285d3c63c2871362885302ee1594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 095/106] fix: packet durations that a stream cannot express
 were not refused

---
 source/IOHaptics/src/IOStream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 20c816c..9c8f38f 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -145,6 +145,10 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
 
 auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>> &bitstream,
                           int packetDuration) -> bool {
+  if (packetDuration < 1 || packetDuration >= (1 << UNIT_DURATION)) {
+    std::cerr << "Invalid packet duration!" << std::endl;
+    return false;
+  }
   StreamWriter swriter;
   swriter.haptic = haptic;
   swriter.packetDuration = packetDuration;
-- 
2.43.0


From 3c68636d86b02df5e5a47922ced764cb71b97704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 096/106] fix: encoder: re-encoding a HJIF file always ended
 with a failure status

---
 source/Encoder/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 2ce826e..6bbbc77 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -272,7 +272,7 @@ auto main(int argc, char *argv[]) -> int {
     hapticFile.addPerception(myPerception);
   } else if (ext == "hjif") {
     std::cout << "The HJIF file to encode : " << filename << std::endl;
-    IOJson::loadFile(filename, hapticFile);
+    codeExit = IOJson::loadFile(filename, hapticFile) ? EXIT_SUCCESS : EXIT_FAILURE;
   } else {
     codeExit = EXIT_FAILURE;
   }
-- 
2.43.0


From 7e462bc948d021a6845035b7482321d8fd52ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 097/106] fix: encoder: success was reported when the output
 could not be written

---
 source/Encoder/src/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 6bbbc77..b831d54 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -295,9 +295,13 @@ auto main(int argc, char *argv[]) -> int {
     if (inputParser.cmdOptionExists("--packet_duration")) {
       packetDuration = std::stoi(inputParser.getCmdOption("--packet_duration"));
     }
-    IOStream::writeFile(hapticFile, output, packetDuration);
+    if (!IOStream::writeFile(hapticFile, output, packetDuration)) {
+      return EXIT_FAILURE;
+    }
   } else {
-    IOJson::writeFile(hapticFile, output);
+    if (!IOJson::writeFile(hapticFile, output)) {
+      return EXIT_FAILURE;
+    }
   }
 
   return codeExit;
-- 
2.43.0


From dc25c90716b55737ea731ae3e7f3d1ed4e1c7f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 098/106] fix: synthesizer: success was reported for unusable
 input and unwritten metadata

---
 source/Synthesizer/src/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/Synthesizer/src/main.cpp b/source/Synthesizer/src/main.cpp
index 477b6c3..dad77e8 100644
--- a/source/Synthesizer/src/main.cpp
+++ b/source/Synthesizer/src/main.cpp
@@ -133,7 +133,9 @@ auto main(int argc, char *argv[]) -> int {
       return EXIT_FAILURE;
     }
   } else {
-    IOJson::loadFile(filename, hapticFile);
+    if (!IOJson::loadFile(filename, hapticFile)) {
+      return EXIT_FAILURE;
+    }
   }
 
   hapticFile.linearize();
@@ -149,7 +151,9 @@ auto main(int argc, char *argv[]) -> int {
     haptics::tools::OHMData ohm = hapticFile.extractMetadataToOHM(relativeFilename);
     auto ohmPath = outputPath;
     ohmPath.replace_extension(".ohm");
-    ohm.writeFile(ohmPath.string());
+    if (!ohm.writeFile(ohmPath.string())) {
+      return EXIT_FAILURE;
+    }
   }
 
   return EXIT_SUCCESS;
-- 
2.43.0


From 796f6bdd13b2e93f0d4b0c8000a86d300537d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:51 +0000
Subject: [PATCH 099/106] fix: writers reported success when the file could not
 be written

---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 source/IOHaptics/src/IOStream.cpp | 2 +-
 source/Tools/src/OHMData.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index b4dbbe2..7aacfb7 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -96,7 +96,7 @@ auto IOBinary::writeFile(types::Haptics &haptic, const std::string &filePath) ->
   IOBinaryPrimitives::writeBitset(output, file);
 
   file.close();
-  return res;
+  return res && !file.fail();
 }
 
 auto IOBinary::readFileHeader(types::Haptics &haptic, std::istream &file,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 9c8f38f..c953de5 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -59,7 +59,7 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
   }
 
   file.close();
-  return success;
+  return success && !file.fail();
 }
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 18c436e..5404a5a 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -200,7 +200,7 @@ auto OHMData::writeFile(const std::string &filePath) -> bool {
     }
   }
   file.close();
-  return true;
+  return !file.fail();
 }
 
 [[nodiscard]] auto OHMData::getVersion() const -> short { return version; }
-- 
2.43.0


From c78adcef1f5b2e4850b478604485497c2e44f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:51 +0000
Subject: [PATCH 100/106] fix: encoder and synthesizer: unusable option values
 ended the tools with an exception

---
 source/Encoder/src/main.cpp     | 5 ++++-
 source/Synthesizer/src/main.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index b831d54..126b411 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -101,7 +101,7 @@ auto help() -> void {
 }
 
 // NOLINTNEXTLINE
-auto main(int argc, char *argv[]) -> int {
+auto main(int argc, char *argv[]) -> int try {
   const auto args = std::vector<const char *>(argv, argv + argc);
   InputParser inputParser(args);
   if (inputParser.cmdOptionExists("-h") || inputParser.cmdOptionExists("--help")) {
@@ -305,4 +305,7 @@ auto main(int argc, char *argv[]) -> int {
   }
 
   return codeExit;
+} catch (const std::exception &e) { // e.g. an option's value that is not a number
+  std::cerr << e.what() << std::endl;
+  return EXIT_FAILURE;
 }
\ No newline at end of file
diff --git a/source/Synthesizer/src/main.cpp b/source/Synthesizer/src/main.cpp
index dad77e8..08a45ad 100644
--- a/source/Synthesizer/src/main.cpp
+++ b/source/Synthesizer/src/main.cpp
@@ -76,7 +76,7 @@ void help() {
 }
 
 // NOLINTNEXTLINE(bugprone-exception-escape)
-auto main(int argc, char *argv[]) -> int {
+auto main(int argc, char *argv[]) -> int try {
   const auto args = std::vector<const char *>(argv, argv + argc);
   InputParser inputParser(args);
   if (inputParser.cmdOptionExists("-h") || inputParser.cmdOptionExists("--help")) {
@@ -157,4 +157,7 @@ auto main(int argc, char *argv[]) -> int {
   }
 
   return EXIT_SUCCESS;
+} catch (const std::exception &e) { // e.g. an option's value that is not a number
+  std::cerr << e.what() << std::endl;
+  return EXIT_FAILURE;
 }
-- 
2.43.0


From ff4505c8fd1ba8a470f927e739906d5cf9f2f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:51 +0000
Subject: [PATCH 101/106] fix: success was reported when a WAV file could not
 be written

---
 source/Tools/src/WavParser.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/Tools/src/WavParser.cpp b/source/Tools/src/WavParser.cpp
index 7d29bf1..ab021fb 100644
--- a/source/Tools/src/WavParser.cpp
+++ b/source/Tools/src/WavParser.cpp
@@ -80,7 +80,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
   format.channels = 1;
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (!(bool)drwav_init_file_write(&wav, filename.c_str(), &format, nullptr)) {
+    return false;
+  }
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size());
   std::transform(buff.begin(), buff.end(), b_int.begin(), [](double v) -> uint16_t {
@@ -93,13 +95,17 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
     }
     return (uint16_t)v_scaled;
   });
-  drwav_write_pcm_frames(&wav, b_int.size(), b_int.data());
-  drwav_uninit(&wav);
-  return true;
+  const bool written =
+      drwav_write_pcm_frames(&wav, b_int.size(), b_int.data()) == b_int.size();
+  return drwav_uninit(&wav) == DRWAV_SUCCESS && written;
 }
 
 auto WavParser::saveFile(const std::string &filename, const std::vector<std::vector<double>> &buff,
                          int sampleRate) -> bool {
+  if (buff.empty()) {
+    std::cerr << "There is no output channel" << std::endl;
+    return false;
+  }
   size_t s = buff.at(0).size();
   for (uint32_t i = 1; i < buff.size(); i++) {
     if (buff.at(i).size() != s) {
@@ -114,7 +120,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
   format.channels = buff.size();
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (!(bool)drwav_init_file_write(&wav, filename.c_str(), &format, nullptr)) {
+    return false;
+  }
 
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size() * buff.at(0).size());
@@ -132,9 +140,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
     }
     c++;
   }
-  drwav_write_pcm_frames(&wav, b_int.size() / buff.size(), b_int.data());
-  drwav_uninit(&wav);
-  return true;
+  const size_t frames = b_int.size() / buff.size();
+  const bool written = drwav_write_pcm_frames(&wav, frames, b_int.data()) == frames;
+  return drwav_uninit(&wav) == DRWAV_SUCCESS && written;
 }
 
 auto WavParser::getSamplerate() const -> uint32_t { return sampleRate; }
-- 
2.43.0


From 0fa9ccb5d798048d5c0294ed06a6fba3a0a6a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:51 +0000
Subject: [PATCH 102/106] fix: encoder: a WAV file that could not be read gave
 an empty document and success

---
 source/Encoder/src/PcmEncoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/PcmEncoder.cpp b/source/Encoder/src/PcmEncoder.cpp
index e3d4f4c..2b941cd 100644
--- a/source/Encoder/src/PcmEncoder.cpp
+++ b/source/Encoder/src/PcmEncoder.cpp
@@ -53,7 +53,9 @@ namespace haptics::encoder {
 auto PcmEncoder::encode(std::string &filename, EncodingConfig &config, const unsigned int timescale,
                         Perception &out) -> int {
   WavParser wavParser;
-  wavParser.loadFile(filename);
+  if (!wavParser.loadFile(filename)) {
+    return EXIT_FAILURE;
+  }
   size_t numChannels = wavParser.getNumChannels();
   Channel myChannel;
   auto channelsSize = out.getChannelsSize();
-- 
2.43.0


From e06a609767129b64dc9603e135c84aaf2624ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:27 +0000
Subject: [PATCH 103/106] fix: encoder: timescales below 1 were not refused

---
 source/Encoder/src/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 126b411..7942ae7 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -158,7 +158,12 @@ auto main(int argc, char *argv[]) -> int try {
 
   Haptics hapticFile;
   if (inputParser.cmdOptionExists("-ts")) {
-    hapticFile.setTimescale(std::stoi(inputParser.getCmdOption("-ts")));
+    const int timescale = std::stoi(inputParser.getCmdOption("-ts"));
+    if (timescale <= 0) {
+      help();
+      return EXIT_FAILURE;
+    }
+    hapticFile.setTimescale(timescale);
   } else {
     // NOLINTNEXTLINE
     hapticFile.setTimescale(1000);
-- 
2.43.0


From 3b344786166178ad123f7ae68c78a5c2bea51f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:27 +0000
Subject: [PATCH 104/106] fix: encoder: elements of an OHM file of an unknown
 kind were silently left out

---
 source/Encoder/src/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 7942ae7..1218e29 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -234,6 +234,8 @@ auto main(int argc, char *argv[]) -> int try {
         }
         codeExit =
             PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
+      } else {
+        codeExit = EXIT_FAILURE;
       }
 
       if (codeExit == EXIT_SUCCESS) {
-- 
2.43.0


From 7ac1d947cb5427c65a63e1dd4a512520f5756b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:27 +0000
Subject: [PATCH 105/106] fix: encoder: wavelet block lengths that are no power
 of two were written out of bounds

---
 source/Encoder/include/PcmEncoder.h | 1 +
 source/Encoder/src/PcmEncoder.cpp   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/source/Encoder/include/PcmEncoder.h b/source/Encoder/include/PcmEncoder.h
index ce23c2c..a90696c 100644
--- a/source/Encoder/include/PcmEncoder.h
+++ b/source/Encoder/include/PcmEncoder.h
@@ -53,6 +53,7 @@ static constexpr int BITR_16 = 16;
 static constexpr int BITR_64 = 64;
 static constexpr double DEFAULT_CUTOFF_FREQUENCY = 72.5;
 static constexpr int DEFAULT_BLOCK_LENGTH_SMP = 1024; // in samples
+static constexpr int MIN_BLOCK_LENGTH_SMP = 8;        // in samples
 static constexpr int DEFAULT_BIT_BUDGET = 16;
 static constexpr double PARAM_A = -6.506;
 static constexpr double PARAM_B = 3.433;
diff --git a/source/Encoder/src/PcmEncoder.cpp b/source/Encoder/src/PcmEncoder.cpp
index 2b941cd..0cc6167 100644
--- a/source/Encoder/src/PcmEncoder.cpp
+++ b/source/Encoder/src/PcmEncoder.cpp
@@ -52,6 +52,11 @@ namespace haptics::encoder {
 
 auto PcmEncoder::encode(std::string &filename, EncodingConfig &config, const unsigned int timescale,
                         Perception &out) -> int {
+  const int bl = config.wavelet_blockLength;
+  if (config.wavelet_enabled && (bl < MIN_BLOCK_LENGTH_SMP || (bl & (bl - 1)) != 0)) {
+    std::cerr << "The wavelet block length has to be a power of two" << std::endl;
+    return EXIT_FAILURE;
+  }
   WavParser wavParser;
   if (!wavParser.loadFile(filename)) {
     return EXIT_FAILURE;
-- 
2.43.0


From d7ca193babc6597c2fb43feedcf38dea8738ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 106/106] fix: encoder: cutoff frequency and block length were
 ignored when no bitrate or budget was given

---
 source/Encoder/src/main.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 1218e29..52fccf3 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -229,8 +229,10 @@ auto main(int argc, char *argv[]) -> int try {
           }
 
         } else {
-          config = haptics::encoder::EncodingConfig::generateDefaultConfig(enable_wavelet,
-                                                                           enable_vectorial);
+          config = haptics::encoder::EncodingConfig::generateConfigBudget(
+              haptics::encoder::DEFAULT_BIT_BUDGET, cutoff.value(), enable_wavelet,
+              enable_vectorial,
+              blocklength.value_or(haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP));
         }
         codeExit =
             PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
@@ -271,8 +273,9 @@ auto main(int argc, char *argv[]) -> int try {
             budget.value(), cutoff.value(), enable_wavelet, enable_vectorial);
       }
     } else {
-      config =
-          haptics::encoder::EncodingConfig::generateDefaultConfig(enable_wavelet, enable_vectorial);
+      config = haptics::encoder::EncodingConfig::generateConfigBudget(
+          haptics::encoder::DEFAULT_BIT_BUDGET, cutoff.value(), enable_wavelet, enable_vectorial,
+          blocklength.value_or(haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP));
     }
     codeExit =
         PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
-- 
2.43.0

