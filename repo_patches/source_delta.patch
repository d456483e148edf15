From c74dd5d01434a4ccc09525b5834f91658c667755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:12 +0000
Subject: [PATCH 01/95] fix: CDM::renameVariable must not remove the target
 when there is nothing to rename

---
 src/CDM.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index 5653948..15ebccd 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -185,6 +185,10 @@ std::vector<std::string> CDM::findVariables(const std::string& attrName, const s
 bool CDM::renameVariable(const std::string& oldName, const std::string& newName)
 {
     pimpl_->coordsInitialized = false;
+    if (!hasVariable(oldName))
+        return false;
+    if (oldName == newName)
+        return true;
     // change variable in VarVec variables and variableNames as keys in StrAttrVecMap attributes
     try {
         removeVariable(newName); // make sure none of the same name exists
-- 
2.43.0


From 23c086e4801e280bab957f37d3a4db7b748187de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:12 +0000
Subject: [PATCH 02/95] fix: CDM::renameDimension to the same name must not
 remove the dimension

---
 src/CDM.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index 15ebccd..26e62a7 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -307,6 +307,7 @@ bool CDM::renameDimension(const std::string& oldName, const std::string& newName
 {
     pimpl_->coordsInitialized = false;
     if (!hasDimension(oldName)) return false;
+    if (oldName == newName) return true;
     if (hasDimension(newName)) {
         if (!ignoreInUse && testDimensionInUse(newName)) {
             throw CDMException("Cannot rename dimension to "+newName+". Name already in use and overwrite disabled.");
-- 
2.43.0


From 66bbbf04b0dc66d1d8df0fe9bffcb8c97d5d5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:12 +0000
Subject: [PATCH 03/95] fix: SliceBuilder range check must not overflow

---
 src/SliceBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SliceBuilder.cc b/src/SliceBuilder.cc
index 9f8f19f..a509e40 100644
--- a/src/SliceBuilder.cc
+++ b/src/SliceBuilder.cc
@@ -109,7 +109,7 @@ void SliceBuilder::getStartAndSize(const std::string & dimName, std::size_t& sta
 void SliceBuilder::setStartAndSize(const std::string & dimName, size_t start, size_t size)
 {
     size_t pos = getDimPos(dimName);
-    if ((!unlimited_.at(pos)) && maxSize_.at(pos) < (start + size)) {
+    if ((!unlimited_.at(pos)) && (start > maxSize_.at(pos) || size > maxSize_.at(pos) - start)) {
         throw out_of_range("slicebuilder: "+ dimName + " too large: start: " + type2string(start) + " size: " + type2string(size));
     }
     start_.at(pos) = start;
-- 
2.43.0


From 9c8a2e9a24d09c654a788094a153ca453a99336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:12 +0000
Subject: [PATCH 04/95] fix: reading a slice of in-memory data beyond the
 unlimited dimension is an error

---
 src/CDMReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index 17cf906..38a4778 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -253,6 +253,8 @@ DataPtr CDMReader::getDataSliceFromMemory(const CDMVariable& variable, size_t un
         if (cdm_->hasUnlimitedDim(variable)) {
             // cut out the unlimited dim data
             const auto sliceSize = product(getDimsSlice(variable.getName()));
+            if (unLimDimPos >= cdm_->getUnlimitedDim()->getLength())
+                throw CDMException("slice " + type2string(unLimDimPos) + " of variable " + variable.getName() + " is out of range");
             return createDataSlice(variable.getDataType(), *data, unLimDimPos * sliceSize, sliceSize);
         } else {
             return data->clone();
-- 
2.43.0


From aa2ae9098cede66c5628ee78a6b7a3fb8deccd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:12 +0000
Subject: [PATCH 05/95] fix: CDMExtractor::reduceDimension must check the
 bounds of the original dimension

---
 src/CDMExtractor.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 8cc28b2..6d2f1b3 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -259,9 +259,10 @@ void CDMExtractor::selectVariables(std::set<std::string> variables, bool addAuxi
 void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<std::size_t>& slices)
 {
     CDMDimension& dim = cdm_->getDimension(dimName);
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
     for (size_t sz : slices) {
-        if (sz > dim.getLength())
-            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(dim.getLength()));
+        if (sz >= orgLength)
+            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(orgLength));
     }
 
     // keep track of changes
@@ -279,6 +280,11 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 
 void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, size_t length)
 {
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
+    if (start > orgLength || length > orgLength - start)
+        throw CDMException("can't select range of dimension '" + dimName + "': " + type2string(start) + "+" + type2string(length) +
+                           " out of bounds: " + type2string(orgLength));
+
     std::set<std::size_t> useSlices;
     for (std::size_t i = 0; i < length; i++) {
         useSlices.insert(start+i);
-- 
2.43.0


From daf14076919b006009490469782508c5efd6bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:23 +0000
Subject: [PATCH 06/95] fix: CDMExtractor must interleave slices when a faster
 dimension has been split

---
 src/CDMExtractor.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 6d2f1b3..915f123 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -113,16 +113,20 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
         DimSlicesMap::iterator foundDim = dimSlices_.find(dim.getName());
         size_t sbStart, sbSize;
         sb.getStartAndSize(dimName, sbStart, sbSize);
-        if (foundDim == dimSlices_.end()) {
+        if (sbSize == 0 || (foundDim == dimSlices_.end() && slices.size() <= 1)) {
             // handle pure sb changes
             for (SliceBuilder& sliceb : slices)
                 sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
-        } else if (foundDim->second.empty()) {
-            for (SliceBuilder& sliceb : slices)
-                sliceb.setStartAndSize(dim.getName(), sbStart, 0);
         } else {
             // handle slices in chunks
-            const std::vector<std::size_t>& positions = foundDim->second;
+            std::vector<std::size_t> positions;
+            if (foundDim == dimSlices_.end()) {
+                // a faster dimension has been split, need to interleave
+                positions.resize(dim.getLength());
+                std::iota(positions.begin(), positions.end(), 0);
+            } else {
+                positions = foundDim->second;
+            }
             assert(positions.size() > sbStart);
             assert(positions.size() - sbStart >= sbSize);
             if (slices.size() <= 1) {
-- 
2.43.0


From 909a98b0597a5dc9eca0e850c0ede0eb52f5adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:08 +0000
Subject: [PATCH 07/95] fix: rounding to 64 bit integers must not go through
 int

---
 include/fimex/MathUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/MathUtils.h b/include/fimex/MathUtils.h
index 70789ae..aaf8f10 100644
--- a/include/fimex/MathUtils.h
+++ b/include/fimex/MathUtils.h
@@ -70,7 +70,7 @@ struct data_rounder;
 template <typename OUT, typename IN>
 struct data_rounder<OUT, IN, true>
 {
-    inline OUT operator()(const IN& in) const { return static_cast<OUT>(round(in)); }
+    inline OUT operator()(const IN& in) const { return static_cast<OUT>(std::llround(in)); }
 };
 
 template <typename OUT, typename IN>
-- 
2.43.0


From 57f7de724e621a2c21c5e07088d08326349c08ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:08 +0000
Subject: [PATCH 08/95] fix: conversion of undefined floating point values to
 integers must give the fill value

---
 src/DataImpl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index ead9534..a4f7c64 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -307,7 +307,9 @@ template <typename C>
 DataPtr DataImpl<C>::convertDataType(double oldFill, double oldScale, double oldOffset, UnitsConverter_p unitsConverter, CDMDataType newType,
                                      double newFill, double newScale, double newOffset)
 {
-    if (oldFill == newFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter)
+    // nan has no integer representation and needs to be translated to the fill value
+    const bool keepsNaN = (std::numeric_limits<C>::is_integer || newType == CDM_FLOAT || newType == CDM_DOUBLE);
+    if (oldFill == newFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter && keepsNaN)
         return convertValues(*this, newType);
 
     // clang-format off
-- 
2.43.0


From 5988b1395ebdbe71d33a394002d059a870d590e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:17 +0000
Subject: [PATCH 09/95] fix: a default fill value not representable in the
 integer type must not match other values

---
 include/fimex/DataUtils.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/fimex/DataUtils.h b/include/fimex/DataUtils.h
index 22fa518..695503e 100644
--- a/include/fimex/DataUtils.h
+++ b/include/fimex/DataUtils.h
@@ -30,8 +30,21 @@
 #include "fimex/CDMDataType.h"
 #include "fimex/DataDecl.h"
 
+#include <limits>
+#include <type_traits>
+
 namespace MetNoFimex {
 
+/**
+ * Type for comparing values with a fill value. The fill value is always given as double, and might not be
+ * representable as integer, e.g. when out of range for 64 bit integers.
+ */
+template <typename T>
+struct FillCompare
+{
+    typedef typename std::conditional<std::numeric_limits<T>::is_integer, double, T>::type type;
+};
+
 /**
  * Scale a value using fill, offset and scale
  */
@@ -39,14 +52,14 @@ template <typename IN, typename OUT>
 class ScaleValue
 {
 private:
-    IN oldFill_;
+    typename FillCompare<IN>::type oldFill_;
     double oldScaleNewScaleInv_;
     double oldOffsetMinusNewOffsetNewScaleInv_;
     OUT newFill_;
 
 public:
     ScaleValue(double oldFill, double oldScale, double oldOffset, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : oldFill_(static_cast<typename FillCompare<IN>::type>(oldFill))
         , oldScaleNewScaleInv_(oldScale / newScale)
         , oldOffsetMinusNewOffsetNewScaleInv_((oldOffset - newOffset) / newScale)
         , newFill_(static_cast<OUT>(newFill))
@@ -68,7 +81,7 @@ template <typename IN, typename OUT>
 class ScaleValueUnits
 {
 private:
-    IN oldFill_;
+    typename FillCompare<IN>::type oldFill_;
     double oldScale_;
     double oldOffset_;
     UnitsConverter_p uconv_;
@@ -78,7 +91,7 @@ private:
 
 public:
     ScaleValueUnits(double oldFill, double oldScale, double oldOffset, UnitsConverter_p uconv, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : oldFill_(static_cast<typename FillCompare<IN>::type>(oldFill))
         , oldScale_(oldScale)
         , oldOffset_(oldOffset)
         , uconv_(uconv)
-- 
2.43.0


From 8ba0f01db0aa8656325bdc8caf377a09a462e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:29 +0000
Subject: [PATCH 10/95] fix: an ncml document with several aggregations must
 use the first one

---
 src/NcmlAggregationReader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NcmlAggregationReader.cc b/src/NcmlAggregationReader.cc
index 42dbd35..cdf13d6 100644
--- a/src/NcmlAggregationReader.cc
+++ b/src/NcmlAggregationReader.cc
@@ -93,9 +93,10 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
             LOG4FIMEX(logger, Logger::DEBUG, "reading file '" << file << "' type '" << type << "' config '" << config << "'");
             reader_ = CDMFileReaderFactory::create(type, file, config);
         }
-    } else if (nodesAgg.size() > 1) {
-        LOG4FIMEX(logger, Logger::WARN, "found several ncml-aggregations in " << ncml.id() << ", using 1st");
     } else {
+        if (nodesAgg.size() > 1) {
+            LOG4FIMEX(logger, Logger::WARN, "found several ncml-aggregations in " << ncml.id() << ", using 1st");
+        }
         const auto aggType = getXmlProp(nodesAgg[0], "type");
         auto agg = std::make_shared<AggregationReader>(aggType);
         const bool aggJoinNew = agg->aggType() == AggregationReader::AGG_JOIN_NEW;
-- 
2.43.0


From 91eee995c254f56bb8b36857c2a104434af064f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:29 +0000
Subject: [PATCH 11/95] fix: default joinNew coordinate values of scanned files
 must be distinct

---
 src/NcmlAggregationReader.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/NcmlAggregationReader.cc b/src/NcmlAggregationReader.cc
index cdf13d6..4e9bfc5 100644
--- a/src/NcmlAggregationReader.cc
+++ b/src/NcmlAggregationReader.cc
@@ -134,7 +134,6 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
         }
 
         // open reader by scan
-        idx = 0;
         const XPathNodeSet nodesScan(doc, "./nc:scan", nodesAgg[0]);
         for (auto node : nodesScan) {
             const auto dateFormatMark = getXmlProp(node, "dateFormatMark");
@@ -164,11 +163,11 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
                     if (aggJoinNew)
                         coordValue = "location_" + type2string(idx);
                     agg->addReader(CDMFileReaderFactory::create(type, fileName, config), fileName, coordValue);
+                    idx += 1;
                 } catch (CDMException& ex) {
                     LOG4FIMEX(logger, Logger::ERROR, "cannot read scanned file '" << fileName << "' type: " << type << ", config: " << config);
                 }
             }
-            idx += 1;
         }
         agg->initAggregation();
         reader_ = agg;
-- 
2.43.0


From 03875fb3e124554716a6482060efd4a4b2c34051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:29 +0000
Subject: [PATCH 12/95] fix: joinNew slices of missing variables must not
 include the joined dimension

---
 src/AggregationReader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index f8c0bb9..905ec9a 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -447,7 +447,9 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
                     // set everything to fillValue
                     size_t unLimSliceSize = 1;
                     for (const auto& dim : aVar.getShape()) {
-                        unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        if (dim != joinNewDim) {
+                            unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        }
                     }
                     return createData(aVar.getDataType(), unLimSliceSize, cdm_->getFillValue(varName));
                 }
-- 
2.43.0


From b1fd0f387f4387a4c9f7ddde9ea19a2feab79c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:29 +0000
Subject: [PATCH 13/95] fix: joinNew must not use in-memory data of one reader
 for joined variables

---
 src/AggregationReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 905ec9a..af199cb 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -142,6 +142,7 @@ void AggregationReader::addFirstReader(CDMReader_p reader, const std::string& id
                 auto shape = var.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 var.setShape(shape);
+                var.setData(nullptr); // in-memory data are only from this reader
             }
         }
 
@@ -263,6 +264,7 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
                 auto shape = rVar.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 aVar.setShape(shape);
+                aVar.setData(nullptr); // in-memory data are only from this reader
                 aCdm.addVariable(aVar);
                 copyAttributes(rCdm, varName, *cdm_);
             }
-- 
2.43.0


From 083c25a662bf9861c53320225ec408b77ca9d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:29 +0000
Subject: [PATCH 14/95] fix: aggregated variables without unlimited dimension
 must be read completely

---
 src/AggregationReader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index af199cb..3a4daa5 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -463,6 +463,11 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
 
     // all other variables behave as for "union"
     if (auto rd = findUnionReader(varName)) {
+        const CDM& rCdm = rd->getCDM();
+        if (!cdm_->hasUnlimitedDim(aVar) && rCdm.hasUnlimitedDim(rCdm.getVariable(varName))) {
+            // dimension is no longer unlimited in the aggregation
+            return rd->getDataSlice(varName, SliceBuilder(rCdm, varName));
+        }
         return rd->getDataSlice(varName, unLimDimPos);
     }
 
-- 
2.43.0


From b1ebaf234cef9c5ddfb4e332c12edbde2cfd73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:52 +0000
Subject: [PATCH 15/95] fix: aggregation must not add dimensions of variables
 it rejects

---
 src/AggregationReader.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 3a4daa5..4fdb0bc 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -231,12 +231,13 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
                     // variable already in CDM from another reader; all other checks in getData
                 } else if (rCdm.hasUnlimitedDim(rVar)) {
                     bool dimsOk = true;
+                    std::vector<std::string> newDims;
                     for (const auto& rDimName : rVar.getShape()) {
                         if (rDimName == rUdim->getName()) {
                             continue;
                         }
                         if (!aCdm.hasDimension(rDimName)) {
-                            aCdm.addDimension(rCdm.getDimension(rDimName));
+                            newDims.push_back(rDimName);
                         } else if (aCdm.getDimension(rDimName).getLength() != rCdm.getDimension(rDimName).getLength()) {
                             dimsOk = false;
                             LOG4FIMEX(logger, Logger::DEBUG, "dim '" << rDimName << "' from reader '" << id << "' has length mismatch");
@@ -244,6 +245,9 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
                     }
 
                     if (dimsOk) {
+                        for (const auto& rDimName : newDims) {
+                            aCdm.addDimension(rCdm.getDimension(rDimName));
+                        }
                         copyVar(rCdm, rVar, aCdm);
                         const auto& rVarName = rVar.getName();
                         cdm_->getVariable(rVarName).setData(nullptr);
@@ -291,6 +295,7 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
 
         // check that dimensions of shape have same length
         bool dimsOk = true;
+        std::vector<std::string> newDims;
         for (const auto& rshpdim : rVar.getShape()) {
             const auto& rDim = rCdm.getDimension(rshpdim);
             if (aCdm.hasDimension(rshpdim)) {
@@ -306,12 +311,15 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
                 dimsOk = false;
                 LOG4FIMEX(logger, Logger::WARN, "two unlimited dimensions: " << rDim.getName() << " at " << id);
             } else {
-                aCdm.addDimension(rDim); // FIXME this should wait until all dims are checked
+                newDims.push_back(rshpdim);
             }
         }
         if (dimsOk) {
             LOG4FIMEX(logger, Logger::DEBUG, "adding union var '" << rVarName << "' from reader '" << id << "'");
             unionReaders_[rVarName] = readerIndex;
+            for (const auto& newDim : newDims) {
+                aCdm.addDimension(rCdm.getDimension(newDim));
+            }
             copyVar(rCdm, rVar, aCdm);
         }
     }
-- 
2.43.0


From 05c47675b34141e2f82d48e673e728aa44669876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:19 +0000
Subject: [PATCH 16/95] fix: ncml attribute renaming must not use a reference
 to a removed attribute

---
 src/NcmlCDMReader.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 6642c75..72d7fd4 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -501,9 +501,11 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(CDM::globalAttributeNS(), orgName);
+                CDMAttribute attr = cdm_->getAttribute(CDM::globalAttributeNS(), orgName); // copy, removeAttribute invalidates references
+                cdm_->removeAttribute(CDM::globalAttributeNS(), orgName);
                 cdm_->removeAttribute(CDM::globalAttributeNS(), name); // remove other attributes with same name
                 attr.setName(name);
+                cdm_->addAttribute(CDM::globalAttributeNS(), attr);
             } catch (CDMException& ex) {
                 // no such attribute, don't care
             }
@@ -517,10 +519,11 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(varName, orgName);
+                CDMAttribute attr = cdm_->getAttribute(varName, orgName); // copy, removeAttribute invalidates references
+                cdm_->removeAttribute(varName, orgName);
                 cdm_->removeAttribute(varName, name); // remove other attributes with same name
                 attr.setName(name);
-
+                cdm_->addAttribute(varName, attr);
             } catch (CDMException& ex) {
                 // no such attribute, don't care
             }
-- 
2.43.0


From 3a1adbe959c9b1635df841c1f14e10f9283483ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:19 +0000
Subject: [PATCH 17/95] fix: data of variables renamed twice with ncml must
 come from the original variable

---
 src/NcmlCDMReader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 72d7fd4..b72e2b7 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -408,7 +408,11 @@ void NcmlCDMReader::initVariableNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for variable with orgName: " + orgName);
             cdm_->renameVariable(orgName, name);
-            variableNameChanges[name] = orgName;
+            // orgName might already be the result of renaming
+            const auto it = variableNameChanges.find(orgName);
+            const std::string sourceName = (it != variableNameChanges.end()) ? it->second : orgName;
+            variableNameChanges.erase(orgName);
+            variableNameChanges[name] = sourceName;
         }
     }
 
-- 
2.43.0


From 0f9551ea63edb0fb71b3e8ec2b8405ecbcfd67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:19 +0000
Subject: [PATCH 18/95] fix: data on dimensions renamed twice with ncml must be
 read completely

---
 src/NcmlCDMReader.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index b72e2b7..0742e8c 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -440,7 +440,16 @@ void NcmlCDMReader::initDimensionNameChange()
                 throw CDMException("ncml-file "+ configId + " has no new name for dimension with orgName: '" + orgName + "'");
             bool overwrite = (getXmlProp(node, "overwriteName") == "true");
             cdm_->renameDimension(orgName, newName, overwrite);
-            dimensionNameChanges[orgName] = newName;
+            // orgName might already be the result of renaming
+            bool renamedBefore = false;
+            for (auto& dnc : dimensionNameChanges) {
+                if (dnc.second == orgName) {
+                    dnc.second = newName;
+                    renamedBefore = true;
+                }
+            }
+            if (!renamedBefore)
+                dimensionNameChanges[orgName] = newName;
         }
     }
     // add dimensions not existing
-- 
2.43.0


From 9c95fab2bca31968c9c4f84e700689f7cdd4ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:52 +0000
Subject: [PATCH 19/95] fix: ncml shape changes must also apply to variables
 with data in memory

---
 src/NcmlCDMReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 0742e8c..62f1142 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -225,6 +225,8 @@ void NcmlCDMReader::initVariableShapeChange()
             CDMVariable& var = cdm_->getVariable(name);
             const std::vector<std::string> old_shape = var.getShape(); // no reference as it will be replaced
             const std::vector<std::string> fimex_shape = fimexShapeFromXmlNode(node);
+            if (fimex_shape != old_shape)
+                var.setData(nullptr); // data in memory have the old shape, fetch from dataReader
             var.setShape(fimex_shape);
             LOG4FIMEX(logger, Logger::DEBUG,
                       "changing shape of variable: " << name << " from " << join(old_shape.begin(), old_shape.end(), ",") << " to "
-- 
2.43.0


From 1a56fd6c254dd14064b8818cd296e31960285189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:52 +0000
Subject: [PATCH 20/95] fix: ncml prefetching must use the variable name, not
 the previous dimension name

---
 src/NcmlCDMReader.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 62f1142..867aa4b 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -477,9 +477,6 @@ void NcmlCDMReader::initDimensionUnlimited()
 {
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:dimension[@isUnlimited]")) {
         std::string name = getXmlProp(node, "name");
-        std::string orgName = getXmlProp(node, "orgName");
-        if (orgName.empty())
-            orgName = name;
         std::string isUnlimited = getXmlProp(node, "isUnlimited");
         if (cdm_->hasDimension(name)) {
             CDMDimension& dim = cdm_->getDimension(name);
@@ -490,7 +487,7 @@ void NcmlCDMReader::initDimensionUnlimited()
                     if (cdm_->hasVariable(name)) {
                         CDMVariable& var = cdm_->getVariable(name);
                         if (!var.hasData()) {
-                            var.setData(dataReader->getData(orgName));
+                            var.setData(dataReader->getData(name)); // variables are not renamed yet
                         }
                     }
                 }
-- 
2.43.0


From b7e9c44b9f2c3a951c85bea7fa1202aef4b8e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:52 +0000
Subject: [PATCH 21/95] fix: ncml _Unsigned attribute of variables must be
 found

---
 src/NcmlCDMReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 867aa4b..68af7fc 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -243,7 +243,7 @@ void NcmlCDMReader::initVariableTypeChange()
         if (name.empty())
             throw CDMException("ncml-file " + configId + " has no name for variable");
 
-        const XPathNodeSet nodes_att_unsigned(doc, "/nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
+        const XPathNodeSet nodes_att_unsigned(doc, "./nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
         bool att_unsigned = false;
         if (nodes_att_unsigned.size() == 1) {
             std::string att_unsigned_val = getXmlProp(nodes_att_unsigned.at(0), "value");
-- 
2.43.0


From 6b5271d41c96213dab51fa7819e06f70ad9703d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:11 +0000
Subject: [PATCH 22/95] fix: ncml types of new variables must be interpreted as
 for existing variables

---
 src/NcmlCDMReader.cc | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 68af7fc..a2711e1 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -235,6 +235,23 @@ void NcmlCDMReader::initVariableShapeChange()
     }
 }
 
+static CDMDataType variableType(XMLDoc_p doc, const std::string& configId, xmlNodePtr node, const std::string& name, const std::string& type)
+{
+    const XPathNodeSet nodes_att_unsigned(doc, "./nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
+    bool att_unsigned = false;
+    if (nodes_att_unsigned.size() == 1) {
+        std::string att_unsigned_val = getXmlProp(nodes_att_unsigned.at(0), "value");
+        if (att_unsigned_val == "true")
+            att_unsigned = true;
+        else if (att_unsigned_val != "false")
+            throw CDMException("ncml-file " + configId + " has invalid _Unsigned attribute value for variable '" + name + "'");
+    }
+    const CDMDataType dataType = datatype_ncml2cdm(type, att_unsigned);
+    if (dataType == CDM_NAT)
+        throw CDMException("cannot create variable name='" + name + "' with type '" + type + "'");
+    return dataType;
+}
+
 void NcmlCDMReader::initVariableTypeChange()
 {
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:variable[@type]")) {
@@ -243,20 +260,9 @@ void NcmlCDMReader::initVariableTypeChange()
         if (name.empty())
             throw CDMException("ncml-file " + configId + " has no name for variable");
 
-        const XPathNodeSet nodes_att_unsigned(doc, "./nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
-        bool att_unsigned = false;
-        if (nodes_att_unsigned.size() == 1) {
-            std::string att_unsigned_val = getXmlProp(nodes_att_unsigned.at(0), "value");
-            if (att_unsigned_val == "true")
-                att_unsigned = true;
-            else if (att_unsigned_val != "false")
-                throw CDMException("ncml-file " + configId + " has invalid _Unsigned attribute value for variable '" + name + "'");
-        }
         if (cdm_->hasVariable(name)) {
             CDMVariable& var = cdm_->getVariable(name);
-            const CDMDataType newType = datatype_ncml2cdm(type, att_unsigned);
-            if (newType == CDM_NAT)
-                throw CDMException("cannot create variable name='" + name + "' with type '" + type + "'");
+            const CDMDataType newType = variableType(doc, configId, node, name, type);
             if (newType != var.getDataType()) {
                 variableTypeChanges[name] = newType;
                 LOG4FIMEX(logger, Logger::DEBUG, "changing datatype of variable: " << name);
@@ -423,7 +429,7 @@ void NcmlCDMReader::initVariableNameChange()
         std::string name = getXmlProp(node, "name");
         std::string type = getXmlProp(node, "type");
         if (!type.empty() && !cdm_->hasVariable(name)) {
-            CDMDataType dataType = string2datatype(type);
+            const CDMDataType dataType = variableType(doc, configId, node, name, type);
             CDMVariable var(name, dataType, fimexShapeFromXmlNode(node));
             var.setData(createData(dataType, 0)); // this data cannot get fetched from the reader!
             cdm_->addVariable(var);
-- 
2.43.0


From 0cfc9098dfcc2caa75fec7e725d669f32bbdf942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:11 +0000
Subject: [PATCH 23/95] fix: accumulate and deaccumulate must also apply to
 block reads of variables with data in memory

---
 src/CDMProcessor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 850a525..0e766fd 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -386,6 +386,7 @@ void CDMProcessor::accumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->accumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(nullptr); // do not use unprocessed data from memory
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring accumulate");
     }
@@ -396,6 +397,7 @@ void CDMProcessor::deAccumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->deaccumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(nullptr); // do not use unprocessed data from memory
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring deaccumulate");
     }
-- 
2.43.0


From 73ac1698c4a8f511d0266921a0f574543f20b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:11 +0000
Subject: [PATCH 24/95] fix: accumulate and deaccumulate must not modify data
 of the source or of the cache

---
 src/CDMProcessor.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 0e766fd..3fc88d9 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -543,13 +543,14 @@ static void replaceNanWith0(shared_array<double> dp, size_t n)
 static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep) {
     if ((data->size() != 0) && (dataP->size() != 0)) {
         assert(data->size() == dataP->size());
-        auto d = data->asDouble();
+        // modify copies only, asDouble may share data with the reader or the cache
+        auto d = data->clone()->asDouble();
         auto dp = dataP->asDouble();
         if (addingFirstTimeStep) {
             // in step 0, replace undef with 0
+            dp = dataP->clone()->asDouble();
             replaceNanWith0(dp, dataP->size());
         }
-        // this might modify the original data in the reader
         std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::plus<double>());
         data = createData(data->size(), d);
     } else if (dataP->size() != 0) {
@@ -639,13 +640,14 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             DataPtr dataP = p_->dataReader->getDataSlice(varName, unLimDimPos-1);
             if ((data->size() != 0) && (dataP->size() != 0)) {
                 assert(data->size() == dataP->size());
-                auto d = data->asDouble();
+                // modify copies only, asDouble may share data with the reader or the cache
+                auto d = data->clone()->asDouble();
                 auto dp = dataP->asDouble();
                 if (unLimDimPos == 1) {
                     // in step 0, replace undef with 0
+                    dp = dataP->clone()->asDouble();
                     replaceNanWith0(dp, dataP->size());
                 }
-                // this might modify the original data in the reader
                 std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::minus<double>());
                 data = createData(data->size(), d);
             }
-- 
2.43.0


From 88d20bb31dcde1764ada08c7df884c9186393295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:49 +0000
Subject: [PATCH 25/95] fix: data2InterpolationArray must not modify its input
 data

---
 include/fimex/CDMInterpolator.h | 2 +-
 src/CDMInterpolator.cc          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fimex/CDMInterpolator.h b/include/fimex/CDMInterpolator.h
index f4449c9..eb4afe8 100644
--- a/include/fimex/CDMInterpolator.h
+++ b/include/fimex/CDMInterpolator.h
@@ -289,7 +289,7 @@ public:
 };
 
 /**
- * convert the data inplace to an array useful for interpolation (i.e. badValue->nan)
+ * copy the data to an array useful for interpolation (i.e. badValue->nan)
  * @param inData
  * @param badValue
  * @return
diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index aa4a894..a0c2028 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -139,7 +139,8 @@ CDMInterpolator::~CDMInterpolator()
 
 shared_array<float> data2InterpolationArray(const DataPtr& inData, double badValue)
 {
-    auto array = inData->asFloat();
+    // asFloat() shares memory with float-data, the input must not be modified
+    auto array = inData->clone()->asFloat();
     mifi_bad2nanf(&array[0], &array[inData->size()], badValue);
     return array;
 }
-- 
2.43.0


From 6020f48ab8c0ba66774ae941f0ad735d829fc56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:49 +0000
Subject: [PATCH 26/95] fix: CDMTimeInterpolator must forward reads when the
 time-axis was not changed

---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 7b2779e..78b252b 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -92,7 +92,7 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
 {
     const std::string timeAxis = getTimeAxis(coordSystems_, varName);
     LOG4FIMEX(logger, Logger::DEBUG, "getting time-interpolated data-slice for " << varName << " with time-axis: " << timeAxis);
-    if (timeAxis.empty() || (dataReaderTimesInNewUnits_.find(timeAxis)->second.size() == 0)) {
+    if (timeAxis.empty() || dataReaderTimesInNewUnits_.find(timeAxis) == dataReaderTimesInNewUnits_.end()) {
         // not time-axis or "changeTimeAxis" never called
         // no changes, simply forward
         return dataReader_->getDataSlice(varName, unLimDimPos);
-- 
2.43.0


From eff20d9771aac564f9d1347485e64a90c783b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:49 +0000
Subject: [PATCH 27/95] fix: time interpolation must respect fill values and
 the type of the variable

---
 src/CDMTimeInterpolator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 78b252b..5deb114 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -28,6 +28,7 @@
 
 #include "fimex/CDM.h"
 #include "fimex/CDMException.h"
+#include "fimex/CDMInterpolator.h"
 #include "fimex/Data.h"
 #include "fimex/DataUtils.h"
 #include "fimex/Logger.h"
@@ -123,9 +124,11 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
         } else if (d2->size() == 0) {
             data = d1;
         } else if (d1->size() == d2->size()) {
+            const double badValue = cdm_->getFillValue(varName);
             auto out = make_shared_array<float>(d1->size());
-            mifi_get_values_linear_weak_extrapol_f(d1->asFloat().get(), d2->asFloat().get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
-            data = createData(d1->size(), out);
+            mifi_get_values_linear_weak_extrapol_f(data2InterpolationArray(d1, badValue).get(), data2InterpolationArray(d2, badValue).get(), out.get(),
+                                                   d1->size(), d1Time, d2Time, currentTime);
+            data = interpolationArray2Data(variable.getDataType(), out, d1->size(), badValue);
         } else {
             throw CDMException("getDataSlice for " + varName + ": got slices with different size");
         }
-- 
2.43.0


From 590d989d4cbe149458dd7372b750193685165b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:49 +0000
Subject: [PATCH 28/95] fix: changing the time-axis again must use the units of
 the original times

---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 5deb114..ad1872e 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -153,7 +153,7 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
         if (!timeDimName.empty() && changedTimes.find(timeDimName) == changedTimes.end()) {
             changedTimes.insert(timeDimName); // avoid double changes
             DataPtr times = dataReader_->getScaledData(timeDimName);
-            string unit = cdm_->getUnits(timeDimName);
+            string unit = orgCDM.getUnits(timeDimName);
             const TimeUnit tu(unit);
             vector<FimexTime> oldTimes;
             auto oldTimesPtr = times->asDouble();
-- 
2.43.0


From fd22bf968efeec32d69813a64c37ba49072c8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:49 +0000
Subject: [PATCH 29/95] fix: time interpolation must find the surrounding times
 also for new times which are not ascending

---
 src/CDMTimeInterpolator.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index ad1872e..559b8d7 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -165,10 +165,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             // create mapping of new time value positions to old time values (per time-axis)
             const vector<FimexTime>& newTimes = ts.getTimeSteps();
             size_t newTimePos = 0;
-            size_t lastPos = 0;
             vector<pair<size_t, size_t> > timeMapping(newTimes.size());
             for (vector<FimexTime>::const_iterator it = newTimes.begin(); it != newTimes.end(); ++it, ++newTimePos) {
-                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin() + lastPos, oldTimes.end(), *it);
+                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin(), oldTimes.end(), *it);
                 size_t pos = distance(oldTimes.begin(), olb);
                 size_t t1, t2;
                 if (pos == oldTimes.size()) {
@@ -186,7 +185,6 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
                         assert(oldTimes.size() == 1);
                     }
                 }
-                lastPos = pos; // make search faster, we know that the next lower_bound_pos will be >= pos
                 timeMapping[newTimePos] = make_pair(t1,t2);
             }
             timeChangeMap_[timeDimName] = timeMapping;
-- 
2.43.0


From c4343538be86e149302b622e8cd9a91423b5a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:05 +0000
Subject: [PATCH 30/95] fix: relative times x-n must be subtracted from the
 last time

---
 src/TimeSpec.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index d855878..67bfb5b 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -59,7 +59,7 @@ static double translateRelativeTime(string value, double startOffset, double fin
 {
     double retVal = 0.;
     std::smatch what;
-    std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+    std::regex finalVals("x\\s*([+-])?\\s*(\\d+\\.?\\d*)?\\s*");
     if (std::regex_search(value, what, finalVals)) {
         assert(what.size() == 3); // defined by regex
         if (what[2] == "") {
@@ -68,9 +68,10 @@ static double translateRelativeTime(string value, double startOffset, double fin
         } else {
             if (what[1] == '+') {
                 retVal = finalValue + string2type<double>(what[2]);
-            } else if (what[1] != "-") {
+            } else if (what[1] == '-') {
                 retVal = finalValue - string2type<double>(what[2]);
             } else {
+                retVal = finalValue;
                 LOG4FIMEX(logger, Logger::WARN,
                           "translateRelativeTime(" << value << "," << startOffset << "," << finalValue << ")=" << retVal << " ignoring value after x");
             }
-- 
2.43.0


From 88273a24f5428b93f3f2021b3eed717a7a612634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:05 +0000
Subject: [PATCH 31/95] fix: ... expansion must end for equal values and be
 rejected as last element

---
 include/fimex/TokenizeDotted.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fimex/TokenizeDotted.h b/include/fimex/TokenizeDotted.h
index 2d23955..32f3ca4 100644
--- a/include/fimex/TokenizeDotted.h
+++ b/include/fimex/TokenizeDotted.h
@@ -60,12 +60,14 @@ std::vector<T> tokenizeDotted(const std::string& str, const std::string& delimit
                 T afterDotVal = string2type<T>(*tok);
                 // expand the dots until before the afterDotVal, compare against rounding error
                 double roundError = direction * dist * -1.e-5;
-                while ((curVal - afterDotVal) * direction < roundError) {
+                while (dist != 0 && (curVal - afterDotVal) * direction < roundError) {
                     vals.push_back(curVal);
                     curVal += dist;
                 }
                 // add the afterDotVal
                 vals.push_back(afterDotVal);
+            } else {
+                throw CDMException("tokenizeDotted: ... expansion needs a value after the dots");
             }
         } else {
             T val = string2type<T>(current);
-- 
2.43.0


From 6e6e24089947ae667745b231a9b911255d8aa4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:59 +0000
Subject: [PATCH 32/95] fix: original times must stay exact in time
 interpolation

---
 src/CDMTimeInterpolator.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 559b8d7..1334cec 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -200,15 +200,11 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             timeVar.setData(createData(newTimes.size(), timeData));
             cdm_->getDimension(timeDimName).setLength(newTimes.size());
 
-            // store old times with new unit as oldTimesNewUnits-vector
-            Units u;
-            double slope, offset;
-            u.convert(ts.getUnitString(), unit, slope, offset);
-            dataReaderTimesInNewUnits_[timeDimName].clear();
-            transform(oldTimesPtr.get(),
-                      oldTimesPtr.get() + nEl,
-                      back_inserter(dataReaderTimesInNewUnits_[timeDimName]),
-                      ScaleValue<double,double>(MIFI_UNDEFINED_D, 1., 0., cdm_->getFillValue(timeDimName), slope, offset));
+            // store old times with new unit as oldTimesNewUnits-vector, calculated exactly as the new times
+            std::vector<double>& oldTimesNewUnits = dataReaderTimesInNewUnits_[timeDimName];
+            oldTimesNewUnits.clear();
+            std::transform(oldTimes.begin(), oldTimes.end(), std::back_inserter(oldTimesNewUnits),
+                           [newTU](const FimexTime& ft) { return newTU.fimexTime2unitTime(ft); });
         }
     }
 }
-- 
2.43.0


From 92804556c3abb1e09190698f1974b1cb2ad2f0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:41 +0000
Subject: [PATCH 33/95] fix: CDMInterpolator returned in-memory data of the
 source grid for interpolated variables

---
 src/CDMInterpolator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index a0c2028..4751edb 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -711,6 +711,11 @@ map<string, CoordinateSystem_cp> CDMInterpolator::findBestCoordinateSystemsAndPr
         LOG4FIMEX(logger, Logger::WARN, "removing variable " << *iv << " since it is not compatible with the reprojected coordinates");
         cdm_->removeVariable(*iv);
     }
+    for (const auto& pv : p_->projectionVariables) {
+        // data in memory belongs to the original grid, interpolated data must be read from dataReader
+        if (cdm_->hasVariable(pv.first))
+            cdm_->getVariable(pv.first).setData(DataPtr());
+    }
     if (logger->isEnabledFor(Logger::DEBUG)) {
         vector<string> pVars;
         pVars.reserve(p_->projectionVariables.size());
-- 
2.43.0


From c9b4f93a47c0ba36ee2b16ee73192013c4792568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:41 +0000
Subject: [PATCH 34/95] fix: slices of horizontally interpolated data when x
 and y are renamed

---
 src/CachedInterpolation.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index 5205c9c..6456c27 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -116,15 +116,11 @@ DataPtr CachedInterpolationInterface::getOutputDataSlice(DataPtr data, const Sli
     std::vector<size_t> startPos = sb.getDimensionStartPositions();
     std::vector<size_t> maxDims = sb.getMaxDimensionSizes();
     const std::vector<size_t>& dimSizes = sb.getDimensionSizes();
-    const std::vector<std::string> dimNames = sb.getDimensionNames();
-    for (size_t i = 0; i < dimSizes.size(); i++) {
-        const std::string& dn = dimNames[i];
-        const bool is_xy = (reducedDomain() ? (dn == reducedDomain()->xDim || dn == reducedDomain()->yDim) : (dn == _xDimName || dn == _yDimName));
-        if (!is_xy) {
-            // already sliced in getInputDataSlice
-            startPos.at(i) = 0;
-            maxDims.at(i) = dimSizes.at(i);
-        }
+    // x and y are the first two dimensions, see interpolateValues; their names might differ from those in the input
+    for (size_t i = 2; i < dimSizes.size(); i++) {
+        // already sliced in getInputDataSlice
+        startPos.at(i) = 0;
+        maxDims.at(i) = dimSizes.at(i);
     }
     return data->slice(maxDims, startPos, dimSizes);
 }
-- 
2.43.0


From 57249a7d56375ad45948d35c3da2219f42c06b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:41 +0000
Subject: [PATCH 35/95] fix: CDMInterpolator keeps changes of earlier
 projection when changing to lon/lat points

---
 src/CDMInterpolator.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 4751edb..4d1dd55 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -464,6 +464,11 @@ void CDMInterpolator::changeProjection(int method, const vector<double>& lonVals
         return;
     }
 
+    *cdm_ = p_->dataReader->getCDM(); // reset previous changes
+    p_->projectionVariables.clear();  // reset variables
+    p_->cachedInterpolation.clear();
+    p_->cachedVectorReprojection.clear();
+
     switch (method) {
     case MIFI_INTERPOL_NEAREST_NEIGHBOR:
     case MIFI_INTERPOL_BILINEAR:
@@ -572,6 +577,9 @@ void CDMInterpolator::changeProjectionToCrossSections(int method, const std::vec
             }
         }
     }
+    // do the real work of reprojection
+    changeProjection(method, lonVals, latVals);
+
     // add the additional information to separate the different cross-sections
     size_t nvcross = csNames.size();
     cdm_->addDimension(CDMDimension("two", 2));
@@ -608,9 +616,6 @@ void CDMInterpolator::changeProjectionToCrossSections(int method, const std::vec
     vcrossBnds.setData(createData(2*nvcross, vcrossBndsAry));
     cdm_->addVariable(vcrossBnds);
     cdm_->addAttribute(vcrossBnds.getName(), CDMAttribute("description", "start- and end-position (included) in lat- and lon-dimensions for each vert. cross-section"));
-
-    // do the real work of reprojection
-    changeProjection(method, lonVals, latVals);
 }
 
 
-- 
2.43.0


From 78a16723a91fc0301a3ff91c91be0b57f8944930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:48 +0000
Subject: [PATCH 36/95] fix: bilinear interpolation read beyond the last row

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 89e808e..3279d7b 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -319,7 +319,7 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
                 }
             } else {
                 y0 = lround(y);
-                if ((0 <= y0) && (y0 <= iy)) {
+                if ((0 <= y0) && (y0 < iy)) {
                     // nearest neighbor in y
                     size_t pos = mifi_3d_array_pos(x0, y0, 0, ix, iy, iz);
                     for (int z = 0; z < iz; ++z) {
-- 
2.43.0


From eea08bc09d0807f2755046c3c3be97e6b0cc2ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:53 +0000
Subject: [PATCH 37/95] fix: interpolation to points of longitude and latitude
 axes called x and y

---
 src/CDMInterpolator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 4d1dd55..f64d17d 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -1530,12 +1530,14 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
     const std::string yLongName("y-coordinate in Cartesian system");
     const std::string yAxisAtt("y");
 
+    if (!cdm.hasDimension(newXAxis))
+        cdm.addDimension(CDMDimension(newXAxis, out_x_axis.size()));
+    else
+        cdm.getDimension(newXAxis).setLength(out_x_axis.size());
     if (!cdm.hasVariable(newXAxis)) {
         // create dimension-variable
-        cdm.addDimension(CDMDimension(newXAxis, out_x_axis.size()));
         cdm.addVariable(CDMVariable(newXAxis, xAxisType, {newXAxis}));
     } else {
-        cdm.getDimension(newXAxis).setLength(out_x_axis.size());
         cdm.getVariable(newXAxis).setDataType(xAxisType);
     }
     cdm.addOrReplaceAttribute(newXAxis, CDMAttribute("axis", xAxisAtt));
@@ -1544,12 +1546,14 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
     cdm.addOrReplaceAttribute(newXAxis, CDMAttribute("units", out_x_axis_unit));
     cdm.getVariable(newXAxis).setData(createDataFromContainer(xAxisType, out_x_axis));
 
+    if (!cdm.hasDimension(newYAxis))
+        cdm.addDimension(CDMDimension(newYAxis, out_y_axis.size()));
+    else
+        cdm.getDimension(newYAxis).setLength(out_y_axis.size());
     if (!cdm.hasVariable(newYAxis)) {
         // create dimension-variable
-        cdm.addDimension(CDMDimension(newYAxis, out_y_axis.size()));
         cdm.addVariable(CDMVariable(newYAxis, yAxisType, {newYAxis}));
     } else {
-        cdm.getDimension(newYAxis).setLength(out_y_axis.size());
         cdm.getVariable(newYAxis).setDataType(yAxisType);
     }
     cdm.addOrReplaceAttribute(newYAxis, CDMAttribute("axis", yAxisAtt));
-- 
2.43.0


From cc5daf5af931db8bd14ace108e7d465f387333c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:30 +0000
Subject: [PATCH 38/95] fix: type changes by the netcdf writer configuration
 dropped scaling and fill values

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index cfe7ddb..75a700a 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -550,7 +550,7 @@ DataPtr NetCDF_CDMWriter::convertData(const CDMVariable& var, DataPtr data)
     const std::string oldUnit = cdmReader->getCDM().getUnits(varName);
     const std::string newUnit = cdm.getUnits(varName);
 
-    const CDMDataType oldType = var.getDataType();
+    const CDMDataType oldType = cdmReader->getCDM().getVariable(varName).getDataType();
     const std::map<std::string, CDMDataType>::const_iterator it = variableTypeChanges.find(varName);
     const CDMDataType newType = (it != variableTypeChanges.end()) ? it->second : oldType;
 
-- 
2.43.0


From 47a328beb3caabbcaa68dfd1b1f2be783b15d1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:30 +0000
Subject: [PATCH 39/95] fix: renaming the unlimited dimension in the netcdf
 writer configuration failed

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index 75a700a..dfb108e 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -94,12 +94,11 @@ int getNcVersion(int version, XMLDoc_p doc)
     return retVal;
 }
 
-int ncDimId(int ncId, const CDMDimension* unLimDim)
+int ncDimId(int ncId, const std::string& dimName)
 {
-    int unLimDimId = -1;
-    if (unLimDim)
-        NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncId, unLimDim->getName().c_str(), &unLimDimId)));
-    return unLimDimId;
+    int dimId = -1;
+    NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncId, dimName.c_str(), &dimId)));
+    return dimId;
 }
 
 void checkDoc(std::unique_ptr<XMLDoc>& doc, const std::string& filename)
@@ -582,7 +581,7 @@ DataPtr NetCDF_CDMWriter::convertData(const CDMVariable& var, DataPtr data)
 void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
 {
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
-    const int unLimDimId = ncDimId(ncFile->ncId, unLimDim);
+    const int unLimDimId = unLimDim ? ncDimId(ncFile->ncId, getDimensionName(unLimDim->getName())) : -1;
     const long long maxUnLim = (unLimDim == 0) ? 0 : unLimDim->getLength();
     const CDM::VarVec& cdmVars = cdm.getVariables();
 
-- 
2.43.0


From 1d2f48353f0f83baa2879f92a8b6c3b04045c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:13 +0000
Subject: [PATCH 40/95] fix: netcdf writer did not report failures while
 writing, synchronizing or closing

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index dfb108e..aeacd61 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -721,15 +721,22 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
                 } catch (std::exception& ex) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " while writing variable " << varName);
+                    exceptions = true;
                 } catch (...) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "unknown exception while writing variable " << varName);
+                    exceptions = true;
                 }
             }
         }
 #ifndef HAVE_MPI
         if (unLimDimPos >= 0) {
-            NCMUTEX_LOCKED(ncCheck(nc_sync(ncFile->ncId))); // sync every 'time/unlimited' step (does not work with MPI)
+            int status;
+            NCMUTEX_LOCKED(status = nc_sync(ncFile->ncId)); // sync every 'time/unlimited' step (does not work with MPI)
+            if (status != NC_NOERR) { // must not throw inside the parallel region
+                LOG4FIMEX(logger, Logger::ERROR, "error '" << nc_strerror(status) << "' while synchronizing file");
+                exceptions = true;
+            }
         }
 #endif
     }
@@ -747,6 +754,12 @@ void NetCDF_CDMWriter::init()
 
     // write data
     writeData(ncVarIdMap);
+
+    // buffered data are written on close, errors must not go unnoticed
+    int status;
+    NCMUTEX_LOCKED(status = nc_close(ncFile->ncId));
+    ncFile->isOpen = false;
+    ncCheck(status, "closing file " + outputFile);
 }
 
 NetCDF_CDMWriter::~NetCDF_CDMWriter() {}
-- 
2.43.0


From 872c9d0adfc348d486cfe8e5e00052632fe42b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:22 +0000
Subject: [PATCH 41/95] fix: no neighbouring levels found at and beyond the
 first level

---
 include/fimex/FindNeighborElements.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fimex/FindNeighborElements.h b/include/fimex/FindNeighborElements.h
index 7d7dd88..016e51e 100644
--- a/include/fimex/FindNeighborElements.h
+++ b/include/fimex/FindNeighborElements.h
@@ -55,7 +55,7 @@ find_closest_distinct_elements(InputIterator start, InputIterator end, typename
     if (start != end) {
         v1 = *start;
         v1Diff = abs(x - *start);
-        v2Diff = v1Diff;
+        v2Diff = numeric_limits<value_t>::max(); // no second element yet
     }
     for (InputIterator cur = start; cur != end; ++cur) {
         const value_t vDiff = abs(x - *cur);
@@ -104,7 +104,7 @@ find_closest_neighbor_distinct_elements(InputIterator start, InputIterator end,
     const double maxDiff = std::numeric_limits<value_t>::max();
     if (lowDiff < 0)
         lowDiff = maxDiff;
-    if (highDiff < 0)
+    if (highDiff <= 0) // an element equal to x is not above x
         highDiff = maxDiff;
     while (++cur != end) {
         const value_t diff = x - *cur;
-- 
2.43.0


From 49ad979e8d3fdc6b2f0d57bec9d6676a452b75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:22 +0000
Subject: [PATCH 42/95] fix: nearestneighbor between two levels always used the
 first level

---
 src/interpolation.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 3279d7b..d0b85fb 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -415,12 +415,8 @@ int mifi_get_values_bicubic_f(const float* infield, float* outvalues, const doub
 
 int mifi_get_values_nearest_f(const float* infieldA, const float* infieldB, float* outfield, const size_t n, const double a, const double b, const double x)
 {
-    (void)infieldB;
-    (void)a;
-    (void)b;
-    (void)x;
-
-    memcpy(outfield, infieldA, n * sizeof(float));
+    const float* nearest = (fabs(x - b) < fabs(x - a)) ? infieldB : infieldA;
+    memcpy(outfield, nearest, n * sizeof(float));
     return MIFI_OK;
 }
 
-- 
2.43.0


From 88a9a182dfbd7d758b54d1de01888cfabf58c49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:22 +0000
Subject: [PATCH 43/95] fix: hybrid sigma pressure exchanged surface and
 reference pressure

---
 src/coordSys/verticalTransform/HybridSigmaPressure2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
index 9165537..9ada1f4 100644
--- a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
+++ b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
@@ -32,7 +32,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p HybridSigmaPressure2::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, p0, ps);
+    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, ps, p0);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 3acdd6a04938af4b642b484b311bd689030e2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:22 +0000
Subject: [PATCH 44/95] fix: undefined values in logarithmic interpolation with
 non-positive levels

---
 src/CDMVerticalInterpolator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 15324d1..165477c 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -536,7 +536,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
                     const size_t idataZ1  = loop[IN] + idataZdelta * pos.second;
                     const float valueI0 = iData[idataZ0], valueI1 = iData[idataZ1];
                     const float verticalI0 = *(ivertical0 + pos.first), verticalI1 = *(ivertical0 + pos.second);
-                    intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOut);
+                    if (intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOut) != MIFI_OK)
+                        *interpolated = MIFI_UNDEFINED_F; // e.g. logarithm of a non-positive level
                 } else {
                     // find_closest_neighbor_distinct_elements failed
                     *interpolated = MIFI_UNDEFINED_F;
-- 
2.43.0


From 5e2488bd2e133e095224851754316b905ba066ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:00 +0000
Subject: [PATCH 45/95] fix: lat-lon bounding box missed longitudes outside
 -180 to 180

---
 src/CDMExtractor.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 915f123..08e3ff7 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -41,6 +41,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <numeric>
@@ -426,7 +427,8 @@ void CDMExtractor::reduceLatLonBoundingBox(double south, double north, double we
     if (west < -180. || west > 180) throw CDMException("reduceLatLonBoundingBox west outside domain: " + type2string(west));
     if (east < -180. || east > 180) throw CDMException("reduceLatLonBoundingBox east outside domain: " + type2string(east));
 
-    const bool wrap180 = (west > east);
+    // longitudes are the same modulo 360, i.e. compare degrees east of 'west'
+    const double width = (west > east) ? (east - west + 360) : (east - west);
 
     // find coordinate-systems
     CoordinateSystem_cp_v coordsys = listCoordinateSystems(dataReader_);
@@ -479,9 +481,10 @@ void CDMExtractor::reduceLatLonBoundingBox(double south, double north, double we
                 const double lon = xLonVals[i], lat = yLatVals[i];
                 if (lat < south || lat > north)
                     continue;
-                if (wrap180 && lon > east && lon < west)
-                    continue;
-                else if (!wrap180 && (lon < west || lon > east))
+                double eastOfWest = std::fmod(lon - west, 360);
+                if (eastOfWest < 0)
+                    eastOfWest += 360;
+                if (!(eastOfWest <= width))
                     continue;
 
                 xSlices.insert(ix);
-- 
2.43.0


From 7ac50962443426b55ea4b531a0220233e83f86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:08 +0000
Subject: [PATCH 46/95] fix: automatic configuration of the quality-extractor
 had no effect

---
 src/CDMQualityExtractor.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 6e01c9b..28696ca 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -60,7 +60,7 @@ static vector<string> findCorrespondingVariables(const CDM& cdm, const string& s
         vector<string> parts = tokenize(standardName, " ");
         if (parts.size() >=2) {
             string foreignStandardName = parts[0];
-            vector<string> correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
+            correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
         } else {
             LOG4FIMEX(logger, Logger::WARN, "standard_name "+ standardName + "not suitabale for a status_flag in statusVariable "+ statusVarName);
         }
@@ -87,9 +87,9 @@ static vector<double> getValidValues(const CDM& cdm, const string& statusVarName
             if (autoConfString == "all") {
                 copy(&validData[0], &validData[validSize], back_inserter(validVals));
             } else if (autoConfString == "highest") {
-                validVals[0] = validData[validSize-1];
+                validVals.push_back(validData[validSize-1]);
             } else if (autoConfString == "lowest") {
-                validVals[0] = validData[0];
+                validVals.push_back(validData[0]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN, "unable to interpret autoConfString: "+autoConfString);
             }
@@ -112,7 +112,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
         allowedString.insert("all");
         allowedString.insert("highest");
         allowedString.insert("lowest");
-        if (allowedString.find(autoConfString) == allowedString.end()) {
+        if (allowedString.find(autoConfString) == allowedString.end() && autoConfString.compare(0, 7, "values=") != 0) {
             throw CDMException("auto-configure-string '"+ autoConfString +"' unknown");
         }
 
@@ -198,6 +198,8 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
                 LOG4FIMEX(logger,Logger::INFO, "shapes of variable '" << varName << "' and statusVar '" << statusVarName
                           << "' are different but hopefully compatible");
             }
+            // replace settings made by autoConfString
+            variableValues.erase(varName);
             variableFill[varName] = fillValStr.empty() ? cdm.getFillValue(varName) : string2type<double>(fillValStr);
             vector<double> statusVarVals = tokenizeDotted<double>(statusVarValues);
             if (!statusVarVals.empty()) {
-- 
2.43.0


From e6a01aee8d5bfc5be493925a2cd9c19962f0ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:08 +0000
Subject: [PATCH 47/95] fix: quality-extractor hung or removed nothing for
 highest and lowest status

---
 src/CDMQualityExtractor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 28696ca..7e3febc 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -218,14 +218,14 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
     double extreme = MIFI_UNDEFINED_D;
     double* pos = begin;
     // forward to first defined element
-    while ((pos != end) && (!std::isnan(*pos))) {
+    while ((pos != end) && std::isnan(*pos)) {
         ++pos;
     }
     if (pos == end) {
         extreme = MIFI_UNDEFINED_D;
     } else {
         extreme = *pos;
-        while (pos != end) {
+        for (; pos != end; ++pos) {
             if (!std::isnan(*pos)) {
                 extreme = minmax(extreme, *pos);
             }
-- 
2.43.0


From ccff762e4be273d69c11eceb2e6d164f04e8f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:08 +0000
Subject: [PATCH 48/95] fix: quality-extractor did not check variables with
 data in memory

---
 src/CDMQualityExtractor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 7e3febc..9457ec0 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -211,6 +211,12 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
             }
         }
     }
+
+    // data in memory would be delivered without looking at the status
+    for (const auto& vs : statusVariable) {
+        if (cdm_->hasVariable(vs.first))
+            cdm_->getVariable(vs.first).setData(DataPtr());
+    }
 }
 
 static double findDefinedExtreme(double* begin, double* end, const double& (*minmax)(const double& a, const double& b))
-- 
2.43.0


From beaff4c9b4e3fc2bfdd424098875a08f585c05b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:57 +0000
Subject: [PATCH 49/95] fix: fill-writer compared shapes of different length

---
 src/FillWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 6b54abe..42a8388 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -217,7 +217,7 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             oTestShape.erase(std::remove(oTestShape.begin(), oTestShape.end(), fit.outputDim), oTestShape.end());
         }
         // simple test of equal shapes (omitting translated dims)
-        if (!equal(iTestShape.begin(), iTestShape.end(), oTestShape.begin())) {
+        if (iTestShape != oTestShape) {
             LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
             continue;
         }
-- 
2.43.0


From a7df27114c42ed90d0562fc5a27faf8d635f7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:57 +0000
Subject: [PATCH 50/95] fix: errors in the fill-writer ended the program

---
 src/FillWriter.cc | 152 +++++++++++++++++++++++++---------------------
 1 file changed, 82 insertions(+), 70 deletions(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 42a8388..3da7d03 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -35,6 +35,7 @@
 #include "fimex/XMLUtils.h"
 
 #include <algorithm>
+#include <exception>
 #include <map>
 #include <set>
 #include <utility>
@@ -190,92 +191,103 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
     // process variables
     const auto iVars = iCdm.getVariables();
     const int varVecSize = iVars.size();
+    std::exception_ptr error; // exceptions must not leave the parallel region
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
     for (int iVar = 0; iVar < varVecSize; iVar++) {
-        const auto& iv = iVars.at(iVar);
-        LOG4FIMEX(logger, Logger::DEBUG, "processing variable  '" << iv.getName() << "'");
-        if (!oCdm.hasVariable(iv.getName())) {
-            LOG4FIMEX(logger, Logger::WARN, "new variable '" << iv.getName() << "': omitting");
-            continue;
-        }
-        const auto& iShape = iv.getShape();
-        const auto badDim = findFirstUnusableDimension(unusableIDims, iShape);
-        if (!badDim.empty()) {
-            LOG4FIMEX(logger, Logger::ERROR, "Cannot fill-write '" << iv.getName() << "' due to bad dimension: '" << badDim << "'");
-            continue;
-        }
-        const auto& oVar = oCdm.getVariable(iv.getName());
-        const auto& oShape = oVar.getShape();
+        try {
+            const auto& iv = iVars.at(iVar);
+            LOG4FIMEX(logger, Logger::DEBUG, "processing variable  '" << iv.getName() << "'");
+            if (!oCdm.hasVariable(iv.getName())) {
+                LOG4FIMEX(logger, Logger::WARN, "new variable '" << iv.getName() << "': omitting");
+                continue;
+            }
+            const auto& iShape = iv.getShape();
+            const auto badDim = findFirstUnusableDimension(unusableIDims, iShape);
+            if (!badDim.empty()) {
+                LOG4FIMEX(logger, Logger::ERROR, "Cannot fill-write '" << iv.getName() << "' due to bad dimension: '" << badDim << "'");
+                continue;
+            }
+            const auto& oVar = oCdm.getVariable(iv.getName());
+            const auto& oShape = oVar.getShape();
 
-        vector<string> iTestShape(iShape.begin(), iShape.end());
-        vector<string> oTestShape(oShape.begin(), oShape.end());
-        for (const auto& fit : fwts) {
-            // translated dimensions are handled different from normal dimension, so omitting from regular test
-            iTestShape.erase(std::remove(iTestShape.begin(), iTestShape.end(), fit.inputDim), iTestShape.end());
-            oTestShape.erase(std::remove(oTestShape.begin(), oTestShape.end(), fit.outputDim), oTestShape.end());
-        }
-        // simple test of equal shapes (omitting translated dims)
-        if (iTestShape != oTestShape) {
-            LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
-            continue;
-        }
+            vector<string> iTestShape(iShape.begin(), iShape.end());
+            vector<string> oTestShape(oShape.begin(), oShape.end());
+            for (const auto& fit : fwts) {
+                // translated dimensions are handled different from normal dimension, so omitting from regular test
+                iTestShape.erase(std::remove(iTestShape.begin(), iTestShape.end(), fit.inputDim), iTestShape.end());
+                oTestShape.erase(std::remove(oTestShape.begin(), oTestShape.end(), fit.outputDim), oTestShape.end());
+            }
+            // simple test of equal shapes (omitting translated dims)
+            if (iTestShape != oTestShape) {
+                LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
+                continue;
+            }
 
-        typedef vector<pair<SliceBuilder, SliceBuilder> > SlicePairs;
-        SliceBuilder inputSb(iCdm, iv.getName());
-        SliceBuilder outputSb(oCdm, iv.getName(), true); // extension along unlimited possible for output
-        // translate dimensions of input and output slice from config-file
-        for (const auto& fit : fwts) {
-            // reduce the input slicebuilder
-            if (std::find(iShape.begin(), iShape.end(), fit.inputDim) != iShape.end()) {
-                if (fit.inSlices.size() == 1) { // 0 = do nothing
-                    // cerr << "reducing input dim: " << fit->outputDim;
-                    inputSb.setStartAndSize(fit.inputDim, fit.inSlices.at(0), 1);
-                } else {
-                    // TODO
-                    throw CDMException("FillWriter translation to with multiple elements in slice not implemented yet");
+            typedef vector<pair<SliceBuilder, SliceBuilder> > SlicePairs;
+            SliceBuilder inputSb(iCdm, iv.getName());
+            SliceBuilder outputSb(oCdm, iv.getName(), true); // extension along unlimited possible for output
+            // translate dimensions of input and output slice from config-file
+            for (const auto& fit : fwts) {
+                // reduce the input slicebuilder
+                if (std::find(iShape.begin(), iShape.end(), fit.inputDim) != iShape.end()) {
+                    if (fit.inSlices.size() == 1) { // 0 = do nothing
+                        // cerr << "reducing input dim: " << fit->outputDim;
+                        inputSb.setStartAndSize(fit.inputDim, fit.inSlices.at(0), 1);
+                    } else {
+                        // TODO
+                        throw CDMException("FillWriter translation to with multiple elements in slice not implemented yet");
+                    }
                 }
-            }
-            // reduce the output slicebuilder
-            if (std::find(oShape.begin(), oShape.end(), fit.outputDim) != oShape.end()) {
-                if (fit.outSlices.size() == 1) { // 0 = do nothing
-                    // cerr << "reducing output dim: " << fit->outputDim;
-                    outputSb.setStartAndSize(fit.outputDim, fit.outSlices.at(0), 1);
-                } else {
-                    // TODO
-                    throw CDMException("FillWriter translation to with multiple elements in slice not implemented yet");
+                // reduce the output slicebuilder
+                if (std::find(oShape.begin(), oShape.end(), fit.outputDim) != oShape.end()) {
+                    if (fit.outSlices.size() == 1) { // 0 = do nothing
+                        // cerr << "reducing output dim: " << fit->outputDim;
+                        outputSb.setStartAndSize(fit.outputDim, fit.outSlices.at(0), 1);
+                    } else {
+                        // TODO
+                        throw CDMException("FillWriter translation to with multiple elements in slice not implemented yet");
+                    }
                 }
             }
-        }
 
-        SlicePairs slices = {{inputSb, outputSb}};
-        // loop over the untranslated slices
-        for (const auto& dimIt : iTestShape) {
-            const auto dsIt = dimSlices.find(dimIt);
-            if (dsIt != dimSlices.end()) {
-                SlicePairs newSlices;
-                const auto& currentDimSlices = dsIt->second;
-                for (const auto& oldSlice : slices) {
-                    for (const auto& slicePos : currentDimSlices) {
-                        SliceBuilder isb = oldSlice.first;  // create a copy of the existing one
-                        SliceBuilder osb = oldSlice.second; // create a copy
-                        isb.setStartAndSize(dimIt, slicePos.first, 1);
-                        osb.setStartAndSize(dimIt, slicePos.second, 1);
-                        newSlices.push_back(make_pair(isb, osb));
+            SlicePairs slices = {{inputSb, outputSb}};
+            // loop over the untranslated slices
+            for (const auto& dimIt : iTestShape) {
+                const auto dsIt = dimSlices.find(dimIt);
+                if (dsIt != dimSlices.end()) {
+                    SlicePairs newSlices;
+                    const auto& currentDimSlices = dsIt->second;
+                    for (const auto& oldSlice : slices) {
+                        for (const auto& slicePos : currentDimSlices) {
+                            SliceBuilder isb = oldSlice.first;  // create a copy of the existing one
+                            SliceBuilder osb = oldSlice.second; // create a copy
+                            isb.setStartAndSize(dimIt, slicePos.first, 1);
+                            osb.setStartAndSize(dimIt, slicePos.second, 1);
+                            newSlices.push_back(make_pair(isb, osb));
+                        }
                     }
+                    slices = newSlices;
                 }
-                slices = newSlices;
             }
-        }
 
-        LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with " << slices.size() << " slices");
-        for (const auto& slice : slices) {
-            LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with:  " << endl << slice.first << endl << slice.second);
-            DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
-            io->putDataSlice(iv.getName(), slice.second, inData);
+            LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with " << slices.size() << " slices");
+            for (const auto& slice : slices) {
+                LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with:  " << endl << slice.first << endl << slice.second);
+                DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
+                io->putDataSlice(iv.getName(), slice.second, inData);
+            }
+        } catch (...) {
+#ifdef _OPENMP
+#pragma omp critical (fillwriter_error)
+#endif
+            if (!error)
+                error = std::current_exception();
         }
     }
+    if (error)
+        std::rethrow_exception(error);
     if (!unusableIDims.empty())
         throw CDMException("FillWriter finished with errors in dimension-mapping");
 }
-- 
2.43.0


From 41a2b0cb03b9e5e3d43423dfcefb4b4766058b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:07 +0000
Subject: [PATCH 51/95] fix: fill-writer ignored differences in scaling and
 fill values

---
 src/FillWriter.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 3da7d03..7b23f1e 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -110,6 +110,18 @@ std::string findFirstUnusableDimension(const std::set<std::string>& unusableDims
     }
     return std::string();
 }
+
+//! stored values mean the same only if they are packed in the same way
+bool isPackingEqual(const CDM& iCdm, const CDM& oCdm, const std::string& varName)
+{
+    if (iCdm.getScaleFactor(varName) != oCdm.getScaleFactor(varName) || iCdm.getAddOffset(varName) != oCdm.getAddOffset(varName))
+        return false;
+    try {
+        return iCdm.getFillValue(varName) == oCdm.getFillValue(varName);
+    } catch (CDMException&) {
+        return true; // no usable fill value, cannot unpack
+    }
+}
 } // namespace
 
 FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configFileName)
@@ -273,10 +285,16 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             }
 
             LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with " << slices.size() << " slices");
+            const bool packingEqual = isPackingEqual(iCdm, oCdm, iv.getName());
             for (const auto& slice : slices) {
                 LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with:  " << endl << slice.first << endl << slice.second);
-                DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
-                io->putDataSlice(iv.getName(), slice.second, inData);
+                if (packingEqual) {
+                    DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
+                    io->putDataSlice(iv.getName(), slice.second, inData);
+                } else {
+                    DataPtr inData = in->getScaledDataSlice(iv.getName(), slice.first);
+                    io->putScaledDataSlice(iv.getName(), slice.second, inData);
+                }
             }
         } catch (...) {
 #ifdef _OPENMP
-- 
2.43.0


From 6b5da82dcb5003f251c98a98e2c08f97fdc50cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:20 +0000
Subject: [PATCH 52/95] fix: exceptions left the C-api for slices out of range

---
 src/c_fimex.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 701d55d..a766d57 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -353,7 +353,9 @@ int mifi_slicebuilder_ndims(mifi_slicebuilder* sb)
 static std::string do_mifi_slicebuilder_dimname(mifi_slicebuilder* sb, int pos)
 {
     if (sb != 0) {
-        return sb->sb_->getDimensionNames().at(pos);
+        const std::vector<std::string> names = sb->sb_->getDimensionNames();
+        if (pos >= 0 && static_cast<size_t>(pos) < names.size())
+            return names[pos];
     }
     return "";
 }
@@ -424,8 +426,12 @@ int mifi_slicebuilder_get_proj4_cpy(mifi_slicebuilder* sb, char* proj4, int n)
 int mifi_slicebuilder_set_dim_start_size(mifi_slicebuilder* sb, const char* dimName, unsigned int start, unsigned int size)
 {
     if (sb != 0) {
-        sb->sb_->setStartAndSize(dimName, start, size);
-        return 0;
+        try {
+            sb->sb_->setStartAndSize(dimName, start, size);
+            return 0;
+        } catch (exception& ex) {
+            LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_set_dim_start_size: " << ex.what());
+        }
     }
     return -1;
 }
-- 
2.43.0


From d37b3cd57e3bc79ef3ef37007fca816c6d200398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:20 +0000
Subject: [PATCH 53/95] fix: mifi_set_callback_double crashed for other readers

---
 src/c_fimex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index a766d57..c948e6e 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -187,8 +187,8 @@ int mifi_set_callback_double(mifi_cdm_reader* c_reader, const char* varName, dou
 {
     try {
         CDMReader_p reader = c_reader->reader_;
-        C_CDMReader* cReaderPtr = dynamic_cast<C_CDMReader*>(reader.get());
-        cReaderPtr->setDoubleCallbackFunction(string(varName), callback);
+        C_CDMReader& cReader = dynamic_cast<C_CDMReader&>(*reader);
+        cReader.setDoubleCallbackFunction(string(varName), callback);
         return 0;
     } catch (std::bad_cast& bc) {
         LOG4FIMEX(logger, Logger::WARN, "mifi_set_callback_double called with a different CDMReader, not C_CDMReader: " + string(bc.what()));
-- 
2.43.0


From 1d82c455202cc53bf44d064f20e42e08bcc25957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:20 +0000
Subject: [PATCH 54/95] fix: mifi_write_scaled_double_dataslice did not accept
 data without unit

---
 src/c_fimex.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index c948e6e..d73f821 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -518,7 +518,12 @@ int mifi_write_scaled_double_dataslice(mifi_cdm_reader* rwreader, const char* va
     try {
         shared_array<double> dptr(data, null_deleter());
         DataPtr d = createData(size, dptr);
-        rw->putScaledDataSliceInUnit(varName, units, *(sb->sb_), d);
+        string unitStr(units);
+        if (unitStr != "") {
+            rw->putScaledDataSliceInUnit(varName, unitStr, *(sb->sb_), d);
+        } else {
+            rw->putScaledDataSlice(varName, *(sb->sb_), d);
+        }
         return 0;
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_write_scaled_double_dataslice: " << ex.what());
-- 
2.43.0


From e126395e2b364e652538527fa71b8b2dab860213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:14 +0000
Subject: [PATCH 55/95] fix: variables with callbacks had fill values of the
 wrong type or ignored the callback

---
 src/C_CDMReader.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index 277a143..f12cc73 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -27,13 +27,13 @@
 #include "fimex/C_CDMReader.h"
 
 #include "fimex/CDM.h"
+#include "fimex/CDMAttribute.h"
 #include "fimex/CDMException.h"
 #include "fimex/CDMVariable.h"
 #include "fimex/Data.h"
 #include "fimex/Type2String.h"
 #include "fimex/mifi_cdm_reader.h"
-
-#include <cassert>
+#include "fimex/mifi_constants.h"
 
 namespace MetNoFimex
 {
@@ -56,6 +56,11 @@ void C_CDMReader::setDoubleCallbackFunction(const std::string& varName, doubleDa
     // data will be auto-scaled
     cdm_->removeAttribute(varName, "scale_factor");
     cdm_->removeAttribute(varName, "add_offset");
+    // undefined values will be NaN; a fill value must have the type of the variable
+    cdm_->removeAttribute(varName, "missing_value");
+    cdm_->addOrReplaceAttribute(varName, CDMAttribute("_FillValue", MIFI_UNDEFINED_D));
+    // data in memory does not pass the callback
+    var.setData(DataPtr());
     // set the datatype for later processing
     doubleCallbacks_[varName] = callback;
 }
@@ -78,8 +83,6 @@ DataPtr C_CDMReader::getDataSlice(const std::string & varName, size_t unLimDimPo
     // start modify the data by the existing callback
     doubleDatasliceCallbackPtr callback = callbackIt->second;
 
-    // this reader should never have in-memory data, since it is not accessible from C
-    assert(cdm_->getVariable(varName).hasData() == false);
     DataPtr data = dataReader_->getScaledDataSlice(varName, unLimDimPos);
 
     // wrap the object as a mifi_cdm_reader for C-usage
-- 
2.43.0


From 67c467e17517db3e51f3075631a4dc8215f223a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 56/95] fix: slices from the C-api used the dimensions of
 another variable

---
 include/fimex/CoordinateSystemSliceBuilder.h |  6 ++++++
 src/CoordinateSystemSliceBuilder.cc          | 10 ++++++++++
 src/c_fimex.cc                               |  2 +-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/fimex/CoordinateSystemSliceBuilder.h b/include/fimex/CoordinateSystemSliceBuilder.h
index 4602377..5a37d23 100644
--- a/include/fimex/CoordinateSystemSliceBuilder.h
+++ b/include/fimex/CoordinateSystemSliceBuilder.h
@@ -45,6 +45,12 @@ class CoordinateSystemSliceBuilder: public MetNoFimex::SliceBuilder
 {
 public:
     CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs);
+
+    /**
+     * Slicebuilder with the dimensions, in their order, of a variable belonging to the coordinate-system.
+     */
+    CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName);
+
     virtual ~CoordinateSystemSliceBuilder() {}
 
     /**
diff --git a/src/CoordinateSystemSliceBuilder.cc b/src/CoordinateSystemSliceBuilder.cc
index 7e9b8e5..8154a0c 100644
--- a/src/CoordinateSystemSliceBuilder.cc
+++ b/src/CoordinateSystemSliceBuilder.cc
@@ -61,6 +61,16 @@ CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, Coord
     }
 }
 
+CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName)
+    : SliceBuilder(cdm, varName)
+    , cs_(cs)
+{
+    setReferenceTimePos(0); // referenceTime is allways set
+    if (cs_->hasAxisType(CoordinateAxis::Time)) {
+        tShape_ = cs_->getTimeAxis()->getShape();
+    }
+}
+
 void CoordinateSystemSliceBuilder::setReferenceTimePos(size_t refTimePos)
 {
     if (cs_->hasAxisType(CoordinateAxis::ReferenceTime)) {
diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index d73f821..750ef78 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -320,7 +320,7 @@ mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* va
     try {
         CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(reader->csVec_, varName);
         if (cs.get()) {
-            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs));
+            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs, varName));
             return new mifi_slicebuilder(sb, cs);
         } else {
             std::shared_ptr<SliceBuilder> sb(new SliceBuilder(reader->reader_->getCDM(), varName));
-- 
2.43.0


From d079efdf68c919f63448201a233fb5e714615bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:13 +0000
Subject: [PATCH 57/95] fix: units like 'milliseconds since 1955-02-28' were
 rejected as non-linear

---
 src/Units.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Units.cc b/src/Units.cc
index b563442..b9c665a 100644
--- a/src/Units.cc
+++ b/src/Units.cc
@@ -126,18 +126,20 @@ public:
         double slope = convert(1.0) - offset;
         if (!std::isfinite(slope)) return false;
 
+        // offset (e.g. a difference between reference times) limits the precision of slope
+        const double tolerance = 1e-5 + 1e-12 * std::fabs(offset);
         double val = 10.;
         double cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
+        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > tolerance)) return false;
         val = 100.;
         cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
+        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > tolerance)) return false;
         val = 1000.;
         cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
+        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > tolerance)) return false;
         val = -1000.;
         cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
+        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > tolerance)) return false;
 
         return true;
     }
-- 
2.43.0


From e447e5e0a85359d5e2fde6da040eb1fc43f81d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:13 +0000
Subject: [PATCH 58/95] fix: unitTime2fimexTime truncated milliseconds and
 could give 60 seconds

---
 src/TimeUnit.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/TimeUnit.cc b/src/TimeUnit.cc
index d4a9240..427fe50 100644
--- a/src/TimeUnit.cc
+++ b/src/TimeUnit.cc
@@ -89,7 +89,6 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
 {
     Units units; // unit initialization
     FimexTime fiTime;
-    float second;
     int year, month, mday, hour, minute;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
@@ -99,14 +98,18 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
     double encodedTime = cv_convert_double(conv.get(), unitTime);
     double res, sec;
     ut_decode_time(encodedTime, &year, &month, &mday, &hour, &minute, &sec, &res);
-    second = static_cast<float>(sec);
+    long millis = std::lround(sec * 1000);
+    if (millis >= 60000) { // rounding reaches the next minute
+        ut_decode_time(encodedTime + (60 - sec), &year, &month, &mday, &hour, &minute, &sec, &res);
+        millis = std::lround(sec * 1000);
+    }
     fiTime.setYear(static_cast<unsigned int>(year));
     fiTime.setMonth(static_cast<char>(month));
     fiTime.setMDay(static_cast<char>(mday));
     fiTime.setHour(static_cast<char>(hour));
     fiTime.setMinute(static_cast<char>(minute));
-    fiTime.setSecond(static_cast<char>(second));
-    fiTime.setMSecond(static_cast<unsigned int>((second - fiTime.getSecond())*1000));
+    fiTime.setSecond(static_cast<char>(millis / 1000));
+    fiTime.setMSecond(static_cast<unsigned short>(millis % 1000));
 
     return fiTime;
 }
-- 
2.43.0


From 92123f3d847638f8d2ad2a58a7abe30e0f436c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:13 +0000
Subject: [PATCH 59/95] fix: the offset of a time template was kept for later
 templates without offset

---
 src/ReplaceStringTimeObject.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ReplaceStringTimeObject.cc b/src/ReplaceStringTimeObject.cc
index f67ac4e..0800077 100644
--- a/src/ReplaceStringTimeObject.cc
+++ b/src/ReplaceStringTimeObject.cc
@@ -49,9 +49,7 @@ std::ostream& operator<<(std::ostream& s, const ReplaceStringTimeObject& rsto)
 void ReplaceStringTimeObject::setFormatStringAndOptions(const std::string& format, const std::vector<std::string>& options)
 {
 	myFormat = format;
-	if (options.size() > 0) {
-		offset = string2type<time_t>(options[0]);
-	}
+	offset = options.empty() ? 0 : string2type<time_t>(options[0]);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 3d545d5fa13d97c05dba795bdedbfde0af5e433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:27 +0000
Subject: [PATCH 60/95] fix: offsets of time templates may have a plus sign, as
 documented

---
 src/ReplaceStringTimeObject.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ReplaceStringTimeObject.cc b/src/ReplaceStringTimeObject.cc
index 0800077..cc76050 100644
--- a/src/ReplaceStringTimeObject.cc
+++ b/src/ReplaceStringTimeObject.cc
@@ -49,7 +49,11 @@ std::ostream& operator<<(std::ostream& s, const ReplaceStringTimeObject& rsto)
 void ReplaceStringTimeObject::setFormatStringAndOptions(const std::string& format, const std::vector<std::string>& options)
 {
 	myFormat = format;
-	offset = options.empty() ? 0 : string2type<time_t>(options[0]);
+	offset = 0;
+	if (!options.empty()) {
+		const std::string& o = options[0];
+		offset = string2type<time_t>(o.compare(0, 1, "+") == 0 ? o.substr(1) : o);
+	}
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From ffdbbe854f9ffe0c6c20d877d9d84c4e488706a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:27 +0000
Subject: [PATCH 61/95] fix: several templates in an attribute were taken for a
 single one

---
 src/CDM_XMLConfigHelper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDM_XMLConfigHelper.cc b/src/CDM_XMLConfigHelper.cc
index 532d5b7..249a37d 100644
--- a/src/CDM_XMLConfigHelper.cc
+++ b/src/CDM_XMLConfigHelper.cc
@@ -43,7 +43,7 @@ std::string replaceTemplateAttribute(string value, const map<string, std::shared
 {
     for (auto& tr : templateReplacements) {
         stringstream outString;
-        std::regex rgx("%" + tr.first + "(\\(([^,]*),?(.*)?\\))?" + "%");
+        std::regex rgx("%" + tr.first + "(\\(([^,)]*),?([^)]*)?\\))?" + "%");
         string::const_iterator  begin = value.begin(), end = value.end();
         std::match_results<string::const_iterator> matches;
         while (std::regex_search(begin, end, matches, rgx)) {
-- 
2.43.0


From 6963f580c37f8de264cc3ee263163aa4d9864c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:27 +0000
Subject: [PATCH 62/95] fix: time templates without format were replaced by
 nothing

---
 src/ReplaceStringTimeObject.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReplaceStringTimeObject.cc b/src/ReplaceStringTimeObject.cc
index cc76050..bbdc348 100644
--- a/src/ReplaceStringTimeObject.cc
+++ b/src/ReplaceStringTimeObject.cc
@@ -48,7 +48,7 @@ std::ostream& operator<<(std::ostream& s, const ReplaceStringTimeObject& rsto)
 
 void ReplaceStringTimeObject::setFormatStringAndOptions(const std::string& format, const std::vector<std::string>& options)
 {
-	myFormat = format;
+	myFormat = format.empty() ? "%Y-%m-%d %H:%M:%S" : format;
 	offset = 0;
 	if (!options.empty()) {
 		const std::string& o = options[0];
-- 
2.43.0


From 2438eddea3e030d70d78027be54e1b66d02a0f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 63/95] fix: vector components with different standard names
 were paired

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 5c67ffc..89dde1d 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -567,7 +567,9 @@ static void enhanceVectors(CDM& cdm, const std::string& xsn, const std::string&
             if (yv.isSpatialVector())
                 continue;
             const vector<string>& ySh = yv.getShape();
-            if (xSh == ySh) {
+            // the names may continue after xsn and ysn, but only in the same way
+            if (xSh == ySh && cdm.getAttribute(*xVar, "standard_name").getStringValue().substr(xsn.size()) ==
+                                  cdm.getAttribute(*yVar, "standard_name").getStringValue().substr(ysn.size())) {
                 xv.setAsSpatialVector(*yVar, CDMVariable::vectorDirectionFromString(xdir));
                 yv.setAsSpatialVector(*xVar, CDMVariable::vectorDirectionFromString(ydir));
                 LOG4FIMEX(logger, Logger::INFO, "making "<< *xVar << "," << *yVar << " a vector");
-- 
2.43.0


From 4344312d3781752e31c5720569a5db295b613b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 64/95] fix: the attribute positive is case insensitive

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 89dde1d..5299b2b 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -203,7 +203,7 @@ static CoordinateAxis::AxisType getAxisTypeCF1_x(const CDM& cdm, const string& v
 
     // test 'positive' attribute
     if (cdm.getAttribute(varName, "positive", attr)) {
-        const bool is_up = attr.getStringValue() == "up";
+        const bool is_up = string2lowerCase(attr.getStringValue()) == "up";
         if (cdm.getAttribute(varName, "units", attr)) {
             string unit = attr.getStringValue();
             if (uc.areConvertible("m", unit)) {
-- 
2.43.0


From 94ff4899d347b6c1a64e1e1f9992f5dc76ed6323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:29 +0000
Subject: [PATCH 65/95] fix: atmosphere_ln_pressure_coordinate was not
 recognized as vertical axis

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 5299b2b..dfabcf1 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -159,6 +159,7 @@ static CoordinateAxis::AxisType getAxisTypeCF1_x(const CDM& cdm, const string& v
         if ( lcSName == "atmosphere_sigma_coordinate" ||
              lcSName == "atmosphere_hybrid_sigma_pressure_coordinate" ||
              lcSName == "atmosphere_hybrid_height_coordinate" ||
+             lcSName == "atmosphere_ln_pressure_coordinate" ||
              lcSName == "atmosphere_sleve_coordinate" ||
              lcSName == "ocean_sigma_coordinate" ||
              lcSName == "ocean_s_coordinate" ||
-- 
2.43.0


From 39b329be01beefc368bfaddb9b74ae837fca2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:16 +0000
Subject: [PATCH 66/95] fix: AtmosphereSigma had surface pressure and top
 pressure exchanged

---
 include/fimex/coordSys/verticalTransform/AtmosphereSigma.h | 2 +-
 src/coordSys/verticalTransform/AtmosphereSigma.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fimex/coordSys/verticalTransform/AtmosphereSigma.h b/include/fimex/coordSys/verticalTransform/AtmosphereSigma.h
index c8ed685..b57823c 100644
--- a/include/fimex/coordSys/verticalTransform/AtmosphereSigma.h
+++ b/include/fimex/coordSys/verticalTransform/AtmosphereSigma.h
@@ -49,7 +49,7 @@ public:
      * @param ptop top of model
      * @param ps surface pressure
      */
-    AtmosphereSigma(const std::string& sigma, const std::string& ps, const std::string& ptop) : sigma(sigma), ps(ps), ptop(ptop) {}
+    AtmosphereSigma(const std::string& sigma, const std::string& ptop, const std::string& ps) : sigma(sigma), ps(ps), ptop(ptop) {}
 
     /**
      * static NAME constant
diff --git a/src/coordSys/verticalTransform/AtmosphereSigma.cc b/src/coordSys/verticalTransform/AtmosphereSigma.cc
index 5dfe871..8bba251 100644
--- a/src/coordSys/verticalTransform/AtmosphereSigma.cc
+++ b/src/coordSys/verticalTransform/AtmosphereSigma.cc
@@ -33,7 +33,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p AtmosphereSigma::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return std::make_shared<SigmaToPressureConverter>(reader, cs, sigma, ps, ptop);
+    return std::make_shared<SigmaToPressureConverter>(reader, cs, sigma, ptop, ps);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 351e604ad99cdbc7b976b73f62e361a5ce3a9a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:06 +0000
Subject: [PATCH 67/95] fix: projections with parameters in different order
 were not equal

---
 include/fimex/CDMNamedEntity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/CDMNamedEntity.h b/include/fimex/CDMNamedEntity.h
index 12e1ebc..1d197bf 100644
--- a/include/fimex/CDMNamedEntity.h
+++ b/include/fimex/CDMNamedEntity.h
@@ -49,7 +49,7 @@ public:
 struct CDMNameCompare
 {
 public:
-    int operator()(const CDMNamedEntity& e1, const CDMNamedEntity& e2) {return e1.getName().compare(e2.getName());}
+    bool operator()(const CDMNamedEntity& e1, const CDMNamedEntity& e2) const { return e1.getName() < e2.getName(); }
 };
 
 /**
-- 
2.43.0


From 1f68d57931a2498b9e153e6c43e8c9ae00ad7825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:06 +0000
Subject: [PATCH 68/95] fix: the second standard parallel of conic projections
 was lost

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc | 2 +-
 src/coordSys/LambertConformalConicProjection.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index b58b334..a5ff7de 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -92,7 +92,7 @@ std::ostream& AlbersConicalEqualAreaProjection::getProj4ProjectionPart(std::ostr
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 4b8fd08..4d5cf66 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -90,7 +90,7 @@ std::ostream& LambertConformalConicProjection::getProj4ProjectionPart(std::ostre
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
-- 
2.43.0


From 4e353a1a8e9fe1192974f1e2202a0adc552701d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:06 +0000
Subject: [PATCH 69/95] fix: the sweep axis of geostationary projections was
 lost

---
 src/coordSys/GeostationaryProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/GeostationaryProjection.cc b/src/coordSys/GeostationaryProjection.cc
index 98da4e5..529807d 100644
--- a/src/coordSys/GeostationaryProjection.cc
+++ b/src/coordSys/GeostationaryProjection.cc
@@ -75,7 +75,7 @@ std::vector<CDMAttribute> GeostationaryProjection::parametersFromProj4(const std
     if (std::regex_search(proj4Str, what, std::regex("\\+sweep=(\\S+)"))) {
         sweep = what[1].str();
     }
-    attrs.push_back(CDMAttribute("sweep_axis", sweep));
+    attrs.push_back(CDMAttribute("sweep_angle_axis", sweep));
 
     proj4GetEarthAttributes(proj4Str, attrs);
     return attrs;
-- 
2.43.0


From fd573235e4458bf325c2d8dee9497767ddabe384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:27 +0000
Subject: [PATCH 70/95] fix: parameters of conic and rotated projections were
 rounded to 6 digits

---
 src/coordSys/ProjectionImpl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 0b48e50..53483c1 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -119,6 +119,7 @@ bool ProjectionImpl::isDegree() const
 std::string ProjectionImpl::getProj4String() const
 {
     std::ostringstream out;
+    out << std::setprecision(std::numeric_limits<double>::digits10 + 1);
     getProj4ProjectionPart(out);
 
     // offset
-- 
2.43.0


From a3c0ef3f56d565892e24dac5d675516e2c40a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:27 +0000
Subject: [PATCH 71/95] fix: polar stereographic projections without +lon_0
 were rejected

---
 src/coordSys/StereographicProjection.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/StereographicProjection.cc b/src/coordSys/StereographicProjection.cc
index f6390da..1931a7e 100644
--- a/src/coordSys/StereographicProjection.cc
+++ b/src/coordSys/StereographicProjection.cc
@@ -57,10 +57,11 @@ std::vector<CDMAttribute> StereographicProjection::parametersFromProj4(const std
     attrs.push_back(CDMAttribute("grid_mapping_name", "stereographic"));
 
     std::smatch what;
+    double lon0 = 0.;
     if (std::regex_search(proj4Str, what, std::regex("\\+lon_0=(\\S+)"))) {
-        double lon0 = std::strtod(what[1].str().c_str(), (char**)NULL);
-        attrs.push_back(CDMAttribute("longitude_of_projection_origin", lon0));
+        lon0 = std::strtod(what[1].str().c_str(), (char**)NULL);
     }
+    attrs.push_back(CDMAttribute("longitude_of_projection_origin", lon0));
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_0=(\\S+)"))) {
         double lat0 = std::strtod(what[1].str().c_str(), (char**)NULL);
         attrs.push_back(CDMAttribute("latitude_of_projection_origin", lat0));
-- 
2.43.0


From 79367b988f9f9d12ec01858a14a192516fa76ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:27 +0000
Subject: [PATCH 72/95] fix: scale factors given as +k_0 were ignored, although
 written like that

---
 src/coordSys/LambertCylindricalEqualAreaProjection.cc | 2 +-
 src/coordSys/MercatorProjection.cc                    | 2 +-
 src/coordSys/ObliqueMercatorProjection.cc             | 2 +-
 src/coordSys/StereographicProjection.cc               | 2 +-
 src/coordSys/TransverseMercatorProjection.cc          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coordSys/LambertCylindricalEqualAreaProjection.cc b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
index 416327b..0cfc959 100644
--- a/src/coordSys/LambertCylindricalEqualAreaProjection.cc
+++ b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
@@ -63,7 +63,7 @@ std::vector<CDMAttribute> LambertCylindricalEqualAreaProjection::parametersFromP
         double lat_ts = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/MercatorProjection.cc b/src/coordSys/MercatorProjection.cc
index bc95d40..a67e310 100644
--- a/src/coordSys/MercatorProjection.cc
+++ b/src/coordSys/MercatorProjection.cc
@@ -64,7 +64,7 @@ std::vector<CDMAttribute> MercatorProjection::parametersFromProj4(const std::str
         double standardParallel = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", standardParallel));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/ObliqueMercatorProjection.cc b/src/coordSys/ObliqueMercatorProjection.cc
index af42f9c..f49acdf 100644
--- a/src/coordSys/ObliqueMercatorProjection.cc
+++ b/src/coordSys/ObliqueMercatorProjection.cc
@@ -83,7 +83,7 @@ std::vector<CDMAttribute> ObliqueMercatorProjection::parametersFromProj4(const s
     }
     attrs.push_back(CDMAttribute("gamma", gamma));
 
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/StereographicProjection.cc b/src/coordSys/StereographicProjection.cc
index 1931a7e..1d43e99 100644
--- a/src/coordSys/StereographicProjection.cc
+++ b/src/coordSys/StereographicProjection.cc
@@ -71,7 +71,7 @@ std::vector<CDMAttribute> StereographicProjection::parametersFromProj4(const std
         double lat_ts = std::strtod(what[1].str().c_str(), (char **)NULL);
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
 
-    } else if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    } else if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = std::strtod(what[1].str().c_str(), (char**)NULL);
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/TransverseMercatorProjection.cc b/src/coordSys/TransverseMercatorProjection.cc
index 19af24f..56fb439 100644
--- a/src/coordSys/TransverseMercatorProjection.cc
+++ b/src/coordSys/TransverseMercatorProjection.cc
@@ -96,7 +96,7 @@ std::vector<CDMAttribute> TransverseMercatorProjection::parametersFromProj4(cons
             attrs.push_back(CDMAttribute("latitude_of_projection_origin", latOfProjOrigin));
         }
 
-        if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+        if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
             attrs.push_back(CDMAttribute("scale_factor_at_central_meridian", string2type<double>(what[1].str())));
         }
     }
-- 
2.43.0


From 9f3f2c73e5fd888610db33990df316736e3f1ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:27 +0000
Subject: [PATCH 73/95] fix: oblique mercator projections without +gamma got
 gamma 0

---
 src/coordSys/ObliqueMercatorProjection.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coordSys/ObliqueMercatorProjection.cc b/src/coordSys/ObliqueMercatorProjection.cc
index f49acdf..8fc8780 100644
--- a/src/coordSys/ObliqueMercatorProjection.cc
+++ b/src/coordSys/ObliqueMercatorProjection.cc
@@ -77,11 +77,10 @@ std::vector<CDMAttribute> ObliqueMercatorProjection::parametersFromProj4(const s
     attrs.push_back(CDMAttribute("azimuth_of_central_line", azimuthOfCentralLine));
 
     // gamma
-    double gamma = 0.;
     if (std::regex_search(proj4Str, what, std::regex("\\+gamma=(\\S+)"))) {
-        gamma = string2type<double>(what[1].str());
+        double gamma = string2type<double>(what[1].str());
+        attrs.push_back(CDMAttribute("gamma", gamma));
     }
-    attrs.push_back(CDMAttribute("gamma", gamma));
 
     if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
-- 
2.43.0


From 865220a5294f9ade08edac3e2cd49ac7a83ce4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:44 +0000
Subject: [PATCH 74/95] fix: negative +o_lon_p of rotated projections was
 ignored

---
 src/coordSys/RotatedLatitudeLongitudeProjection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/RotatedLatitudeLongitudeProjection.cc b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
index 44bb09a..ae6f827 100644
--- a/src/coordSys/RotatedLatitudeLongitudeProjection.cc
+++ b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
@@ -29,6 +29,7 @@
 #include "fimex/MathUtils.h"
 #include "fimex/String2Type.h"
 
+#include <cmath>
 #include <regex>
 
 namespace MetNoFimex {
@@ -81,7 +82,7 @@ std::vector<CDMAttribute> RotatedLatitudeLongitudeProjection::parametersFromProj
     }
     attrs.push_back(CDMAttribute("grid_north_pole_longitude", normalizeLongitude180(180+north_pole_lon)));
     attrs.push_back(CDMAttribute("grid_north_pole_latitude", north_pole_lat));
-    if (north_pole_grid_lon > 1e-4) { //optional
+    if (std::abs(north_pole_grid_lon) > 1e-4) { //optional
         attrs.push_back(CDMAttribute("north_pole_grid_longitude", north_pole_grid_lon));
     }
 
-- 
2.43.0


From c481f3fb412dcb188ad5837e0cb551f776a3615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:44 +0000
Subject: [PATCH 75/95] fix: flattening given as +rf or +f was ignored,
 although +rf is written

---
 src/coordSys/ProjectionImpl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 53483c1..4179a01 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -246,6 +246,10 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
         } else if (std::regex_search(proj4Str, what, std::regex("\\+b=(\\S+)"))) {
             attrList.push_back(CDMAttribute("semi_major_axis", major_axis));
             attrList.push_back(CDMAttribute("semi_minor_axis", string2type<double>(what[1].str())));
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+rf=(\\S+)"))) {
+            attrList.push_back(CDMAttribute("inverse_flattening", string2type<double>(what[1].str())));
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+f=(\\S+)")) && string2type<double>(what[1].str()) > 0) {
+            attrList.push_back(CDMAttribute("inverse_flattening", 1 / string2type<double>(what[1].str())));
         } else {
             attrList.push_back(CDMAttribute("earth_radius", major_axis));
         }
-- 
2.43.0


From fa37350345e689170f2cbdf4606fcfce8c34dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:44 +0000
Subject: [PATCH 76/95] fix: ellipsoid intl had a wrong minor axis

---
 src/coordSys/ProjectionImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 4179a01..cb199ad 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -282,7 +282,7 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
             attrList.push_back(CDMAttribute("semi_minor_axis", 6356751.9));
         } else if (ellps == "intl") { // international 1924 / hayford 1909
             attrList.push_back(CDMAttribute("semi_major_axis", 6378388.0));
-            attrList.push_back(CDMAttribute("semi_minor_axis", 6356909.0));
+            attrList.push_back(CDMAttribute("inverse_flattening", 297.0));
         } else if (ellps == "bessel") { // Bessel 1841
             attrList.push_back(CDMAttribute("semi_major_axis", 6377397.155));
             attrList.push_back(CDMAttribute("inverse_flattening", 299.1528128));
-- 
2.43.0


From fc9b233157de23b121a4e7c53726cce18e2d0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:44 +0000
Subject: [PATCH 77/95] fix: replacing the figure of the earth kept the old
 flattening

---
 src/coordSys/Projection.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordSys/Projection.cc b/src/coordSys/Projection.cc
index f70eb71..d85892f 100644
--- a/src/coordSys/Projection.cc
+++ b/src/coordSys/Projection.cc
@@ -214,6 +214,8 @@ std::string replaceProj4Earthfigure(const std::string& proj4, const std::string&
         if (parts.at(i).find("+a=") != string::npos) continue;
         if (parts.at(i).find("+b=") != string::npos) continue;
         if (parts.at(i).find("+e=") != string::npos) continue;
+        if (parts.at(i).find("+f=") != string::npos) continue;
+        if (parts.at(i).find("+rf=") != string::npos) continue;
         if (parts.at(i).find("+R=") != string::npos) continue;
         if (parts.at(i).find("+ellps=") != string::npos) continue;
         if (parts.at(i).find("+datum=") != string::npos) continue;
-- 
2.43.0


From 12ead3d726ec5ce5663b634df987e6258d2ccd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:27 +0000
Subject: [PATCH 78/95] fix: protect the slice cache of CDMProcessor against
 concurrent reads

---
 src/CDMProcessor.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 3fc88d9..5b3ac41 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -34,6 +34,7 @@
 #include "fimex/CachedVectorReprojection.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
+#include "fimex/MutexLock.h"
 #include "fimex/Type2String.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
@@ -104,6 +105,7 @@ struct CDMProcessor::CDMProcessorImpl
     // horizontalId -> cachedVectorReprojection
     map<string, CachedVectorReprojection_p> cachedVectorReprojection;
     SliceCache sliceCache;
+    OmpMutex sliceCacheMutex; // slices may be read by several threads
     VerticalVelocityComps vvComp;
 
     VerticalConverter_p altitudeConverter;
@@ -612,13 +614,17 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
         if (unLimDimPos > 0) { // cannot accumulate first
             size_t start = 0;
-            if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
-                start = p_->sliceCache.ulimDimPos + 1;
-                if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data;
+            SliceCache cached;
+            {
+                OmpScopedLock lock(p_->sliceCacheMutex);
+                cached = p_->sliceCache;
+            }
+            if (cached.varName == varName && cached.ulimDimPos <= unLimDimPos) {
+                start = cached.ulimDimPos + 1;
+                if (cached.ulimDimPos == unLimDimPos) {
+                    data = cached.data;
                 } else {
-                    DataPtr dataP = p_->sliceCache.data;
-                    addDataP2Data(data, dataP, false);
+                    addDataP2Data(data, cached.data, false);
                 }
             }
             // data contains last slice + eventually cache
@@ -627,6 +633,7 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                 addDataP2Data(data, dataP, i == 0);
             }
             // fill the cache
+            OmpScopedLock lock(p_->sliceCacheMutex);
             p_->sliceCache.varName = varName;
             p_->sliceCache.ulimDimPos = unLimDimPos;
             p_->sliceCache.data = data;
-- 
2.43.0


From 011c7c66bf4a0ef78099c6fa75d422c987d3a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:27 +0000
Subject: [PATCH 79/95] fix: do not lock the NetCDF mutex twice when reading
 after fork

---
 src/io/netcdf/NetCDF_CDMReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index 7e51ee8..39a9428 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -137,8 +137,8 @@ DataPtr NetCDF_CDMReader::getDataSlice(const std::string& varName, size_t unLimD
         return getDataSliceFromMemory(var, unLimDimPos);
     }
 
+    ncFile->reopen_if_forked(); // locks the mutex
     OmpScopedLock lock(Nc::getMutex());
-    ncFile->reopen_if_forked();
     int varid;
     ncCheck(nc_inq_varid(ncFile->ncId, var.getName().c_str(), &varid));
     nc_type dtype;
-- 
2.43.0


From 3ee424ff657f2a10fd5bcd24322dfe956660dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:30 +0000
Subject: [PATCH 80/95] fix: filling undefined values read and wrote outside
 fields of a single row or column

---
 src/interpolation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index d0b85fb..6b39509 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -653,11 +653,11 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
         }
 
         // some work on the borders
-        for (size_t y = 1; y < nym1; y++) {
+        for (size_t y = 1; y < nym1 && nx > 1; y++) {
             field[y*nx+0] += (field[y*nx+1] - field[y*nx+0]) * wField[y*nx+0];
             field[y*nx+(nx-1)] += (field[y*nx+(nx-2)] - field[y*nx+(nx-1)]) * wField[y*nx+(nx-1)];
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; x < nx && ny > 1; x++) {
             field[0*nx +x] += (field[1*nx+x] - field[0*nx+x]) * wField[0*nx+x];
             field[nym1*nx+x] += (field[(nym1-1)*nx+x] - field[nym1*nx+x]) * wField[nym1*nx+x];
         }
@@ -753,7 +753,7 @@ static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float d
     }
     // simple calculations at the borders
     for (size_t l = 0; l < repeat; l++) {
-        for (size_t y = 1; y < nym1; y++) {
+        for (size_t y = 1; y < nym1 && nx > 1; y++) {
             if (rField[y*nx+0] < repeat) { // unset
                 field[y*nx+0] += field[y*nx+1]*wField[y*nx+1];
                 field[y*nx+0] /= (1+wField[y*nx+1]);
@@ -765,7 +765,7 @@ static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float d
                 wField[y*nx+(nx-1)] = 1;
             }
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; x < nx && ny > 1; x++) {
             if (rField[0*nx +x] < repeat) { // unset
                 field[0*nx +x] += field[1*nx+x]*wField[1*nx+x];
                 field[0*nx +x] /= (1+wField[1*nx+x]);
-- 
2.43.0


From d3c0ff193d2607466805381f944c5c62426a62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:11 +0000
Subject: [PATCH 81/95] fix: smoothing borders of variables without horizontal
 axes read out of bounds and changed the data type

---
 src/CDMBorderSmoothing.cc | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 9e74853..8c2a533 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -104,6 +104,22 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
     if (cdm_->hasDimension(varName) or not cdmO.hasVariable(varName))
         return p->readerI->getDataSlice(varName, unLimDimPos); // not scaled
 
+    const vector<string> &shape = cdm_->getVariable(varName).getShape();
+    vector<size_t> dimSizes;
+    int shapeIdxX = -1, shapeIdxY = -1;
+    for(size_t i=0; i<shape.size(); ++i) {
+        if (p->nameX == shape[i])
+            shapeIdxX = i;
+        else if (p->nameY == shape[i])
+            shapeIdxY = i;
+
+        const CDMDimension& dim = cdm_->getDimension(shape[i]);
+        if (not dim.isUnlimited())
+            dimSizes.push_back(dim.getLength());
+    }
+    if (shapeIdxX < 0 || shapeIdxY < 0)
+        return p->readerI->getDataSlice(varName, unLimDimPos); // no horizontal border, not scaled
+
     const std::string unitsI = p->readerI->getCDM().getUnits(varName);
     const std::string unitsO = p->interpolatedO->getCDM().getUnits(varName);
 
@@ -121,23 +137,6 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
         sliceO = p->interpolatedO->getScaledDataSliceInUnit(varName, unitsI, unLimDimPos);
     }
 
-    const vector<string> &shape = cdm_->getVariable(varName).getShape();
-    vector<size_t> dimSizes;
-    int shapeIdxX = -1, shapeIdxY = -1;
-    for(size_t i=0; i<shape.size(); ++i) {
-        if (p->nameX == shape[i])
-            shapeIdxX = i;
-        else if (p->nameY == shape[i])
-            shapeIdxY = i;
-
-        const CDMDimension& dim = cdm_->getDimension(shape[i]);
-        if (not dim.isUnlimited())
-            dimSizes.push_back(dim.getLength());
-    }
-    
-    if (dimSizes.empty())
-        return sliceI;
-
     Smoothing_p smoothing = (*p->smoothingFactory)(varName);
     smoothing->setHorizontalSizes(dimSizes[shapeIdxX], dimSizes[shapeIdxY]);
 
-- 
2.43.0


From 2ff09cb45c3e05e371507a1edbbc8f71e3e4899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:11 +0000
Subject: [PATCH 82/95] fix: merging used the unit of the x-axis for the y-axis

---
 src/CDMMergeUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 7ba48dd..0e00983 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -267,7 +267,7 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
         const values_v valuesX = getAxisValues(readerI, csI->getGeoXAxis(), unitIX),
                 valuesY = getAxisValues(readerI, csI->getGeoYAxis(), unitIY);
         interpolatedO->changeProjection(gridInterpolationMethod, projI->getProj4String(),
-                valuesX, valuesY, unitIX, unitIX, CDM_DOUBLE, CDM_DOUBLE);
+                valuesX, valuesY, unitIX, unitIY, CDM_DOUBLE, CDM_DOUBLE);
 
         LOG4FIMEX(logger, Logger::INFO, "interpolating top grid");
         break;
-- 
2.43.0


From e34520381427a4272ed8fd76e8e3e98a5a5b01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:11 +0000
Subject: [PATCH 83/95] fix: overlay lost values equal to the fill value of the
 base

---
 src/CDMOverlay.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMOverlay.cc b/src/CDMOverlay.cc
index 74a9fb4..d7b9b8e 100644
--- a/src/CDMOverlay.cc
+++ b/src/CDMOverlay.cc
@@ -81,7 +81,7 @@ DataPtr overlayDataSlices(T fillT, T fillB, DataPtr sliceT, DataPtr sliceB)
         T& valueB = valuesB[i];
         if (!(value_is_nan<T>(valueT) || valueT == fillT))
             valueB = valueT;
-        if (value_is_nan<T>(valueB) || valueB == fillB)
+        else if (value_is_nan<T>(valueB) || valueB == fillB)
             valueB = fillT; // need to use FillValue from top
     }
     return createData(sliceB->size(), valuesB);
-- 
2.43.0


From c0044cabd6b2d81729b7ddd3764a9d8de4f94144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:27 +0000
Subject: [PATCH 84/95] fix: overlay and border smoothing returned unmerged
 data for variables held in memory

---
 src/CDMMergeUtils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 0e00983..66123f8 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -291,6 +291,8 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
             cdmI.removeVariable(varName);
         } else {
             LOG4FIMEX(logger, Logger::INFO, "variable '" << varName << "' kept");
+            if (!cdmI.hasDimension(varName))
+                cdmI.getVariable(varName).setData(DataPtr()); // do not use unmerged data from memory
         }
     }
 
-- 
2.43.0


From b14265c6813304d71e32cb9c47769e6ea2e47e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:53 +0000
Subject: [PATCH 85/95] fix: merging variables with additional dimensions in
 one dataset read out of bounds

---
 src/CDMMergeUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 66123f8..7db70ca 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -198,7 +198,7 @@ bool is_compatible(CDMReader_p readerB, CDMReader_p readerT, const CoordinateSys
     const vector<string> &shapeB = cdmB.getVariable(varName).getShape(),
             &shapeT = cdmT.getVariable(varName).getShape();
     if (shapeB != shapeT) {
-        for (size_t idxB=0, idxT=0; idxB < shapeB.size() and idxT < shapeT.size(); ++idxB, ++idxT) {
+        for (size_t idxB=0, idxT=0; idxB < shapeB.size() or idxT < shapeT.size(); ++idxB, ++idxT) {
             // hop over dimensions with length 1
             while (idxB < shapeB.size() and cdmB.getDimension(shapeB[idxB]).getLength() == 1) {
                 LOG4FIMEX(logger, Logger::DEBUG, "variable '" << varName << "' hopping over length-1 dimension '" << shapeB[idxB] << "' in base");
-- 
2.43.0


From 8c48d13e5f141a91f9e9dbf1f935a2bff1e5a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:20 +0000
Subject: [PATCH 86/95] fix: forward interpolation used the first layer for all
 layers

---
 src/CachedForwardInterpolation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 60c392d..bb291c9 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -213,7 +213,7 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
             for (size_t ii : pointsInIn[i]) {
-                const float val = inData[ii];
+                const float val = inData[z * inLayerSize + ii];
                 if (undefAggr || !mifi_isnan(val))
                     agg->push(val);
             }
-- 
2.43.0


From 9e91ac4bea3357dbcbc8794f7cc052791432fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:20 +0000
Subject: [PATCH 87/95] fix: forward_undef_median/min/max did not propagate
 undefined values

---
 src/CachedForwardInterpolation.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index bb291c9..769aabb 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -212,12 +212,16 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     for (size_t z = 0; z < inZ; ++z) {
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
+            bool undef = false;
             for (size_t ii : pointsInIn[i]) {
                 const float val = inData[z * inLayerSize + ii];
-                if (undefAggr || !mifi_isnan(val))
+                if (!mifi_isnan(val))
                     agg->push(val);
+                else if (undefAggr)
+                    undef = true;
             }
-            *outDataIt++ = agg->get_and_reset();
+            const float aggregated = agg->get_and_reset();
+            *outDataIt++ = undef ? MIFI_UNDEFINED_F : aggregated;
         }
     }
     return outData;
-- 
2.43.0


From 8a5c1c51c4b262976229de52e4eb986362dbb000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:20 +0000
Subject: [PATCH 88/95] fix: interpolation method forward_undef_min was
 forward_min

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 6b39509..7e153ed 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -101,7 +101,7 @@ int mifi_string_to_interpolation_method(const char* mString)
     } else if (mifi_string_equal("forward_undef_max", mString)) {
         method = MIFI_INTERPOL_FORWARD_UNDEF_MAX;
     } else if (mifi_string_equal("forward_undef_min", mString)) {
-        method = MIFI_INTERPOL_FORWARD_MIN;
+        method = MIFI_INTERPOL_FORWARD_UNDEF_MIN;
     }
     return method;
 }
-- 
2.43.0


From 8003b3a87ca8ebb407046744998c79bcd64792c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:14 +0000
Subject: [PATCH 89/95] fix: searching files matched the names of sibling
 directories

---
 src/FileUtils.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/FileUtils.cc b/src/FileUtils.cc
index a50151d..af8ba57 100644
--- a/src/FileUtils.cc
+++ b/src/FileUtils.cc
@@ -163,11 +163,12 @@ static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int d
         const filetype_t ft = file_type(e);
         if (ft == DIRECTORY) {
             if (depth != 0) {
+                std::string relDir;
                 if (!matchFileOnly) {
                     // remember the directory behind start-directory
-                    currentRelDir += path_filename_string(e) + "/";
+                    relDir = currentRelDir + path_filename_string(e) + "/";
                 }
-                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, currentRelDir, depthCount + 1);
+                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, relDir, depthCount + 1);
             }
         } else if (ft == REGULAR_FILE) {
             const std::string filename = (matchFileOnly ? "" : currentRelDir) + path_filename_string(e);
-- 
2.43.0


From daa3b5bb72d2813585a574fa246fe15648f7b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:51 +0000
Subject: [PATCH 90/95] fix: real numbers written as text could differ when
 read back

---
 src/Type2String.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/Type2String.cc b/src/Type2String.cc
index db7a18b..a4c4e32 100644
--- a/src/Type2String.cc
+++ b/src/Type2String.cc
@@ -36,22 +36,33 @@
 
 namespace MetNoFimex {
 
+namespace {
+
+/** Insert with as many digits as needed to read the same value back. */
+template <typename T>
+std::ostream& real2stream(std::ostream& out, T in)
+{
+    for (int digits = std::numeric_limits<T>::digits10 + 1;; ++digits) {
+        std::ostringstream buffer;
+        buffer << std::setprecision(digits) << in;
+        T back;
+        if (digits >= std::numeric_limits<T>::max_digits10 || ((std::istringstream(buffer.str()) >> back) && back == in))
+            return out << buffer.str();
+    }
+}
+
+} // namespace
+
 template <>
 std::ostream& type2stream<double>(std::ostream& out, double in)
 {
-    std::ostringstream buffer;
-    buffer << std::setprecision(std::numeric_limits<double>::digits10 + 1) << in;
-    out << buffer.str();
-    return out;
+    return real2stream(out, in);
 }
 
 template <>
 std::ostream& type2stream<float>(std::ostream& out, float in)
 {
-    std::ostringstream buffer;
-    buffer << std::setprecision(std::numeric_limits<float>::digits10 + 1) << in;
-    out << buffer.str();
-    return out;
+    return real2stream(out, in);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From d7f09c92b44adce14ec3d6921771c734ac90879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:51 +0000
Subject: [PATCH 91/95] fix: NcML of unsigned variables which came from NcML
 could not be read

---
 src/NcmlCDMWriter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 6cb28b8..fd0be36 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -212,6 +212,8 @@ void NcmlCDMWriter::write(std::ostream& out, const CDMVariable& var, const std::
         opened = true;
     }
     for (const auto& att : attrs) {
+        if (dt && dt.is_unsigned && att.getName() == NCML_UNSIGNED)
+            continue; // already written above
         write(out, att, "  ");
     }
     if (opened) {
-- 
2.43.0


From e30ce3da573f9ffc1113253869308ad7972fb5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:38 +0000
Subject: [PATCH 92/95] fix: lists of texts were not written to NcML in a form
 that can be read

---
 src/NcmlCDMWriter.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index fd0be36..91bf6dd 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -144,7 +144,9 @@ void NcmlCDMWriter::write(std::ostream& out, bool withData)
                 if (unLimDimPos > 0)
                     out << separator;
                 if (data && data->size() > 0) {
-                    data->toStream(out, separator);
+                    std::ostringstream values;
+                    data->toStream(values, separator);
+                    out << escapeXml(values.str());
                 } else if (dataSize > 0) {
                     std::ostringstream fill;
                     createData(var.getDataType(), 1, cdm.getFillValue(var.getName()))->toStream(fill);
@@ -183,7 +185,7 @@ void NcmlCDMWriter::write(std::ostream& out, const CDMAttribute& att, const std:
         separator = findStringsSeparator(att.getData());
     }
     out << indent << "<attribute name=\"" << escapeXml(att.getName()) << "\" type=\"" << dt.name << "\"";
-    if (separator != " ") {
+    if (att.getDataType() == CDM_STRINGS) { // without separator, values are split at any white-space or comma
         out << " separator=\"" << separator << "\"";
     }
     out << " value=\"" << escapeXml(att.getStringValueWithSeparator(separator)) << "\" />" << std::endl;
-- 
2.43.0


From 4f44ac31472614026be088c7e0eed4597f6129b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:38 +0000
Subject: [PATCH 93/95] fix: variables of texts could not be written to
 netCDF-4 with compression

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index aeacd61..16ad016 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -418,7 +418,7 @@ NetCDF_CDMWriter::NcVarIdMap NetCDF_CDMWriter::defineVariables(const NcDimIdMap&
                         shuffle = 1;
                     }
                 }
-                if (compression > 0 && !shape.empty()) { // non-scalar variables
+                if (compression > 0 && !shape.empty() && var.getDataType() != CDM_STRINGS) { // non-scalar variables of fixed-size type
                     // create a chunk-strategy: continuous in last dimensions, max MAX_CHUNK
                     const size_t DEFAULT_CHUNK = 2 << 20; // good chunk up to 1M *sizeof(type)
                     const size_t MIN_CHUNK = 2 << 16;     // chunks should be at least reasonably sized, e.g. 64k*sizeof(type)
-- 
2.43.0


From 2cf2e7c7e68e03dd51caf2ab89f32bec829e34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:53 +0000
Subject: [PATCH 94/95] fix: NcML without values (no records, or one empty
 text) could not be read

---
 src/NcmlCDMReader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index a2711e1..ba69fdf 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -299,7 +299,10 @@ void NcmlCDMReader::initVariableDataChange()
             const auto increment = getXmlProp(node, "increment");
             const auto values_content = getXmlContent(node);
             const bool have_start_inc = (!start.empty() && !increment.empty());
-            const bool have_values = (!values_content.empty());
+            const auto separator = getXmlProp(node, "separator");
+            // no content: no values at all, or a single empty text
+            const bool no_content = values_content.empty() && !have_start_inc && (dataSize == 0 || !separator.empty());
+            const bool have_values = (!values_content.empty() || no_content);
             if (start.empty() != increment.empty()) {
                 LOG_ERROR_THROW("values element must have either both 'start' and 'increment' or none of the two");
             } else if (have_start_inc == have_values) {
@@ -313,7 +316,9 @@ void NcmlCDMReader::initVariableDataChange()
                 }
                 var.setData(convertValues(*createData(dataSize, array), var.getDataType()));
             } else {
-                const auto values_list = split_ncml_values(values_content, getXmlProp(node, "separator"));
+                std::vector<std::string> values_list;
+                if (dataSize > 0)
+                    values_list = split_ncml_values(values_content, separator);
 
                 // check that no. of values == shape-size
                 if ((dims.size() == 0 && values_list.size() > 1) // scalars
-- 
2.43.0


From 23db3d45ab6c32802c809ca55f0d84915773d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:02 +0000
Subject: [PATCH 95/95] fix: failing to write NcML was not reported

---
 src/NcmlCDMWriter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 91bf6dd..c91bc09 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -81,6 +81,9 @@ NcmlCDMWriter::NcmlCDMWriter(const CDMReader_p cdmReader, const std::string& out
 {
     std::ofstream out(outputFile);
     write(out, true);
+    out.close();
+    if (!out)
+        throw CDMException("cannot write ncml-file '" + outputFile + "'");
 }
 
 NcmlCDMWriter::NcmlCDMWriter(const CDMReader_p cdmReader, std::ostream& output, bool withData)
-- 
2.43.0

