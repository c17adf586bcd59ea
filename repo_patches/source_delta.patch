From 5dd7ec0737989df9886f95c106d764dc209433fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:55 +0000
Subject: [PATCH 01/61] fix: release the PAA wrapper when its dataset is
 unloaded

The lookup was inverted, so the wrapper of an unloaded dataset stayed in
the map and kept referring to the destroyed dataset.
---
 genex/GenexAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 638c498..254ad3f 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -62,7 +62,7 @@ void GenexAPI::unloadDataset(const string& name)
   this->_loadedDatasets[name] = nullptr;
   this->_loadedDatasets.erase(name);
 
-  if (this->_paaWrappers.find(name) == this->_paaWrappers.end())
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
   {
     delete this->_paaWrappers[name];
     this->_paaWrappers[name] = nullptr;
-- 
2.43.0


From 39a403613b33d9bb880f8ba620033635bf8f442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:55 +0000
Subject: [PATCH 02/61] fix: release all PAA wrappers when unloading all
 datasets

The wrappers refer to the datasets that were just destroyed and were
never deleted.
---
 genex/GenexAPI.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 254ad3f..cae7795 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -78,6 +78,11 @@ void GenexAPI::unloadAllDataset()
     delete this->_loadedDatasets[pair.first];
   }
   this->_loadedDatasets.clear();
+  for (auto const& pair : this->_paaWrappers)
+  {
+    delete pair.second;
+  }
+  this->_paaWrappers.clear();
   this->_datasetCount = 0;
 }
 
-- 
2.43.0


From 23cc7263a6bd97e8e1fb7ab858f718faa1eaa9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:55 +0000
Subject: [PATCH 03/61] fix: delete the new dataset whatever exception its load
 raises

Loading can also fail with a standard exception, for example when the
table is too large to allocate, and the new dataset then leaked.
---
 genex/GenexAPI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index cae7795..66eb828 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -36,10 +36,10 @@ dataset_metadata_t GenexAPI::loadDataset(const string& name
   try {
     newSet->loadData(filePath, maxNumRow, startCol, separators, hasNameCol);
   } 
-  catch (GenexException& e)
+  catch (...)
   {
     delete newSet;
-    throw e;
+    throw;
   }
 
   this->_loadedDatasets[name] = newSet;
-- 
2.43.0


From 329237f3203017cea23f03595581752775d45233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:12 +0000
Subject: [PATCH 04/61] fix: publish new groups only after grouping or loading
 them completed

A grouping that failed half way (unknown distance, bad thread count, out of
memory) left the dataset marked as grouped with incomplete groups.  The same
happened when a group file turned out to be unreadable half way through.
---
 genex/GroupableTimeSeriesSet.cpp | 13 ++++++++-----
 genex/GroupableTimeSeriesSet.hpp |  6 ++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1b75ad8..dcb7387 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 #include "IO.hpp"
 #include "GroupableTimeSeriesSet.hpp"
@@ -30,19 +31,20 @@ int GroupableTimeSeriesSet::groupAllLengths(
   // clear old groups
   reset();
 
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
+  std::unique_ptr<GlobalGroupSpace> groups(new GlobalGroupSpace(*this));
   int cntGroups;
   if (numThreads == 1) {
-    cntGroups = this->groupsAllLengthSet->group(
+    cntGroups = groups->group(
       distanceName, threshold, wholeSeriesOnly);
   }
   else if (numThreads > 1) {
-    cntGroups = this->groupsAllLengthSet->groupMultiThreaded(
+    cntGroups = groups->groupMultiThreaded(
       distanceName, threshold, numThreads, wholeSeriesOnly);
   }
   else {
     throw GenexException("Number of threads must be positive");    
   }
+  this->groupsAllLengthSet = groups.release();
   return cntGroups;
 }
 
@@ -130,9 +132,10 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     //   throw GenexException("Incompatible item length");
     // }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> groups(new GlobalGroupSpace(*this));
+    numberOfGroups = groups->loadGroupsOld(fin);
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin);
+    this->groupsAllLengthSet = groups.release();
   }
   else
   {
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 29ba3a3..fa4b340 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -1,6 +1,7 @@
 #ifndef GROUPABLE_TIME_SERIES_SET_H
 #define GROUPABLE_TIME_SERIES_SET_H
 
+#include <memory>
 #include <vector>
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
@@ -115,9 +116,10 @@ private:
     {
       throw GenexException("Incompatible item length");
     }
+    std::unique_ptr<GlobalGroupSpace> groups(new GlobalGroupSpace(*this));
+    ar >> *groups;
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    ar >> *(this->groupsAllLengthSet);
+    this->groupsAllLengthSet = groups.release();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From aca67602798fe2859533e27305094e7021a79c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:12 +0000
Subject: [PATCH 05/61] fix: use each series' own length when preparing and
 searching PAA

The length of the series was looked up with the maximum length as the series
index, which reads past the table of lengths for most datasets.  Searching
before the first successful preparation used a block size that was never set.
---
 genex/PAAWrapper.cpp | 9 +++++----
 genex/PAAWrapper.hpp | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 355411e..1e11c6b 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -7,6 +7,7 @@
 
 using std::vector;
 using std::min;
+using std::max;
 using std::cout;
 using std::endl;
 
@@ -49,11 +50,11 @@ void PAAWrapper::generatePAAMatrix(int blockSize)
     throw GenexException("Block size for PAA must be positive");
   }
  
-  int itemLength = dataset.getItemLength(dataset.getMaxLength());
-  blockSize = min(blockSize, itemLength);
+  blockSize = min(blockSize, max(dataset.getMaxLength(), 1));
   for (int i = 0; i < dataset.getItemCount(); i++) {
+    int itemLength = dataset.getItemLength(i);
     this->paaMat[i].clear();
-    for (int offset = 0; offset < blockSize; offset++) {
+    for (int offset = 0; offset < min(blockSize, itemLength); offset++) {
       TimeSeries paaTS = tsPAA(dataset.getTimeSeries(i, offset, itemLength), blockSize);      
       this->paaMat[i].push_back(paaTS);
     }
@@ -106,13 +107,13 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
 
   auto warpedDistance = getDistanceFromName(distanceName + DTW_SUFFIX);
   data_t bestSoFarDist, currentDist;
-  auto timeSeriesLength = dataset.getItemLength(dataset.getMaxLength());
   auto numberTimeSeries = dataset.getItemCount();
   auto paaQuery = tsPAA(query, this->blockSize);
 
   // iterate through every timeseries
   for (int idx = 0; idx < numberTimeSeries; idx++)
   {
+    auto timeSeriesLength = dataset.getItemLength(idx);
     // iterate through every length of interval
     for (int intervalLength = 2; intervalLength <= timeSeriesLength;
         intervalLength++) 
diff --git a/genex/PAAWrapper.hpp b/genex/PAAWrapper.hpp
index 8d53a63..ad715e3 100644
--- a/genex/PAAWrapper.hpp
+++ b/genex/PAAWrapper.hpp
@@ -53,7 +53,7 @@ public:
 
 private:
   const TimeSeriesSet& dataset;
-  int blockSize;
+  int blockSize = 1;
   vector< vector<TimeSeries> > paaMat;
 };
 
-- 
2.43.0


From b67f8d254a169a84618236a80deeebbf7ea726ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:12 +0000
Subject: [PATCH 06/61] fix: check the series index when asking for the length
 of a series

An index outside the dataset read past the table of lengths.
---
 genex/TimeSeriesSet.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index 84bd592..053e684 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -4,6 +4,7 @@
 #include <string>
 #include <vector>
 
+#include "Exception.hpp"
 #include "TimeSeries.hpp"
 #include "distance/Distance.hpp"
 
@@ -75,7 +76,14 @@ public:
    *
    * @return length of each time series
    */
-  int getItemLength(int index) const { return this->lengths[index]; }
+  int getItemLength(int index) const
+  {
+    if (index < 0 || index >= this->itemCount)
+    {
+      throw GenexException("Invalid time series index");
+    }
+    return this->lengths[index];
+  }
 
   /**
    * @brief gets number of time series in the dataset
-- 
2.43.0


From f4c968d5d45a6726f6d477fc27c967c9c583d761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:23 +0000
Subject: [PATCH 07/61] fix: forget lengths, path and normalized flag when data
 is cleared

Loading a second file into the same set kept the lengths of the first one, so
the series of the new data were reported and read with the wrong lengths, and
the new data counted as normalized.
---
 genex/TimeSeriesSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a4e7586..aa59d98 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -176,6 +176,9 @@ void TimeSeriesSet::clearData()
   this->itemCount = 0;
   this->maxCol = 0;
   this->names.clear();
+  this->lengths.clear();
+  this->filePath.clear();
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From 55fa304066ac810fda7a17d9754d8ce7fec4fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:23 +0000
Subject: [PATCH 08/61] fix: refuse column offsets that do not fit the data
 file

A negative offset wrote in front of the allocated values.  An offset beyond
the end of a row gave that row a negative length.
---
 genex/TimeSeriesSet.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index aa59d98..f865f6e 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -83,6 +83,11 @@ void TimeSeriesSet::loadData(const string& filePath
     maxNumRow = std::min(maxNumRow, maxRowMaxColumn.first);
   }
   auto rawMaxCol = maxRowMaxColumn.second;
+  if (startCol < 0 || startCol > rawMaxCol - hasNameCol)
+  {
+    f.close();
+    throw GenexException("Starting column is out of range");
+  }
   int length = -1;
   string line;
   // Tokenize each line using the given separators
@@ -98,7 +103,14 @@ void TimeSeriesSet::loadData(const string& filePath
     if (getline(f, line))
     {
       tokenizer tokens(line, sep);
-      this->lengths.push_back(std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol);
+      int numCols = std::distance(tokens.begin(), tokens.end());
+      if (startCol > numCols - hasNameCol)
+      {
+        f.close();
+        this->clearData();
+        throw GenexException("Starting column is out of range");
+      }
+      this->lengths.push_back(numCols - startCol - hasNameCol);
       int col = 0;
       for (tokenizer::iterator tok_iter = tokens.begin();
            tok_iter != tokens.end(); tok_iter++, col++)
-- 
2.43.0


From 7ea7b780a51553624ba98d52f6f66145542d87de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:23 +0000
Subject: [PATCH 09/61] fix: refuse data files that do not fit the integer
 index range

The number of values was computed in int and could wrap around, so that the
allocated storage was smaller than the data written to it.
---
 genex/TimeSeriesSet.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index f865f6e..d6182af 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -4,7 +4,7 @@
 #include <string>
 #include <fstream>
 #include <iostream>
-#include <cstring>
+#include <limits>
 #include <boost/tokenizer.hpp>
 
 #include "distance/Distance.hpp"
@@ -94,9 +94,14 @@ void TimeSeriesSet::loadData(const string& filePath
   boost::char_separator<char> sep(separators.c_str());
   typedef boost::tokenizer<boost::char_separator<char>> tokenizer;
 
+  if (rawMaxCol > 0 && maxNumRow > std::numeric_limits<int>::max() / rawMaxCol)
+  {
+    f.close();
+    throw GenexException("Dataset is too large");
+  }
+
   this->itemCount = 0;
-  this->data = new data_t[maxNumRow * rawMaxCol];
-  memset(this->data, 0, maxNumRow * rawMaxCol * sizeof(data_t*));
+  this->data = new data_t[maxNumRow * rawMaxCol]();
   for (int row = 0; row < maxNumRow; row++, this->itemCount++)
   {
     // Read and process line by line
-- 
2.43.0


From bbe77f0c662525552c18d6d8347ef7cfd63c7f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:23 +0000
Subject: [PATCH 10/61] fix: refuse values with trailing text in a data file

Text that merely starts with a number, such as 12abc, was loaded as 12.
Trailing white space is still accepted.
---
 genex/TimeSeriesSet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index d6182af..fde6484 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -130,7 +130,12 @@ void TimeSeriesSet::loadData(const string& filePath
             }
             else {
               int index = row * (rawMaxCol - startCol - hasNameCol) + (col - startCol - hasNameCol);
-              this->data[index] = (data_t)std::stod(*tok_iter);
+              size_t parsed;
+              this->data[index] = (data_t)std::stod(*tok_iter, &parsed);
+              if (tok_iter->find_first_not_of(" \t\r\n\v\f", parsed) != string::npos)
+              {
+                throw std::invalid_argument("trailing text");
+              }
             }
           }
           catch (const std::invalid_argument& e)
-- 
2.43.0


From 82d573b570b0fdf9ab30e7d32137ca477c012eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:23 +0000
Subject: [PATCH 11/61] fix: report data files that cannot be read

Read errors during the first pass over the file were cleared and rows that
could not be read again were skipped, so that for instance loading a directory
succeeded with an empty dataset.
---
 genex/TimeSeriesSet.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index fde6484..fbb7f3f 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -56,6 +56,10 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separa
       maxColumn = length;
     }
   }
+  if (f.bad())
+  {
+    throw GenexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return {lineCount, maxColumn};
@@ -154,7 +158,9 @@ void TimeSeriesSet::loadData(const string& filePath
       }
     }
     else {
-      break;
+      f.close();
+      this->clearData();
+      throw GenexException("Error while reading file");
     }
   }
 
-- 
2.43.0


From 69a5b37751c1005af3578a8bd7657d85297cd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:23 +0000
Subject: [PATCH 12/61] fix: refuse to normalize a dataset whose series are all
 empty

The minimum and maximum of no values at all were returned as infinities.
---
 genex/TimeSeriesSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index fbb7f3f..7e7135e 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -291,6 +291,11 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
     }
   }
 
+  if (MIN > MAX)
+  {
+    throw GenexException("No data to normalize");
+  }
+
   data_t diff = MAX - MIN;
 
   // do not divide by zero
-- 
2.43.0


From 81a5cb878e8c8b527ddd77c1ffa6eb8ff5c28971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 13/61] fix: write dataset values with full precision

Values were written with six significant digits, so a saved dataset differed
from the one in memory.
---
 genex/TimeSeriesSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 7e7135e..5ffc385 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -185,6 +185,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
+  f.precision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     if (!this->names.empty()) {
       f << names[i] << separator;
-- 
2.43.0


From c18a0709a0bcaf52a1f328a5298201b81e7871c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 14/61] fix: report when a dataset could not be written
 completely

A full disk went unnoticed when saving a dataset.
---
 genex/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 5ffc385..c1a0b38 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -196,6 +196,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << endl;
   }
   f.close();
+  if (!f)
+  {
+    throw GenexException(string("Cannot write ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From d8979656c09dc37e99a2383f51afe37c20092a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 15/61] fix: assign a series completely, also to itself

Assigning a longer series that holds its own values allocated and copied only
as many values as the old series had.  Assigning a series to itself released
the values before copying them.
---
 genex/TimeSeries.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index a672d95..5c54993 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -66,20 +66,22 @@ TimeSeries::TimeSeries(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
-  if (isOwnerOfData) {
-    // If the data is internal, remove it as it will be replaced soon
-    delete[] this->data;
+  if (this == &other) {
+    return *this;
   }
+  // If the data is external, only need to copy the referring pointer
+  data_t* newData = other.data;
   if (other.isOwnerOfData)
   {
     // If the data is internal to the TimeSeries, copy this data
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
+    newData = new data_t[other.length];
+    memcpy(newData, other.data, other.length * sizeof(data_t));
   }
-  else {
-    // If the data is external, only need to copy the referring pointer
-    this->data = other.data;
+  if (isOwnerOfData) {
+    // If the data is internal, remove it as it is replaced now
+    delete[] this->data;
   }
+  this->data = newData;
 
   isOwnerOfData = other.isOwnerOfData;
   index = other.index;
@@ -92,6 +94,9 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon    
     delete[] this->data;
@@ -106,6 +111,8 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  // Nothing can be read from the moved series any more
+  other.start = other.end = other.length = 0;
 
   return *this;
 }
-- 
2.43.0


From cdac03b34e4e90c506ce3b4ecdd1e89284620dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 16/61] fix: drop cached envelopes when a series is assigned

Envelopes computed for the old values of a series were still handed out after
other values had been assigned to it, also for the wrong length.
---
 genex/TimeSeries.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 5c54993..8685821 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -88,6 +88,7 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  keoghCacheValid = false;
 
   return *this;
 }
@@ -113,6 +114,7 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   length = other.length;
   // Nothing can be read from the moved series any more
   other.start = other.end = other.length = 0;
+  keoghCacheValid = other.keoghCacheValid = false;
 
   return *this;
 }
-- 
2.43.0


From 0acd109239823cdafcd0912382a2732f8da899f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 17/61] fix: compare length and values of series that share
 their data

Two different parts of the same series compared equal, and a value that is not
a number compared equal to everything.
---
 genex/TimeSeries.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 8685821..4f78350 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -157,7 +157,7 @@ TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
 
 bool TimeSeries::operator==(const TimeSeries& other) const
 {
-  if (this->data == other.data) {
+  if (this->data == other.data && this->start == other.start && this->length == other.length) {
     return true;
   }
   else if (this->data == nullptr || other.data == nullptr) {
@@ -167,7 +167,9 @@ bool TimeSeries::operator==(const TimeSeries& other) const
     return false;
   }
   for (int i = 0; i < this->length; i++) {
-    if (abs(this->data[this->start + i] - other.data[other.start + i]) > EPS) {
+    data_t x = this->data[this->start + i];
+    data_t y = other.data[other.start + i];
+    if (x != y && !(std::abs(x - y) <= EPS)) {
       return false;
     }
   }
-- 
2.43.0


From fcf71af26428932cd2b528cf9355cff3ac054261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 18/61] fix: start the average of a series from zero

The sum was never initialised.
---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 4f78350..b35d641 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -177,7 +177,7 @@ bool TimeSeries::operator==(const TimeSeries& other) const
 }
 
 data_t TimeSeries::average() {
-  data_t sum;
+  data_t sum = 0;
   for (int i = 0; i < this->length; i++) {
     sum += data[this->start + i];
   }
-- 
2.43.0


From 9c034fed205e03056ef7766a83a5d019939e98d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 19/61] fix: initialise the cached warping band of a new series

The band was compared before it was ever set.
---
 genex/TimeSeries.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 542f161..92abaa7 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -169,7 +169,7 @@ private:
   mutable bool keoghCacheValid = false;
   mutable data_t* keoghLower = nullptr;
   mutable data_t* keoghUpper = nullptr;
-  mutable double cachedWarpingBand;
+  mutable double cachedWarpingBand = -1;
 
   std::ostream &printData(std::ostream &out) const;
   
-- 
2.43.0


From 0cd4e77cfb800c0153187fe56bee96967f2940f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 20/61] fix: never search groups of lengths the dataset does
 not have

A query longer than every series of the searched dataset indexed past the
table of groups.
---
 genex/group/GlobalGroupSpace.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 8cdd3f7..7a4d9df 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -254,7 +254,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -263,7 +265,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
-- 
2.43.0


From 69432002ce729a1d1972a00237bc4ca4c49481e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 21/61] fix: report when a search finds no group or no member

If no group lies within the warping band of the query, a null group was used.
If no member of the group has a finite distance, the position of the answer
was never set.
---
 genex/group/GlobalGroupSpace.cpp | 3 +++
 genex/group/Group.cpp            | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 7a4d9df..616ad8b 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -157,6 +157,9 @@ GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       }
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw GenexException("No match found");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7ed8f13..bbfb6c2 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -38,7 +38,7 @@ candidate_time_series_t Group::getBestMatch(const TimeSeries& query, const dist_
   member_coord_t currentMemberCoord = this->lastMemberCoord;
 
   data_t bestSoFarDist = INF;
-  member_coord_t bestSoFarMember;
+  member_coord_t bestSoFarMember(-1, -1);
 
   while (currentMemberCoord.first != -1)
   {
@@ -60,6 +60,9 @@ candidate_time_series_t Group::getBestMatch(const TimeSeries& query, const dist_
       this->memberMap[currIndex * this->subTimeSeriesCount + currStart].prev;
   }
 
+  if (bestSoFarMember.first == -1) {
+    throw GenexException("No match found");
+  }
   auto bestIndex = bestSoFarMember.first;
   auto bestStart = bestSoFarMember.second;
   TimeSeries bestTimeSeries = this->dataset.getTimeSeries(bestIndex, bestStart, bestStart + this->memberLength);
-- 
2.43.0


From 2dbe6a37c4ff8008401a89a4ceed5c887bcb99c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 22/61] fix: never pad k-best results with empty series

When fewer than k subsequences were examined the list was filled up with empty
series at distance zero.
---
 genex/GroupableTimeSeriesSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index dcb7387..68d37c8 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -164,7 +164,9 @@ GroupableTimeSeriesSet::getKBestMatches(const TimeSeries& query, int k, int h)
     }
     auto results = this->groupsAllLengthSet->getKBestMatches(query, h);
     std::sort(results.begin(), results.end());
-    results.resize(k);
+    if (results.size() > k) {
+      results.resize(k);
+    }
     return results;
   }
   throw GenexException("Dataset is not grouped");
-- 
2.43.0


From 2326e0d43396881faef6f28be205bc929287dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 23/61] fix: refuse a non-positive k in group based k-best
 queries

A negative k made the result list grow without bound and a zero k was
answered; the exhaustive searches refuse both.
---
 genex/GroupableTimeSeriesSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 68d37c8..66a652b 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -158,6 +158,9 @@ GroupableTimeSeriesSet::getKBestMatches(const TimeSeries& query, int k, int h)
 {
   if (this->groupsAllLengthSet) //not nullptr
   {
+    if (k <= 0) {
+      throw GenexException("K must be positive");
+    }
     if (h < k) {
       throw GenexException("Number of examined time series must be larger than "
                            "or equal to the number of time series to look for");
-- 
2.43.0


From 64332089c55669b55b4ac22fcea489686786de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 24/61] fix: do not divide by zero when logging grouping
 progress

Grouping fewer than five subsequences of a length divided by zero whenever the
progress was logged.
---
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 09ba1cd..da16fea 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -67,7 +67,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From b8ed378075af658f290dcd2fe76bb919e04876cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 25/61] fix: found a new group when no representative is
 comparable

If no distance to a representative is finite and the threshold is infinite, the
group to join was chosen by an index that was never set.
---
 genex/group/LocalLengthGroupSpace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index da16fea..6af53c6 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -78,7 +78,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = -1;
 
       for (auto i = 0; i < groups.size(); i++)
       {
@@ -90,7 +90,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
         }
       }
 
-      if (bestSoFar > threshold / 2 || this->groups.size() == 0)
+      if (bestSoFarIndex < 0 || bestSoFar > threshold / 2)
       {
         bestSoFarIndex = this->groups.size();
         auto newGroupIndex = this->groups.size();
-- 
2.43.0


From be0efac623c0996c0c190edc9e7cfe768134a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 26/61] fix: compute the warping path only when it is asked for

Every warped distance appended its path to a vector shared by all callers and
threads, which kept growing and was written without synchronisation.
---
 genex/distance/Distance.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index ea6f3a3..3257df5 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -180,7 +180,7 @@ data_t warpedDistance(
 
   int i = m - 1;
   int j = n - 1;
-  while ((i != 0) || (j != 0)) {
+  while (computeMatching && ((i != 0) || (j != 0))) {
     matching.push_back(coord_t {i, j});
     if (i == 0) {
       j--;
@@ -207,8 +207,10 @@ data_t warpedDistance(
       }
     }
   }
-  matching.push_back(coord_t {0, 0});
-  std::reverse(matching.begin(), matching.end());
+  if (computeMatching) {
+    matching.push_back(coord_t {0, 0});
+    std::reverse(matching.begin(), matching.end());
+  }
   for(int i = 1; i < m; i++)
   {
     for(int j = 1; j < n; j++)
-- 
2.43.0


From d08ff3f77300699b9c0bc70c8f99cc304ff86b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 27/61] fix: finish the warping path for values that are not
 numbers

If no neighbouring cell equals the smallest one, because it is not a number,
the path was extended for ever without moving.
---
 genex/distance/Distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 3257df5..0ec95d9 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -202,7 +202,7 @@ data_t warpedDistance(
       else if (ncost[i - 1][j] == minNeighbor) {
         i--;
       }
-      else if (ncost[i][j - 1] == minNeighbor) {
+      else {
         j--;
       }
     }
-- 
2.43.0


From 44fdc9cc828b2c8449ec32c6e9991d5809761d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 28/61] fix: release all cells of the cost matrix

The first row and the first column were never released.
---
 genex/distance/Distance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 0ec95d9..be309e0 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -211,9 +211,9 @@ data_t warpedDistance(
     matching.push_back(coord_t {0, 0});
     std::reverse(matching.begin(), matching.end());
   }
-  for(int i = 1; i < m; i++)
+  for(int i = 0; i < m; i++)
   {
-    for(int j = 1; j < n; j++)
+    for(int j = 0; j < n; j++)
     {
       metric->clean(cost[i][j]);
     }
-- 
2.43.0


From a33bf6fd4b7a646d79a400b8a34c5e0172f0022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 29/61] fix: keep the warping path inside the warping band

Cells outside of the band kept the cost zero and attracted the path.
---
 genex/distance/Distance.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index be309e0..1ba324e 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -108,11 +108,9 @@ data_t warpedDistance(
 
   // create cost matrix
   vector< vector< T >> cost(m, vector< T >(n));
-  vector< vector< data_t >> ncost(m, vector<data_t>(n));
-
-  // Preset this in case this cell is never reached due to the warping
+  // Preset this in case a cell is never reached due to the warping
   // band constraint
-  ncost[m - 1][n - 1] = INF;
+  vector< vector< data_t >> ncost(m, vector<data_t>(n, INF));
 
   cost[0][0] = metric->init();
   cost[0][0] = metric->reduce(cost[0][0], cost[0][0], a[0], b[0]);
-- 
2.43.0


From c9f1948c7fdef6a1bf635b7fcdbfa934e081cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 30/61] fix: return the warping path of two single points

The fast path for two series of length one returned an empty path.
---
 genex/distance/Distance.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 1ba324e..f66d9ed 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -103,6 +103,9 @@ data_t warpedDistance(
     result = metric->reduce(result, result, a[0], b[0]);
     auto normalizedResult = metric->normDTW(result, a, b);
     metric->clean(result);
+    if (computeMatching) {
+      matching.push_back(coord_t {0, 0});
+    }
     return normalizedResult;
   }
 
-- 
2.43.0


From d260d95ddf406b4d682333c6b04297431421536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 31/61] fix: continue a warping path only from computed cells

When no neighbour compared smaller, because the costs are not numbers, the cell
above was used even outside of the band, where it is a null pointer for the
cosine and Sorensen distances.
---
 genex/distance/Distance.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index f66d9ed..d0ef73e 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -150,14 +150,17 @@ data_t warpedDistance(
       auto ij1  = (i - r <= j-1 && j-1 <= i + r) ? ncost[i][j-1] : INF;
       auto i1j1 = ncost[i-1][j-1];
       auto i1j  = (j - r <= i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;
-      T minPrev = cost[i-1][j];
-      if (i1j1 < ij1 && i1j1 < i1j)
+      T minPrev = cost[i-1][j-1];
+      if (!(i1j1 < ij1 && i1j1 < i1j))
       {
-        minPrev = cost[i-1][j-1];
-      }
-      else if (ij1 < i1j)
-      {
-        minPrev = cost[i][j-1];
+        if (ij1 < i1j)
+        {
+          minPrev = cost[i][j-1];
+        }
+        else if (j - r <= i-1 && i-1 <= j + r)
+        {
+          minPrev = cost[i-1][j];
+        }
       }
       cost[i][j] = metric->init();
       cost[i][j] = metric->reduce(cost[i][j], minPrev, a[i], b[j]);
-- 
2.43.0


From 586b9e6eb80a92f62ac7587d5746694fbeca9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 32/61] fix: create distance metrics without a race

Two threads computing their first distance at the same time both saw a null
metric and wrote it without synchronisation.
---
 genex/distance/Distance.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index d0ef73e..6cc18eb 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -91,10 +91,7 @@ data_t warpedDistance(
   auto n = b.getLength();
   auto r = calculateWarpingBandSize(max(m, n));
   
-  static DM* metric;
-  if (metric == nullptr) {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   // Fastpath for base intervals
   if (m == 1 && n == 1)
@@ -243,11 +240,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
@@ -286,11 +279,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
-- 
2.43.0


From 94c1f08a7474eb3231312929594df877ad67d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:05 +0000
Subject: [PATCH 33/61] fix: refuse to warp an empty series

A series without points indexed the cost matrix with minus one.
---
 genex/distance/Distance.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 6cc18eb..91b8a98 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -89,6 +89,10 @@ data_t warpedDistance(
   bool computeMatching = matching.empty(); 
   auto m = a.getLength();
   auto n = b.getLength();
+  if (m < 1 || n < 1)
+  {
+    throw GenexException("Cannot compute the warped distance of an empty time series");
+  }
   auto r = calculateWarpingBandSize(max(m, n));
   
   static DM* metric = new DM();
-- 
2.43.0


From 2f6acb188ba762c16cbb45a0ef50f2582cab455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 34/61] fix: write groups to a file only when they are complete

Saving a dataset without groups truncated an existing file before noticing
that there was nothing to save.  A full disk went unnoticed or made the
compressor try for ever.
---
 genex/IO.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index 874aa96..d08fa2e 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -10,6 +10,7 @@
 #include <iostream>
 
 #include <fstream>
+#include <sstream>
 
 #include "TimeSeries.hpp"
 #include "Exception.hpp"
@@ -21,25 +22,33 @@ namespace genex {
 
 template<typename A>
 void saveToFile(const A & obj, const std::string & fname) {
-    std::ofstream ofs(fname, std::ios::binary);
-    if (ofs)
+    // compress into memory first so that the file is only touched when there is something to save
+    std::ostringstream oss;
     {
         boost::iostreams::filtering_ostreambuf filter_osbuf;
 
-        // push the ofstream and the compressor
+        // push the stream and the compressor
         filter_osbuf.push(
             boost::iostreams::zlib_compressor(boost::iostreams::zlib::best_compression));
-        filter_osbuf.push(ofs);
+        filter_osbuf.push(oss);
 
         // start the archive on the filtering buffer
         boost::archive::binary_oarchive boa(filter_osbuf);
 
         boa << obj;
     }
-    else 
+
+    std::ofstream ofs(fname, std::ios::binary);
+    if (!ofs)
     {
         throw GenexException("Cannot open file");    
     }
+    ofs << oss.str();
+    ofs.close();
+    if (!ofs)
+    {
+        throw GenexException("Cannot write file");
+    }
 }
 
 template<typename A>
-- 
2.43.0


From 3d8ad8e3ae6675eddc27c7411973f2d30b440f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 35/61] fix: report when groups could not be written completely
 as text

A full disk went unnoticed when saving groups in the text format.
---
 genex/GroupableTimeSeriesSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 66a652b..b4df653 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -103,6 +103,11 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
     this->groupsAllLengthSet->saveGroupsOld(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw GenexException("Cannot write file");
+    }
   }
   else
   {
-- 
2.43.0


From fd5ce91e53a3ee18d5c78cb05ba9053ccfc81d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 36/61] fix: restore the threshold when groups are loaded from
 text

The threshold in the file was read and dropped, and it had been written with
six significant digits only.
---
 genex/GroupableTimeSeriesSet.cpp | 4 +++-
 genex/group/GlobalGroupSpace.cpp | 3 ++-
 genex/group/GlobalGroupSpace.hpp | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index b4df653..4e00e5f 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <memory>
 
 #include "IO.hpp"
@@ -97,6 +98,7 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
   ofstream fout(path);
   if (fout)
   {
+    fout.precision(std::numeric_limits<data_t>::max_digits10);
     // Version of the file format, the threshold and the required dataset dimensions
     fout << GROUP_FILE_VERSION << " "
          << this->getThreshold() << " "
@@ -138,7 +140,7 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     // }
     cout << "Saved groups are compatible with the dataset" << endl;
     std::unique_ptr<GlobalGroupSpace> groups(new GlobalGroupSpace(*this));
-    numberOfGroups = groups->loadGroupsOld(fin);
+    numberOfGroups = groups->loadGroupsOld(fin, threshold);
     reset();
     this->groupsAllLengthSet = groups.release();
   }
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 616ad8b..a5587fd 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -231,9 +231,10 @@ void GlobalGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const
   }
 }
 
-int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
+int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 {
   reset();
+  this->threshold = threshold;
 
   int lenFrom, lenTo;
   string distance;
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 6378708..03659c9 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -79,7 +79,7 @@ public:
   std::vector<candidate_time_series_t> getKBestMatches(const TimeSeries& query, int k);
   
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
-  int loadGroupsOld(std::ifstream &fin);
+  int loadGroupsOld(std::ifstream &fin, data_t threshold);
 
 private:
   std::string distanceName;
-- 
2.43.0


From 84a21c20b9dcc410f2d18e9ad961c89c2822b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 37/61] fix: write all digits of the representatives of groups

Sixteen digits are not enough to read every value back unchanged.
---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index b35d641..11d8143 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -237,7 +237,7 @@ string TimeSeries::getIdentifierString() const
 std::ostream &TimeSeries::printData(std::ostream &out) const
 {
   for (int i = 0; i < length; i++) {
-    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)
+    out << std::setprecision(std::numeric_limits<data_t>::max_digits10)
         << data[start + i] << " ";
   }
   return out;
-- 
2.43.0


From b0ed2636bf9e551cefda0162aa0b443c55066774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 38/61] fix: remember after loading that only whole series were
 grouped

Saving such groups again used the groups of shorter lengths, which do not
exist.
---
 genex/group/GlobalGroupSpace.cpp | 1 +
 genex/group/GlobalGroupSpace.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index a5587fd..aad8cdd 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -242,6 +242,7 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
   boost::trim_right(distance);
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
+  this->wholeSeriesOnly = lenFrom + 1 == this->localLengthGroupSpace.size();
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 03659c9..e2e8ecd 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -116,6 +116,7 @@ private:
     ar >> minLen >> maxLen >> this->distanceName >> this->threshold;
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
+    this->wholeSeriesOnly = minLen + 1 == this->localLengthGroupSpace.size();
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-- 
2.43.0


From 5abaf14bbdc9f49d49ceffef11d7ecc688517df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 39/61] fix: check the range of lengths in a group file

Lengths the dataset does not have were used to index the table of groups.
---
 genex/group/GlobalGroupSpace.cpp | 4 ++++
 genex/group/GlobalGroupSpace.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index aad8cdd..6684d30 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -243,6 +243,10 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->wholeSeriesOnly = lenFrom + 1 == this->localLengthGroupSpace.size();
+  if (lenFrom != _getMinLength() || lenTo != this->localLengthGroupSpace.size())
+  {
+    throw GenexException("Incompatible range of lengths");
+  }
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index e2e8ecd..2dda12e 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -117,6 +117,10 @@ private:
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
     this->wholeSeriesOnly = minLen + 1 == this->localLengthGroupSpace.size();
+    if (minLen != _getMinLength() || maxLen != this->localLengthGroupSpace.size())
+    {
+      throw GenexException("Incompatible range of lengths");
+    }
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-- 
2.43.0


From 9de94c3e01a501effca4dcf30d6f727628f32f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 40/61] fix: check the members in a group file

Positions outside of the dataset were used to index the table of members, and
a member listed twice made every later search run in a circle.
---
 genex/group/Group.cpp | 17 ++++++++++++++++-
 genex/group/Group.hpp |  6 +++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index bbfb6c2..83990ec 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -17,6 +17,14 @@ namespace genex {
 
 void Group::addMember(int tsIndex, int tsStart)
 {
+  if (tsStart < 0 || tsStart > this->dataset.getItemLength(tsIndex) - this->memberLength)
+  {
+    throw GenexException("Invalid position of a group member");
+  }
+  if (this->memberMap[tsIndex * this->subTimeSeriesCount + tsStart].groupIndex != -1)
+  {
+    throw GenexException("Time series is already a member of a group");
+  }
   this->count++;
   this->memberMap[tsIndex * this->subTimeSeriesCount + tsStart] =
     group_membership_t(this->groupIndex, this->lastMemberCoord);
@@ -167,9 +175,16 @@ void Group::loadGroupOld(ifstream &fin)
   }
 
   fin >> cnt; 
+  if (!fin || cnt < 1)
+  {
+    throw GenexException("Invalid number of group members");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
-    fin >> index >> start;
+    if (!(fin >> index >> start))
+    {
+      throw GenexException("Group file ends early");
+    }
     this->addMember(index, start);
   }
 }
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 9487825..4a7778c 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : prev(-1, -1), groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
@@ -199,6 +199,10 @@ private:
     this->setCentroid(cindex, cstart);
     int cnt;
     ar >> cnt;
+    if (cnt < 1)
+    {
+      throw GenexException("Invalid number of group members");
+    }
     for (int i = 0; i < cnt; i++) {
       int index, start;
       ar >> index >> start;
-- 
2.43.0


From 8eb90a8568f13ef62ac7c63b7a02d70f69479580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 41/61] fix: check the header of a group text file completely

Values that could not be read were used unset, and the length of the series
was not compared.
---
 genex/GroupableTimeSeriesSet.cpp      | 13 ++++++++-----
 genex/group/GlobalGroupSpace.cpp      |  5 ++++-
 genex/group/LocalLengthGroupSpace.cpp |  5 ++++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 4e00e5f..661736c 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -125,7 +125,10 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    if (!(fin >> version >> threshold >> grpItemCount >> grpItemLength))
+    {
+      throw GenexException("Group file ends early");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw GenexException("Incompatible file version");
@@ -134,10 +137,10 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     {
       throw GenexException("Incompatible item count");
     }
-    // if (grpItemLength != this->getItemLength())
-    // {
-    //   throw GenexException("Incompatible item length");
-    // }
+    if (grpItemLength != this->getMaxLength())
+    {
+      throw GenexException("Incompatible item length");
+    }
     cout << "Saved groups are compatible with the dataset" << endl;
     std::unique_ptr<GlobalGroupSpace> groups(new GlobalGroupSpace(*this));
     numberOfGroups = groups->loadGroupsOld(fin, threshold);
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 6684d30..1b68fcd 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -238,7 +238,10 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 
   int lenFrom, lenTo;
   string distance;
-  fin >> lenFrom >> lenTo >> distance;
+  if (!(fin >> lenFrom >> lenTo >> distance))
+  {
+    throw GenexException("Group file ends early");
+  }
   boost::trim_right(distance);
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 6af53c6..66a5a07 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -146,7 +146,10 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  fin >> numberOfGroups;
+  if (!(fin >> numberOfGroups) || numberOfGroups < 0)
+  {
+    throw GenexException("Invalid number of groups");
+  }
   for (auto i = 0; i < numberOfGroups; i++)
   {
     auto grp = new Group(i
-- 
2.43.0


From 4bcac356023fe8dac0827820aeec55b1faf13f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 42/61] fix: release groups when loading them fails

A group or the groups of one length that were being read when the file turned
out to be unreadable were never released.
---
 genex/group/GlobalGroupSpace.cpp      | 2 +-
 genex/group/GlobalGroupSpace.hpp      | 2 +-
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 genex/group/LocalLengthGroupSpace.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 1b68fcd..ed0bde0 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -253,8 +253,8 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
-    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
     this->localLengthGroupSpace[i] = gel;
+    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
   }
   return this->totalNumberOfGroups;
 }
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 2dda12e..d98614f 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -124,8 +124,8 @@ private:
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-      ar >> *llgs;
       this->localLengthGroupSpace[i] = llgs;
+      ar >> *llgs;
       this->totalNumberOfGroups += llgs->getNumberOfGroups();
     }
   }
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 66a5a07..ac86037 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -157,8 +157,8 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-    grp->loadGroupOld(fin);
     this->groups.push_back(grp);
+    grp->loadGroupOld(fin);
   }
   return numberOfGroups;
 }
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 0c9f82d..384d716 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -109,8 +109,8 @@ private:
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-      ar >> *g;
       this->groups.push_back(g);
+      ar >> *g;
     }
   }
 
-- 
2.43.0


From f4d43fb83877cd54d4cc1cc89b51851b73ffcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 43/61] fix: restore the position of representatives loaded
 from text

The text format holds the values of a representative only.  After loading it
was not known which subsequence it is, so saving the groups in the binary
format stored a wrong one.
---
 genex/group/Group.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 83990ec..2fe8fa3 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -186,6 +186,10 @@ void Group::loadGroupOld(ifstream &fin)
       throw GenexException("Group file ends early");
     }
     this->addMember(index, start);
+    if (this->dataset.getTimeSeries(index, start, start + this->memberLength) == this->centroid)
+    {
+      this->setCentroid(index, start);
+    }
   }
 }
 
-- 
2.43.0


From 224d14f4c0b6cb404c7c945c360e34e5fbed7516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:01 +0000
Subject: [PATCH 44/61] fix: refuse short distance names when computing a
 matching

Names of fewer than three characters raised an exception of the standard
library.
---
 genex/GenexAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 66eb828..9b53ed9 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -267,7 +267,7 @@ matching_t GenexAPI::matchingBetween(const string& name1, int idx1, int start1,
   this->_checkDatasetName(name2);
   auto ts1 = this->_loadedDatasets[name1]->getTimeSeries(idx1, start1, end1);
   auto ts2 = this->_loadedDatasets[name2]->getTimeSeries(idx2, start2, end2);
-  if (distance_name.substr(distance_name.length() - 3) != "dtw") {
+  if (distance_name.length() < 3 || distance_name.substr(distance_name.length() - 3) != "dtw") {
     throw GenexException("Can only compute matchings using _dtw distances");
   }  
   const dist_t distance = getDistanceFromName(distance_name);
-- 
2.43.0


From b1da433583151943545dfccd7ac80ce5f866f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:28 +0000
Subject: [PATCH 45/61] fix: release lines from readline with free

The lines are allocated by the C library but were released with delete, and
the answer to the question whether to exit was not released at all.
---
 cli/GenexCLI.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index b018cd0..159e497 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -789,17 +790,22 @@ bool processLine(const string& line)
 bool wantToQuitByEOF()
 {
   cout << endl;
-  char* raw_line = nullptr;
+  string answer;
   do
   {
-    delete raw_line;
-    raw_line = readline("Do you really want to exit ([y]/n)? ");
-    if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
+    char* raw_line = readline("Do you really want to exit ([y]/n)? ");
+    if (raw_line == nullptr)
+    {
+      return true;
+    }
+    answer = raw_line;
+    free(raw_line);
+    if (answer == "y" || answer == "")
     {
       return true;
     }
   }
-  while (strcmp(raw_line, "n") != 0);
+  while (answer != "n");
   return false;
 }
 
@@ -829,7 +835,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From cf47487faab8c9d05112ce38d2b221499a27a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:28 +0000
Subject: [PATCH 46/61] fix: use start and end of a ksim query when ke is given
 too

With all seven arguments the range of the query was ignored and the whole
series was used.
---
 cli/GenexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 159e497..f3f9168 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -482,7 +482,7 @@ MAKE_COMMAND(KSim,
     {
       ke = stoi(args[5]);
     }
-    else if (args.size() == 7)
+    else if (args.size() >= 7)
     {
       start = stoi(args[5]);
       end = stoi(args[6]);
-- 
2.43.0


From 9d18c93464a2c2d10d25737fb718bdc35c4d5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:28 +0000
Subject: [PATCH 47/61] fix: refuse argument counts of ksimBF that its usage
 does not list

A single range argument and a seventh argument were silently ignored.
---
 cli/GenexCLI.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index f3f9168..0607e90 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -528,7 +528,7 @@ MAKE_COMMAND(KSim,
       
 MAKE_COMMAND(KSimBF,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 7))
+    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
     {
       return false;
     }
@@ -545,6 +545,10 @@ MAKE_COMMAND(KSimBF,
       start = stoi(args[5]);
       end = stoi(args[6]);
     }
+    else if (args.size() == 6) {
+      cout << "Both starting and ending positions must be provided.";
+      return false;
+    }
 
     TIME_COMMAND(
       std::vector<genex::candidate_time_series_t> results = 
-- 
2.43.0


From 5d46b93aa0fc6d4f78b135bc2a8e601a39499f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:28 +0000
Subject: [PATCH 48/61] fix: show the real names of the commands in their usage
 lines

The usage lines of ksimBF and print named commands that do not exist.
---
 cli/GenexCLI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 0607e90..366abb9 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -575,7 +575,7 @@ MAKE_COMMAND(KSimBF,
 
   "Find the k most similar time series to a query using brute force.",
   
-  "Usage: kSimBF <k> <target_dataset_idx> <q_dataset_idx> <ts_index> [<start> <end>]               \n"
+  "Usage: ksimBF <k> <target_name> <query_name> <query_index> [<start> <end>]                      \n"
   "  k           - The number of similar time series to find.                                      \n"
   "  target_name - Name of a loaded dataset to get the result from.                                \n"
   "                Use 'list dataset' to retrieve the list of loaded                               \n"
@@ -605,7 +605,7 @@ MAKE_COMMAND(Print,
 
   "Print a time series.",
   
-  "Usage: printTS <name> <index> <start> <end>                            \n"
+  "Usage: print <name> <index> <start> <end>                              \n"
   "  name   - Name of the dataset containing the time series.             \n"
   "  index  - Index of the time series.                                   \n"
   "  start  - The start location of the time series.                      \n"
-- 
2.43.0


From 613284e234de528925aba81992ac7e1e26a3d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:28 +0000
Subject: [PATCH 49/61] fix: refuse warping band ratios that are not between 0
 and 1

A ratio that is not a number or very large made the size of the band
undefined.
---
 genex/distance/Distance.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/distance/Distance.cpp b/genex/distance/Distance.cpp
index d977e4d..a48e9f3 100644
--- a/genex/distance/Distance.cpp
+++ b/genex/distance/Distance.cpp
@@ -83,6 +83,10 @@ const vector<string>& getAllDistanceName()
 double warpingBandRatio = 0.1;
 
 void setWarpingBandRatio(double ratio) {
+  if (!(ratio >= 0 && ratio <= 1))
+  {
+    throw GenexException("Warping band ratio must be between 0 and 1");
+  }
   warpingBandRatio = ratio;
 }
 
-- 
2.43.0


From 054a2264d11587e3c5b277a17f47ad5e8abec96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:43 +0000
Subject: [PATCH 50/61] fix: refuse to save a dataset that holds no data

Saving before anything was loaded truncated an existing file and
reported success.
---
 genex/TimeSeriesSet.cpp | 4 ++++
 genex/TimeSeriesSet.hpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index c1a0b38..534c018 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -179,6 +179,10 @@ void TimeSeriesSet::loadData(const string& filePath
 
 void TimeSeriesSet::saveData(const string& filePath, char separator) const
 {
+  if (!this->isLoaded())
+  {
+    throw GenexException("No data to save");
+  }
   std::ofstream f(filePath);
   if (!f.is_open())
   {
diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index 053e684..72a58af 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -146,7 +146,7 @@ public:
   /**
    *  @brief check if data is loaded
    */
-  bool isLoaded() { return this->data != nullptr; }
+  bool isLoaded() const { return this->data != nullptr; }
 
   /**
    * @brief Exhaustively searches through timeseries set for k similar time series.
-- 
2.43.0


From 2027f28086fda8bb866cd1114ef8c2221eb4cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:23 +0000
Subject: [PATCH 51/61] fix: do not keep a PAA structure whose preparation
 failed

Preparing with an invalid block size raised an exception but left the new
structure registered, so later PAA searches treated the dataset as prepared.
---
 genex/GenexAPI.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 9b53ed9..65499a8 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -6,6 +6,7 @@
 #include "distance/Distance.hpp"
 #include "IO.hpp"
 
+#include <memory>
 #include <vector>
 #include <iostream>
 
@@ -223,15 +224,15 @@ GenexAPI::getKBestMatchesBruteForce(int k, const string& target_name, const stri
 
 void GenexAPI::preparePAA(const string& name, int blockSize) {
   this->_checkDatasetName(name);
-  PAAWrapper* wrapper;
   if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
-    wrapper = this->_paaWrappers[name];
+    this->_paaWrappers[name]->generatePAAMatrix(blockSize);
   }
   else {
-    wrapper = new PAAWrapper(*(this->_loadedDatasets[name]));
-    this->_paaWrappers[name] = wrapper;
+    std::unique_ptr<PAAWrapper> wrapper(new PAAWrapper(*(this->_loadedDatasets[name])));
+    wrapper->generatePAAMatrix(blockSize);
+    this->_paaWrappers[name] = wrapper.get();
+    wrapper.release();
   }
-  wrapper->generatePAAMatrix(blockSize);
 }
 
 vector<candidate_time_series_t>
-- 
2.43.0


From bec94e2327fe522a2e5fa873d628916e8cd50038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:31 +0000
Subject: [PATCH 52/61] fix: do not count envelopes as valid while they are
 replaced

If memory ran out after the old envelopes had been released, the series kept
counting them as valid. The next request with the same band then handed out
released memory or nothing.
---
 genex/TimeSeries.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 11d8143..3684231 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -205,6 +205,7 @@ const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
 
 void TimeSeries::generateKeoghLU(int warpingBand) const
 {
+  keoghCacheValid = false;
   delete[] keoghLower;
   keoghLower = nullptr;
   delete[] keoghUpper;
-- 
2.43.0


From 5e6b264d00c7f8ec3af78c3376d6c582c3d8fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:36 +0000
Subject: [PATCH 53/61] fix: stop the workers already started when the pool
 cannot start all of them

Creating a thread can fail, for example when too many are asked for.  The
exception then left the pool's constructor while the threads started so far
were still waiting, so destroying the members hung or terminated the program.
Stop and join them before passing the exception on.
---
 genex/lib/ThreadPool.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/genex/lib/ThreadPool.hpp b/genex/lib/ThreadPool.hpp
index 8e32a1e..08a1bfd 100644
--- a/genex/lib/ThreadPool.hpp
+++ b/genex/lib/ThreadPool.hpp
@@ -42,6 +42,8 @@ public:
         -> std::future<typename std::result_of<F(Args...)>::type>;
     ~ThreadPool();
 private:
+    // stop and join all threads started so far
+    void shutdown();
     // need to keep track of threads so we can join them
     std::vector< std::thread > workers;
     // the task queue
@@ -57,6 +59,13 @@ private:
 inline ThreadPool::ThreadPool(size_t threads)
     :   stop(false)
 {
+    // the destructor does not run if starting a thread fails
+    struct Guard
+    {
+        ThreadPool* pool;
+        ~Guard() { if(pool) pool->shutdown(); }
+    } guard = { this };
+
     for(size_t i = 0;i<threads;++i)
         workers.emplace_back(
             [this]
@@ -79,6 +88,8 @@ inline ThreadPool::ThreadPool(size_t threads)
                 }
             }
         );
+
+    guard.pool = nullptr;
 }
 
 // add new work item to the pool
@@ -108,6 +119,11 @@ auto ThreadPool::enqueue(F&& f, Args&&... args)
 
 // the destructor joins all threads
 inline ThreadPool::~ThreadPool()
+{
+    shutdown();
+}
+
+inline void ThreadPool::shutdown()
 {
     {
         std::unique_lock<std::mutex> lock(queue_mutex);
-- 
2.43.0


From 2ccbb43f975c6bd922da30eea1a1826011f86e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:29 +0000
Subject: [PATCH 54/61] fix: check the position of a group representative read
 from a file

A negative start in a group file made the representative a whole series
instead of a subsequence of the length of its group.
---
 genex/group/Group.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 2fe8fa3..7c084bf 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -33,6 +33,10 @@ void Group::addMember(int tsIndex, int tsStart)
 
 void Group::setCentroid(int tsIndex, int tsStart)
 {
+  if (tsStart < 0 || tsStart > this->dataset.getItemLength(tsIndex) - this->memberLength)
+  {
+    throw GenexException("Invalid position of a group representative");
+  }
   this->centroid = this->dataset.getTimeSeries(tsIndex, tsStart, tsStart + this->memberLength);
 }
 
-- 
2.43.0


From 47f5f25cc5ebaf5b6577aba3b56167b075a75246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:51 +0000
Subject: [PATCH 55/61] fix: name all trailing arguments of getMatching in the
 Python module

The two names were attached to the last two arguments, so start2 set the
end position and end2 set the name of the distance.
---
 pygenex/GENEXBindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygenex/GENEXBindings.cpp b/pygenex/GENEXBindings.cpp
index 91f9259..914d89a 100644
--- a/pygenex/GENEXBindings.cpp
+++ b/pygenex/GENEXBindings.cpp
@@ -455,7 +455,7 @@ BOOST_PYTHON_MODULE(pygenex)
   py::def("saveGroupsSize", saveGroupsSize);
   py::def("loadGroups", loadGroups);
   py::def("distance", distance);
-  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1));
+  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1, py::arg("distanceName")));
   py::def("sim", sim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksim", ksim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksimbf", ksimbf, (py::arg("start")=-1, py::arg("end")=-1, py::arg("distance")="euclidean"));  
-- 
2.43.0


From 13a26be36ab5128fd153ad8facb8ed72279b16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:29 +0000
Subject: [PATCH 56/61] fix: name the actual default distance in the help of
 the distance command

Without a distance argument the command uses euclidean_dtw.
The help text said euclidean.
---
 cli/GenexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 366abb9..605cb2a 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -297,7 +297,7 @@ MAKE_COMMAND(Distance,
   "  start2    -  Starting position of the first time series                                           \n"
   "  end2      -  Ending position of the first tiem series.                                            \n"
   "  distance  -  The string identifier of a distance. Use 'list distance' to retrieve the list of     \n"
-  "               loaded distance. Default to euclidean.                                               \n"
+  "               loaded distance. Default to euclidean_dtw.                                           \n"
   )
 
 MAKE_COMMAND(GroupDataset,
-- 
2.43.0


From 3a1af49e76d2285410b667f28f3ce82d76e5b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:12 +0000
Subject: [PATCH 57/61] fix: give a new group space a defined threshold and
 distances

The constructor left the threshold and both distance functions unset, so
asking a space that had not been grouped yet for its threshold returned an
arbitrary value.
---
 genex/group/GlobalGroupSpace.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index d98614f..3176068 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -85,9 +85,9 @@ private:
   std::string distanceName;
   std::vector<LocalLengthGroupSpace*> localLengthGroupSpace;
   const TimeSeriesSet& dataset;
-  dist_t pairwiseDistance;
-  dist_t warpedDistance;
-  data_t threshold;
+  dist_t pairwiseDistance = nullptr;
+  dist_t warpedDistance = nullptr;
+  data_t threshold = 0;
   int totalNumberOfGroups = 0;
   bool wholeSeriesOnly = false;
   void _loadDistance(const std::string& distanceName);
-- 
2.43.0


From e055525aa8430c8d0f7c9ba3657cd6d07dedebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:15 +0000
Subject: [PATCH 58/61] fix: rank candidates by a consistent order

Candidates were treated as tied when their distances differed by less than
a tolerance. Such ties are not transitive, and a distance that is not a
number was neither before nor after any other. Sorting and heap operations
require a strict weak ordering. Compare distances exactly and rank
candidates without a comparable distance last.
---
 genex/TimeSeries.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 92abaa7..91877b5 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -211,7 +211,12 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (std::abs(dist - rhs.dist) < EPS)
+    // Candidates whose distance is not a number come last
+    if (std::isnan(dist) != std::isnan(rhs.dist))
+    {
+      return std::isnan(rhs.dist);
+    }
+    if (!(dist < rhs.dist) && !(rhs.dist < dist))
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From fa5ca918f573d3d161d8f83b41747b4282121b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:15 +0000
Subject: [PATCH 59/61] fix: rank groups without a comparable distance last

A group whose distance to the query is not a number was neither before nor
after any other group, so the heap of nearest groups had no consistent
order.
---
 genex/group/Group.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 4a7778c..03499ec 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -51,7 +51,8 @@ struct group_membership_t
 
    bool operator<(const group_index_t& rhs) const 
    {
-       return dist < rhs.dist;
+       // Groups whose distance is not a number come last
+       return dist < rhs.dist || (std::isnan(rhs.dist) && !std::isnan(dist));
    }
  };
 
-- 
2.43.0


From ea3b909a4a4abab5100f2c535e493120c099cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:06:09 +0000
Subject: [PATCH 60/61] fix: let candidates replace ones without a comparable
 distance

When one of the first k candidates has a distance that is not a number,
it is at the front of the heap and no later candidate compared less than
it.  Every later candidate was dropped.  Drop a candidate only if it is
known to be at least as far as the worst one held.
---
 genex/PAAWrapper.cpp                  | 2 +-
 genex/TimeSeriesSet.cpp               | 2 +-
 genex/group/Group.cpp                 | 2 +-
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 1e11c6b..1a5f6f1 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -139,7 +139,7 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
           bestSoFarDist = bestSoFar.front().dist;
           currentDist = warpedDistance(
             paaQuery, currentPAATimeSeries, bestSoFarDist, gNoMatching);
-          if (currentDist < bestSoFarDist)
+          if (!(currentDist >= bestSoFarDist))
           {
             bestSoFar.push_back(candidate_time_series_t(currentTimeSeries, currentDist));
             std::push_heap(bestSoFar.begin(), bestSoFar.end());
diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 534c018..ff525b6 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -378,7 +378,7 @@ vector<candidate_time_series_t> TimeSeriesSet::getKBestMatchesBruteForce(
           bestSoFarDist = bestSoFar.front().dist;
           currentDist = warpedDistance(
             query, currentTimeSeries, bestSoFarDist, gNoMatching);
-          if (currentDist < bestSoFarDist)
+          if (!(currentDist >= bestSoFarDist))
           { 
             bestSoFar.push_back(candidate_time_series_t(currentTimeSeries, currentDist));
             std::push_heap(bestSoFar.begin(), bestSoFar.end());
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7c084bf..1e8b86d 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -119,7 +119,7 @@ vector<candidate_time_series_t> Group::intraGroupKSim(
       auto currentDistance = 
         warpedDistance(query, currentTimeSeries, bestSoFarDist, gNoMatching); 
 
-      if (currentDistance < bestSoFarDist) 
+      if (!(currentDistance >= bestSoFarDist)) 
       { 
         bestSoFar.push_back(candidate_time_series_t(currentTimeSeries, currentDistance));
         std::push_heap(bestSoFar.begin(), bestSoFar.end());
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index ac86037..fefc35d 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -190,7 +190,7 @@ int LocalLengthGroupSpace::interLevelKSim(const TimeSeries& query,
       {
         auto bestSoFarDist = bestSoFar.front().dist;
         auto dist = groups[i]->distanceFromCentroid(query, warpedDistance, bestSoFarDist);
-        if (dist < bestSoFarDist) {
+        if (!(dist >= bestSoFarDist)) {
           auto membersAdded = groups[i]->getCount();
           bestSoFar.push_back(group_index_t(this->length, i, membersAdded, dist));
           std::push_heap(bestSoFar.begin(), bestSoFar.end());
-- 
2.43.0


From cd4c7fa4a60dc22e529b4aeddf915e699a371f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:06 +0000
Subject: [PATCH 61/61] fix: keep the first row and column of the cost table
 inside the band

The first row and column were filled up to twice the warping band.  For a
single point against a longer series the answer then was finite or
infinite depending on whether a dropout was given.
---
 genex/distance/Distance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 91b8a98..984a08b 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -121,7 +121,7 @@ data_t warpedDistance(
   ncost[0][0] = metric->normDTW(cost[0][0], a, b);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = metric->init();
     cost[i][0] = metric->reduce(cost[i][0], cost[i-1][0], a[i], b[0]);
@@ -129,7 +129,7 @@ data_t warpedDistance(
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = metric->init();
     cost[0][j] = metric->reduce(cost[0][j], cost[0][j-1], a[0], b[j]);
-- 
2.43.0

