From 035f49d1ccd06322ac3c17aa452100af4909308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 01/11] fix: keep double precision when computing the
 correlation normaliser

The values were narrowed to float before subtracting the mean, so data with a
large common offset got a wrong (even zero) normaliser.
---
 sacf/correlator/Correlator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 26fb9e2..a752dec 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -39,7 +39,7 @@ Correlator::Correlator(DataStructure* ds_in){
     int i = 0;
     for(int j = 0; j < N_datasets; j++){
         for(int i = 0; i < M_datapoints; i++){
-            float X = ds->rdata()->at(ds->getVectorIndex(i, j));
+            double X = ds->rdata()->at(ds->getVectorIndex(i, j));
             if(!std::isnan(X)){
                 N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);
             }
-- 
2.43.0


From 4c8986e9bcc3960a4ad4fb7813616719e7345a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 02/11] fix: use std::abs for time differences

Unqualified abs resolves to the integer function unless another header
happens to bring the floating point overloads into the global namespace.
---
 sacf/correlator/Correlator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index a752dec..9856f7e 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -97,8 +97,8 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             if(idx < 0){ idx = 0L; } //to prevent negative 
 
             if(idx != 0){ //i.e. not the first index
-                if (abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
-                    < abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+                if (std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
+                    < std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
             }
             cor_it->selection_indices.push_back(idx);
         }
@@ -124,8 +124,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
         long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
+        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
         cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
         for (int i = 0; i <= max_idx - idx; i++) {
             cor_it->selection_indices[i] = idx + i;
@@ -163,7 +163,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
-- 
2.43.0


From b0f28db4c777099e2bb0bb7fd8e23ee9609d28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 03/11] fix: do not clear the shifted time series before deltaT
 reads it

deltaT indexed the vector after the selection functions had emptied it;
deltaT clears it itself once it is done.
---
 sacf/correlator/Correlator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 9856f7e..5070748 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -103,7 +103,6 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices.push_back(idx);
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
@@ -131,7 +130,6 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices[i] = idx + i;
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::findCorrelation(CorrelationIterator* cor_it){
-- 
2.43.0


From 54532c1153dfc41f91fea674f93fe89c3a25a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 04/11] fix: fast selection read past the end and left pairs
 unset

at(idx + 1) raised for lags falling between the last two samples, the nearest
sample was looked for on the wrong side, and the fill loop stopped idx entries
early, leaving the remaining pairs pointing at the first sample.
---
 sacf/correlator/Correlator.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 5070748..bff0f7b 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -121,12 +121,13 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
         long idx = std::max(distance(ds->rnormalised_timeseries()->begin(),
                                 lower_bound(ds->rnormalised_timeseries()->begin(), ds->rnormalised_timeseries()->end(),
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
-        long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
-        cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
-        for (int i = 0; i <= max_idx - idx; i++) {
+        if (idx != 0 && std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx - 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+        // stop when either the shifted points or the samples following idx run out
+        long max_idx = std::min((long) cor_it->shifted_timeseries.size(), ds->M_datapoints - idx) - 1;
+        cor_it->selection_indices.resize(max_idx + 1);
+        for (int i = 0; i <= max_idx; i++) {
             cor_it->selection_indices[i] = idx + i;
         }
     }
-- 
2.43.0


From d7a69648fb44b87403e1aa7704707c55828b8dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 05/11] fix: never use a lag resolution that is not positive

Repeated times made the default resolution zero, and a zero or negative
user-defined resolution made the lag loop run forever past its buffers.
---
 sacf/correlator/Correlator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index bff0f7b..c1d1ac5 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -6,6 +6,7 @@
 #include <cmath>
 #include <iostream>
 #include <cfloat>
+#include <stdexcept>
 
 double findMinDiff(std::vector<double>* arr){
     // Initialize difference as infinite
@@ -15,7 +16,7 @@ double findMinDiff(std::vector<double>* arr){
    // Find the min diff by comparing adjacent pairs in sorted array
    for (int i=0; i<n-1; i++){
       double tdiff = arr->at(i+1) - arr->at(i);
-      if (tdiff < diff){
+      if (tdiff > 0 && tdiff < diff){
           diff = tdiff;
       }
    }
@@ -210,6 +211,7 @@ double Correlator::getMinLag(){
 }
 
 void Correlator::setLagResolution(double lag_res){
+    if(!(lag_res > 0)){ throw std::invalid_argument("lag_resolution must be positive"); } // would never reach max_lag
     lag_resolution = lag_res;
 }
 double Correlator::getLagResolution(){
-- 
2.43.0


From 266069091d4ad2a577b48fbef174bfffe8eda02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 06/11] fix: grow the correlation table when there are more
 lags than allocated

The table was sized once from the default lag settings, so wider lag ranges or
finer resolutions set by the user were written past its end.
---
 sacf/correlator/Correlator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index c1d1ac5..8fb3a79 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -234,6 +234,9 @@ double Correlator::getNDatasets(){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
+    if(timestep_number >= num_lag_steps){
+        cleanCorrelationData(2 * (timestep_number + 1)); // more lags than allocated so far, grow
+    }
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
         correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
@@ -241,12 +244,12 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
 }
 
 void Correlator::cleanCorrelationData(int i){
-    // clean up extra elements at end of vector not used.
+    // clean up extra elements at end of vector not used (or make room for more).
     correlation_data._timeseries.resize(i);
     std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
     for(int j = 0; j < N_datasets; j++){
         auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
-        std::copy(start, start + i, copy_correlations.begin() + (j * i));
+        std::copy(start, start + std::min(i, num_lag_steps), copy_correlations.begin() + (j * i));
     }
     correlation_data._correlations = copy_correlations;
     num_lag_steps = i;
-- 
2.43.0


From df08385623a940dde3c95f477a2573e2cc7264d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 07/11] fix: keep the table size in step with the table

The default table size overflowed int for finely spaced times, whatever lag
settings were used afterwards, and clearing left the old size behind, so
reading or adding correlations accessed freed storage. The table now starts
empty and grows as correlations are added.
---
 sacf/correlator/Correlator.cpp | 4 +---
 sacf/include/Correlator.h      | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 8fb3a79..eb117a8 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -50,9 +50,7 @@ Correlator::Correlator(DataStructure* ds_in){
     min_lag = -max_lag;
     lag_resolution = findMinDiff(ds->rnormalised_timeseries());
     alpha = ds->median_time();
-    num_lag_steps = (int) std::floor((max_lag - min_lag) / lag_resolution) + 3; // 3 additional elements at min, 0, max
-    correlation_data._correlations = std::vector<double>(N_datasets * num_lag_steps);
-    correlation_data._timeseries = std::vector<double>(num_lag_steps);
+    num_lag_steps = 0; // allocated as correlations are added
 };
 
 Correlator::Correlator(DataStructure *, DataStructure *) {
diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 410f2a1..4ff0735 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -87,7 +87,7 @@ public:
     void calculateStandardCorrelation();
     void _calculateStandardCorrelation(double, int);
 
-    void clearCorrelation() {correlation_data = *new CorrelationData; };
+    void clearCorrelation() {correlation_data = CorrelationData(); num_lag_steps = 0; };
 
     double fractionWeightFunction(double);
     double fractionSquaredWeightFunction(double);
-- 
2.43.0


From 29c331b3ad7f5e47fb5877849d894485d300347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 08/11] fix: allow an empty lag range with user specified
 functions

The compiled path returns empty results, the general path raised
UnboundLocalError.
---
 sacf/sacf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/sacf.py b/sacf/sacf.py
index eeabe2f..c93330f 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -79,6 +79,7 @@ class SACF:
                 yield k
                 k += lag_resolution
 
+        i = -1  # no lags at all if min_lag > max_lag
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
         ):
-- 
2.43.0


From 33a19707f39421cfe59e1c27a044bd66f8b1cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 09/11] fix: reject value and error lists longer or shorter
 than the times

Only the remainder of the lengths was checked, so e.g. four values for two
times were silently truncated, and errors were not checked at all, so reading
back a shorter error list ran past its end.
---
 sacf/datastructure/DataStructure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index fa972bf..9c0f551 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -32,7 +32,8 @@ BadDataInputException BadDataEx;
 
 void DataStructure::setUp(){
     if (_data.empty() || t.empty()){ throw EmptyDSEx; }
-    if (_data.size() % t.size() != 0){ throw BadDataEx; }
+    if (_data.size() != (size_t) (N_datasets * M_datapoints)){ throw BadDataEx; }
+    if (!err.empty() && err.size() != _data.size()){ throw BadDataEx; }
     setDataMean();
     settMax();
     norm_t.resize(t.size());
-- 
2.43.0


From 16f277e5ba893c0cd8a19c89de2cd24a89749449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 10/11] fix: reject ragged lists of series

Series of unequal length with a matching total were silently regrouped into
series of equal length.
---
 sacf/datastructure/DataStructure.cpp | 10 ++++++++++
 sacf/include/DataStructure.h         |  1 +
 2 files changed, 11 insertions(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 9c0f551..c51a39d 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -42,6 +42,13 @@ void DataStructure::setUp(){
     settMedian();
 }
 
+void DataStructure::checkSeriesLengths(const std::vector< std::vector<double> >& series){
+    if (_data.empty() || t.empty()){ throw EmptyDSEx; }
+    for(auto const& data_series: series){
+        if (data_series.size() != t.size()){ throw BadDataEx; }
+    }
+}
+
 long DataStructure::getVectorIndex(int i, int j){
     return (long) i + j * M_datapoints;
 }
@@ -54,6 +61,7 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     }
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
+    checkSeriesLengths(*data_in);
     setUp();
 };
 
@@ -71,6 +79,8 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     }
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
+    checkSeriesLengths(*data_in);
+    checkSeriesLengths(*data_err_in);
     setUp();
 };
 
diff --git a/sacf/include/DataStructure.h b/sacf/include/DataStructure.h
index 48dd71e..8f92d37 100644
--- a/sacf/include/DataStructure.h
+++ b/sacf/include/DataStructure.h
@@ -41,6 +41,7 @@ class DataStructure{
     void calcNormt();
     void calcNormData();
     void setUp();
+    void checkSeriesLengths(const std::vector< std::vector<double> >&);
 
 public:
     explicit DataStructure(const std::string &filename);
-- 
2.43.0


From 5bc036b15123f09a04ce4e96d27a072664b16304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 11/11] fix: keep errors read from file aligned with their data
 points

A line without a (numeric) error contributed none, so all later errors moved to
the wrong data point and reading them back ran past their end.
---
 sacf/datastructure/DataStructure.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index c51a39d..9288f36 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -134,6 +134,9 @@ DataStructure::DataStructure(const std::string &filename){
                     if(update_has_errors){
                         has_errors = 0;
                     }
+                    else if(data_err_in.size() < data_in.size()){
+                        data_err_in.push_back(NAN); // no (numeric) error on this line, keep errors aligned
+                    }
                 }
             }
         }
-- 
2.43.0

