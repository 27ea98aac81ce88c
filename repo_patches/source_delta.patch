From 787bad401f62825488949e56a31ea3e74e2ec664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:14 +0000
Subject: [PATCH 01/30] fix: predict the majority class of a tree node

The constructor searched the moved-from parameter instead of the member, so
every node predicted the lowest class.
---
 src/models/impl/DecisionTreeImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f93c514..2678f0f 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -239,9 +239,9 @@ DecisionTreeImpl::Node::Node(DecisionTreeImpl &DT,
 {
   // Find predicted class as the maximum element in the
   // count_per_class.
-  int idx = std::distance(count_per_class.begin(),
-                          std::max_element(count_per_class.begin(),
-                                           count_per_class.end()));
+  int idx = std::distance(this->count_per_class.begin(),
+                          std::max_element(this->count_per_class.begin(),
+                                           this->count_per_class.end()));
   predicted_class = *std::next(DT.classes.begin(), idx);
 }
 
-- 
2.43.0


From bf4ba802a444df8264479d15e9cef119d6354de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:14 +0000
Subject: [PATCH 02/30] fix: keep a split threshold between the values it
 separates

The sum of two large features overflowed, and the midpoint of two adjacent
features could round down to the left one, which was then sent right.
---
 src/models/impl/DecisionTreeImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 2678f0f..d413f63 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -355,7 +355,10 @@ std::tuple<float, Iterator, size_t, float> DecisionTreeImpl::split(
       min_gini = g;
       split_it = It;
       split_feature_idx = feature_idx;
-      split_threshold = (feature_val_left + feature_val_right) / 2.0;
+      split_threshold = ((double)feature_val_left + feature_val_right) / 2.0;
+      // Rounding must not put the left value on the right side of the split.
+      if (split_threshold <= feature_val_left)
+        split_threshold = feature_val_right;
     }
   }
 
-- 
2.43.0


From 2aec16838ea169e13f1143836fb81a45854dbfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:14 +0000
Subject: [PATCH 03/30] fix: store datasets so that they load back unchanged

Features were written without the space the parser needs between them, so a
dataset of more than one feature could not be loaded, and all values were cut
to six digits.
---
 src/Dataset.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 045f92a..a4c009d 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -5,6 +5,8 @@
 
 #include "apollo/Dataset.h"
 
+#include <limits>
+
 #include "helpers/Parser.h"
 
 size_t Apollo::Dataset::size() { return data.size(); }
@@ -100,10 +102,12 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &policy = d.first.second;
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
+    os.precision(std::numeric_limits<float>::max_digits10);
     for (auto &f : features)
-      os << float(f) << ",";
-    os << " ], ";
+      os << float(f) << ", ";
+    os << "], ";
     os << "policy: " << policy << ", ";
+    os.precision(std::numeric_limits<double>::max_digits10);
     os << "xtime: " << metric;
     os << " },\n";
     ++idx;
-- 
2.43.0


From bad0001a6d91ca4c283e9fc17cfb61a8a0731f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:14 +0000
Subject: [PATCH 04/30] fix: do not record a metric the timer has not delivered
 yet

Region::end ignored the result of isDone for the sync context and recorded an
uninitialized metric.
---
 src/Region.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index f264251..8bea171 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -571,7 +571,9 @@ void Apollo::Region::end(Apollo::RegionContext *context)
   context->timer->stop();
   if (context == &sync_context) {
     double metric;
-    context->timer->isDone(metric);
+    // There is one sync context per region, so it cannot be left pending.
+    while (!context->timer->isDone(metric))
+      ;
     collectContext(context, metric);
     return;
   }
-- 
2.43.0


From cfaf8482a2e4764015a97c183852db21ddfde85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:14 +0000
Subject: [PATCH 05/30] fix: apply the global train period whichever region
 completes it

The period was skipped when the region of the n-th execution was not trainable,
so other regions could explore for ever.
---
 src/Region.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index 8bea171..3a2a2a9 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -323,7 +323,7 @@ Apollo::Region::Region(const int num_features,
 
     // Check if auto-training applies: min_training_data is set and dataset
     // size is large enough.
-    autoTrain();
+    if (model->isTrainable()) autoTrain();
   }
 
   if (model_params.count("load-dataset")) {
@@ -491,13 +491,21 @@ Apollo::RegionContext *Apollo::Region::begin(const std::vector<float> &features)
 
 void Apollo::Region::autoTrain()
 {
-  if (!model->isTrainable()) return;
-
   if (Config::APOLLO_GLOBAL_TRAIN_PERIOD &&
       (apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0) {
-    apollo->train(apollo->region_executions,
-                  /* doCollectPendingContexts */ false);
-  } else if (Config::APOLLO_PER_REGION_TRAIN_PERIOD &&
+    // The period is global, hence any region waiting for it makes it apply.
+    bool any_trainable = model->isTrainable();
+    for (auto &it : apollo->regions)
+      any_trainable = any_trainable || it.second->model->isTrainable();
+    if (any_trainable)
+      apollo->train(apollo->region_executions,
+                    /* doCollectPendingContexts */ false);
+    return;
+  }
+
+  if (!model->isTrainable()) return;
+
+  if (Config::APOLLO_PER_REGION_TRAIN_PERIOD &&
              (idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {
     train(idx, /* doCollectPendingContexts */ false);
   } else if (0 < min_training_data && min_training_data <= dataset.size())
-- 
2.43.0


From 4422bd0a6491c75c1aabbd329bbf652cc72c2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:14 +0000
Subject: [PATCH 06/30] fix: replace the trees of a random forest on training
 and loading

The trees of earlier trainings or loads were kept and outvoted the new ones.
---
 src/models/impl/RandomForestImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index f5fd20f..79fa392 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -34,6 +34,7 @@ void RandomForestImpl::train(std::vector<std::vector<float>> &features,
   std::mt19937 generator;
   std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);
 
+  rfc.clear();
   for (unsigned i = 0; i < num_trees; i++) {
     std::vector<std::vector<float>> sample_features;
     std::vector<int> sample_responses;
@@ -152,6 +153,7 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
   parser.getNextToken();
   parser.parseExpected("[");
 
+  rfc.clear();
   for (int i = 0; i < num_trees; ++i) {
     rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));
     parser.getNextToken();
-- 
2.43.0


From 594a3ef190eeaa3f927a2431dd0b970429421e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:01 +0000
Subject: [PATCH 07/30] fix: do not train a single model on no measurements

Apollo::train crashed when it was called before any region had measured.
---
 src/Apollo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 106ab2b..684373e 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -492,6 +492,9 @@ void Apollo::train(int step, bool doCollectPendingContexts)
       merged_dataset.insert(reg->dataset);
     }
 
+    // There is nothing to train on yet.
+    if (merged_dataset.size() <= 0) return;
+
     // TODO: Each region trains its own identical, single model. Consider
     // training the single model once and share to regions using a
     // shared_ptr.
-- 
2.43.0


From 4f374f0e3c8862be0ea93850d2671a4c470af461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:35 +0000
Subject: [PATCH 08/30] fix: store tree thresholds with all their digits

The default six digits move the thresholds, so that a loaded model
recommends other policies than the stored one.
---
 src/models/impl/DecisionTreeImpl.cpp | 2 ++
 src/models/impl/RandomForestImpl.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index d413f63..ffeb5f3 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <cstdio>
 #include <iostream>
+#include <limits>
 #include <set>
 #include <sstream>
 #include <string>
@@ -182,6 +183,7 @@ DecisionTreeImpl::~DecisionTreeImpl()
 void DecisionTreeImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# DecisionTreeImpl\n";
   output_tree(outfmt, "tree");
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index 79fa392..34a5315 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <chrono>
 #include <iostream>
+#include <limits>
 #include <random>
 #include <string>
 #include <vector>
@@ -104,6 +105,7 @@ void RandomForestImpl::output_rfc(OutputFormatter &outfmt)
 void RandomForestImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# RandomForestImpl\n";
   output_rfc(outfmt);
-- 
2.43.0


From 568e9b10c5660c9a245a54635c1744c5482209af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:23 +0000
Subject: [PATCH 09/30] fix: replace saved datasets and models only by complete
 files

An interrupted or failed save truncated the file in place, destroying
what was saved before; processes sharing the directory could read a
half-written file. Write to a file of the process's own and rename it
when the write succeeded.
---
 src/Region.cpp                       | 12 +++----
 src/helpers/AtomicFile.h             | 53 ++++++++++++++++++++++++++++
 src/models/PolicyNet.cpp             |  6 ++--
 src/models/impl/DecisionTreeImpl.cpp |  6 ++--
 src/models/impl/RandomForestImpl.cpp |  6 ++--
 5 files changed, 71 insertions(+), 12 deletions(-)
 create mode 100644 src/helpers/AtomicFile.h

diff --git a/src/Region.cpp b/src/Region.cpp
index 3a2a2a9..41cb2b0 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -22,6 +22,7 @@
 
 #include "apollo/Apollo.h"
 #include "apollo/ModelFactory.h"
+#include "helpers/AtomicFile.h"
 #include "helpers/ErrorHandling.h"
 #include "timers/TimerSync.h"
 
@@ -414,14 +415,13 @@ Apollo::Region::~Region()
   if (Config::APOLLO_TRACE_CSV) trace_file.close();
 
   if (Config::APOLLO_PERSISTENT_DATASETS) {
-    std::ofstream file_out(Config::APOLLO_OUTPUT_DIR + "/" +
-                           Config::APOLLO_DATASETS_DIR + "/Dataset-" +
-                           std::string(name) + ".yaml");
-    if (!file_out.is_open())
+    AtomicFile file_out(Config::APOLLO_OUTPUT_DIR + "/" +
+                        Config::APOLLO_DATASETS_DIR + "/Dataset-" +
+                        std::string(name) + ".yaml");
+    dataset.store(file_out);
+    if (!file_out.commit())
       std::cerr << "ERROR: Cannot write dataset of " + std::string(name) +
                        " to database\n";
-    dataset.store(file_out);
-    file_out.close();
   }
 
   return;
diff --git a/src/helpers/AtomicFile.h b/src/helpers/AtomicFile.h
new file mode 100644
index 0000000..d529e2b
--- /dev/null
+++ b/src/helpers/AtomicFile.h
@@ -0,0 +1,53 @@
+// Copyright (c) 2015-2024, Lawrence Livermore National Security, LLC and other
+// Apollo project developers. Produced at the Lawrence Livermore National
+// Laboratory. See the top-level LICENSE file for details.
+// SPDX-License-Identifier: MIT
+
+#ifndef APOLLO_HELPERS_ATOMICFILE_H
+#define APOLLO_HELPERS_ATOMICFILE_H
+
+#include <unistd.h>
+
+#include <cstdio>
+#include <fstream>
+#include <string>
+
+// Output file that takes its name only once it is completely written, hence an
+// interrupted or failed write leaves the file previously saved in place.
+class AtomicFile : public std::ofstream
+{
+public:
+  AtomicFile(const std::string &filename,
+             std::ios_base::openmode mode = std::ios_base::out)
+      : filename(filename), tmp_filename(filename + ".tmp-" + uniqueSuffix())
+  {
+    open(tmp_filename, mode);
+  }
+
+  // Returns true if the file is in place.
+  bool commit()
+  {
+    bool written = is_open();
+    close();
+    if (written && good() &&
+        std::rename(tmp_filename.c_str(), filename.c_str()) == 0)
+      return true;
+
+    std::remove(tmp_filename.c_str());
+    return false;
+  }
+
+private:
+  std::string filename;
+  std::string tmp_filename;
+
+  // Processes, possibly on different hosts, may write the same file.
+  static std::string uniqueSuffix()
+  {
+    char hostname[256] = "";
+    gethostname(hostname, sizeof(hostname) - 1);
+    return std::string(hostname) + "-" + std::to_string(getpid());
+  }
+};
+
+#endif
diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 6c2d2e3..7ba724c 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <numeric>
 
+#include "helpers/AtomicFile.h"
 #include "helpers/OutputFormatter.h"
 #include "helpers/TimeTrace.h"
 
@@ -627,7 +628,7 @@ void PolicyNet::store(const std::string &filename)
 #endif
 
   // Open the output file in binary write mode.
-  std::ofstream f(filename, std::ios::binary);
+  AtomicFile f(filename, std::ios::binary | std::ios::out);
 
   // Check if the file was opened successfully.
   if (!f) {
@@ -651,7 +652,8 @@ void PolicyNet::store(const std::string &filename)
   f.write((char *)&rewardMovingAvg, sizeof(double));
   f.write((char *)&trainCount, sizeof(int));
 
-  f.close();
+  if (!f.commit())
+    std::cerr << "Could not save model to " << filename << std::endl;
 }
 
 void PolicyNet::load(const std::string &filename)
diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index ffeb5f3..fd9c2bf 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -20,6 +20,7 @@
 #include <utility>
 #include <vector>
 
+#include "helpers/AtomicFile.h"
 #include "helpers/Parser.h"
 
 int DecisionTreeImpl::unique_counter = 0;
@@ -182,12 +183,13 @@ DecisionTreeImpl::~DecisionTreeImpl()
 
 void DecisionTreeImpl::save(const std::string &filename)
 {
-  std::ofstream ofs(filename, std::ofstream::out);
+  AtomicFile ofs(filename);
   ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# DecisionTreeImpl\n";
   output_tree(outfmt, "tree");
-  ofs.close();
+  if (!ofs.commit())
+    std::cerr << "ERROR: Cannot save model to " << filename << std::endl;
 }
 
 int DecisionTreeImpl::predict(const std::vector<float> &features)
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index 34a5315..86384b7 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -14,6 +14,7 @@
 #include <vector>
 
 #include "DecisionTreeImpl.h"
+#include "helpers/AtomicFile.h"
 
 RandomForestImpl::RandomForestImpl(int num_classes, std::string filename)
     : num_classes(num_classes)
@@ -104,12 +105,13 @@ void RandomForestImpl::output_rfc(OutputFormatter &outfmt)
 
 void RandomForestImpl::save(const std::string &filename)
 {
-  std::ofstream ofs(filename, std::ofstream::out);
+  AtomicFile ofs(filename);
   ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# RandomForestImpl\n";
   output_rfc(outfmt);
-  ofs.close();
+  if (!ofs.commit())
+    std::cerr << "ERROR: Cannot save model to " << filename << std::endl;
 }
 template <typename T>
 static void parseKeyVal(Parser &parser, const char *key, T &val)
-- 
2.43.0


From 529f433a613679fef707b506d09b9c078b350e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:41 +0000
Subject: [PATCH 10/30] fix: load subnormal features and metrics

std::stof throws on them, hence a stored dataset or model holding one
ended the next run.
---
 src/helpers/Parser.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index a6f48f7..e4b06b2 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -1,5 +1,6 @@
 #include "helpers/Parser.h"
 
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <iterator>
@@ -97,17 +98,23 @@ void Parser::parse(int &val)
 template <>
 void Parser::parse(double &val)
 {
-  std::size_t pos;
-  val = std::stod(token, &pos);
-  token = &buffer[pos];
+  // Subnormal values are valid, although they set errno.
+  char *end;
+  val = std::strtod(token, &end);
+  if (end == token)
+    error("Expected a number but parsed \"" + std::string(token) + "\"");
+  token = end;
 }
 
 template <>
 void Parser::parse(float &val)
 {
-  std::size_t pos;
-  val = std::stof(token, &pos);
-  token = &buffer[pos];
+  // Subnormal values are valid, although they set errno.
+  char *end;
+  val = std::strtof(token, &end);
+  if (end == token)
+    error("Expected a number but parsed \"" + std::string(token) + "\"");
+  token = end;
 }
 
 
-- 
2.43.0


From 9c4fea6bb738d216653fba1c6de452a2b2b5ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:41 +0000
Subject: [PATCH 11/30] fix: trace features and metrics with all their digits

---
 src/Region.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Region.cpp b/src/Region.cpp
index 41cb2b0..7ca1f00 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -15,6 +15,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -526,9 +527,11 @@ void Apollo::Region::collectContext(Apollo::RegionContext *context,
     trace_file << model->name << " ";
     trace_file << this->name << " ";
     trace_file << context->idx << " ";
+    trace_file.precision(std::numeric_limits<float>::max_digits10);
     for (auto &f : context->features)
       trace_file << f << " ";
     trace_file << context->policy << " ";
+    trace_file.precision(std::numeric_limits<double>::max_digits10);
     trace_file << metric << "\n";
   }
 
-- 
2.43.0


From 0ed53ae72a5eb31d69552ee05ffdd969868212d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:41 +0000
Subject: [PATCH 12/30] fix: do not start over when a saved dataset cannot be
 read

The region came up without its measurements and replaced the saved ones
at exit.
---
 src/Region.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index 7ca1f00..93d9d3c 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -319,8 +319,12 @@ Apollo::Region::Region(const int num_features,
     std::string dataset_file = Config::APOLLO_OUTPUT_DIR + "/" +
                                Config::APOLLO_DATASETS_DIR + "/Dataset-" +
                                std::string(name) + ".yaml";
+    bool has_dataset = fileExists(dataset_file);
     std::ifstream ifs(dataset_file);
-    if (ifs) dataset.load(ifs);
+    if (ifs)
+      dataset.load(ifs);
+    else if (has_dataset)
+      fatal_error("could not load dataset file " + dataset_file);
     ifs.close();
 
     // Check if auto-training applies: min_training_data is set and dataset
-- 
2.43.0


From 5a52baa0052d6f7011da2213cb42e90bb4c81d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:41 +0000
Subject: [PATCH 13/30] fix: refuse PolicyNet models that cannot be read
 completely

---
 src/models/PolicyNet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 7ba724c..8815b78 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -12,6 +12,7 @@
 #include <numeric>
 
 #include "helpers/AtomicFile.h"
+#include "helpers/ErrorHandling.h"
 #include "helpers/OutputFormatter.h"
 #include "helpers/TimeTrace.h"
 
@@ -662,10 +663,7 @@ void PolicyNet::load(const std::string &filename)
   std::ifstream f(filename, std::ios::binary);
 
   // Check if the file was opened successfully.
-  if (!f) {
-    std::cerr << "Could not load model from " << filename << std::endl;
-    return;
-  }
+  if (!f) fatal_error("Could not load model from " + filename);
 
   // Load the weights and biases of each layer from the save file.
   f.read((char *)net->layer1.weights,
@@ -683,6 +681,8 @@ void PolicyNet::load(const std::string &filename)
   f.read((char *)&rewardMovingAvg, sizeof(double));
   f.read((char *)&trainCount, sizeof(int));
 
+  if (!f) fatal_error("Model file " + filename + " is incomplete");
+
   f.close();
 }
 
-- 
2.43.0


From 9ef335623444c897ef684fdbd0bd6a210ed29726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:52 +0000
Subject: [PATCH 14/30] fix: send the measurements as packed in collective
 training

MPI_Pack_size returns an upper bound, which is not the packed size.
---
 src/Apollo.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 684373e..f770947 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -287,7 +287,8 @@ int get_mpi_pack_measure_size(int num_features, MPI_Comm comm)
   return measure_size;
 }
 
-void packMeasurements(char *buf, int size, int mpiRank, Apollo::Region *reg)
+// Returns the packed bytes, which may be less than size.
+int packMeasurements(char *buf, int size, int mpiRank, Apollo::Region *reg)
 {
   int pos = 0;
 
@@ -323,7 +324,7 @@ void packMeasurements(char *buf, int size, int mpiRank, Apollo::Region *reg)
     MPI_Pack(&metric, 1, MPI_DOUBLE, buf, size, &pos, apollo_mpi_comm);
     // std::cout << "time_avg," << time_avg << " pos: " << pos << std::endl;
   }
-  return;
+  return pos;
 }
 #endif
 
@@ -348,9 +349,10 @@ void Apollo::gatherCollectiveTrainingData(int step)
     int reg_dataset_size =
         (reg->dataset.size() *
          get_mpi_pack_measure_size(reg->num_features, apollo_mpi_comm));
-    packMeasurements(sendbuf + offset, reg_dataset_size, mpiRank, reg);
-    offset += reg_dataset_size;
+    offset +=
+        packMeasurements(sendbuf + offset, reg_dataset_size, mpiRank, reg);
   }
+  send_size = offset;
 
   int num_ranks = mpiSize;
   // std::cout << "num_ranks: " << num_ranks << std::endl;
-- 
2.43.0


From 2594950170df05d8562cfdcc5dd882991bbce344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:59 +0000
Subject: [PATCH 15/30] fix: do not read past the end of a truncated file

Incrementing the exhausted iterator dereferences a null pointer instead
of reporting the parse error.
---
 src/helpers/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index e4b06b2..b11a3c0 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -22,16 +22,16 @@ const char *Parser::getNextToken()
 
   int idx = 0;
   if (it != end) {
-    while (std::isspace(*it))
+    while (it != end && std::isspace(*it))
       ++it;
 
-    while (*it == '#') {
+    while (it != end && *it == '#') {
       is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-      while (std::isspace(*it))
+      while (it != end && std::isspace(*it))
         ++it;
     }
 
-    while (!std::isspace(*it)) {
+    while (it != end && !std::isspace(*it)) {
       buffer[idx] = *it;
       ++idx;
       ++it;
-- 
2.43.0


From 68e9d81f0ac5217e6928e0910ce8c4a86457ca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:23 +0000
Subject: [PATCH 16/30] fix: Kokkos range candidates lie inside the declared
 range and include its closed ends

form_set_from_range() started open ranges at the excluded lower bound and
closed integer ranges one step too high, past the upper bound; closed
floating-point ranges never tried their upper bound.
---
 src/connectors/kokkos/kokkos-connector.cpp | 34 +++++++++++-----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d244366..bc61072 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -38,6 +38,7 @@
 #include <cassert>
 #include <chrono>
 #include <cinttypes>
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <functional>
@@ -54,7 +55,7 @@
 using namespace Kokkos::Tools::Experimental;
 
 constexpr const int64_t slice_continuous = 100;
-constexpr const double epsilon = 1E-24;
+constexpr const double slice_tolerance = 1E-9;
 int flush_interval = 500;
 using valunion =
     decltype(std::declval<Kokkos::Tools::Experimental::VariableValue>().value);
@@ -70,9 +71,16 @@ struct VariableDatabaseData {
   valunion maximum;
   Kokkos::Tools::Experimental::VariableValue *candidate_values;
 };
-int64_t slice_helper(double upper, double lower, double step)
+int64_t slice_helper(Kokkos::Tools::Experimental::ValueRange &in)
 {
-  return ((upper - lower) / step);
+  double lower = in.lower.double_value;
+  double upper = in.upper.double_value;
+  double step = in.step.double_value;
+  // Candidates are lower + i * step; the last one may miss the upper bound by
+  // a rounding error only.
+  int64_t last = std::floor((upper - lower) / step + slice_tolerance);
+  if (in.openUpper && (upper - lower) / step - last < slice_tolerance) --last;
+  return in.openLower ? last : last + 1;
 }
 static size_t num_unconverged_regions;
 
@@ -92,13 +100,7 @@ int64_t count_range_slices(Kokkos::Tools::Experimental::ValueRange &in,
                     // shouldn't be a calculated value, but a value that has
                     // been set to the literal 0.0
                  ? slice_continuous
-                 : slice_helper(in.openUpper
-                                    ? in.upper.double_value
-                                    : (in.upper.double_value - epsilon),
-                                in.openLower
-                                    ? in.lower.double_value
-                                    : (in.lower.double_value + epsilon),
-                                in.step.double_value);
+                 : slice_helper(in);
     case ValueType::kokkos_value_string:
       // TODO: error mechanism?
       return -1;
@@ -164,19 +166,17 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
 {
   if (info->type == ValueType::kokkos_value_int64) {
     for (int x = 0; x < num_slices; ++x) {
-      auto lower =
-          (with_this.openLower
-               ? with_this.lower.int_value
-               : (with_this.lower.int_value + with_this.step.int_value));
+      auto lower = (with_this.openLower ? (with_this.lower.int_value + 1)
+                                        : with_this.lower.int_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
       value.int_value = lower + (x * with_this.step.int_value);
       fill_this[x] = mvv(id, value, info);
     }
   } else if (info->type == ValueType::kokkos_value_double) {
     for (int x = 0; x < num_slices; ++x) {
-      auto lower =
-          (with_this.openLower ? with_this.lower.double_value
-                               : (with_this.lower.double_value + epsilon));
+      auto lower = (with_this.openLower ? (with_this.lower.double_value +
+                                           with_this.step.double_value)
+                                        : with_this.lower.double_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
       value.double_value = lower + (x * with_this.step.double_value);
       fill_this[x] = mvv(id, value, info);
-- 
2.43.0


From 8eb55a9d30a476984887dd4e6076ab1337327c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:42 +0000
Subject: [PATCH 17/30] fix: a restarted Kokkos application loads the models an
 earlier run stored

The path was passed as the name of the model, which aborts the process, and
ignored the configured directories.
---
 src/connectors/kokkos/kokkos-connector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index bc61072..feed6dc 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -31,6 +31,7 @@
 */
 
 #include <apollo/Apollo.h>
+#include <apollo/Config.h>
 #include <apollo/Region.h>
 #include <sys/stat.h>
 
@@ -537,7 +538,8 @@ extern "C" void kokkosp_request_values(
   auto iter =
       tuning_regions.emplace(tuningProblem, std::make_pair("", nullptr));
   if (iter.second) {
-    std::string path = ".apollo/models/";
+    std::string path =
+        Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_MODELS_DIR + "/";
     std::string prefix = "RandomForest-step-0-rank-0-";
     std::string suffix = ".yaml";
     std::string name = get_region_name(tuningProblem);
@@ -550,6 +552,7 @@ extern "C" void kokkosp_request_values(
                                   name.c_str(),
                                   choiceSpaceSize,
                                   /* min_training_data */ 0,
+                                  "RandomForest",
                                   final_name);
     } else {
       region = new Apollo::Region(numContextVariables,
-- 
2.43.0


From 7f25dfad9afc179ba234fefc1237a81709efcce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:30 +0000
Subject: [PATCH 18/30] fix: a tree loaded into an existing model is compiled
 just in time as well

---
 src/models/impl/DecisionTreeImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index fd9c2bf..bcfcf46 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -42,9 +42,6 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)
   ++unique_counter;
   unique_id = unique_counter;
   load(filename);
-#ifdef ENABLE_JIT_DTREE
-  compile_and_link_jit_evaluate_function();
-#endif
 }
 
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, unsigned max_depth)
@@ -255,6 +252,9 @@ void DecisionTreeImpl::load(const std::string &filename)
   if (!ifs) throw std::runtime_error("Error loading file: " + filename);
   parse_tree(ifs);
   ifs.close();
+#ifdef ENABLE_JIT_DTREE
+  compile_and_link_jit_evaluate_function();
+#endif
 }
 
 template <typename Iterator>
-- 
2.43.0


From 6062d87251cb2132134c5620d4aa8cb257ee4664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:34 +0000
Subject: [PATCH 19/30] fix: just-in-time compiled trees compare with exactly
 the thresholds of the tree

---
 src/models/impl/DecisionTreeImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index bcfcf46..967ec44 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -127,6 +127,8 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::stringstream sstream;
+  // Thresholds become double literals, those must not be rounded.
+  sstream.precision(std::numeric_limits<double>::max_digits10);
   OutputFormatter source_fmt(sstream);
   // source_fmt << "#include <cstdio>\n";
   source_fmt << "#include <vector>\n";
-- 
2.43.0


From bd3f01420b500c8c17c61fb01eb5a4c57cd49403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 20/30] fix: stop when the just-in-time compiler fails instead
 of linking a stale library

---
 src/models/impl/DecisionTreeImpl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 967ec44..f797993 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -11,6 +11,7 @@
 #include <cassert>
 #include <chrono>
 #include <cstdio>
+#include <cstdlib>
 #include <iostream>
 #include <limits>
 #include <set>
@@ -148,7 +149,10 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   std::string command = std::string("c++ -x c++ -O0 -shared -fPIC -o ") +
                         shared_library_name + std::string(" - << EOF\n") +
                         sstream.str() + std::string("EOF\n");
-  system(command.c_str());
+  if (system(command.c_str()) != 0) {
+    std::cerr << "Cannot compile " << shared_library_name << std::endl;
+    abort();
+  }
   // pclose(popen(command.c_str(), "r"));
   void *dynamic_linker = dlopen(shared_library_name.c_str(), RTLD_NOW);
   if (!dynamic_linker) {
-- 
2.43.0


From e2ae487960efde2ce49f5eeffd18f7d904a3475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:46 +0000
Subject: [PATCH 21/30] fix: every just-in-time compilation has a library name
 of its own

Processes on one machine overwrote each other's /tmp/_jit_eval_N.so, and a
retrained tree kept the old function because dlopen() knows the name already.
---
 src/models/impl/DecisionTreeImpl.cpp | 26 +++++++-------------------
 src/models/impl/DecisionTreeImpl.h   |  1 -
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f797993..b9326e9 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -6,6 +6,7 @@
 #include "DecisionTreeImpl.h"
 
 #include <dlfcn.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <cassert>
@@ -29,8 +30,6 @@ int DecisionTreeImpl::unique_counter = 0;
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::istream &is)
     : num_classes(num_classes)
 {
-  ++unique_counter;
-  unique_id = unique_counter;
   parse_tree(is);
 #ifdef ENABLE_JIT_DTREE
   compile_and_link_jit_evaluate_function();
@@ -40,16 +39,12 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::istream &is)
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)
     : num_classes(num_classes)
 {
-  ++unique_counter;
-  unique_id = unique_counter;
   load(filename);
 }
 
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, unsigned max_depth)
     : num_classes(num_classes), max_depth(max_depth)
 {
-  ++unique_counter;
-  unique_id = unique_counter;
 }
 void DecisionTreeImpl::train(std::vector<std::vector<float>> &features,
                              std::vector<int> &responses)
@@ -77,8 +72,6 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes,
                                    unsigned max_depth)
     : num_classes(num_classes), max_depth(max_depth)
 {
-  ++unique_counter;
-  unique_id = unique_counter;
   // Assumes all feature vectors are equal.
   num_features = features.begin()->size();
   classes.insert(responses.begin(), responses.end());
@@ -123,8 +116,11 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
 void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 {
 #ifdef ENABLE_JIT_DTREE
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
+  // The library name must be new for every compilation: other processes share
+  // the directory and the dynamic linker does not load a known name again.
+  std::string function_name = std::string("_jit_eval_") +
+                              std::to_string(getpid()) + "_" +
+                              std::to_string(++unique_counter);
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::stringstream sstream;
@@ -143,9 +139,6 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   source_fmt << "}\n";
   --source_fmt;
   source_fmt << "}\n";
-  std::ofstream ofs(std::string("/tmp/" + function_name + std::string(".cpp")));
-  ofs << sstream.str() << std::endl;
-  ofs.close();
   std::string command = std::string("c++ -x c++ -O0 -shared -fPIC -o ") +
                         shared_library_name + std::string(" - << EOF\n") +
                         sstream.str() + std::string("EOF\n");
@@ -155,6 +148,7 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   }
   // pclose(popen(command.c_str(), "r"));
   void *dynamic_linker = dlopen(shared_library_name.c_str(), RTLD_NOW);
+  std::remove(shared_library_name.c_str());
   if (!dynamic_linker) {
     std::cerr << "dlopen: " << dlerror() << std::endl;
     abort();
@@ -174,12 +168,6 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 
 DecisionTreeImpl::~DecisionTreeImpl()
 {
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
-  std::string shared_library_name =
-      std::string("/tmp/") + function_name + std::string(".so");
-  std::remove(shared_library_name.c_str());
-
   for (Node *node : tree_nodes)
     delete node;
 }
diff --git a/src/models/impl/DecisionTreeImpl.h b/src/models/impl/DecisionTreeImpl.h
index 436855a..4b7d697 100644
--- a/src/models/impl/DecisionTreeImpl.h
+++ b/src/models/impl/DecisionTreeImpl.h
@@ -111,7 +111,6 @@ private:
   unsigned num_features;
   unsigned max_depth;
   unsigned num_classes;
-  unsigned unique_id;
   static int unique_counter;
   std::vector<Node *> tree_nodes;
 };
-- 
2.43.0


From 298911808536da739e27c697234a8a948b48b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:01 +0000
Subject: [PATCH 22/30] fix: a policy network answers from the network it
 loaded, not from cached probabilities

---
 src/models/PolicyNet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 8815b78..a30559e 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -684,6 +684,9 @@ void PolicyNet::load(const std::string &filename)
   if (!f) fatal_error("Model file " + filename + " is incomplete");
 
   f.close();
+
+  // The cached action probabilities are those of the previous network.
+  actionProbabilityMap.clear();
 }
 
 }  // end namespace apollo.
\ No newline at end of file
-- 
2.43.0


From fa799820ee614e0644a8cd82a81053afaa8c108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:55 +0000
Subject: [PATCH 23/30] fix: a decision tree that is trained or loaded again
 releases its previous tree

---
 src/models/impl/DecisionTreeImpl.cpp | 12 ++++++++++--
 src/models/impl/DecisionTreeImpl.h   |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index b9326e9..5013c96 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -49,10 +49,11 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes, unsigned max_depth)
 void DecisionTreeImpl::train(std::vector<std::vector<float>> &features,
                              std::vector<int> &responses)
 {
+  // The new tree replaces any previous one.
+  clear_tree();
   // Assumes all feature vectors are of equal size.
   num_features = features.begin()->size();
   classes.insert(responses.begin(), responses.end());
-  data.clear();
   for (size_t i = 0, end = features.size(); i < end; ++i)
     data.emplace_back(std::move(features[i]), responses[i]);
 
@@ -166,10 +167,15 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 #endif
 }
 
-DecisionTreeImpl::~DecisionTreeImpl()
+DecisionTreeImpl::~DecisionTreeImpl() { clear_tree(); }
+
+void DecisionTreeImpl::clear_tree()
 {
   for (Node *node : tree_nodes)
     delete node;
+  tree_nodes.clear();
+  classes.clear();
+  data.clear();
 }
 
 void DecisionTreeImpl::save(const std::string &filename)
@@ -598,6 +604,8 @@ DecisionTreeImpl::Node *DecisionTreeImpl::parse_node(Parser &parser)
 
 void DecisionTreeImpl::parse_tree(std::istream &is)
 {
+  clear_tree();
+
   Parser parser(is);
 
   parser.getNextToken();
diff --git a/src/models/impl/DecisionTreeImpl.h b/src/models/impl/DecisionTreeImpl.h
index 4b7d697..b656333 100644
--- a/src/models/impl/DecisionTreeImpl.h
+++ b/src/models/impl/DecisionTreeImpl.h
@@ -101,6 +101,7 @@ private:
   void output_node(OutputFormatter &outfmt, Node &tree, std::string key);
   std::vector<size_t> parse_count_per_class(Parser &parser);
 
+  void clear_tree();
   void parse_tree(std::istream &is);
   Node *parse_node(Parser &parser);
   void parse_data(Parser &parser);
-- 
2.43.0


From f177aa14caa90452087ac8f27ccd76f7611e3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:12 +0000
Subject: [PATCH 24/30] fix: a just-in-time compiled tree unloads the library
 of the tree it replaces

---
 src/models/impl/DecisionTreeImpl.cpp | 11 ++++++++++-
 src/models/impl/DecisionTreeImpl.h   |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 5013c96..24e8ccf 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -154,6 +154,9 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
     std::cerr << "dlopen: " << dlerror() << std::endl;
     abort();
   }
+  // The new library replaces that of any previous tree.
+  if (jit_library) dlclose(jit_library);
+  jit_library = dynamic_linker;
   jit_evaluate_function =
       (int (*)(const std::vector<float> &))dlsym(dynamic_linker,
                                                  function_name.c_str());
@@ -167,7 +170,13 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 #endif
 }
 
-DecisionTreeImpl::~DecisionTreeImpl() { clear_tree(); }
+DecisionTreeImpl::~DecisionTreeImpl()
+{
+  clear_tree();
+#ifdef ENABLE_JIT_DTREE
+  if (jit_library) dlclose(jit_library);
+#endif
+}
 
 void DecisionTreeImpl::clear_tree()
 {
diff --git a/src/models/impl/DecisionTreeImpl.h b/src/models/impl/DecisionTreeImpl.h
index b656333..7eb9431 100644
--- a/src/models/impl/DecisionTreeImpl.h
+++ b/src/models/impl/DecisionTreeImpl.h
@@ -85,6 +85,7 @@ private:
   void compile_and_link_jit_evaluate_function();
   void generate_source(Node &node, OutputFormatter &source_code);
   int (*jit_evaluate_function)(const std::vector<float> &features);
+  void *jit_library = nullptr;
 
   // Returns tuple(min gini, iterator to split, feature index of split)
   template <typename Iterator>
-- 
2.43.0


From cd868f705a9d25a2ed9eebb75337088e607e61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:05 +0000
Subject: [PATCH 25/30] fix: keep fencing Kokkos kernels while a region is
 still to be tuned

---
 src/connectors/kokkos/kokkos-connector.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index feed6dc..ca0d0ba 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -599,6 +599,13 @@ extern "C" void kokkosp_end_context(size_t contextId)
   static int encounter;
   if ((++encounter % flush_interval) == 0) {
     apolloRuntime->flushAllRegionMeasurements(0);
-    num_unconverged_regions = 0;  // TODO: better
+    // Regions without measurements have not been trained, keep fencing for
+    // them.
+    num_unconverged_regions = 0;
+    for (const auto &kv : tuning_regions) {
+      if (kv.second.second->model->isTrainable()) {
+        ++num_unconverged_regions;
+      }
+    }
   }
 }
-- 
2.43.0


From 9a2e45a2f3d5b3c970d933f8058c7c2faf157cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:45 +0000
Subject: [PATCH 26/30] fix: a trace of a region whose model is loaded by path
 can be opened

---
 src/Region.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index 93d9d3c..9ea627c 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -386,8 +386,11 @@ Apollo::Region::Region(const int num_features,
   }
 
   if (Config::APOLLO_TRACE_CSV) {
+    // The model may be given with the path of a file to load.
+    std::string trace_model = model_info;
+    std::replace(trace_model.begin(), trace_model.end(), '/', '_');
     std::string fname(Config::APOLLO_OUTPUT_DIR + "/" +
-                      Config::APOLLO_TRACES_DIR + "/trace-" + model_info +
+                      Config::APOLLO_TRACES_DIR + "/trace-" + trace_model +
                       "-region-" + name + "-rank-" +
                       std::to_string(apollo->mpiRank) + ".csv");
     std::cout << "TRACE_CSV fname " << fname << std::endl;
-- 
2.43.0


From c224596d3cbc4fd0d68fa01cd42434a2d739ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:54 +0000
Subject: [PATCH 27/30] fix: registering a region with saved data does not
 count as a global train period

The global period held at zero executions, so a region created with a saved
dataset was not trained by its minimum of training data, and every registration
started a (possibly collective) training of all other regions.
---
 include/apollo/Region.h | 2 +-
 src/Region.cpp          | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/apollo/Region.h b/include/apollo/Region.h
index ee34d4a..ad52334 100644
--- a/include/apollo/Region.h
+++ b/include/apollo/Region.h
@@ -94,7 +94,7 @@ private:
   void collectContext(Apollo::RegionContext *, double);
   Apollo::RegionContext *getSyncContext();
 
-  void autoTrain();
+  void autoTrain(bool doGlobalTrain = true);
 
   int min_training_data;
 };  // end: Apollo::Region
diff --git a/src/Region.cpp b/src/Region.cpp
index 9ea627c..8174af7 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -329,7 +329,8 @@ Apollo::Region::Region(const int num_features,
 
     // Check if auto-training applies: min_training_data is set and dataset
     // size is large enough.
-    if (model->isTrainable()) autoTrain();
+    // The global period counts completed executions, not regions.
+    if (model->isTrainable()) autoTrain(/* doGlobalTrain */ false);
   }
 
   if (model_params.count("load-dataset")) {
@@ -497,9 +498,9 @@ Apollo::RegionContext *Apollo::Region::begin(const std::vector<float> &features)
   return context;
 }
 
-void Apollo::Region::autoTrain()
+void Apollo::Region::autoTrain(bool doGlobalTrain)
 {
-  if (Config::APOLLO_GLOBAL_TRAIN_PERIOD &&
+  if (doGlobalTrain && Config::APOLLO_GLOBAL_TRAIN_PERIOD &&
       (apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0) {
     // The period is global, hence any region waiting for it makes it apply.
     bool any_trainable = model->isTrainable();
-- 
2.43.0


From 37f7d6d6dc5b3614e4258cd3c15d55b54b79565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:54 +0000
Subject: [PATCH 28/30] fix: regions without data do not make a rank train
 collectively on its own

A region that a rank registers but does not execute kept that rank training at
every global period, and waiting for the other ranks for ever.
---
 src/Region.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index 8174af7..c9872e4 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -502,10 +502,12 @@ void Apollo::Region::autoTrain(bool doGlobalTrain)
 {
   if (doGlobalTrain && Config::APOLLO_GLOBAL_TRAIN_PERIOD &&
       (apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0) {
-    // The period is global, hence any region waiting for it makes it apply.
+    // The period is global, hence any region waiting for it makes it apply. A
+    // region without data cannot be trained, and other ranks may not have it.
     bool any_trainable = model->isTrainable();
     for (auto &it : apollo->regions)
-      any_trainable = any_trainable || it.second->model->isTrainable();
+      any_trainable = any_trainable || (it.second->model->isTrainable() &&
+                                        it.second->dataset.size() > 0);
     if (any_trainable)
       apollo->train(apollo->region_executions,
                     /* doCollectPendingContexts */ false);
-- 
2.43.0


From 47ebe1ca3fc26f1dec48f6738e22dca514e1adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:41 +0000
Subject: [PATCH 29/30] fix: keep the whole names of Kokkos variables

A name of 64 characters or more was cut and left without a terminator.
---
 src/connectors/kokkos/kokkos-connector.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index ca0d0ba..246fdd2 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -426,8 +426,7 @@ extern "C" void kokkosp_declare_output_type(
     Kokkos::Tools::Experimental::VariableInfo *info)
 {
   auto *metadata = new VariableDatabaseData();
-  metadata->name = (char *)malloc(sizeof(char) * 65);
-  strncpy(metadata->name, name, 64);
+  metadata->name = strdup(name);
   info->toolProvidedInfo = metadata;
   associate_candidates(id, info);
 }
@@ -438,8 +437,7 @@ extern "C" void kokkosp_declare_input_type(
     Kokkos::Tools::Experimental::VariableInfo *info)
 {
   auto *metadata = new VariableDatabaseData();
-  metadata->name = (char *)malloc(sizeof(char) * 65);
-  strncpy(metadata->name, name, 64);
+  metadata->name = strdup(name);
   info->toolProvidedInfo = metadata;
 }
 
-- 
2.43.0


From 500e77ab64284b3dde63439c2bc95642e4fdce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:41 +0000
Subject: [PATCH 30/30] fix: Kokkos tuning problems with long names have
 regions of their own

Region names were cut to 63 characters; of the problems that agree in these only
the first one was ever trained, and all of them loaded its model in a later run.
---
 src/connectors/kokkos/kokkos-connector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 246fdd2..9e8d354 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -542,7 +542,12 @@ extern "C" void kokkosp_request_values(
     std::string suffix = ".yaml";
     std::string name = get_region_name(tuningProblem);
     constexpr const int apollo_user_file_length = 63;
-    name = name.substr(0, apollo_user_file_length);
+    // Problems with long names may differ only in what does not fit.
+    if (name.size() > apollo_user_file_length) {
+      char hash[18];
+      snprintf(hash, sizeof(hash), "-%016zx", std::hash<std::string>()(name));
+      name = name.substr(0, apollo_user_file_length - strlen(hash)) + hash;
+    }
     std::string final_name = path + prefix + name + suffix;
     Apollo::Region *region;
     if (file_exists(final_name)) {
-- 
2.43.0

