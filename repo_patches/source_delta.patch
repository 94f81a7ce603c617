From dc1507f72169c801daa6c11065245ed2a5e94d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 01/31] fix: initialise the --version flag

The flag was only written when --version was given; otherwise the program
read an indeterminate value and could print its version and exit 0 instead
of running the subcommand.
---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index d87ddbc..ea84278 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -26,7 +26,7 @@ int main(int argc, char **argv) {
   string output_json_log;
   string symbols_filename = "";
   int pr_threshold = 0;
-  bool version;
+  bool version = false;
   string composition_approach = "adapted";
   int speaker_switch_context_size = 5;
   int numBests = 100;
-- 
2.43.0


From 9cfd53eff59c2adf9e44dac25e428d7f1dc681db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 02/31] fix: report read errors on plain text inputs

A read error (or a failed allocation inside the stream) ended the token loop
like the end of the file, so a truncated transcript was scored.
---
 src/OneBestFstLoader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/OneBestFstLoader.cpp b/src/OneBestFstLoader.cpp
index b705786..b33bc4a 100644
--- a/src/OneBestFstLoader.cpp
+++ b/src/OneBestFstLoader.cpp
@@ -30,6 +30,9 @@ void OneBestFstLoader::LoadTextFile(const std::string filename) {
   std::copy(std::istream_iterator<std::string>(stream), std::istream_iterator<std::string>(),
             std::back_inserter(mToken));
 
+  // a failed read ends the loop just like the end of the file does
+  if (stream.bad()) throw std::runtime_error("Error while reading input file " + filename);
+
   stream.close();
 }
 
-- 
2.43.0


From 2aa7ee0f93bf907ba5ff3a060d744f4f43001568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 03/31] fix: report read errors on synonym files

Rules after the point of a failed read were silently dropped.
---
 src/SynonymEngine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index ff5acb3..95419cc 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -27,6 +27,7 @@ void SynonymEngine::LoadFile(string filename) {
   while (std::getline(input, s)) {
     lines.push_back(s);
   }
+  if (input.bad()) throw std::runtime_error("Error while reading synonyms file " + filename);
   input.close();
 
   ParseStrings(lines);
-- 
2.43.0


From 94c0b7759979552fcfde2374b16dbce197d29cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 04/31] fix: report unreadable and failing CTM inputs

A CTM file that could not be opened was scored as an empty transcript, and a
read error in the middle of one as a shorter transcript.
---
 src/Ctm.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/Ctm.cpp b/src/Ctm.cpp
index e674e43..8f463d1 100644
--- a/src/Ctm.cpp
+++ b/src/Ctm.cpp
@@ -11,6 +11,9 @@
 
 #include <csv/csv.h>
 
+#include <fstream>
+#include <stdexcept>
+
 using namespace std;
 using namespace fst;
 
@@ -105,10 +108,10 @@ std::vector<int> CtmFstLoader::convertToIntVector(fst::SymbolTable &symbol) cons
    ***************************************/
 CtmReader::CtmReader() {}
 
-vector<RawCtmRecord> read_from_disk_no_conf(const string &filename) {
+vector<RawCtmRecord> read_from_disk_no_conf(const string &filename, istream &stream) {
   vector<RawCtmRecord> vect;
   io::CSVReader<5, io::trim_chars<' ', '\t'>, io::no_quote_escape<' '>, io::throw_on_overflow, io::empty_line_comment>
-      input_ctm(filename);
+      input_ctm(filename, stream);
 
   input_ctm.set_header("audiofile", "channel", "start", "duration", "word");
 
@@ -127,10 +130,10 @@ vector<RawCtmRecord> read_from_disk_no_conf(const string &filename) {
   return vect;
 }
 
-vector<RawCtmRecord> read_from_disk_with_conf(const string &filename) {
+vector<RawCtmRecord> read_from_disk_with_conf(const string &filename, istream &stream) {
   vector<RawCtmRecord> vect;
   io::CSVReader<6, io::trim_chars<' ', '\t'>, io::no_quote_escape<' '>, io::throw_on_overflow, io::empty_line_comment>
-      input_ctm(filename);
+      input_ctm(filename, stream);
 
   input_ctm.set_header("audiofile", "channel", "start", "duration", "word", "confidence");
 
@@ -151,8 +154,11 @@ vector<RawCtmRecord> read_from_disk_with_conf(const string &filename) {
 
 vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
   ifstream ctm_peek(filename);
+  if (!ctm_peek.is_open()) throw std::runtime_error("Cannot open CTM file " + filename);
+
   string first_line;
   if (!std::getline(ctm_peek, first_line)) {
+    if (ctm_peek.bad()) throw std::runtime_error("Error while reading CTM file " + filename);
     vector<RawCtmRecord> vect;
     return vect;
   }
@@ -174,11 +180,14 @@ vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
   // Sixth confidence score column is optional
   bool hasConf = sz > 5 ? true : false;
 
-  if (hasConf) {
-    return read_from_disk_with_conf(filename);
-  } else {
-    return read_from_disk_no_conf(filename);
-  }
+  ifstream stream(filename);
+  if (!stream.is_open()) throw std::runtime_error("Cannot open CTM file " + filename);
+
+  auto records = hasConf ? read_from_disk_with_conf(filename, stream) : read_from_disk_no_conf(filename, stream);
+  // the CSV reader takes a failed read for the end of the file
+  if (stream.bad()) throw std::runtime_error("Error while reading CTM file " + filename);
+
+  return records;
 }
 
 /***************************************
-- 
2.43.0


From c47b3004524892889942235fe56eda373d2812f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 05/31] fix: report read errors on NLP inputs

The CSV reader takes a failed read for the end of the file, so an NLP file
that could only be read in part was scored as a shorter transcript.
---
 src/Nlp.cpp | 15 ++++++++++++---
 src/Nlp.h   |  3 +++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 0bf287f..fb4611b 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -8,6 +8,7 @@
 
 #include <cstddef>
 #include <fstream>
+#include <stdexcept>
 
 #include <csv/csv.h>
 #include "utilities.h"
@@ -335,7 +336,17 @@ NlpReader::~NlpReader() {
 
 std::vector<RawNlpRecord> NlpReader::read_from_disk(const std::string &filename) {
   std::vector<RawNlpRecord> vect;
-  io::CSVReader<13, io::trim_chars<' ', '\t'>, io::no_quote_escape<'|'>> input_nlp(filename);
+  std::ifstream stream(filename);
+  if (!stream.is_open()) throw std::runtime_error("Cannot open NLP file " + filename);
+  read_records(filename, stream, vect);
+  // the CSV reader takes a failed read for the end of the file
+  if (stream.bad()) throw std::runtime_error("Error while reading NLP file " + filename);
+
+  return vect;
+}
+
+void NlpReader::read_records(const std::string &filename, std::istream &stream, std::vector<RawNlpRecord> &vect) {
+  io::CSVReader<13, io::trim_chars<' ', '\t'>, io::no_quote_escape<'|'>> input_nlp(filename, stream);
   // token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags|ali_comment|oldTs|oldEndTs
   input_nlp.read_header(io::ignore_missing_column | io::ignore_extra_column, "token", "speaker", "ts", "endTs",
                         "punctuation", "prepunctuation", "case", "tags", "wer_tags", "ali_comment", "oldTs", "oldEndTs",
@@ -366,8 +377,6 @@ std::vector<RawNlpRecord> NlpReader::read_from_disk(const std::string &filename)
     }
     vect.push_back(record);
   }
-
-  return vect;
 }
 
 std::string NlpReader::GetLabelId(std::string &label) {
diff --git a/src/Nlp.h b/src/Nlp.h
index 13c246d..496af79 100644
--- a/src/Nlp.h
+++ b/src/Nlp.h
@@ -44,6 +44,9 @@ class NlpReader {
   string GetBestLabel(std::string &labels);
   vector<WerTagEntry> GetWerTags(std::string &wer_tags_str);
   string GetLabelId(std::string &label);
+
+ private:
+  void read_records(const std::string &filename, std::istream &stream, std::vector<RawNlpRecord> &vect);
 };
 
 class NlpFstLoader : public FstLoader {
-- 
2.43.0


From 9b4eb3e45e720566000ab19ef29a87dd315f3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 06/31] fix: report unreadable and malformed JSON side files

A normalization or sidecar file that was missing, unreadable or truncated was
treated as an empty one and the run went on with different results.
---
 src/main.cpp | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index ea84278..58a9ec6 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -12,6 +12,19 @@
 using namespace std;
 using namespace fst;
 
+static void ReadJsonFile(const string &filename, Json::Value &obj) {
+  ifstream ifs(filename);
+  if (!ifs.is_open()) throw std::runtime_error("Cannot open JSON file " + filename);
+
+  Json::CharReaderBuilder builder;
+  builder["collectComments"] = false;
+
+  JSONCPP_STRING errs;
+  if (!Json::parseFromStream(builder, ifs, &obj, &errs)) {
+    throw std::runtime_error("Cannot parse JSON file " + filename + ": " + errs);
+  }
+}
+
 int main(int argc, char **argv) {
   setlocale(LC_ALL, "en_US.UTF-8");
   string ref_filename;
@@ -227,13 +240,7 @@ std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader(const std::string& ref
   Json::Value obj;
   if (!json_norm_filename.empty()) {
     console->info("reading json norm info from {}", json_norm_filename);
-    ifstream ifs(json_norm_filename);
-
-    Json::CharReaderBuilder builder;
-    builder["collectComments"] = false;
-
-    JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &obj, &errs);
+    ReadJsonFile(json_norm_filename, obj);
 
     console->info("The json we just read [{}] has {} elements from its root", json_norm_filename, obj.size());
   } else {
@@ -247,13 +254,7 @@ std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader(const std::string& ref
   Json::Value wer_sidecar_obj;
   if (!wer_sidecar_filename.empty()) {
     console->info("reading wer sidecar info from {}", wer_sidecar_filename);
-    ifstream ifs(wer_sidecar_filename);
-
-    Json::CharReaderBuilder builder;
-    builder["collectComments"] = false;
-
-    JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);
+    ReadJsonFile(wer_sidecar_filename, wer_sidecar_obj);
 
     console->info("The json we just read [{}] has {} elements from its root", wer_sidecar_filename, wer_sidecar_obj.size());
   } else {
@@ -300,13 +301,7 @@ std::unique_ptr<FstLoader> FstLoader::MakeHypothesisLoader(const std::string& hy
   Json::Value hyp_json_obj;
   if (!hyp_json_norm_filename.empty()) {
     console->info("reading hypothesis json norm info from {}", hyp_json_norm_filename);
-    ifstream ifs(hyp_json_norm_filename);
-
-    Json::CharReaderBuilder builder;
-    builder["collectComments"] = false;
-
-    JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &hyp_json_obj, &errs);
+    ReadJsonFile(hyp_json_norm_filename, hyp_json_obj);
 
     console->info("The json we just read [{}] has {} elements from its root", hyp_json_norm_filename, hyp_json_obj.size());
   } else {
-- 
2.43.0


From 068633575d60eec3d1255bde92981088e89943f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 07/31] fix: fail when the side-by-side file cannot be written

An open, write or close failure was ignored and the run exited 0 with a
missing or truncated file.
---
 src/wer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wer.cpp b/src/wer.cpp
index 1b2f066..65d8ae9 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -1,5 +1,7 @@
 #include "wer.h"
 
+#include <stdexcept>
+
 #include "AlignmentTraversor.h"
 
 using namespace std;
@@ -604,6 +606,7 @@ void WriteSbs(wer_alignment &topAlignment, const vector<Stitching>& stitches, st
   }
 
   myfile.close();
+  if (!myfile) throw std::runtime_error("Cannot write side-by-side file " + sbs_filename);
 }
 
 void JsonLogUnigramBigramStats(wer_alignment &topAlignment) {
-- 
2.43.0


From a29d41f42abbbbbe27af6915d53bbfa2d077290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 08/31] fix: fail when the aligned NLP file cannot be written

Both subcommands ignored open, write and close failures and exited 0 with a
missing or truncated file.
---
 src/fstalign.cpp | 2 ++
 src/main.cpp     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 37ee686..2c98ff5 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -692,6 +692,8 @@ void HandleWer(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine &engine
     if (!output_nlp.empty()) {
       ofstream nlp_ostream(output_nlp);
       write_stitches_to_nlp(stitches, nlp_ostream, nlp_ref_loader->mJsonNorm, add_inserts_nlp);
+      nlp_ostream.close();
+      if (!nlp_ostream) throw std::runtime_error("Cannot write aligned NLP file " + output_nlp);
     }
   }
 
diff --git a/src/main.cpp b/src/main.cpp
index 58a9ec6..2a113f0 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -212,6 +212,10 @@ int main(int argc, char **argv) {
 
     output_nlp_file.flush();
     output_nlp_file.close();
+    if (!output_nlp_file) {
+      console->error("cannot write {}", output_nlp);
+      return 1;
+    }
 
   } else {
     console->error("The command {} isn't implemented yet", command);
-- 
2.43.0


From 9e2042c40acf5f8e39698c40de92879d9349afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 09/31] fix: fail when the JSON report cannot be written

An open, write or close failure was ignored and the run exited 0 with a
missing or truncated report.
---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 2a113f0..ece6e8c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -229,6 +229,10 @@ int main(int argc, char **argv) {
     jsonFile.open(output_json_log);
     jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;
     jsonFile.close();
+    if (!jsonFile) {
+      console->error("cannot write {}", output_json_log);
+      return 1;
+    }
   }
 
   console->info("done");
-- 
2.43.0


From 044ad50a4089fb03385cf7855587726c24ddc443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 10/31] fix: reject align inputs of the wrong kind

align dereferenced a null pointer when the reference was not an NLP file or
the hypothesis not a CTM file.
---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index ece6e8c..79ab365 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -207,6 +207,10 @@ int main(int argc, char **argv) {
     // empty methods that throw exceptions if not implemented.
     NlpFstLoader *nlpRef = dynamic_cast<NlpFstLoader *>(ref.get());
     CtmFstLoader *ctmHyp = dynamic_cast<CtmFstLoader *>(hyp.get());
+    if (nlpRef == nullptr || ctmHyp == nullptr) {
+      console->error("align requires an NLP reference and a CTM hypothesis");
+      return 1;
+    }
 
     HandleAlign(*nlpRef, *ctmHyp, engine, output_nlp_file, alignerOptions);
 
-- 
2.43.0


From 385ec1a0cafd2b2ad54f8f1049ed670d3bef5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 11/31] fix: reject unreadable and inconsistent FST files

A missing or truncated FST file led to a null pointer dereference, one with
arcs to non-existing states to accesses out of bounds.
---
 src/FstFileLoader.cpp | 7 ++++++-
 src/FstFileLoader.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/FstFileLoader.cpp b/src/FstFileLoader.cpp
index 0994766..3e08d0c 100644
--- a/src/FstFileLoader.cpp
+++ b/src/FstFileLoader.cpp
@@ -3,13 +3,18 @@
  */
 #include "FstFileLoader.h"
 
+#include <fst/verify.h>
+
 FstFileLoader::FstFileLoader(std::string filename) : FstLoader(), filename_(filename) {}
 
 void FstFileLoader::addToSymbolTable(fst::SymbolTable& symbol) const { return; }
 
 fst::StdVectorFst FstFileLoader::convertToFst(const fst::SymbolTable& symbol, std::vector<int> map) const {
   auto logger = logger::GetOrCreateLogger("FstFileLoader");
-  fst::StdVectorFst* transducer = fst::StdVectorFst::Read(filename_);
+  std::unique_ptr<fst::StdVectorFst> transducer(fst::StdVectorFst::Read(filename_));
+  if (!transducer || !fst::Verify(*transducer)) {
+    throw std::runtime_error("Cannot read FST file " + filename_);
+  }
   logger->info("Total FST has {} states.", transducer->NumStates());
   return (*transducer);
 }
diff --git a/src/FstFileLoader.h b/src/FstFileLoader.h
index 42dcdeb..bb9a587 100644
--- a/src/FstFileLoader.h
+++ b/src/FstFileLoader.h
@@ -11,6 +11,7 @@
 #define FstFileLoader_H_
 
 #include <fstream>
+#include <memory>
 #include <stdexcept>
 #include <vector>
 
-- 
2.43.0


From 7016bda5f7f4946f3d92ec0a0497aa605e2748f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 12/31] fix: reject missing, unreadable and incomplete symbol
 files

A missing or malformed symbols file led to a null pointer dereference. A
truncated one was accepted, and the symbols the program then adds itself took
the numbers of the missing words, so a lattice was scored with other words.
---
 src/FstFileLoader.cpp | 23 +++++++++++++++++++++--
 src/FstFileLoader.h   |  3 +++
 src/FstLoader.h       |  2 ++
 src/fstalign.cpp      |  9 ++++++++-
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/FstFileLoader.cpp b/src/FstFileLoader.cpp
index 3e08d0c..04df312 100644
--- a/src/FstFileLoader.cpp
+++ b/src/FstFileLoader.cpp
@@ -9,12 +9,31 @@ FstFileLoader::FstFileLoader(std::string filename) : FstLoader(), filename_(file
 
 void FstFileLoader::addToSymbolTable(fst::SymbolTable& symbol) const { return; }
 
-fst::StdVectorFst FstFileLoader::convertToFst(const fst::SymbolTable& symbol, std::vector<int> map) const {
-  auto logger = logger::GetOrCreateLogger("FstFileLoader");
+std::unique_ptr<fst::StdVectorFst> FstFileLoader::load() const {
   std::unique_ptr<fst::StdVectorFst> transducer(fst::StdVectorFst::Read(filename_));
   if (!transducer || !fst::Verify(*transducer)) {
     throw std::runtime_error("Cannot read FST file " + filename_);
   }
+  return transducer;
+}
+
+void FstFileLoader::checkSymbols(const fst::SymbolTable& symbol) const {
+  auto transducer = load();
+  for (fst::StateIterator<fst::StdVectorFst> siter(*transducer); !siter.Done(); siter.Next()) {
+    for (fst::ArcIterator<fst::StdVectorFst> aiter(*transducer, siter.Value()); !aiter.Done(); aiter.Next()) {
+      const auto& arc = aiter.Value();
+      for (auto label : {arc.ilabel, arc.olabel}) {
+        if (label != 0 && !symbol.Member(label)) {
+          throw std::runtime_error("Symbol " + std::to_string(label) + " of " + filename_ + " isn't in the symbols file");
+        }
+      }
+    }
+  }
+}
+
+fst::StdVectorFst FstFileLoader::convertToFst(const fst::SymbolTable& symbol, std::vector<int> map) const {
+  auto logger = logger::GetOrCreateLogger("FstFileLoader");
+  auto transducer = load();
   logger->info("Total FST has {} states.", transducer->NumStates());
   return (*transducer);
 }
diff --git a/src/FstFileLoader.h b/src/FstFileLoader.h
index bb9a587..8b18999 100644
--- a/src/FstFileLoader.h
+++ b/src/FstFileLoader.h
@@ -26,8 +26,11 @@ class FstFileLoader : public FstLoader {
   virtual void addToSymbolTable(fst::SymbolTable &symbol) const;
   virtual fst::StdVectorFst convertToFst(const fst::SymbolTable &symbol, std::vector<int> map) const;
   virtual std::vector<int> convertToIntVector(fst::SymbolTable &symbol) const;
+  virtual void checkSymbols(const fst::SymbolTable &symbol) const;
 
  private:
+  std::unique_ptr<fst::StdVectorFst> load() const;
+
   std::string filename_;
 };
 
diff --git a/src/FstLoader.h b/src/FstLoader.h
index 86673f3..2589041 100644
--- a/src/FstLoader.h
+++ b/src/FstLoader.h
@@ -23,6 +23,8 @@ class FstLoader {
   static void AddSymbolIfNeeded(fst::SymbolTable &symbol, std::string str_value);
   virtual fst::StdVectorFst convertToFst(const fst::SymbolTable &symbol, std::vector<int> map) const = 0;
   virtual std::vector<int> convertToIntVector(fst::SymbolTable &symbol) const = 0;
+  // throws if the input refers to symbols that the user-provided symbol table doesn't have
+  virtual void checkSymbols(const fst::SymbolTable &symbol) const {}
 
   static std::unique_ptr<FstLoader> MakeReferenceLoader(const std::string& ref_filename,
                                                         const std::string& wer_sidecar_filename,
diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 2c98ff5..595081d 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -51,7 +51,14 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
   SymbolTable symbol;
   if (!alignerOptions.symbols_filename.empty()) {
     std::ifstream strm(alignerOptions.symbols_filename, std::ios_base::in);
-    symbol = *(SymbolTable::ReadText(strm, "symbols"));
+    std::unique_ptr<SymbolTable> table(SymbolTable::ReadText(strm, "symbols"));
+    if (!strm.is_open() || strm.bad() || !table) {
+      throw std::runtime_error("Cannot read symbols file " + alignerOptions.symbols_filename);
+    }
+    symbol = *table;
+    // our own symbols are added below and would take the place of those the file lacks
+    refLoader.checkSymbols(symbol);
+    hypLoader.checkSymbols(symbol);
   } else {
     symbol = SymbolTable("symbols");
   }
-- 
2.43.0


From f4e5c4646a814b7efe1ddb5067f6d0add6af38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 13/31] fix: keep the whole first label when a token has
 several tags

---
 src/Nlp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index fb4611b..2f776a6 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -404,8 +404,8 @@ std::string NlpReader::GetBestLabel(std::string &labels) {
 
     // chop before the 1st comma, if needed
     auto pos = trimmed.find(",");
-    if (pos > 0) {
-      trimmed = trimmed.substr(0, pos - 2);
+    if (pos != std::string::npos) {
+      trimmed = trimmed.substr(0, pos);
     }
 
     // remove the leading/ending single-quote
-- 
2.43.0


From bcc4b7f7f875b45b267889e9e91522c7ea6519b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 14/31] fix: accept two empty transcripts when collecting
 bigrams

---
 src/utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index a1ebc31..f6f5339 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -158,6 +158,10 @@ unordered_set<string> get_bigrams(wer_alignment &topAlignment) {
     }
   }
 
+  if (flattened_tokens.empty()) {
+    return all_bigrams;
+  }
+
   for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
     bi_words = {it->first, std::next(it)->first};
     bigram_ref = string_join(bi_words, " ");
-- 
2.43.0


From 13aaf43fbf0f041ca8bac9c0137fd4d363d221ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 15/31] fix: lower-case independently of the environment's
 locale

---
 src/utilities.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index f6f5339..32148db 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -241,7 +241,11 @@ string GetClassLabel(string best_label) {
 string UnicodeLowercase(string token) {
   icu::UnicodeString utoken = icu::UnicodeString::fromUTF8(token);
   std::string lower_cased;
-  utoken.toLower().toUTF8String(lower_cased);
+  // the mapping must not depend on the locale of the environment
+  utoken.toLower(icu::Locale::getRoot());
+  // ICU reports a failed allocation by leaving the string in a bogus state
+  if (utoken.isBogus()) throw std::bad_alloc();
+  utoken.toUTF8String(lower_cased);
   return lower_cased;
 }
 
-- 
2.43.0


From 8d19f5629fdf49d64ffb5ee6baea04af29672105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 16/31] fix: compute precision and recall for align

---
 src/fstalign.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 595081d..88e0244 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -719,6 +719,7 @@ void HandleAlign(NlpFstLoader& refLoader, CtmFstLoader& hypLoader, SynonymEngine
                  AlignerOptions alignerOptions) {
   //  int numBests, string symbols_filename, string composition_approach) {
   auto topAlignment = Fstalign(refLoader, hypLoader, engine, alignerOptions);
+  CalculatePrecisionRecall(topAlignment, alignerOptions.pr_threshold);
   // dump the WER details even when we're just considering alignment
   RecordWer(topAlignment);
 
-- 
2.43.0


From 1cf137fd9b6531613718e6db1304912d7ae9fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 17/31] fix: write the side-by-side file for align

---
 src/fstalign.cpp | 7 ++++++-
 src/fstalign.h   | 2 +-
 src/main.cpp     | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 88e0244..5c4f033 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -716,7 +716,7 @@ void HandleWer(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine &engine
 }
 
 void HandleAlign(NlpFstLoader& refLoader, CtmFstLoader& hypLoader, SynonymEngine &engine, ofstream &output_nlp_file,
-                 AlignerOptions alignerOptions) {
+                 AlignerOptions alignerOptions, const string& output_sbs) {
   //  int numBests, string symbols_filename, string composition_approach) {
   auto topAlignment = Fstalign(refLoader, hypLoader, engine, alignerOptions);
   CalculatePrecisionRecall(topAlignment, alignerOptions.pr_threshold);
@@ -729,4 +729,9 @@ void HandleAlign(NlpFstLoader& refLoader, CtmFstLoader& hypLoader, SynonymEngine
   auto stitches = make_stitches(topAlignment, hypLoader.mCtmRows);
   align_stitches_to_nlp(refLoader, stitches);
   write_stitches_to_nlp(stitches, output_nlp_file, refLoader.mJsonNorm);
+
+  if (!output_sbs.empty()) {
+    logger->info("output_sbs = {}", output_sbs);
+    WriteSbs(topAlignment, stitches, output_sbs);
+  }
 }
diff --git a/src/fstalign.h b/src/fstalign.h
index 0320785..859d898 100644
--- a/src/fstalign.h
+++ b/src/fstalign.h
@@ -53,6 +53,6 @@ struct AlignerOptions {
 void HandleWer(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine &engine, const string& output_sbs, const string& output_nlp,
                AlignerOptions alignerOptions, bool add_inserts_nlp = false, bool use_case = false);
 void HandleAlign(NlpFstLoader &refLoader, CtmFstLoader &hypLoader, SynonymEngine &engine, ofstream &output_nlp_file,
-                 AlignerOptions alignerOptions);
+                 AlignerOptions alignerOptions, const string& output_sbs = "");
 
 #endif  // __FSTALIGN_H__
diff --git a/src/main.cpp b/src/main.cpp
index 79ab365..99174f4 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -212,7 +212,7 @@ int main(int argc, char **argv) {
       return 1;
     }
 
-    HandleAlign(*nlpRef, *ctmHyp, engine, output_nlp_file, alignerOptions);
+    HandleAlign(*nlpRef, *ctmHyp, engine, output_nlp_file, alignerOptions, output_sbs);
 
     output_nlp_file.flush();
     output_nlp_file.close();
-- 
2.43.0


From 49a978dd2f6c4cf8f4d14e3820a7292ef8a45f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 18/31] fix: do not count insertions as reference words of a
 speaker

---
 src/wer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 65d8ae9..58e8ca9 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -136,7 +136,7 @@ void RecordSpeakerWer(const vector<Stitching> &stitches) {
     insertions += stitch.comment.rfind("ins", 0) == 0;
     deletions += stitch.comment.rfind("del", 0) == 0;
     substitutions += stitch.comment.rfind("sub", 0) == 0;
-    num_words_in_reference += speaker_id.empty() ? 0 : 1;
+    num_words_in_reference += stitch.comment.rfind("ins", 0) != 0;
   }
 
   if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
-- 
2.43.0


From b7ec886ca50f200e41575eb9761359502f32e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 19/31] fix: keep a last sentence made of insertions only

---
 src/wer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 58e8ca9..f4aef13 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -87,8 +87,8 @@ void RecordSentenceWer(const vector<Stitching> &stitches) {
         curr_wer = {0, 0, 0, 0, 0};
       }
   }
-  // Add last one if its empty case
-  if (curr_wer.numWordsInReference > 0) {
+  // Add last one if it isn't empty
+  if (curr_wer.numWordsInReference > 0 || curr_wer.insertions > 0) {
     sentence_wers.push_back(curr_wer);
   }
 
-- 
2.43.0


From 80b969204e3d7c0a4eb32c8050ff6b9947c860dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 20/31] fix: pair label and synonym groups with their reference
 rows despite insertions

---
 src/fstalign.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 5c4f033..e183916 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -361,11 +361,20 @@ vector<Stitching> make_stitches(wer_alignment &alignment, vector<RawCtmRecord> h
   return stitches;
 }
 
-void align_stitches_to_nlp(NlpFstLoader& refLoader, vector<Stitching> &stitches) {
+void align_stitches_to_nlp(NlpFstLoader& refLoader, vector<Stitching> &all_stitches) {
   /* now, lets process NLP info */
   auto logger = logger::GetOrCreateLogger("fstalign");
   logger->set_level(spdlog::level::info);
 
+  // insertions have no nlp row, including those found inside a label or synonym group:
+  // only the other stitches are paired with the nlp rows
+  vector<Stitching> stitches;
+  for (const auto &stitch : all_stitches) {
+    if (stitch.comment.find("ins") != 0) {
+      stitches.push_back(stitch);
+    }
+  }
+
   auto nlpRows = refLoader.mNlpRows;
   int alignedTokensIndex = 0;
   int nlpRowIndex = 0;
@@ -568,6 +577,19 @@ void align_stitches_to_nlp(NlpFstLoader& refLoader, vector<Stitching> &stitches)
 
     /* end of special handling of nlp rows vs stitches  */
   }
+
+  int wordIndex = 0;
+  for (int i = 0; i < all_stitches.size(); i++) {
+    auto &stitch = all_stitches[i];
+    if (stitch.comment.find("ins") != 0) {
+      stitch = stitches[wordIndex++];
+    } else if (i > 0 && stitch.classLabel != TK_GLOBAL_CLASS && stitch.classLabel == all_stitches[i - 1].classLabel) {
+      // an insertion inside a group belongs to the segment of that group
+      stitch.nlpRow.speakerId = all_stitches[i - 1].nlpRow.speakerId;
+      stitch.nlpRow.labels = all_stitches[i - 1].nlpRow.labels;
+      stitch.nlpRow.wer_tags = all_stitches[i - 1].nlpRow.wer_tags;
+    }
+  }
 }
 
 void write_stitches_to_nlp(vector<Stitching>& stitches, ofstream &output_nlp_file, Json::Value norm_json, bool add_inserts = false) {
-- 
2.43.0


From 2e964452892a1bb67022e083cfec83bef3efa446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:55 +0000
Subject: [PATCH 21/31] fix: read CSV inputs without a final newline

The CSV reader looks past the end of its data when the last line has no
newline: on large inputs it then parses stale bytes or waits forever.
---
 src/Ctm.cpp       | 29 +++++++++++++----------------
 src/Nlp.cpp       | 17 ++++++-----------
 src/Nlp.h         |  3 ---
 src/utilities.cpp | 18 ++++++++++++++++++
 src/utilities.h   |  3 +++
 5 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/src/Ctm.cpp b/src/Ctm.cpp
index 8f463d1..9a7d038 100644
--- a/src/Ctm.cpp
+++ b/src/Ctm.cpp
@@ -11,7 +11,7 @@
 
 #include <csv/csv.h>
 
-#include <fstream>
+#include <sstream>
 #include <stdexcept>
 
 using namespace std;
@@ -108,10 +108,10 @@ std::vector<int> CtmFstLoader::convertToIntVector(fst::SymbolTable &symbol) cons
    ***************************************/
 CtmReader::CtmReader() {}
 
-vector<RawCtmRecord> read_from_disk_no_conf(const string &filename, istream &stream) {
+vector<RawCtmRecord> read_from_disk_no_conf(const string &filename, const string &content) {
   vector<RawCtmRecord> vect;
   io::CSVReader<5, io::trim_chars<' ', '\t'>, io::no_quote_escape<' '>, io::throw_on_overflow, io::empty_line_comment>
-      input_ctm(filename, stream);
+      input_ctm(filename, content.data(), content.data() + content.size());
 
   input_ctm.set_header("audiofile", "channel", "start", "duration", "word");
 
@@ -130,10 +130,10 @@ vector<RawCtmRecord> read_from_disk_no_conf(const string &filename, istream &str
   return vect;
 }
 
-vector<RawCtmRecord> read_from_disk_with_conf(const string &filename, istream &stream) {
+vector<RawCtmRecord> read_from_disk_with_conf(const string &filename, const string &content) {
   vector<RawCtmRecord> vect;
   io::CSVReader<6, io::trim_chars<' ', '\t'>, io::no_quote_escape<' '>, io::throw_on_overflow, io::empty_line_comment>
-      input_ctm(filename, stream);
+      input_ctm(filename, content.data(), content.data() + content.size());
 
   input_ctm.set_header("audiofile", "channel", "start", "duration", "word", "confidence");
 
@@ -153,12 +153,12 @@ vector<RawCtmRecord> read_from_disk_with_conf(const string &filename, istream &s
 }
 
 vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
-  ifstream ctm_peek(filename);
-  if (!ctm_peek.is_open()) throw std::runtime_error("Cannot open CTM file " + filename);
+  // the CSV reader takes a failed read for the end of the file, and mishandles a last line without a newline
+  const string content = ReadLines(filename);
+  istringstream ctm_peek(content);
 
   string first_line;
   if (!std::getline(ctm_peek, first_line)) {
-    if (ctm_peek.bad()) throw std::runtime_error("Error while reading CTM file " + filename);
     vector<RawCtmRecord> vect;
     return vect;
   }
@@ -180,14 +180,11 @@ vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
   // Sixth confidence score column is optional
   bool hasConf = sz > 5 ? true : false;
 
-  ifstream stream(filename);
-  if (!stream.is_open()) throw std::runtime_error("Cannot open CTM file " + filename);
-
-  auto records = hasConf ? read_from_disk_with_conf(filename, stream) : read_from_disk_no_conf(filename, stream);
-  // the CSV reader takes a failed read for the end of the file
-  if (stream.bad()) throw std::runtime_error("Error while reading CTM file " + filename);
-
-  return records;
+  if (hasConf) {
+    return read_from_disk_with_conf(filename, content);
+  } else {
+    return read_from_disk_no_conf(filename, content);
+  }
 }
 
 /***************************************
diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 2f776a6..05a1962 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -336,17 +336,10 @@ NlpReader::~NlpReader() {
 
 std::vector<RawNlpRecord> NlpReader::read_from_disk(const std::string &filename) {
   std::vector<RawNlpRecord> vect;
-  std::ifstream stream(filename);
-  if (!stream.is_open()) throw std::runtime_error("Cannot open NLP file " + filename);
-  read_records(filename, stream, vect);
-  // the CSV reader takes a failed read for the end of the file
-  if (stream.bad()) throw std::runtime_error("Error while reading NLP file " + filename);
-
-  return vect;
-}
-
-void NlpReader::read_records(const std::string &filename, std::istream &stream, std::vector<RawNlpRecord> &vect) {
-  io::CSVReader<13, io::trim_chars<' ', '\t'>, io::no_quote_escape<'|'>> input_nlp(filename, stream);
+  // the CSV reader takes a failed read for the end of the file, and mishandles a last line without a newline
+  const std::string content = ReadLines(filename);
+  io::CSVReader<13, io::trim_chars<' ', '\t'>, io::no_quote_escape<'|'>> input_nlp(filename, content.data(),
+                                                                                  content.data() + content.size());
   // token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags|ali_comment|oldTs|oldEndTs
   input_nlp.read_header(io::ignore_missing_column | io::ignore_extra_column, "token", "speaker", "ts", "endTs",
                         "punctuation", "prepunctuation", "case", "tags", "wer_tags", "ali_comment", "oldTs", "oldEndTs",
@@ -377,6 +370,8 @@ void NlpReader::read_records(const std::string &filename, std::istream &stream,
     }
     vect.push_back(record);
   }
+
+  return vect;
 }
 
 std::string NlpReader::GetLabelId(std::string &label) {
diff --git a/src/Nlp.h b/src/Nlp.h
index 496af79..13c246d 100644
--- a/src/Nlp.h
+++ b/src/Nlp.h
@@ -44,9 +44,6 @@ class NlpReader {
   string GetBestLabel(std::string &labels);
   vector<WerTagEntry> GetWerTags(std::string &wer_tags_str);
   string GetLabelId(std::string &label);
-
- private:
-  void read_records(const std::string &filename, std::istream &stream, std::vector<RawNlpRecord> &vect);
 };
 
 class NlpFstLoader : public FstLoader {
diff --git a/src/utilities.cpp b/src/utilities.cpp
index 32148db..60602e0 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -1,7 +1,9 @@
 
 #include "utilities.h"
 
+#include <fstream>
 #include <iterator>
+#include <stdexcept>
 
 // controlling the graph
 const std::string EPSILON = "<eps>";
@@ -249,6 +251,22 @@ string UnicodeLowercase(string token) {
   return lower_cased;
 }
 
+string ReadLines(const string &filename) {
+  std::ifstream stream(filename);
+  if (!stream.is_open()) throw std::runtime_error("Cannot open " + filename);
+
+  string content;
+  char block[65536];
+  while (stream.read(block, sizeof(block)) || stream.gcount() > 0) {
+    content.append(block, stream.gcount());
+  }
+
+  if (stream.bad()) throw std::runtime_error("Error while reading " + filename);
+  if (!content.empty() && content.back() != '\n') content += '\n';
+
+  return content;
+}
+
 bool EndsWithCaseInsensitive(const string &value, const string &ending) {
   if (ending.size() > value.size()) {
     return false;
diff --git a/src/utilities.h b/src/utilities.h
index dbe794d..fbcb681 100644
--- a/src/utilities.h
+++ b/src/utilities.h
@@ -241,4 +241,7 @@ string GetClassLabel(string best_label);
 
 string UnicodeLowercase(string token);
 
+// the content of a file read by lines, always ending with a newline unless it is empty
+string ReadLines(const string &filename);
+
 #endif  // UTILITIES_H_
-- 
2.43.0


From 9b4d5e99aa6da29ee760ef43054003f9b2a96cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 22/31] fix: do not crash when lower-casing runs out of memory

---
 src/utilities.cpp | 17 +++++++++++++----
 src/utilities.h   |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index 60602e0..a7d5abf 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -242,12 +242,21 @@ string GetClassLabel(string best_label) {
 
 string UnicodeLowercase(string token) {
   icu::UnicodeString utoken = icu::UnicodeString::fromUTF8(token);
-  std::string lower_cased;
-  // the mapping must not depend on the locale of the environment
-  utoken.toLower(icu::Locale::getRoot());
   // ICU reports a failed allocation by leaving the string in a bogus state
   if (utoken.isBogus()) throw std::bad_alloc();
-  utoken.toUTF8String(lower_cased);
+  // the mapping must not depend on the locale of the environment, so name the root locale
+  // by its identifier: the icu::Locale objects are null references when memory has run out
+  std::vector<UChar> lower(utoken.length() + 1);
+  UErrorCode status = U_ZERO_ERROR;
+  int32_t length = u_strToLower(lower.data(), lower.size(), utoken.getBuffer(), utoken.length(), "", &status);
+  if (status == U_BUFFER_OVERFLOW_ERROR) {
+    lower.resize(length + 1);
+    status = U_ZERO_ERROR;
+    length = u_strToLower(lower.data(), lower.size(), utoken.getBuffer(), utoken.length(), "", &status);
+  }
+  if (U_FAILURE(status)) throw std::bad_alloc();
+  std::string lower_cased;
+  icu::UnicodeString(false, lower.data(), length).toUTF8String(lower_cased);
   return lower_cased;
 }
 
diff --git a/src/utilities.h b/src/utilities.h
index fbcb681..726ebfd 100644
--- a/src/utilities.h
+++ b/src/utilities.h
@@ -9,6 +9,7 @@
 #define UTILITIES_H_
 
 #include <unicode/locid.h>
+#include <unicode/ustring.h>
 #include <unicode/unistr.h>
 #include <unicode/ustream.h>
 #include <algorithm>
-- 
2.43.0


From 518988b37ab62d5a4839b24e0ae33fa5d0907810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 23/31] fix: do not charge the approximate pass's markers as
 costs in the standard composition

---
 src/fstalign.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index e183916..85f1cc8 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -172,6 +172,12 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
                  alignerOptions.levenstein_maximum_error_streak);
     refFst = refLoader.convertToFst(symbol, {});
     hypFst = hypLoader.convertToFst(symbol, {});
+  } else if (alignerOptions.composition_approach == "standard") {
+    // The map is encoded as arc weights that only the adapted composition understands,
+    // the standard composition would count them as costs of the words that match
+    logger->info("Not using levenshtein pre-computation - standard composition");
+    refFst = refLoader.convertToFst(symbol, {});
+    hypFst = hypLoader.convertToFst(symbol, {});
   } else {
     refFst = refLoader.convertToFst(symbol, mapA);
     hypFst = hypLoader.convertToFst(symbol, mapB);
-- 
2.43.0


From 44305ac5802e724317158550a48b3866c9157496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 24/31] fix: do not index past the label flags when the symbols
 file has gaps

---
 src/AdaptedComposition.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index f444974..100631f 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -405,13 +405,13 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
 void AdaptedCompositionFst::SetSymbols(fst::SymbolTable *symbols) {
   symbols_ = symbols;
   synonyms_label_ids.clear();
-  synonyms_label_ids.resize(symbols->NumSymbols(), false);
+  synonyms_label_ids.resize(symbols->AvailableKey(), false);
 
   entity_label_ids.clear();
-  entity_label_ids.resize(symbols->NumSymbols(), false);
+  entity_label_ids.resize(symbols->AvailableKey(), false);
 
   // mostly for optimization purpose
-  logger_->debug("{}:{} we created 2 vector<bool> of {} items", __FILE__, __LINE__, symbols->NumSymbols());
+  logger_->debug("{}:{} we created 2 vector<bool> of {} items", __FILE__, __LINE__, symbols->AvailableKey());
 
   for (SymbolTableIterator siter(*symbols); !siter.Done(); siter.Next()) {
     int64 sid = siter.Value();
-- 
2.43.0


From 577a7fbc842752dea9a44832ff4b237722a2c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 25/31] fix: end transcripts with label 0 when the symbols file
 lacks <eps>

---
 src/Nlp.cpp              | 12 ++----------
 src/OneBestFstLoader.cpp |  3 ++-
 src/utilities.h          |  7 ++++---
 3 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 05a1962..04da6c9 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -175,16 +175,8 @@ fst::StdVectorFst NlpFstLoader::convertToFst(const fst::SymbolTable &symbol, std
   FstAlignOption options;
 
   bool markLabels = true;
-  int eps_sym = symbol.Find(options.symEps);
-  // a 'real' eps transition?
-  //   int eps_sym = fst::kNoLabel;
-
-  // fst::kNoSymbol
-  if (eps_sym == -1) {
-    // symbol.AddSymbol(options.symEps);
-    logger->warn("WARNING the eps symbol [{}] wasn't found, we'll assume its index is 0!", options.symEps);
-    eps_sym = 0;
-  }
+  // epsilon is label 0 in any FST, whatever the symbols file calls it
+  int eps_sym = 0;
 
   transducer.AddState();
   transducer.SetStart(0);
diff --git a/src/OneBestFstLoader.cpp b/src/OneBestFstLoader.cpp
index b33bc4a..222677c 100644
--- a/src/OneBestFstLoader.cpp
+++ b/src/OneBestFstLoader.cpp
@@ -53,7 +53,8 @@ fst::StdVectorFst OneBestFstLoader::convertToFst(const fst::SymbolTable &symbol,
   auto logger = logger::GetOrCreateLogger("OneBestFstLoader");
 
   FstAlignOption options;
-  int eps_sym = symbol.Find(options.symEps);
+  // epsilon is label 0 in any FST, whatever the symbols file calls it
+  int eps_sym = 0;
 
   fst::StdVectorFst transducer;
 
diff --git a/src/utilities.h b/src/utilities.h
index 726ebfd..ec50694 100644
--- a/src/utilities.h
+++ b/src/utilities.h
@@ -163,9 +163,10 @@ struct FstAlignOption {
   void RegisterSymbols(fst::SymbolTable &symbol) {
     // int noSym = fst::kNoSymbol;
     int noSym = -1;
-    eps_idx = symbol.Find(symEps);
-    if (eps_idx == noSym) {
-      eps_idx = symbol.AddSymbol(symEps);
+    // epsilon is label 0 in any FST, whatever the symbols file calls it
+    eps_idx = 0;
+    if (!symbol.Member(eps_idx)) {
+      symbol.AddSymbol(symEps, eps_idx);
     }
 
     oov_idx = symbol.Find(symOov);
-- 
2.43.0


From e705f68c11841ae10063923705691638b0e04910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 26/31] fix: do not let a string stream turn a failed
 allocation into a short bigram or an empty CTM

---
 src/Ctm.cpp       |  6 ++----
 src/utilities.cpp | 11 +++++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Ctm.cpp b/src/Ctm.cpp
index 9a7d038..adad271 100644
--- a/src/Ctm.cpp
+++ b/src/Ctm.cpp
@@ -155,13 +155,11 @@ vector<RawCtmRecord> read_from_disk_with_conf(const string &filename, const stri
 vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
   // the CSV reader takes a failed read for the end of the file, and mishandles a last line without a newline
   const string content = ReadLines(filename);
-  istringstream ctm_peek(content);
-
-  string first_line;
-  if (!std::getline(ctm_peek, first_line)) {
+  if (content.empty()) {
     vector<RawCtmRecord> vect;
     return vect;
   }
+  const string first_line = content.substr(0, content.find('\n'));
 
   int sz = 1;
   char lastChar = 'x';
diff --git a/src/utilities.cpp b/src/utilities.cpp
index a7d5abf..2bbc1c6 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -119,10 +119,13 @@ std::string string_join(const std::vector<std::string> &elements, const char *co
     case 1:
       return elements[0];
     default:
-      std::ostringstream os;
-      std::copy(elements.begin(), elements.end() - 1, std::ostream_iterator<std::string>(os, separator));
-      os << *elements.rbegin();
-      return os.str();
+      // a stream would take a failed allocation for a write error and cut the result short
+      std::string joined = elements[0];
+      for (auto it = elements.begin() + 1; it != elements.end(); ++it) {
+        joined += separator;
+        joined += *it;
+      }
+      return joined;
   }
 }
 
-- 
2.43.0


From 7d3163f00630dfdeadb576bd015692489026195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 27/31] fix: do not count the epsilon label as a word when the
 symbols file names it otherwise

---
 src/Walker.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Walker.cpp b/src/Walker.cpp
index ac357a8..b4ce5ab 100644
--- a/src/Walker.cpp
+++ b/src/Walker.cpp
@@ -234,8 +234,9 @@ wer_alignment Walker::GetDetailsFromTopCandidates(ShortlistEntry &currentState,
 
   while (now != nullptr) {
     const MyArc& local_arc = now->local_arc;
-    string ilabel = symbol.Find(local_arc.ilabel);
-    string olabel = symbol.Find(local_arc.olabel);
+    // epsilon has no word to count, whatever the symbols file calls it
+    string ilabel = local_arc.ilabel == 0 ? EPSILON : symbol.Find(local_arc.ilabel);
+    string olabel = local_arc.olabel == 0 ? EPSILON : symbol.Find(local_arc.olabel);
 
     bool isClassLabel_i = isEntityLabel(ilabel);
     // bool isClassLabel_o = olabel.find("___") == 0 ? true : false;
-- 
2.43.0


From 18df159be954d735ad9b8eb38c09758672c08335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 28/31] fix: flush the first log message like all others

---
 src/logging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index f487492..8d80968 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -29,8 +29,8 @@ void InitLoggers(std::string logfilename) {
   spdlog::register_logger(console);
 
   //   auto console = spd::stdout_color_mt(CONSOLE_LOGGER_NAME);
-  console->info("loggers initialized");
   console->flush_on(spdlog::level::info);
+  console->info("loggers initialized");
   // in general, we can have the utc offset, but for stdout, let's be lean a bit
   spdlog::set_pattern("[%^+++%$] [%H:%M:%S %z] [thread %t] [%n] %v");
   console->set_pattern("[%^+++%$] [%H:%M:%S] [%n] %v");
-- 
2.43.0


From 454d87f06b5bf567ae487253617d4ce0a7a4b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:25 +0000
Subject: [PATCH 29/31] fix: show the words of every part of an entity that
 shares its label

An entity interrupted by an unlabelled token, and two entities with one id,
put the same label into the alignment twice; the words of the first were then
published for both, so that words of the transcripts were lost or doubled.
---
 src/AlignmentTraversor.cpp |  8 ++------
 src/AlignmentTraversor.h   |  1 +
 src/utilities.cpp          | 10 +++++-----
 src/utilities.h            | 12 ++++++++++++
 src/wer.cpp                |  9 ++++-----
 5 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/AlignmentTraversor.cpp b/src/AlignmentTraversor.cpp
index 96ab1a8..a11eac4 100644
--- a/src/AlignmentTraversor.cpp
+++ b/src/AlignmentTraversor.cpp
@@ -15,6 +15,7 @@ void AlignmentTraversor::Restart() {
   currentPosInRoot = -1;
   currentSubclass = nullptr;
   currentPosInSubclass = -1;
+  nextSubclass = 0;
 }
 
 bool AlignmentTraversor::NextTriple(triple &triple) {
@@ -31,12 +32,7 @@ bool AlignmentTraversor::NextTriple(triple &triple) {
       // handle class
       currentPosInSubclass = -1;
       // find subclass spWERA from within the root
-      for (auto &a : root.label_alignments) {
-        if (a.classLabel == tk.first) {
-          currentSubclass = &a;
-          break;
-        }
-      }
+      currentSubclass = root.NextLabelAlignment(tk.first, nextSubclass);
       // currentSubclass = nullptr; // fixme
       return NextTriple(triple);
     }
diff --git a/src/AlignmentTraversor.h b/src/AlignmentTraversor.h
index f7602e2..6e2920d 100644
--- a/src/AlignmentTraversor.h
+++ b/src/AlignmentTraversor.h
@@ -26,6 +26,7 @@ class AlignmentTraversor {
   wer_alignment &root;
   int currentPosInRoot = -1;
   int currentPosInSubclass;
+  size_t nextSubclass = 0;
   wer_alignment *currentSubclass;
 };
 
diff --git a/src/utilities.cpp b/src/utilities.cpp
index 2bbc1c6..d614ce5 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -146,16 +146,16 @@ unordered_set<string> get_bigrams(wer_alignment &topAlignment) {
 
   // Create a list of all tokens, flattening entity tokens
   vector<pair<string, string>> flattened_tokens;
+  size_t next_label = 0;
   for (auto &tokens : topAlignment.tokens) {
     // handle entity labels
     if (isEntityLabel(tokens.first)) {
       auto class_label = tokens.first;
 
-      for (auto &label_alignment : topAlignment.label_alignments) {
-        if (label_alignment.classLabel == class_label) {
-          for (auto &labelTokens : label_alignment.tokens) {
-            flattened_tokens.push_back(labelTokens);
-          }
+      wer_alignment *label_alignment = topAlignment.NextLabelAlignment(class_label, next_label);
+      if (label_alignment != nullptr) {
+        for (auto &labelTokens : label_alignment->tokens) {
+          flattened_tokens.push_back(labelTokens);
         }
       }
     } else {
diff --git a/src/utilities.h b/src/utilities.h
index ec50694..97c4e76 100644
--- a/src/utilities.h
+++ b/src/utilities.h
@@ -93,6 +93,17 @@ struct wer_alignment {
   vector<pair<string, string>> tokens;
   vector<wer_alignment> label_alignments;
   int NumErrors() { return insertions + substitutions + deletions; }
+  /* the alignment under the next occurrence of a label, from an index in label_alignments on that is moved past it:
+     the parts of an entity that is interrupted share one label */
+  wer_alignment *NextLabelAlignment(const string &label, size_t &from) {
+    for (size_t i = from; i < label_alignments.size(); i++) {
+      if (label_alignments[i].classLabel == label) {
+        from = i + 1;
+        return &label_alignments[i];
+      }
+    }
+    return nullptr;
+  }
   /* can return infinity if numWordsInReference == 0 and numWordsInHypothesis > 0 */
   float WER() const {
     if (numWordsInReference > 0) {
@@ -113,6 +124,7 @@ struct wer_alignment {
     std::reverse(del_words.begin(), del_words.end());
     std::reverse(sub_words.begin(), sub_words.end());
     std::reverse(tokens.begin(), tokens.end());
+    std::reverse(label_alignments.begin(), label_alignments.end());
     for (auto &a : label_alignments) {
       a.Reverse();
     }
diff --git a/src/wer.cpp b/src/wer.cpp
index f4aef13..ec06fb0 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -158,6 +158,7 @@ void RecordSpeakerWer(const vector<Stitching> &stitches) {
 
 void UpdateHypCorrectAndAllwords(wer_alignment &topAlignment, map<string, uint64_t> &hyp_words_counts,
                                  map<string, uint64_t> &correct_words_counts, set<string> &all_words) {
+  size_t next_label = 0;
   for (auto &tokens : topAlignment.tokens) {
     bool bigram_valid = isValidNgram(tokens.second);
     if ((tokens.first == tokens.second) && bigram_valid) {
@@ -174,11 +175,9 @@ void UpdateHypCorrectAndAllwords(wer_alignment &topAlignment, map<string, uint64
     if (isEntityLabel(tokens.first)) {
       auto class_label = tokens.first;
 
-      for (auto &label_alignment : topAlignment.label_alignments) {
-        if (label_alignment.classLabel == class_label) {
-          UpdateHypCorrectAndAllwords(label_alignment, hyp_words_counts, correct_words_counts, all_words);
-          break;
-        }
+      wer_alignment *label_alignment = topAlignment.NextLabelAlignment(class_label, next_label);
+      if (label_alignment != nullptr) {
+        UpdateHypCorrectAndAllwords(*label_alignment, hyp_words_counts, correct_words_counts, all_words);
       }
     }
   }
-- 
2.43.0


From b6f3f13e74071ad748b9d55281549594e00a78db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:20 +0000
Subject: [PATCH 30/31] fix: skip synonym rules without a left-hand side

ApplyToFst looks at the first word of every rule, a rule without one made it read past the end of
an empty vector.
---
 src/SynonymEngine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index 95419cc..0190749 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -88,6 +88,11 @@ void SynonymEngine::ParseStrings(vector<string> lines) {
 
     trim(lhs);
     auto key = GetKeyFromString(lhs);
+    if (key.empty()) {
+      // there is no word to match, and ApplyToFst looks at the first one
+      logger_->warn("strangly formatted line, skipping: {}", line);
+      continue;
+    }
 
     if (synonyms.find(key) == synonyms.end()) {
       // new entry
-- 
2.43.0


From e9c86a5715838557b3b6663240ed288622ef4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:20 +0000
Subject: [PATCH 31/31] fix: let a synonym not forbid deleting the words it
 replaces

With the approximate pass requiring a later match, entering a synonym that fits could be the only
way left, and lead to a dead end: the run then stopped with 'no alignment produced'.
---
 src/AdaptedComposition.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index 100631f..dc86b22 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -284,7 +284,11 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
       if (is_exit_state || !is_synonym || IsEntityReacheable(arcA.olabel, arcA.nextstate, refB)) {
         // we have an arc like __SYN-1__ or __MONEY-1__
         num_entity++;
-        num_match++;
+        if (!is_synonym) {
+          // a synonym is only one way to go on, it must not forbid deleting the words it
+          // replaces: when the approximate pass requires a later match, that may be the only way
+          num_match++;
+        }
         // let's keep the weight to 0, this isn't an error
         StateId del_state_ref_id = GetOrCreateComposedState(arcA.nextstate, refB);
         out_vector->push_back(StdArc(arcA.ilabel, del_label_id_, 0.0, del_state_ref_id));
-- 
2.43.0

