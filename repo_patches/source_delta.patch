From 6cc28d3b09f66acbf5c3f424a50d81fddcd9722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 01/57] fix: operator!= on hashes is the negation of operator==

---
 pwned-lib/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/hash.hpp b/pwned-lib/hash.hpp
index f391232..b1b3da8 100755
--- a/pwned-lib/hash.hpp
+++ b/pwned-lib/hash.hpp
@@ -96,7 +96,7 @@ inline bool operator==(const Hash &lhs, const Hash &rhs)
 
 inline bool operator!=(const Hash &lhs, const Hash &rhs)
 {
-  return lhs.quad.upper != rhs.quad.upper || lhs.quad.lower != rhs.quad.lower ||  lhs.isValid == rhs.isValid;
+  return lhs.quad.upper != rhs.quad.upper || lhs.quad.lower != rhs.quad.lower || lhs.isValid != rhs.isValid;
 }
 
 inline bool operator<(const Hash &lhs, const Hash &rhs)
-- 
2.43.0


From 7e5335413f76159582a4f74576aff38e0a969cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 02/57] fix: a positioned read is not affected by an earlier
 failed read

---
 pwned-lib/hash.hpp                 | 1 +
 pwned-lib/passwordhashandcount.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pwned-lib/hash.hpp b/pwned-lib/hash.hpp
index b1b3da8..12e583c 100755
--- a/pwned-lib/hash.hpp
+++ b/pwned-lib/hash.hpp
@@ -73,6 +73,7 @@ struct Hash
 
   inline bool read(std::istream &f, std::streamoff pos)
   {
+    f.clear();
     f.seekg(pos);
     return read(f);
   }
diff --git a/pwned-lib/passwordhashandcount.hpp b/pwned-lib/passwordhashandcount.hpp
index c385a70..15c7507 100755
--- a/pwned-lib/passwordhashandcount.hpp
+++ b/pwned-lib/passwordhashandcount.hpp
@@ -51,6 +51,7 @@ public:
 
   inline bool read(std::istream &f, std::streamoff pos)
   {
+    f.clear();
     f.seekg(pos);
     return read(f);
   }
-- 
2.43.0


From e7f8cc3da5d7f08e6a20238ba8b8fae6ab793d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 03/57] fix: empty index buckets at either end no longer hang a
 lookup

---
 pwned-lib/passwordinspector.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 4951469..238f3a7 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -88,16 +88,25 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
     const std::streamoff idx = (std::streamoff)(hashMSB * sizeof(index_key_t));
     std::streamoff loIdx = idx;
     do {
+      mIndexFile.clear();
       mIndexFile.seekg(loIdx);
       mIndexFile.read(reinterpret_cast<char*>(&lo), sizeof(index_key_t));
       ++nReads;
       loIdx -= sizeof(index_key_t);
     }
-    while (lo == int64_t(std::numeric_limits<index_key_t>::max()));
+    while (lo == int64_t(std::numeric_limits<index_key_t>::max()) && loIdx >= 0);
+    if (lo == int64_t(std::numeric_limits<index_key_t>::max()))
+    {
+      lo = 0; // all buckets up to this one are empty
+    }
     std::streamoff hiIdx = idx + (std::streamoff)sizeof(index_key_t);
     do {
+      mIndexFile.clear();
       mIndexFile.seekg(hiIdx);
-      mIndexFile.read(reinterpret_cast<char*>(&hi), sizeof(index_key_t));
+      if (!mIndexFile.read(reinterpret_cast<char*>(&hi), sizeof(index_key_t)))
+      {
+        hi = mFileSize; // all buckets above this one are empty
+      }
       ++nReads;
       hiIdx += sizeof(index_key_t);
     }
-- 
2.43.0


From e333c7692de07853357cb3cd8ff49552a5863fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 04/57] fix: a database or index that cannot be opened is
 reported, not searched

---
 pwned-lib/passwordinspector.cpp       | 11 +++++++++--
 pwned-lookup-cli/pwned-lookup-cli.cpp | 15 ++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 238f3a7..783c1e4 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -19,6 +19,7 @@
 #include <algorithm>
 #include <limits>
 #include <cmath>
+#include <stdexcept>
 
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wconversion"
@@ -44,12 +45,18 @@ inline void safe_assign(T *a, T b)
 
 PasswordInspector::PasswordInspector(const std::string &inputFilename)
 {
-  open(inputFilename);
+  if (!open(inputFilename))
+  {
+    throw std::runtime_error("Cannot open '" + inputFilename + "'");
+  }
 }
 
 PasswordInspector::PasswordInspector(const std::string &inputFilename, const std::string &indexFilename)
 {
-  open(inputFilename, indexFilename);
+  if (!open(inputFilename, indexFilename))
+  {
+    throw std::runtime_error("Cannot open '" + inputFilename + "' or its index '" + indexFilename + "'");
+  }
 }
 
 bool PasswordInspector::open(const std::string &filename)
diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 5727bed..f1380ff 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -60,7 +60,7 @@ void usage()
   std::cout << desc << std::endl;
 }
 
-int main(int argc, const char *argv[])
+int run(int argc, const char *argv[])
 {
   std::string inputFilename;
   std::string indexFilename;
@@ -115,3 +115,16 @@ int main(int argc, const char *argv[])
   }
   return EXIT_SUCCESS;
 }
+
+int main(int argc, const char *argv[])
+{
+  try
+  {
+    return run(argc, argv);
+  }
+  catch (const std::exception &e)
+  {
+    std::cerr << "ERROR: " << e.what() << std::endl;
+  }
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From 17a414b6d42916e46a38d9edb46da49c450f9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 05/57] fix: the lookup prompt ends at the end of its input

---
 pwned-lookup-cli/pwned-lookup-cli.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index f1380ff..2249311 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -96,6 +96,10 @@ int run(int argc, const char *argv[])
     pwned::setStdinEcho(false);
     std::cin >> pwd;
     pwned::setStdinEcho(true);
+    if (!std::cin)
+    {
+      break;
+    }
     const pwned::Hash soughtHash(pwd);
     std::cout << "MD5 hash " << soughtHash << std::endl;
     const auto &t0 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 95701229626d17424bd6cb7ccf9c5ea24345196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 06/57] fix: --help, --warranty and --license work wherever
 they are advertised

---
 .../pwned-markov-generator.cpp                    | 11 +++++++++++
 pwned-lookup-cli/pwned-lookup-cli.cpp             | 15 +++++++++++++++
 pwned-server/loadtest/loadtest.cpp                | 10 ++++++++++
 pwned-server/pwned-server.cpp                     | 10 ++++++++++
 4 files changed, 46 insertions(+)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 51594f1..8532566 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -117,6 +117,17 @@ int main(int argc, char* argv[])
     return EXIT_SUCCESS;
   }
 
+  if (vm.count("warranty") > 0)
+  {
+    warranty();
+    return EXIT_SUCCESS;
+  }
+  if (vm.count("license") > 0)
+  {
+    license();
+    return EXIT_SUCCESS;
+  }
+
   if (inputFilename.empty())
   {
     std::cerr << "ERROR: input file not given." << std::endl;
diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 2249311..d216977 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -82,6 +82,21 @@ int run(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
   po::notify(vm);
+  if (vm.count("help"))
+  {
+    usage();
+    return EXIT_SUCCESS;
+  }
+  if (vm.count("warranty"))
+  {
+    warranty();
+    return EXIT_SUCCESS;
+  }
+  if (vm.count("license"))
+  {
+    license();
+    return EXIT_SUCCESS;
+  }
   if (inputFilename.empty())
   {
     std::cerr << "ERROR: input file not given." << std::endl;
diff --git a/pwned-server/loadtest/loadtest.cpp b/pwned-server/loadtest/loadtest.cpp
index c9f266b..5f6b319 100644
--- a/pwned-server/loadtest/loadtest.cpp
+++ b/pwned-server/loadtest/loadtest.cpp
@@ -134,6 +134,16 @@ int main(int argc, const char *argv[])
     usage();
     return EXIT_SUCCESS;
   }
+  if (vm.count("warranty") > 0)
+  {
+    warranty();
+    return EXIT_SUCCESS;
+  }
+  if (vm.count("license") > 0)
+  {
+    license();
+    return EXIT_SUCCESS;
+  }
   if (inputFilename.empty())
   {
     std::cerr << "ERROR: input file not given." << std::endl;
diff --git a/pwned-server/pwned-server.cpp b/pwned-server/pwned-server.cpp
index 60e6413..a800db1 100644
--- a/pwned-server/pwned-server.cpp
+++ b/pwned-server/pwned-server.cpp
@@ -127,6 +127,16 @@ int main(int argc, const char *argv[])
     usage();
     return EXIT_SUCCESS;
   }
+  if (vm.count("warranty") > 0)
+  {
+    warranty();
+    return EXIT_SUCCESS;
+  }
+  if (vm.count("license") > 0)
+  {
+    license();
+    return EXIT_SUCCESS;
+  }
 
   if (inputFilename.empty())
   {
-- 
2.43.0


From 39664010f3e5619afa072205b5c3e737ed117fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 07/57] fix: a command line that cannot be parsed ends the tool
 with an error status

---
 extras/pwned-benchmark/benchmark.cpp                         | 1 +
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 1 +
 extras/pwned-test-set-extractor/test-set-extractor.cpp       | 1 +
 pwned-converter-cli/pwned-converter-cli.cpp                  | 1 +
 pwned-index/index.cpp                                        | 1 +
 5 files changed, 5 insertions(+)

diff --git a/extras/pwned-benchmark/benchmark.cpp b/extras/pwned-benchmark/benchmark.cpp
index 38fce48..6dbeec9 100755
--- a/extras/pwned-benchmark/benchmark.cpp
+++ b/extras/pwned-benchmark/benchmark.cpp
@@ -267,6 +267,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 1969d9f..ecf9ba8 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -102,6 +102,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index ef34f0c..f79f2f9 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -96,6 +96,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index e41064e..f16015b 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -108,6 +108,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help") > 0)
diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index e40e8bf..0679ffb 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -89,6 +89,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
-- 
2.43.0


From d10a3dd5004aa718ee5e442a5912f1bfd9199214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 08/57] fix: the converter's --input and --threads options take
 effect

---
 pwned-converter-cli/pwned-converter-cli.cpp | 4 ++--
 pwned-lib/operationqueue.hpp                | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index f16015b..1643e8d 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -88,7 +88,7 @@ int main(int argc, const char *argv[])
   bool autoHex;
   unsigned int numThreads;
   desc.add_options()("help", "produce help message")
-  ("input,I", po::value<std::vector<std::string>>(), "set user:pass input file(s)")
+  ("input,I", po::value<std::vector<std::string>>(&filenames), "set user:pass input file(s)")
   ("src,S", po::value<std::string>(&srcDirectory), "set user:pass input directory")
   ("dst,D", po::value<std::string>(&dstDirectory), "set user:pass output directory")
   ("ext", po::value<std::string>(&outputExt)->default_value(DefaultOutputExt), "set extension for output files")
@@ -166,7 +166,7 @@ int main(int argc, const char *argv[])
             << std::endl;
   auto t0 = std::chrono::high_resolution_clock::now();
   std::cout << "Preparing queue ..." << std::endl;
-  pwned::OperationQueue<ConvertOperation> opQueue;
+  pwned::OperationQueue<ConvertOperation> opQueue(0, numThreads);
   for (const auto &filename : filenames)
   {
     ConvertOperation *op = new ConvertOperation(filename,
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index d85d409..af35664 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -55,15 +55,16 @@ class OperationQueue
   std::thread exeThread;
   mutable std::mutex mtx;
   std::mutex pauseMtx;
-  Semaphore guard{std::thread::hardware_concurrency()};
+  Semaphore guard;
   int threadPriority;
   bool _isRunning{false};
   bool _isCancelled{false};
   std::condition_variable pauseCondition;
 
 public:
-  explicit OperationQueue(int threadPriority = 0)
-      : threadPriority(threadPriority)
+  explicit OperationQueue(int threadPriority = 0, unsigned int maxThreads = std::thread::hardware_concurrency())
+      : guard(maxThreads > 0 ? maxThreads : 1U)
+      , threadPriority(threadPriority)
   {
   }
 
-- 
2.43.0


From c4de74b8b69bd72113ac112272d41c9acfd81318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 09/57] fix: pwned-index checks its width, its files and every
 record it reads

---
 pwned-index/index.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index 0679ffb..e1e6c03 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -121,22 +121,36 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  if (bits < 1 || bits > sizeof(pwned::index_key_t) * 8 - 1)
+  {
+    std::cerr << "ERROR: bit count of index key must be in the range 1 to " << (sizeof(pwned::index_key_t) * 8 - 1) << "." << std::endl;
+    return EXIT_FAILURE;
+  }
   const unsigned int shift = (unsigned int)(sizeof(pwned::index_key_t) * 8 - bits);
   const pwned::index_key_t maxIdx = pwned::index_key_t(1) + (std::numeric_limits<pwned::index_key_t>::max() >> shift);
 
   std::cout << "Scanning ..." << std::endl;
   std::ifstream input(inputFilename, std::ios::binary);
+  if (!input.is_open())
+  {
+    std::cerr << "ERROR: Cannot open '" << inputFilename << "' for reading." << std::endl;
+    return EXIT_FAILURE;
+  }
   pwned::PasswordHashAndCount phc;
   pwned::index_key_t *indexes = new pwned::index_key_t[maxIdx];
   memset(indexes, 0xff, maxIdx * sizeof(pwned::index_key_t));
-  phc.read(input);
+  if (!phc.read(input))
+  {
+    std::cerr << "ERROR: '" << inputFilename << "' contains no record." << std::endl;
+    delete[] indexes;
+    return EXIT_FAILURE;
+  }
   pwned::index_key_t lastIdx = pwned::index_key_t(phc.hash.quad.upper >> shift);
   *(indexes + lastIdx) = 0;
-  pwned::index_key_t idx = 0;
+  pwned::index_key_t idx = lastIdx;
   uint64_t pos = 0;
-  while (!input.eof())
+  while (phc.read(input))
   {
-    phc.read(input);
     idx = pwned::index_key_t(phc.hash.quad.upper >> shift);
     if (idx > lastIdx)
     {
@@ -146,12 +160,17 @@ int main(int argc, const char *argv[])
       lastIdx = idx;
     }
   }
-  *(indexes + idx) = pos;
   input.close();
 
   std::cout << std::endl
             << "Writing ... " << std::flush;
   std::ofstream output(outputFilename, std::ios::trunc | std::ios::binary);
+  if (!output.is_open())
+  {
+    std::cerr << "ERROR: Cannot open '" << outputFilename << "' for writing." << std::endl;
+    delete[] indexes;
+    return EXIT_FAILURE;
+  }
   output.write((const char *)indexes, std::streamsize(maxIdx * sizeof(pwned::index_key_t)));
   output.close();
   delete[] indexes;
-- 
2.43.0


From c01e5e3cdcbac1ce331168eaa81d1092cfdc0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 10/57] fix: a reader whose stream failed is at its end

---
 pwned-lib/userpasswordreader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index 4de23fc..6475283 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -40,7 +40,7 @@ UserPasswordReader::UserPasswordReader(std::istream &inputStream, const std::vec
 
 bool UserPasswordReader::eof() const
 {
-  return input.eof();
+  return input.eof() || input.fail();
 }
 
 bool UserPasswordReader::bad() const
-- 
2.43.0


From 7a301de035339fba3a20805f788fe77be235eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 11/57] fix: the format probes do not run regular expressions
 on overlong lines

---
 pwned-lib/userpasswordreader.cpp | 6 +++---
 pwned-lib/userpasswordreader.hpp | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index 6475283..5c45f2f 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -94,7 +94,7 @@ bool UserPasswordReader::checkForMD5Hashes()
       line.erase(std::remove(line.begin(), line.end(), '\r'), line.end());
       if (line.find(guessedSeparator) != std::string::npos)
       {
-        if (std::regex_search(line, MD5Regex))
+        if (line.size() <= maxLineLength && std::regex_search(line, MD5Regex))
         {
           forceEvaluateMD5Hashes = true;
           break;
@@ -119,7 +119,7 @@ bool UserPasswordReader::checkForHexEncodedPasswords()
       std::getline(input, line);
       if (line.find(guessedSeparator) != std::string::npos)
       {
-        if (std::regex_search(line, HexRegex))
+        if (line.size() <= maxLineLength && std::regex_search(line, HexRegex))
         {
           forceEvaluateHexEncodedPasswords = true;
           break;
@@ -159,7 +159,7 @@ std::string UserPasswordReader::nextPassword()
     return std::string();
   std::getline(input, currentLine);
   ++lineNo;
-  if (currentLine.size() > 200 || currentLine.size() < 1) // assume no user:pass line is longer than 200 characters
+  if (currentLine.size() > maxLineLength || currentLine.size() < 1) // assume no user:pass line is longer than 200 characters
     return std::string();
   return extractPassword(currentLine);
 }
diff --git a/pwned-lib/userpasswordreader.hpp b/pwned-lib/userpasswordreader.hpp
index aed54a2..6bb1ec8 100755
--- a/pwned-lib/userpasswordreader.hpp
+++ b/pwned-lib/userpasswordreader.hpp
@@ -54,6 +54,7 @@ protected:
 
 private:
   static const int nTries{500};
+  static constexpr std::size_t maxLineLength{200};
   uint64_t validEntries{0};
   uint64_t lineNo{0};
   char guessedSeparator{'\0'};
-- 
2.43.0


From c84210f5b757eb1cc3c2e4eec75dc51969f52fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 12/57] fix: a $HEX[...] text that is no valid encoding is
 hashed as it stands

---
 pwned-lib/userpasswordreader.cpp | 6 ++++--
 pwned-lib/util.cpp               | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index 5c45f2f..8ee5cd8 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -186,8 +186,10 @@ Hash UserPasswordReader::nextPasswordHash()
       if (std::regex_match(pwd, match, HexRegex))
       {
         std::string dehexed;
-        hexToCharSeq(match[1], dehexed);
-        hash = Hash(dehexed);
+        if (hexToCharSeq(match[1], dehexed))
+        {
+          hash = Hash(dehexed);
+        }
       }
     }
     if (!hash.isValid)
diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 1b3f0b5..33d403b 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -260,8 +260,9 @@ bool hexToCharSeq(const std::string &seq, std::string &result)
         return false;
       }
     }
+    return true;
   }
-  return true;
+  return false;
 }
 
 unsigned int popcnt64(uint64_t x)
-- 
2.43.0


From f22f3917e9935f37ee76ddd8ab26da5466f1adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 13/57] fix: the converter reports a file it cannot open

---
 pwned-converter-cli/convertoperation.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 7213788..6b2f842 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -17,6 +17,7 @@
 
 #include <iostream>
 #include <map>
+#include <mutex>
 
 #include <boost/filesystem.hpp>
 
@@ -28,6 +29,12 @@
 
 namespace fs = boost::filesystem;
 
+enum ConvertError
+{
+  cannotReadFile,
+  cannotWriteFile
+};
+
 class ConvertOperationPrivate
 {
 public:
@@ -79,6 +86,10 @@ void ConvertOperation::execute() noexcept(false)
            << std::endl;
     std::cout << output.str();
   }
+  if (!d->inputFile.is_open())
+  {
+    throw pwned::OperationException("Cannot open '" + d->srcFilePath.string() + "' for reading", cannotReadFile);
+  }
   pwned::UserPasswordReader reader(d->inputFile, d->options);
   static const uint64_t estimatedMemoryOverheadPerEntry = sizeof(uintptr_t);
   static const uint64_t memUsagePerEntry = sizeof(pwned::Hash) + sizeof(uint32_t) + sizeof(pwned::PasswordHashAndCount) + estimatedMemoryOverheadPerEntry;
@@ -160,14 +171,15 @@ void ConvertOperation::execute() noexcept(false)
       std::cout << output.str();
     }
     std::ofstream f(dstFilePath.string(), std::ios::binary);
-    if (f.is_open())
+    if (!f.is_open())
     {
-      for (const auto &phc : passwordList)
-      {
-        phc.dump(f);
-      }
-      f.close();
+      throw pwned::OperationException("Cannot open '" + dstFilePath.string() + "' for writing", cannotWriteFile);
+    }
+    for (const auto &phc : passwordList)
+    {
+      phc.dump(f);
     }
+    f.close();
     if (isPaused)
     {
       queue->operationWait();
-- 
2.43.0


From ad7236b46889c1afadf366a78f197d9d32ee3f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 14/57] fix: no two conversions choose the same output file

---
 pwned-converter-cli/convertoperation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 6b2f842..35526b4 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -35,6 +35,8 @@ enum ConvertError
   cannotWriteFile
 };
 
+static std::mutex outputMtx;
+
 class ConvertOperationPrivate
 {
 public:
@@ -158,9 +160,10 @@ void ConvertOperation::execute() noexcept(false)
       return (d->dstPath / (srcFilename.string() + pwned::string_format("-%04x", splitFileNum))).string();
     };
 
+    std::unique_lock<std::mutex> outputLock(outputMtx); // keep others from choosing the same file until it exists
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
     int n = splitFileNum;
-    while (fs::exists(dstFilePath) && n < 10000)
+    while (fs::exists(dstFilePath))
     {
       dstFilePath = generatedOutputFilename() + pwned::string_format("-%04x", n) + d->outputExt.string();
       ++n;
@@ -171,6 +174,7 @@ void ConvertOperation::execute() noexcept(false)
       std::cout << output.str();
     }
     std::ofstream f(dstFilePath.string(), std::ios::binary);
+    outputLock.unlock();
     if (!f.is_open())
     {
       throw pwned::OperationException("Cannot open '" + dstFilePath.string() + "' for writing", cannotWriteFile);
-- 
2.43.0


From 25dcf78ad55f41257ae8fdce32a48fe4ab5bd635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 15/57] fix: a cancelled conversion stops counting at once

---
 pwned-converter-cli/convertoperation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 35526b4..5158fc4 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -101,7 +101,7 @@ void ConvertOperation::execute() noexcept(false)
     uint64_t memUsage = 0;
     ++splitFileNum;
     std::map<pwned::Hash, uint32_t, pwned::HashLess> passwordCountSet;
-    while (!reader.eof() && !reader.bad() && memUsage < d->maxMem)
+    while (!reader.eof() && !reader.bad() && !isCancelled && memUsage < d->maxMem)
     {
       const pwned::Hash &hash = reader.nextPasswordHash();
       if (hash.isValid)
-- 
2.43.0


From 4d1afe0f2c699650ff0c0520283d1e2b771ee20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 16/57] fix: a conversion makes progress whatever memory limit
 is given

---
 pwned-converter-cli/convertoperation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 5158fc4..d2dc142 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -48,7 +48,7 @@ public:
       : srcFilePath(srcFilename)
       , dstPath(dstDirectory)
       , outputExt(outputExt)
-      , maxMem(maxMem)
+      , maxMem(maxMem > 0 ? maxMem : 1)
       , options(options)
   {
     inputFile.open(srcFilename, std::ios::binary);
-- 
2.43.0


From 873dc708c2f8c93f0199a3cff4438b48240e742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 17/57] fix: the key threads end at the end of their input

---
 pwned-converter-cli/pwned-converter-cli.cpp | 6 +++---
 pwned-merger-cli/pwned-merger-cli.cpp       | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index 1643e8d..4dad278 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -179,10 +179,10 @@ int main(int argc, const char *argv[])
   pwned::TermIO termIO;
   std::thread keyThread = pwned::runAsync([&opQueue, &termIO] {
     termIO.disableEcho();
-    char ch;
+    int ch;
     do
     {
-      ch = char(getchar());
+      ch = getchar();
       switch (ch)
       {
       case ' ':
@@ -205,7 +205,7 @@ int main(int argc, const char *argv[])
       default:
         break;
       }
-    } while (ch != 'q');
+    } while (ch != 'q' && ch != EOF);
   },
                                           0);
   keyThread.detach();
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 9d221cd..8898e82 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -179,10 +179,10 @@ int main(int argc, const char *argv[])
   ProgressBar progressBar(32);
   pwned::OperationQueue<merger::MergeOperation> opQueue;
   std::thread keyThread = pwned::runAsync([&opQueue] {
-    char ch;
+    int ch;
     do
     {
-      ch = char(getchar());
+      ch = getchar();
       switch (ch)
       {
       case 'p':
@@ -202,7 +202,7 @@ int main(int argc, const char *argv[])
       default:
         break;
       }
-    } while (ch != 'q');
+    } while (ch != 'q' && ch != EOF);
   },
                                           0);
   keyThread.detach();
-- 
2.43.0


From 2c2a1f23517e9a961ebaacf1fbac729a585805a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 18/57] fix: waiting for an operation ends when it has ended or
 never started

---
 pwned-lib/operation.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 8b2af05..3cb324e 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -72,15 +72,18 @@ void Operation::start() noexcept
   {
     std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
   }
-  isRunning = false;
-  isFinished = true;
-  finishedCondition.notify_one();
+  {
+    std::lock_guard<std::mutex> lock(mtx);
+    isRunning = false;
+    isFinished = true;
+  }
+  finishedCondition.notify_all();
 }
 
 void Operation::waitForFinished()
 {
   std::unique_lock<std::mutex> lock(mtx);
-  finishedCondition.wait(lock);
+  finishedCondition.wait(lock, [this] { return !isRunning; });
 }
 
 void Operation::cancel()
-- 
2.43.0


From 90bc566b25b5591acc3982a72da5dde5cda06ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 19/57] fix: a failed operation makes the converter end with an
 error status

---
 pwned-converter-cli/pwned-converter-cli.cpp |  2 +-
 pwned-lib/operation.cpp                     | 11 +++++++++++
 pwned-lib/operation.hpp                     |  7 +++++++
 pwned-lib/operationqueue.hpp                | 11 +++++++++++
 4 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index 4dad278..c1c2b63 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -220,5 +220,5 @@ int main(int argc, const char *argv[])
     std::cout << "Total time: " << pwned::readableTime(time_span.count()) << std::endl
               << std::endl;
   }
-  return EXIT_SUCCESS;
+  return opQueue.hasFailed() ? EXIT_FAILURE : EXIT_SUCCESS;
 }
diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 3cb324e..4d28f05 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -71,6 +71,12 @@ void Operation::start() noexcept
   catch (OperationException &e)
   {
     std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
+    isFailed = true;
+  }
+  catch (const std::exception &e)
+  {
+    std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
+    isFailed = true;
   }
   {
     std::lock_guard<std::mutex> lock(mtx);
@@ -80,6 +86,11 @@ void Operation::start() noexcept
   finishedCondition.notify_all();
 }
 
+bool Operation::hasFailed() const noexcept
+{
+  return isFailed;
+}
+
 void Operation::waitForFinished()
 {
   std::unique_lock<std::mutex> lock(mtx);
diff --git a/pwned-lib/operation.hpp b/pwned-lib/operation.hpp
index e318343..0886fde 100755
--- a/pwned-lib/operation.hpp
+++ b/pwned-lib/operation.hpp
@@ -39,6 +39,7 @@ protected:
   std::atomic<bool> isRunning{false};
   std::atomic<bool> isFinished{false};
   std::atomic<bool> isCancelled{false};
+  std::atomic<bool> isFailed{false};
   std::atomic<bool> isPaused{false};
   std::mutex mtx;
   std::condition_variable finishedCondition;
@@ -67,6 +68,12 @@ public:
          */
   virtual void start() noexcept;
 
+  /**
+         * Description: Tells whether `execute()` ended with an exception.
+         * Parameters: none
+         */
+  bool hasFailed() const noexcept;
+
   /**
          * Description: Signals the operation by setting `isCancelled` to `true`, then waits for all operations (pending and scheduled) to finish by calling `waitForFinished()`.
          * Parameters: none
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index af35664..2921a24 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -18,6 +18,7 @@
 #ifndef __operationqueue_hpp__
 #define __operationqueue_hpp__
 
+#include <atomic>
 #include <thread>
 #include <pthread.h>
 #include <mutex>
@@ -59,6 +60,7 @@ class OperationQueue
   int threadPriority;
   bool _isRunning{false};
   bool _isCancelled{false};
+  std::atomic<bool> _hasFailed{false};
   std::condition_variable pauseCondition;
 
 public:
@@ -92,6 +94,11 @@ public:
     return _isCancelled;
   }
 
+  inline bool hasFailed() const
+  {
+    return _hasFailed;
+  }
+
   void operationWait()
   {
     //std::cout << "operationWait()" << std::endl;
@@ -155,6 +162,10 @@ public:
   {
     std::lock_guard<std::mutex> lock(mtx);
     runningOps.remove(op);
+    if (op->hasFailed())
+    {
+      _hasFailed = true;
+    }
     delete op;
   }
 
-- 
2.43.0


From 6f7896957cc493df3cc0e964ee4f5c6e10263bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 20/57] fix: pausing, resuming and cancelling cannot race or
 lose a wake-up

---
 pwned-lib/operationqueue.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index 2921a24..7e8c58f 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -58,11 +58,21 @@ class OperationQueue
   std::mutex pauseMtx;
   Semaphore guard;
   int threadPriority;
-  bool _isRunning{false};
-  bool _isCancelled{false};
+  std::atomic<bool> _isRunning{false};
+  std::atomic<bool> _isCancelled{false};
+  bool _isPaused{false}; // guarded by pauseMtx
   std::atomic<bool> _hasFailed{false};
   std::condition_variable pauseCondition;
 
+  void setPaused(bool paused)
+  {
+    {
+      std::lock_guard<std::mutex> lock(pauseMtx);
+      _isPaused = paused;
+    }
+    pauseCondition.notify_all();
+  }
+
 public:
   explicit OperationQueue(int threadPriority = 0, unsigned int maxThreads = std::thread::hardware_concurrency())
       : guard(maxThreads > 0 ? maxThreads : 1U)
@@ -103,33 +113,35 @@ public:
   {
     //std::cout << "operationWait()" << std::endl;
     std::unique_lock<std::mutex> lock(pauseMtx);
-    pauseCondition.wait(lock);
+    pauseCondition.wait(lock, [this] { return !_isPaused; });
     //std::cout << "operationWait() resuming ... " << std::endl;
   }
 
   void pause()
   {
+    std::lock_guard<std::mutex> lock(mtx);
     if (_isCancelled)
       return;
     if (_isRunning)
     {
+      setPaused(true);
       for (Operation *op : runningOps)
       {
         op->pause();
       }
-      std::lock_guard<std::mutex> lock(mtx);
       _isRunning = false;
     }
   }
 
   void resume()
   {
+    std::lock_guard<std::mutex> lock(mtx);
     if (_isCancelled)
       return;
     if (!_isRunning)
     {
       // std::cout << "OperationQueue::resume() notifying all ..." << std::endl;
-      pauseCondition.notify_all();
+      setPaused(false);
       _isRunning = true;
     }
   }
@@ -138,6 +150,7 @@ public:
   {
     std::lock_guard<std::mutex> lock(mtx);
     _isCancelled = true;
+    setPaused(false);
     for (Operation *op : runningOps)
     {
       op->cancel();
-- 
2.43.0


From 89d176ce609c017b5841581b8f300fa1b30b295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 21/57] fix: the queue takes its next operation under the lock

---
 pwned-lib/operationqueue.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index 7e8c58f..33357f7 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -188,13 +188,17 @@ public:
     int policy;
     int rc = pthread_getschedparam(pthread_self(), &policy, &param);
     int parentPriority = (rc == 0) ? param.sched_priority : 0;
+    _isRunning = true;
     exeThread = runAsync([this] {
-      while (!unscheduledOps.empty())
+      while (true)
       {
-        if (_isCancelled)
-          break;
         guard.wait();
-        mtx.lock();
+        std::lock_guard<std::mutex> lock(mtx);
+        if (_isCancelled || unscheduledOps.empty())
+        {
+          guard.notify();
+          break;
+        }
         T *const op = unscheduledOps.top();
         unscheduledOps.pop();
         runningOps.push_back(op);
@@ -204,11 +208,9 @@ public:
           guard.notify();
         },
                                      threadPriority));
-        mtx.unlock();
       }
     },
                          parentPriority);
-    _isRunning = true;
     if (_waitForScheduled)
     {
       waitForScheduled();
-- 
2.43.0


From 2b56a3c3ef06e90f1828d718bc8c7ddd9f52828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 22/57] fix: waiting for the queue does not hide that it was
 cancelled

---
 pwned-lib/operationqueue.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index 33357f7..20f9c5c 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -80,6 +80,15 @@ public:
   {
   }
 
+  ~OperationQueue()
+  {
+    while (!unscheduledOps.empty())
+    {
+      delete unscheduledOps.top();
+      unscheduledOps.pop();
+    }
+  }
+
   std::size_t size() const
   {
     std::lock_guard<std::mutex> lock(mtx);
@@ -89,8 +98,7 @@ public:
   void reset()
   {
     cancel();
-    opThreads.clear();
-    _isRunning = false;
+    waitForFinished();
     _isCancelled = false;
   }
 
@@ -219,16 +227,21 @@ public:
 
   void waitForScheduled()
   {
-    exeThread.join();
+    if (exeThread.joinable())
+    {
+      exeThread.join();
+    }
   }
 
   void waitForFinished()
   {
+    waitForScheduled();
     for (auto &thread : opThreads)
     {
       thread.join();
     }
-    reset();
+    opThreads.clear();
+    _isRunning = false;
   }
 };
 } // namespace pwned
-- 
2.43.0


From 407576fb306465e892dec92e71c7dda9d292e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 23/57] fix: the semaphore touches its capacity only under its
 lock

---
 pwned-lib/semaphore.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/semaphore.hpp b/pwned-lib/semaphore.hpp
index a18e255..3d369e1 100755
--- a/pwned-lib/semaphore.hpp
+++ b/pwned-lib/semaphore.hpp
@@ -28,7 +28,7 @@ namespace pwned
 
 class Semaphore
 {
-  std::mutex mtx;
+  mutable std::mutex mtx;
   std::condition_variable cv;
   unsigned int _capacity;
 
@@ -40,14 +40,17 @@ public:
 
   inline void setCapacity(unsigned int capacity)
   {
+    std::unique_lock<std::mutex> lock(mtx);
     if (capacity > 0)
     {
-      _capacity = capacity - _capacity;
+      _capacity = capacity;
+      cv.notify_all();
     }
   }
 
   inline unsigned int capacity() const
   {
+    std::unique_lock<std::mutex> lock(mtx);
     return _capacity;
   }
 
-- 
2.43.0


From 236350964a6a2b64f881697df535291be0e3c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 24/57] fix: the merger neither loses nor doubles a record

---
 pwned-merger-cli/mergeoperation.cpp | 35 +++++++++++++----------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index eb1887c..4e62fad 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -77,8 +77,15 @@ public:
     {
       MergerInput *mi = new MergerInput(file);
       mi->open();
-      pq.push(mi);
       sum += mi->inputSize.value();
+      if (mi->isValid)
+      {
+        pq.push(mi);
+      }
+      else
+      {
+        delete mi; // contains no record
+      }
     }
     totalEntries = sum / pwned::PasswordHashAndCount::size;
   }
@@ -110,10 +117,6 @@ void MergeOperation::execute() noexcept(false)
   if (isCancelled)
     return;
   auto t0 = std::chrono::high_resolution_clock::now();
-  if (d->pq.empty())
-  {
-    return;
-  }
   {
     std::ostringstream output;
     output << "Merging into " << d->dstFilePath.string()
@@ -128,13 +131,14 @@ void MergeOperation::execute() noexcept(false)
     throw pwned::OperationException(std::string("Cannot write to file: ") + std::strerror(errno), MergerError::cannotWriteToFile);
     return;
   }
-  pwned::PasswordHashAndCount current = d->pq.top()->phc;
+  const bool hasData = !d->pq.empty();
+  pwned::PasswordHashAndCount current = next();
   uint64_t updateAfterEntries = std::max<uint64_t>(d->totalEntries / 1000, 1);
-  while (!isCancelled)
+  while (hasData && !isCancelled)
   {
-    const pwned::PasswordHashAndCount &p = next();
     if (!d->pq.empty())
     {
+      const pwned::PasswordHashAndCount &p = next();
       if (d->progressed != nullptr && d->entriesProcessed % updateAfterEntries == 0)
       {
         (*d->progressed)(d->entriesProcessed);
@@ -178,27 +182,18 @@ pwned::PasswordHashAndCount MergeOperation::next()
   {
     MergerInput *mergerInput = d->pq.top();
     result = mergerInput->phc;
-    if (mergerInput->isValid)
+    d->pq.pop();
+    if (mergerInput->read())
     {
-      mergerInput->read();
-      if (mergerInput->isValid)
-      {
-        d->pq.pop();
-        d->pq.push(mergerInput);
-      }
+      d->pq.push(mergerInput);
     }
     else
     {
-      d->pq.pop();
       if (d->removeInputFilesAfterMerge)
       {
         mergerInput->deleteFile();
       }
       delete mergerInput;
-      if (d->pq.empty())
-      {
-        return pwned::PasswordHashAndCount();
-      }
     }
   }
   return result;
-- 
2.43.0


From 342647739baa7ab184954e8d8e00a75efd195cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 25/57] fix: a merge whose files cannot be opened fails visibly

---
 pwned-merger-cli/mergeoperation.cpp   | 10 ++++++++++
 pwned-merger-cli/pwned-merger-cli.cpp |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index 4e62fad..a6a219f 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -48,6 +48,7 @@ struct SmallestHashFirst
 enum MergerError
 {
   noData,
+  cannotReadFile,
   cannotWriteToFile,
   cancelled
 };
@@ -62,6 +63,7 @@ public:
   bool removeInputFilesAfterMerge;
   ProgressCallback *progressed;
   uint64_t totalEntries;
+  std::string unreadable; // path of an input file that could not be opened
 
   MergeOperationPrivate(const std::vector<InputFile> &srcFiles,
                         const std::string &dstFilename,
@@ -77,6 +79,10 @@ public:
     {
       MergerInput *mi = new MergerInput(file);
       mi->open();
+      if (!mi->f.is_open())
+      {
+        unreadable = mi->path.string();
+      }
       sum += mi->inputSize.value();
       if (mi->isValid)
       {
@@ -116,6 +122,10 @@ void MergeOperation::execute() noexcept(false)
 {
   if (isCancelled)
     return;
+  if (!d->unreadable.empty())
+  {
+    throw pwned::OperationException("Cannot open '" + d->unreadable + "' for reading", MergerError::cannotReadFile);
+  }
   auto t0 = std::chrono::high_resolution_clock::now();
   {
     std::ostringstream output;
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 8898e82..1eb415f 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -206,7 +206,7 @@ int main(int argc, const char *argv[])
   },
                                           0);
   keyThread.detach();
-  while (inputFiles.size() > 0 && !opQueue.isCancelled())
+  while (inputFiles.size() > 0 && !opQueue.isCancelled() && !opQueue.hasFailed())
   {
     const auto b = std::min(inputFiles.end(), inputFiles.begin() + maxFilesAtOnce);
     const std::vector<merger::InputFile> inputFileSlice(inputFiles.begin(), b);
@@ -229,7 +229,7 @@ int main(int argc, const char *argv[])
     opQueue.add(op);
     opQueue.execute(true);
     opQueue.waitForFinished();
-    if (!opQueue.isCancelled())
+    if (!opQueue.isCancelled() && !opQueue.hasFailed())
     {
       inputFiles = std::vector<merger::InputFile>(b, inputFiles.end());
       if (!isLastChunk)
@@ -249,5 +249,5 @@ int main(int argc, const char *argv[])
   {
     fs::remove(intermediateFile);
   }
-  return EXIT_SUCCESS;
+  return opQueue.hasFailed() ? EXIT_FAILURE : EXIT_SUCCESS;
 }
-- 
2.43.0


From 3af9927c9b447a241241ac933f2247ab519f65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 26/57] fix: an unanswered overwrite question counts as no

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 2 +-
 pwned-merger-cli/pwned-merger-cli.cpp                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index ecf9ba8..0b41a59 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -130,7 +130,7 @@ int main(int argc, const char *argv[])
   {
     std::cout << outputFilename << " already exists. Do you want to overwrite it?" << std::endl
               << "(y/n) " << std::flush;
-    char c;
+    char c = 'n';
     std::cin >> c;
     if (c != 'y')
     {
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 1eb415f..769359d 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -148,7 +148,7 @@ int main(int argc, const char *argv[])
   {
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
               << "Do you want to overwrite it? (y/n)" << std::endl;
-    char ch;
+    char ch = 'n';
     std::cin >> ch;
     if (ch != 'y')
     {
-- 
2.43.0


From 2db1d62ec6bf14ffb6cf30b1bfc29c6e0f298289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 27/57] fix: the merger refuses to overwrite its input and to
 merge one file at a time

---
 pwned-merger-cli/pwned-merger-cli.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 769359d..b53178b 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -144,8 +144,21 @@ int main(int argc, const char *argv[])
     usage();
     return EXIT_FAILURE;
   }
+  if (maxFilesAtOnce < 2)
+  {
+    std::cerr << "ERROR: at least 2 files must be merged at once." << std::endl;
+    return EXIT_FAILURE;
+  }
   if (fs::exists(dstFile))
   {
+    for (const auto &filename : filenames)
+    {
+      if (fs::exists(filename) && fs::equivalent(filename, dstFile))
+      {
+        std::cerr << "ERROR: the output file '" << dstFile << "' is one of the input files." << std::endl;
+        return EXIT_FAILURE;
+      }
+    }
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
               << "Do you want to overwrite it? (y/n)" << std::endl;
     char ch = 'n';
-- 
2.43.0


From dd0bf2efc3bada1fc331ca2ae52adf044a6824f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 28/57] fix: the progress bar does not divide by zero

---
 pwned-merger-cli/progressbar.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-merger-cli/progressbar.hpp b/pwned-merger-cli/progressbar.hpp
index f1804af..68408e9 100755
--- a/pwned-merger-cli/progressbar.hpp
+++ b/pwned-merger-cli/progressbar.hpp
@@ -61,6 +61,10 @@ public:
 
   void update(uint64_t value) override
   {
+    if (hi == 0)
+    {
+      return;
+    }
     std::cout << '\r' << begin;
     const int w = int(uint64_t(width) * value / hi);
     for (int i = 0; i < w; ++i)
-- 
2.43.0


From 3e45fc4869b85a492b1235ff0cf9a9c01fc8c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 29/57] fix: be2le converts each record once and reports files
 it cannot open

---
 deprecated/be2le/be2le.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 74b3e15..26ed968 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -32,15 +32,19 @@ int main(int argc, const char *argv[])
   const std::string &outputFilename = argv[2];
   std::ifstream in(inputFilename, std::ios::binary);
   std::ofstream out(outputFilename, std::ios::binary | std::ios::trunc);
+  if (!in.is_open() || !out.is_open())
+  {
+    std::cerr << "Cannot open '" << (in.is_open() ? outputFilename : inputFilename) << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << "Input file:  " << inputFilename << std::endl
             << "Output file: " << outputFilename << std::endl
             << "Converting to Little Endian ... " << std::flush;
   if (in.is_open() && out.is_open())
   {
     pwned::PasswordHashAndCount phc;
-    while (!in.eof())
+    while (phc.read(in))
     {
-      phc.read(in);
       phc.hash.toHostByteOrder();
       phc.dump(out);
     }
-- 
2.43.0


From b2b5aea58a511a7460c28c2bf9cf9b9e593ba6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 30/57] fix: loops over meminfo and .ready end when no line can
 be read

---
 .../pwned-password-extractor.cpp                 |  5 ++---
 pwned-lib/util.cpp                               |  5 ++---
 pwned-lib/util.hpp                               | 16 ++++++++--------
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 0b41a59..e02e656 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -184,10 +184,9 @@ int main(int argc, const char *argv[])
     std::ifstream readyFileIn(".ready");
     if (readyFileIn.is_open())
     {
-      while (!readyFileIn.eof())
+      std::string filename;
+      while (std::getline(readyFileIn, filename))
       {
-        std::string filename;
-        std::getline(readyFileIn, filename);
         alreadyProcessed[filename] = true;
       }
     }
diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 33d403b..ffc20db 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -109,10 +109,9 @@ int getMemoryStat(MemoryStat &memoryStat)
     {"VmallocUsed", &memoryStat.virt.used}
   };
   std::ifstream meminfo("/proc/meminfo");
-  while (!meminfo.eof())
+  std::string line;
+  while (std::getline(meminfo, line))
   {
-    std::string line;
-    std::getline(meminfo, line);
     for (const auto &m : memTable)
     {
       if (line.size() >= m.first.size() && std::equal(m.first.begin(), m.first.end(), line.begin()))
diff --git a/pwned-lib/util.hpp b/pwned-lib/util.hpp
index daa78b7..4942bd7 100755
--- a/pwned-lib/util.hpp
+++ b/pwned-lib/util.hpp
@@ -30,17 +30,17 @@ struct MemoryStat
 {
   struct
   {
-    uint64_t total;
-    uint64_t avail;
-    uint64_t used;
-    uint64_t app;
+    uint64_t total{0};
+    uint64_t avail{0};
+    uint64_t used{0};
+    uint64_t app{0};
   } virt;
   struct
   {
-    uint64_t total;
-    uint64_t avail;
-    uint64_t used;
-    uint64_t app;
+    uint64_t total{0};
+    uint64_t avail{0};
+    uint64_t used{0};
+    uint64_t app{0};
   } phys;
 };
 
-- 
2.43.0


From a061dbf24e80c19a8ea7744b17c39ce5e9f5eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 31/57] fix: the test set extractor checks its number of data
 sets and always ends

---
 .../pwned-test-set-extractor/test-set-extractor.cpp  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index f79f2f9..7618498 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -16,6 +16,7 @@
  */
 
 #include <iostream>
+#include <algorithm>
 #include <fstream>
 #include <string>
 #include <random>
@@ -120,8 +121,13 @@ int main(int argc, const char *argv[])
     return EXIT_SUCCESS;
   }
 
+  if (N < 1)
+  {
+    std::cerr << "ERROR: number of data sets must be at least 1." << std::endl;
+    return EXIT_FAILURE;
+  }
   const std::streamoff size = (std::streamoff)boost::filesystem::file_size(inputFilename);
-  const std::streamoff offset = size / N;
+  const std::streamoff offset = std::max<std::streamoff>(size / N, 1);
   std::ifstream in(inputFilename, std::ios::binary);
   if (!in.is_open())
   {
@@ -184,6 +190,10 @@ int main(int argc, const char *argv[])
         }
         ++i;
       }
+      else
+      {
+        break;
+      }
     }
   }
 
-- 
2.43.0


From a798854b07e53a45ac171c14b4c744e7147763f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 32/57] fix: the Markov generator stops when it cannot open a
 file

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 8532566..fa53a85 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -146,11 +146,13 @@ int main(int argc, char* argv[])
   if (!inputFile.is_open())
   {
     std::cerr << "Cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::ofstream outputFile(outputFilename, std::ios::trunc | std::ios::binary);
   if (!outputFile.is_open())
   {
     std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::vector<pwned::UserPasswordReaderOptions> readerOptions{pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords};
   pwned::UserPasswordReader reader(inputFile, readerOptions);
-- 
2.43.0


From ad44548d097d4794c84b5854a8b8e29aeded02a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 33/57] fix: --output-every 0 does not divide by zero

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index fa53a85..586d574 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -171,7 +171,7 @@ int main(int argc, char* argv[])
     bool ok = chain.train(pwd);
     if (ok)
     {
-      if (verbosity.level > 0 && ((n % outputEvery) == 0))
+      if (verbosity.level > 0 && outputEvery > 0 && ((n % outputEvery) == 0))
       {
         constexpr std::size_t BufSize = 8;
         char buf[BufSize];
-- 
2.43.0


From ce7d122d6b90dfde38d004fcbd552686aa71ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 34/57] fix: the benchmark reports a test set it cannot open
 and runs it cannot complete

---
 extras/pwned-benchmark/benchmark.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extras/pwned-benchmark/benchmark.cpp b/extras/pwned-benchmark/benchmark.cpp
index 6dbeec9..61cc345 100755
--- a/extras/pwned-benchmark/benchmark.cpp
+++ b/extras/pwned-benchmark/benchmark.cpp
@@ -328,6 +328,11 @@ int main(int argc, const char *argv[])
     purgeFilesystemCacheOn(inputFilename);
   }
   std::ifstream testset(testsetFilename, std::ios::binary);
+  if (!testset.is_open())
+  {
+    std::cerr << "ERROR: Cannot open '" << testsetFilename << "' for reading." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << "Reading test set ... " << std::flush;
   std::vector<pwned::PasswordHashAndCount> phcs;
   pwned::PasswordHashAndCount phc;
@@ -353,6 +358,11 @@ int main(int argc, const char *argv[])
       std::cerr << "ERROR: Invalid index file." << std::endl;
     }
   }
+  if (runTimes.empty())
+  {
+    std::cerr << "ERROR: no benchmark run was completed." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::sort(runTimes.begin(), runTimes.end());
   std::cout << std::endl
             << "Overall lookup time (best/median/avg): " << pwned::readableTime(runTimes.front())
-- 
2.43.0


From 1ded83831554bc9351b8376840c67705a4d64fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 35/57] fix: enabling echo switches on echo and nothing else

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index ffc20db..6204741 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -305,7 +305,7 @@ void TermIO::enableEcho()
   struct termios t;
   tcgetattr(STDIN_FILENO, &t);
   t.c_lflag |= tcflag_t(ICANON);
-  t.c_lflag |= tcflag_t(~ECHO);
+  t.c_lflag |= tcflag_t(ECHO);
   tcsetattr(STDIN_FILENO, TCSANOW, &t);
 }
 
-- 
2.43.0


From 4db91760c07f14642d9777c0e350df8f1355d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 36/57] fix: formatting an empty string does not write outside
 the buffer

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 6204741..239007f 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -153,7 +153,7 @@ int getMemoryStat(MemoryStat &memoryStat)
 // see https://stackoverflow.com/a/8098080
 std::string string_format(const std::string fmt_str, ...)
 {
-  int n = (int)(2 * fmt_str.size());
+  int n = (int)(2 * fmt_str.size()) + 1;
   std::unique_ptr<char[]> formatted;
   va_list ap;
   while (true)
-- 
2.43.0


From f804e8b10afa77d5629fd96202ef79890e2c0eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 37/57] fix: every Markov error code has its own text

---
 pwned-lib/markovchain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 4299bf5..74a6464 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -343,7 +343,7 @@ private:
     "BAD_SYMBOL_PREMATURE_EOF",
     "BAD_PROBABILITY",
     "BAD_PROBABILITY_PREMATURE_EOF",
-    "BAD_NODE_COUNT"
+    "BAD_NODE_COUNT",
     "BAD_NODE_COUNT_PREMATURE_EOF"
   };
 };
-- 
2.43.0


From e453a325ea6f08b1c45e5452a4cc99718b32bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 38/57] fix: an unseen transition has probability 0

---
 pwned-lib/markovnode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index f8b5d80..7731bfa 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -73,7 +73,8 @@ public:
   }
   inline prob_value_type probability(symbol_type c) const
   {
-    return mProbs.at(c);
+    const auto prob = mProbs.find(c);
+    return (prob != mProbs.end()) ? prob->second : prob_value_type(0);
   }
   inline count_type count(symbol_type c) const
   {
-- 
2.43.0


From edac3feb0e15408afe76b6351d752caf2e340c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 39/57] fix: Markov observations are summed up in their own
 type

---
 pwned-lib/markovchain.hpp | 2 +-
 pwned-lib/markovnode.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 74a6464..3fdb2f2 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -70,7 +70,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mFirstSymbolCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index 7731bfa..d044317 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -56,7 +56,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
-- 
2.43.0


From fbce8ce4eacc858e6ee5b86e1e7dcf9daf77c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 40/57] fix: an unreadable Markov file is rejected, an empty
 chain is saved

---
 pwned-lib/markovchain.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 3fdb2f2..123073b 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -166,8 +166,6 @@ public:
   }
   void saveBinary(std::ostream &os)
   {
-    if (mNodes.empty())
-      return;
     os.write(FileHeader, FileHeaderSize);
     write(os, FileVersion);
     write(os, (uint32_t)mFirstSymbolSortedProbs.size());
@@ -216,40 +214,40 @@ public:
       mFirstSymbolProbs.clear();
       mFirstSymbolSortedProbs.clear();
     }
-    if (is.good() && !is.eof())
+    if (!is.good())
+      return BAD_HEADER_PREMATURE_EOF;
     {
       char hdr[FileHeaderSize] = {0, 0, 0, 0};
       is.read(reinterpret_cast<char*>(hdr), FileHeaderSize);
-      if (is.eof())
+      if (!is)
         return BAD_HEADER_PREMATURE_EOF;
       if (memcmp(hdr, FileHeader, FileHeaderSize) != 0)
         return BAD_HEADER;
       uint8_t version = read<uint8_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_VERSION_PREMATURE_EOF;
       if (version != FileVersion)
         return BAD_VERSION;
       const uint32_t firstSymbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
-      mFirstSymbolSortedProbs.reserve(firstSymbolCount);
       for (uint32_t i = 0; i < firstSymbolCount; ++i)
       {
         const symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         const prob_value_type p = read<prob_value_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_PROBABILITY_PREMATURE_EOF;
         mFirstSymbolSortedProbs.emplace_back(c, p);
       }
       const uint32_t symbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
       for (uint32_t i = 0; i < symbolCount; ++i)
       {
         symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         if (mNodes.find(c) == mNodes.end())
         {
@@ -260,16 +258,16 @@ public:
           return BAD_SYMBOL;
         }
         const uint32_t nodeCount = read<uint32_t>(is);
-        if (is.eof())
+        if (!is)
           return BAD_NODE_COUNT_PREMATURE_EOF;
         node_type &currentNode = mNodes[c];
         for (uint32_t j = 0; j < nodeCount; ++j)
         {
           const symbol_type symbol = read<symbol_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_SYMBOL_PREMATURE_EOF;
           const prob_value_type probability = read<prob_value_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_PROBABILITY_PREMATURE_EOF;
           currentNode.addSuccessor(symbol, probability);
         }
-- 
2.43.0


From bfa3923137bf249343c5fce0589f95f22281f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 41/57] fix: the Markov lookup reports a chain it cannot load

---
 extras/pwned-markov-lookup/pwned-markov-lookup.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
index 3382206..6a372e6 100644
--- a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
+++ b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
@@ -40,8 +40,18 @@ int main(int argc, char *argv[])
     return EXIT_FAILURE;
   const std::string &inputFilename = argv[1];
   std::ifstream inputFile(inputFilename, std::ios::binary);
+  if (!inputFile.is_open())
+  {
+    std::cerr << "ERROR: Cannot open '" << inputFilename << "' for reading." << std::endl;
+    return EXIT_FAILURE;
+  }
   chain_type chain;
-  chain.loadBinary(inputFile);
+  const chain_type::ErrCode ec = chain.loadBinary(inputFile);
+  if (ec != chain_type::OK)
+  {
+    std::cerr << "ERROR: Cannot load '" << inputFilename << "': " << chain.errString(ec) << std::endl;
+    return EXIT_FAILURE;
+  }
   while (true)
   {
     std::cout << "Type password: " << std::flush;
-- 
2.43.0


From 792fa72a1d8a855fd85c721343083b625e6c13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 42/57] fix: the server and the load test build with current
 Boost

---
 pwned-server/httpworker.cpp                | 4 ++--
 pwned-server/loadtest/httpclientworker.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index c11c864..9569fcf 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -142,13 +142,13 @@ void makeResponse(boost::optional<http::response<http::string_body>> &response,
 void HttpWorker::sendResponse(http::request<http::string_body> const &req)
 {
   URI uri;
-  uri.parseTarget(req.target().to_string());
+  uri.parseTarget(std::string(req.target()));
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
     ss << std::chrono::system_clock::now() << ' '
        << mSocket.remote_endpoint().address().to_string() << ' '
-       << req.target().to_string();
+       << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
   if (uri.path() == (mBasePath + "/lookup") && uri.query().find("hash") != uri.query().end())
diff --git a/pwned-server/loadtest/httpclientworker.hpp b/pwned-server/loadtest/httpclientworker.hpp
index 0692f64..5441c66 100644
--- a/pwned-server/loadtest/httpclientworker.hpp
+++ b/pwned-server/loadtest/httpclientworker.hpp
@@ -19,6 +19,7 @@
 #define __httpclientworker_hpp__
 
 #include <cstdint>
+#include <fstream>
 #include <string>
 #include <random>
 #include <vector>
-- 
2.43.0


From 4fc8788e20805389c2fada86548703ee81f67cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 43/57] fix: a hash that is no hash is answered with an error
 status

---
 pwned-server/httpworker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 9569fcf..ee2449b 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -154,6 +154,11 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   if (uri.path() == (mBasePath + "/lookup") && uri.query().find("hash") != uri.query().end())
   {
     const pwned::Hash &hash = pwned::Hash::fromHex(uri.query().at("hash"));
+    if (!hash.isValid)
+    {
+      sendBadResponse(http::status::bad_request, "Invalid hash\r\n");
+      return;
+    }
     const auto &t0 = std::chrono::high_resolution_clock::now();
     const pwned::PasswordHashAndCount &phc = mInspector.binsearch(hash);
     const auto &t1 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 1f7225db831b733c9a17b11463dd319599014980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 44/57] fix: a client that disconnects early cannot end the
 server

---
 pwned-server/httpworker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index ee2449b..b8fb5c9 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -145,9 +145,10 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   uri.parseTarget(std::string(req.target()));
   if (mLogCallback != nullptr)
   {
+    beast::error_code ec; // the client may have disconnected already
     std::ostringstream ss;
     ss << std::chrono::system_clock::now() << ' '
-       << mSocket.remote_endpoint().address().to_string() << ' '
+       << mSocket.remote_endpoint(ec).address().to_string() << ' '
        << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
@@ -236,7 +237,8 @@ void HttpWorker::checkTimeout()
 {
   if (mReqTimeout.expiry() <= std::chrono::steady_clock::now())
   {
-    mSocket.close();
+    beast::error_code ec;
+    mSocket.close(ec);
     mReqTimeout.expires_at(std::chrono::steady_clock::time_point::max());
   }
   mReqTimeout.async_wait(
-- 
2.43.0


From 7b61d5568828d25c875b4458d85a66a1a55b1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 45/57] fix: the handlers of a worker never run at the same
 time

---
 pwned-server/httpworker.cpp | 4 ++--
 pwned-server/httpworker.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index b8fb5c9..6a86940 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -64,7 +64,7 @@ void HttpWorker::accept()
   mBuffer.consume(mBuffer.size());
   mAcceptor.async_accept(
       mSocket,
-      [this](beast::error_code ec) {
+      net::bind_executor(mSocket.get_executor(), [this](beast::error_code ec) {
         if (ec)
         {
           accept();
@@ -74,7 +74,7 @@ void HttpWorker::accept()
           mReqTimeout.expires_after(Timeout);
           readRequest();
         }
-      });
+      }));
 }
 
 void HttpWorker::readRequest()
diff --git a/pwned-server/httpworker.hpp b/pwned-server/httpworker.hpp
index 49d78c0..bb7ad2e 100644
--- a/pwned-server/httpworker.hpp
+++ b/pwned-server/httpworker.hpp
@@ -24,7 +24,9 @@
 
 #include <boost/beast/core.hpp>
 #include <boost/beast/http.hpp>
+#include <boost/asio/bind_executor.hpp>
 #include <boost/asio/ip/tcp.hpp>
+#include <boost/asio/strand.hpp>
 #include <boost/optional/optional.hpp>
 #include <boost/function.hpp>
 
@@ -55,11 +57,11 @@ public:
 
 private:
   tcp::acceptor &mAcceptor;
-  tcp::socket mSocket{mAcceptor.get_executor()};
+  tcp::socket mSocket{boost::asio::make_strand(mAcceptor.get_executor())}; // one handler of a worker at a time
   beast::flat_buffer mBuffer;
   boost::optional<http::request_parser<http::string_body>> mParser;
   boost::asio::basic_waitable_timer<std::chrono::steady_clock> mReqTimeout{
-    mAcceptor.get_executor(),
+    mSocket.get_executor(),
     (std::chrono::steady_clock::time_point::max)()};
   boost::optional<http::response<http::string_body>> mResponse;
   boost::optional<http::response_serializer<http::string_body>> mSerializer;
-- 
2.43.0


From 3c6c58fae10a263ec1e3e4721e06358cec9acf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 46/57] fix: a URI is valid exactly if it was recognised, and
 its port is in range

---
 pwned-server/pwned-server.cpp |  5 +++++
 pwned-server/uri.cpp          | 23 +++++++++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/pwned-server/pwned-server.cpp b/pwned-server/pwned-server.cpp
index a800db1..0041619 100644
--- a/pwned-server/pwned-server.cpp
+++ b/pwned-server/pwned-server.cpp
@@ -155,6 +155,11 @@ int main(int argc, const char *argv[])
   try
   {
     URI uri(address);
+    if (!uri.isValid())
+    {
+      std::cerr << "ERROR: invalid server address '" << address << "'." << std::endl;
+      return EXIT_FAILURE;
+    }
     boost::asio::io_context ioc{numWorkers};
     tcp::acceptor acceptor{ioc, {boost::asio::ip::make_address(uri.host()), uri.port()}};
     std::list<webservice::HttpWorker> workers;
diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 6157b35..9ae5f48 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -23,6 +23,8 @@
 #include "uri.hpp"
 
 static const std::regex RE("^([a-z0-9+.-]+):(?:\\/\\/(?:((?:[a-z0-9-._~!$&'()*+,;=:]|%[0-9A-F]{2})*)@)?((?:[a-z0-9-._~!$&'()*+,;=]|%[0-9A-F]{2})*)(?::(\\d*))?(\\/(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?|(\\/?(?:[a-z0-9-._~!$&'()*+,;=:@]|%[0-9A-F]{2})+(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?)(?:\\?((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?(?:#((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?$");
+static constexpr std::size_t MaxLength = 2048; // the depth of the regular expression's recursion grows with the text
+static constexpr unsigned long MaxPort = 65535;
 static const std::map<std::string, URI::port_type> SchemeToPort = {
   { "http", 80 },
   { "https", 443 }
@@ -36,9 +38,10 @@ URI::URI(const std::string &uri)
 void URI::parse(const std::string &uri)
 {
   std::smatch m;
-  mIsValid = true;
-  if (std::regex_search(uri, m, RE))
+  mIsValid = false;
+  if (uri.size() <= MaxLength && std::regex_search(uri, m, RE))
   {
+    mIsValid = true;
     if (m.size() > 1)
     {
       mScheme = m[1].str();
@@ -53,7 +56,7 @@ void URI::parse(const std::string &uri)
         mUsername = kv[0];
         mPassword = kv[1];
       }
-      else
+      else if (!credentials.empty())
       {
         mIsValid = false;
       }
@@ -64,7 +67,15 @@ void URI::parse(const std::string &uri)
     }
     if (m.size() > 4 && m[4].str().size() > 0)
     {
-      mPort = uint16_t(std::stoi(m[4].str()));
+      const unsigned long port = (m[4].str().size() <= 5) ? std::stoul(m[4].str()) : MaxPort + 1;
+      if (port <= MaxPort)
+      {
+        mPort = port_type(port);
+      }
+      else
+      {
+        mIsValid = false;
+      }
     }
     else if (SchemeToPort.find(mScheme) != SchemeToPort.end())
     {
@@ -72,7 +83,7 @@ void URI::parse(const std::string &uri)
     }
     if (m.size() > 5)
     {
-      mPath = m[5].str();
+      mPath = m[5].matched ? m[5].str() : m[6].str();
     }
     if (m.size() > 7)
     {
@@ -87,7 +98,7 @@ void URI::parse(const std::string &uri)
         {
           mQuery[pair.at(0)] = pair.at(1);
         }
-        else
+        else if (!param.empty())
         {
           mIsValid = false;
         }
-- 
2.43.0


From d350b30509ee76e080197f47023e9b83c2b4f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 47/57] fix: parsing another text with the same URI kept parts
 of the one before

---
 pwned-server/uri.cpp | 16 +++++++++++++++-
 pwned-server/uri.hpp |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 9ae5f48..d1c7701 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -38,7 +38,7 @@ URI::URI(const std::string &uri)
 void URI::parse(const std::string &uri)
 {
   std::smatch m;
-  mIsValid = false;
+  clear();
   if (uri.size() <= MaxLength && std::regex_search(uri, m, RE))
   {
     mIsValid = true;
@@ -114,6 +114,7 @@ void URI::parse(const std::string &uri)
 void URI::parseTarget(const std::string &target)
 {
   std::vector<std::string> pathAndQuery;
+  clear();
   boost::split(pathAndQuery, target, boost::is_any_of("?"));
   if (pathAndQuery.size() > 0)
   {
@@ -144,6 +145,19 @@ void URI::parseTarget(const std::string &target)
   }
 }
 
+void URI::clear()
+{
+  mIsValid = false;
+  mScheme.clear();
+  mUsername.clear();
+  mPassword.clear();
+  mHost.clear();
+  mPort = 0;
+  mPath.clear();
+  mQuery.clear();
+  mFragment.clear();
+}
+
 bool URI::isValid() const
 {
   return mIsValid;
diff --git a/pwned-server/uri.hpp b/pwned-server/uri.hpp
index 6e42f48..b1f0220 100644
--- a/pwned-server/uri.hpp
+++ b/pwned-server/uri.hpp
@@ -42,6 +42,7 @@ public:
   const std::string &fragment() const;
 
 private:
+  void clear();
   bool mIsValid{false};
   std::string mScheme;
   std::string mUsername;
-- 
2.43.0


From 9a452fc15377863feba474d961a989c4a794fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:45 +0000
Subject: [PATCH 48/57] fix: an index of fewer than two keys is refused instead
 of shifted by the full width

---
 pwned-lib/passwordinspector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 783c1e4..998de57 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -72,6 +72,10 @@ bool PasswordInspector::open(const std::string &inputFilename, const std::string
   if (!indexFilename.empty())
   {
     const uint64_t nKeys = uint64_t(fs::file_size(indexFilename) / sizeof(index_key_t));
+    if (nKeys < 2) // the smallest index has a key of one bit
+    {
+      return false;
+    }
     mShift = (unsigned int)(sizeof(index_key_t) * 8 - popcnt64(nKeys - 1));
     mIndexFile.open(indexFilename, std::ios::binary);
     ok = ok && mIndexFile.is_open();
-- 
2.43.0


From 88c131b37f82322147be54bed50efc03f22a725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:45 +0000
Subject: [PATCH 49/57] fix: the load test does not divide by the size of an
 empty input file

---
 pwned-server/loadtest/httpclientworker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-server/loadtest/httpclientworker.cpp b/pwned-server/loadtest/httpclientworker.cpp
index a0cc34e..bfb6b16 100644
--- a/pwned-server/loadtest/httpclientworker.cpp
+++ b/pwned-server/loadtest/httpclientworker.cpp
@@ -83,6 +83,11 @@ void HttpClientWorker::start()
     std::cerr << "ERROR: Input file cannot be read." << std::endl;
     return;
   }
+  if (mInputSize < pwned::PasswordHashAndCount::size)
+  {
+    std::cerr << "ERROR: Input file contains no record." << std::endl;
+    return;
+  }
   if (mURI.scheme() == "https")
   {
     mSSLStream = beast::ssl_stream<beast::tcp_stream>(mIoc, mCtx);
-- 
2.43.0


From 1292b5542f31c913f17549a251d30d735d43ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:13 +0000
Subject: [PATCH 50/57] fix: cancel tells every running operation to stop
 before it waits for one

---
 pwned-lib/operation.cpp      | 5 +++++
 pwned-lib/operation.hpp      | 6 ++++++
 pwned-lib/operationqueue.hpp | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 4d28f05..8170026 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -97,6 +97,11 @@ void Operation::waitForFinished()
   finishedCondition.wait(lock, [this] { return !isRunning; });
 }
 
+void Operation::requestCancel() noexcept
+{
+  isCancelled = true;
+}
+
 void Operation::cancel()
 {
   std::cout << "Operation::cancel()" << std::endl;
diff --git a/pwned-lib/operation.hpp b/pwned-lib/operation.hpp
index 0886fde..65588b7 100755
--- a/pwned-lib/operation.hpp
+++ b/pwned-lib/operation.hpp
@@ -74,6 +74,12 @@ public:
          */
   bool hasFailed() const noexcept;
 
+  /**
+         * Description: Signals the operation to stop by setting `isCancelled` to `true`, without waiting for it to finish.
+         * Parameters: none
+         */
+  void requestCancel() noexcept;
+
   /**
          * Description: Signals the operation by setting `isCancelled` to `true`, then waits for all operations (pending and scheduled) to finish by calling `waitForFinished()`.
          * Parameters: none
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index 20f9c5c..11cf875 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -160,6 +160,10 @@ public:
     _isCancelled = true;
     setPaused(false);
     for (Operation *op : runningOps)
+    {
+      op->requestCancel();
+    }
+    for (Operation *op : runningOps)
     {
       op->cancel();
     }
-- 
2.43.0


From 9740a147359cdba53b95278704bd5b0aa675c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:32 +0000
Subject: [PATCH 51/57] fix: pwned-index reports an index that could not be
 written completely

---
 pwned-index/index.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index e1e6c03..08fa2e3 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -174,6 +174,11 @@ int main(int argc, const char *argv[])
   output.write((const char *)indexes, std::streamsize(maxIdx * sizeof(pwned::index_key_t)));
   output.close();
   delete[] indexes;
+  if (output.fail())
+  {
+    std::cerr << "ERROR: Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << "Ready." << std::endl
             << std::endl;
 
-- 
2.43.0


From 4aabd8916ad052fed0dbd03c0b2c0a5fdd2ca409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:32 +0000
Subject: [PATCH 52/57] fix: a conversion whose output could not be written
 completely fails

---
 pwned-converter-cli/convertoperation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index d2dc142..373d114 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -184,6 +184,10 @@ void ConvertOperation::execute() noexcept(false)
       phc.dump(f);
     }
     f.close();
+    if (f.fail())
+    {
+      throw pwned::OperationException("Cannot write to '" + dstFilePath.string() + "'", cannotWriteFile);
+    }
     if (isPaused)
     {
       queue->operationWait();
-- 
2.43.0


From ff57b1b7db9b27fc07d9eaf049d682a16fb667f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:32 +0000
Subject: [PATCH 53/57] fix: a merge whose output could not be written
 completely fails

---
 pwned-merger-cli/mergeoperation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index a6a219f..486c110 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -176,6 +176,10 @@ void MergeOperation::execute() noexcept(false)
     }
   }
   d->dstFile.close();
+  if (d->dstFile.fail())
+  {
+    throw pwned::OperationException("Cannot write to '" + d->dstFilePath.string() + "'", MergerError::cannotWriteToFile);
+  }
   if (d->progressed != nullptr)
   {
     (*d->progressed)(d->entriesProcessed);
-- 
2.43.0


From eb4b7b3791b45a0ec18b5080a43186edde6738d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:32 +0000
Subject: [PATCH 54/57] fix: the Markov generator reports a file that could not
 be written completely

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 586d574..f04e3f1 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -189,5 +189,10 @@ int main(int argc, char* argv[])
   chain.saveBinary(outputFile);
   chain.writeJson(std::cout);
   outputFile.close();
+  if (outputFile.fail())
+  {
+    std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From 186516f459234ef64e5717383c0093062125238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:32 +0000
Subject: [PATCH 55/57] fix: the password extractor reports a file that could
 not be written completely

---
 .../pwned-password-extractor/pwned-password-extractor.cpp  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index e02e656..2afbe12 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -255,7 +255,12 @@ int main(int argc, const char *argv[])
   }
 #endif
 
-  fclose(outFile);
+  const bool writeFailed = ferror(outFile) != 0;
+  if (fclose(outFile) != 0 || writeFailed)
+  {
+    std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
 
   std::cout << std::endl
             << "Ready." << std::endl;
-- 
2.43.0


From 54add31c4576021c7203b3c5d23b2f09747b887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:32 +0000
Subject: [PATCH 56/57] fix: the test set extractor reports a file that could
 not be written completely

---
 extras/pwned-test-set-extractor/test-set-extractor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index 7618498..41cb897 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -196,6 +196,12 @@ int main(int argc, const char *argv[])
       }
     }
   }
+  out.close();
+  if (out.fail())
+  {
+    std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
 
   std::cout << std::endl
             << "Ready." << std::endl;
-- 
2.43.0


From dbf8e88d43e5099aa5b7819fa683135eb7bd9c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:32 +0000
Subject: [PATCH 57/57] fix: be2le reports a file that could not be written
 completely

---
 deprecated/be2le/be2le.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 26ed968..6a88f6f 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -49,6 +49,12 @@ int main(int argc, const char *argv[])
       phc.dump(out);
     }
   }
+  out.close();
+  if (out.fail())
+  {
+    std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
-- 
2.43.0

