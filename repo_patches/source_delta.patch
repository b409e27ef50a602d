From 8ab647a58ffad0a3c89b3990dff915255c1747b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 01/30] fix: Mat2D copies and move-assignment copy the
 elements, keep one owner and return *this; trapezoid symmetric index

---
 src/cmat2d.hpp                 | 20 ++++++++++++--------
 var/icgem/src/compact2dmat.hpp | 24 ++++++++++++++----------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 3b5d232..c95c8a4 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -69,7 +69,7 @@ template <> struct StorageImplementation<MatrixStorageType::Trapezoid> {
   /// E.g. data[element_offset(1,2)] will return the element in the second row,
   /// and third column.
   constexpr int element_offset(int row, int column) const noexcept {
-    return (column <= rows) ? (slice(row) + column) : (slice(column) + row);
+    return (column <= row) ? (slice(row) + column) : (slice(column) + row);
   }
 
 #ifdef DEBUG
@@ -234,7 +234,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -243,11 +243,11 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data || (num_elements() != mat.num_elements())) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -255,10 +255,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
diff --git a/var/icgem/src/compact2dmat.hpp b/var/icgem/src/compact2dmat.hpp
index 408ea00..8ce3ab2 100644
--- a/var/icgem/src/compact2dmat.hpp
+++ b/var/icgem/src/compact2dmat.hpp
@@ -68,7 +68,7 @@ template <> struct StorageImplementation<MatrixStorageType::Trapezoid> {
   /// E.g. data[element_offset(1,2)] will return the element in the second row,
   /// and third column.
   constexpr int element_offset(int row, int column) const noexcept {
-    return (column <= rows) ? (slice(row) + column) : (slice(column) + row);
+    return (column <= row) ? (slice(row) + column) : (slice(column) + row);
   }
 
 #ifdef DEBUG
@@ -197,14 +197,14 @@ public:
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
   const double *slice(int i) const noexcept {
-    return m_data[m_storage(slice(i))];
+    return m_data + m_storage.slice(i);
   }
 
   /// @brief Row/Column indexing (rows and columns start from 0 --not 1--)
   /// If the data is tored in a Row-Wise manner, this function will return the
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
-  double *slice(int i) noexcept { return m_data[m_storage(slice(i))]; }
+  double *slice(int i) noexcept { return m_data + m_storage.slice(i); }
 
   void fill_with(double val) noexcept {
     std::fill(m_data, m_data + m_storage.num_elements(), val);
@@ -226,7 +226,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -235,11 +235,11 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data || (num_elements() != mat.num_elements())) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -247,10 +247,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From fb310ae3ccf7aa044bd9f0aa0310e2fbad1033f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 02/30] fix: HarmonicCoeffs resize and move-assignment release
 the old rows and always leave usable storage

---
 src/gravity/harmonic_coeffs.cpp   | 9 +++++----
 var/icgem/src/harmonic_coeffs.cpp | 4 ++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 9def5a1..799fd52 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -16,16 +16,14 @@ int dso::HarmonicCoeffs::deallocate() noexcept {
     for (int i = 0; i <= m_degree; i++)
       delete[] m_data[i];
     delete[] m_data;
+    m_data = nullptr;
   }
   return 0;
 }
 
 void dso::HarmonicCoeffs::resize(int degree) noexcept {
-    if (degree <= m_degree) {
-      m_degree = degree;
-    } else {
+    if (degree != m_degree || !m_data) {
       deallocate();
-      m_data = nullptr;
       m_degree = degree;
       allocate();
     }
@@ -45,6 +43,9 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   this->_GM = h._GM;
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 65903d2..602bf54 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -16,6 +16,7 @@ int dso::HarmonicCoeffs::deallocate() noexcept {
     for (int i = 0; i <= m_degree; i++)
       delete[] m_data[i];
     delete[] m_data;
+    m_data = nullptr;
   }
   return 0;
 }
@@ -30,6 +31,9 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   h.m_degree = 0;
-- 
2.43.0


From 1c4ef5297e9f544c2e73cd55481e5480f1e01228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 03/30] fix: icgem readers bound and terminate header values,
 require mandatory ones and only store coefficients inside the requested
 triangle

---
 src/gravity/icgemio_rddata.cpp   | 22 ++++++++++------
 src/gravity/icgemio_rdhead.cpp   | 43 +++++++++++++++++++++++---------
 var/icgem/src/icgemio_rddata.cpp | 22 ++++++++++------
 var/icgem/src/icgemio_rdhead.cpp | 43 +++++++++++++++++++++++---------
 4 files changed, 92 insertions(+), 38 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index a240e93..b6d894c 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -31,7 +31,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
   int error = 0;
-  if (l > max_degree || m > l) {
+  if (l < 0 || m < 0 || l > max_degree || m > l) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -70,8 +70,10 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // we will set them to some random value, so that if at the end of parsing
   // we are missing exactly two values and the C_10 and C_11 have the values
   // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  if (l >= 1)
+    coeffs->C(1, 0) = -999e0;
+  if (m >= 1)
+    coeffs->C(1, 1) = -999e0;
 
   char line[max_data_line], *end, *start;
   int ll, mm;
@@ -79,7 +81,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
   fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (!fin.fail() && coeffs_read < coeffs_to_read) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
@@ -107,7 +109,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
       // only interested in the coefficients, if degree and order are less than
       // max
-      if (ll <= l && mm <= m) {
+      if (ll >= 0 && ll <= l && mm >= 0 && mm <= m && mm <= ll) {
 
         start = end;
         Clm = std::strtod(start, &end);
@@ -133,7 +135,13 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         coeffs->C(ll, mm) = Clm;
         ++coeffs_read;
         if (mm == 0) {
-          assert(Slm == 0e0);
+          if (Slm != 0e0) {
+            fprintf(stderr,
+                    "[ERROR] Non-zero Sl0 parameter in line: [%s]; icgem file "
+                    "%s (traceback: %s)\n",
+                    line, filename.c_str(), __func__);
+            return 1;
+          }
         } else {
           coeffs->S(ll, mm) = Slm;
         }
@@ -146,7 +154,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
+    if (m >= 1 && coeffs_to_read - coeffs_read == 2 &&
         (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
diff --git a/src/gravity/icgemio_rdhead.cpp b/src/gravity/icgemio_rdhead.cpp
index cce597d..74e0168 100644
--- a/src/gravity/icgemio_rdhead.cpp
+++ b/src/gravity/icgemio_rdhead.cpp
@@ -1,5 +1,5 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <cctype>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -31,14 +31,14 @@ void dso::Icgem::print_details() {
 ///          return '\0'
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
@@ -53,16 +53,17 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   keyword_size = 0;
 
   // does the line start with the parameter_name string ?
-  if (!std::strncmp(line, parameter_name, psz)) {
+  if (!std::strncmp(line, parameter_name, psz) &&
+      next_ws_char(line + psz) == line + psz) {
     // start of new word after the keyword in line
-    const char *start = next_non_ws_char(line + psz + 1);
+    const char *start = next_non_ws_char(line + psz);
     // start of second word after the keyword in line
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     // parameter_name not matched in begining of line; return NULL
@@ -103,8 +104,10 @@ int dso::Icgem::parse_header() noexcept {
               "product_type", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(product_type));
+      if (keyword_size >= (int)sizeof(product_type))
+        return 1;
       std::strncpy(product_type, keyword, keyword_size);
+      product_type[keyword_size] = '\0';
     }
 
     // check if this the 'modelname' field (mandatory keyword)
@@ -116,8 +119,10 @@ int dso::Icgem::parse_header() noexcept {
               "modelname", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(modelname));
+      if (keyword_size >= (int)sizeof(modelname))
+        return 1;
       std::strncpy(modelname, keyword, keyword_size);
+      modelname[keyword_size] = '\0';
     }
 
     // check if this the 'earth_gravity_constant' field (mandatory keyword)
@@ -190,8 +195,10 @@ int dso::Icgem::parse_header() noexcept {
               "errors", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(errors));
+      if (keyword_size >= (int)sizeof(errors))
+        return 1;
       std::strncpy(errors, keyword, keyword_size);
+      errors[keyword_size] = '\0';
     }
 
     // check if this the 'tide_system' field (optional keyword)
@@ -203,8 +210,10 @@ int dso::Icgem::parse_header() noexcept {
               "tide_system", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(tide_system));
+      if (keyword_size >= (int)sizeof(tide_system))
+        return 1;
       std::strncpy(tide_system, keyword, keyword_size);
+      tide_system[keyword_size] = '\0';
     }
 
     // check if this the 'norm' field (optional keyword)
@@ -216,8 +225,10 @@ int dso::Icgem::parse_header() noexcept {
               "norm", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(norm));
+      if (keyword_size >= (int)sizeof(norm))
+        return 1;
       std::strncpy(norm, keyword, keyword_size);
+      norm[keyword_size] = '\0';
     }
 
     fin.getline(buf, bsz);
@@ -233,6 +244,14 @@ int dso::Icgem::parse_header() noexcept {
 
   } // keep on parsing (header) lines ...
 
+  if (earth_gravity_constant == 0e0 || radius == 0e0 || max_degree == 0) {
+    fprintf(stderr,
+            "[ERROR] Missing mandatory parameter(s) in header of icgem file %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 8f3c87d..1b41f64 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -30,7 +30,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 ///          enough memmory to hold the (to-be-) parsed coefficients.
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
-  if (l > max_degree || m > l) {
+  if (l < 0 || m < 0 || l > max_degree || m > l) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -62,8 +62,10 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // we will set them to some random value, so that if at the end of parsing
   // we are missing exactly two values and the C_10 and C_11 have the values
   // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  if (l >= 1)
+    coeffs->C(1, 0) = -999e0;
+  if (m >= 1)
+    coeffs->C(1, 1) = -999e0;
 
   char line[max_data_line], *end, *start;
   int ll, mm;
@@ -71,7 +73,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
   fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (!fin.fail() && coeffs_read < coeffs_to_read) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
@@ -99,7 +101,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
       // only interested in the coefficients, if degree and order are less than
       // max
-      if (ll <= l && mm <= m) {
+      if (ll >= 0 && ll <= l && mm >= 0 && mm <= m && mm <= ll) {
 
         start = end;
         Clm = std::strtod(start, &end);
@@ -125,7 +127,13 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         coeffs->C(ll, mm) = Clm;
         ++coeffs_read;
         if (mm == 0) {
-          assert(Slm == 0e0);
+          if (Slm != 0e0) {
+            fprintf(stderr,
+                    "[ERROR] Non-zero Sl0 parameter in line: [%s]; icgem file "
+                    "%s (traceback: %s)\n",
+                    line, filename.c_str(), __func__);
+            return 1;
+          }
         } else {
           coeffs->S(ll, mm) = Slm;
         }
@@ -138,7 +146,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
+    if (m >= 1 && coeffs_to_read - coeffs_read == 2 &&
         (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
diff --git a/var/icgem/src/icgemio_rdhead.cpp b/var/icgem/src/icgemio_rdhead.cpp
index eee0992..8dd2468 100644
--- a/var/icgem/src/icgemio_rdhead.cpp
+++ b/var/icgem/src/icgemio_rdhead.cpp
@@ -1,5 +1,5 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <cctype>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -24,14 +24,14 @@ void dso::Icgem::print_details() {
 
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
@@ -40,14 +40,15 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
                                    int &keyword_size) noexcept {
   auto psz = std::strlen(parameter_name);
   keyword_size = 0;
-  if (!std::strncmp(line, parameter_name, psz)) {
-    const char *start = next_non_ws_char(line + psz + 1);
+  if (!std::strncmp(line, parameter_name, psz) &&
+      next_ws_char(line + psz) == line + psz) {
+    const char *start = next_non_ws_char(line + psz);
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     return nullptr;
@@ -84,8 +85,10 @@ int dso::Icgem::parse_header() noexcept {
               "product_type", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(product_type));
+      if (keyword_size >= (int)sizeof(product_type))
+        return 1;
       std::strncpy(product_type, keyword, keyword_size);
+      product_type[keyword_size] = '\0';
     }
 
     keyword = resolve_header_keyword("modelname", line, keyword_size);
@@ -96,8 +99,10 @@ int dso::Icgem::parse_header() noexcept {
               "modelname", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(modelname));
+      if (keyword_size >= (int)sizeof(modelname))
+        return 1;
       std::strncpy(modelname, keyword, keyword_size);
+      modelname[keyword_size] = '\0';
     }
 
     keyword =
@@ -166,8 +171,10 @@ int dso::Icgem::parse_header() noexcept {
               "errors", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(errors));
+      if (keyword_size >= (int)sizeof(errors))
+        return 1;
       std::strncpy(errors, keyword, keyword_size);
+      errors[keyword_size] = '\0';
     }
 
     keyword = resolve_header_keyword("tide_system", line, keyword_size);
@@ -178,8 +185,10 @@ int dso::Icgem::parse_header() noexcept {
               "tide_system", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(tide_system));
+      if (keyword_size >= (int)sizeof(tide_system))
+        return 1;
       std::strncpy(tide_system, keyword, keyword_size);
+      tide_system[keyword_size] = '\0';
     }
 
     keyword = resolve_header_keyword("norm", line, keyword_size);
@@ -190,8 +199,10 @@ int dso::Icgem::parse_header() noexcept {
               "norm", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(norm));
+      if (keyword_size >= (int)sizeof(norm))
+        return 1;
       std::strncpy(norm, keyword, keyword_size);
+      norm[keyword_size] = '\0';
     }
 
     fin.getline(buf, bsz);
@@ -204,6 +215,14 @@ int dso::Icgem::parse_header() noexcept {
     }
   }
 
+  if (earth_gravity_constant == 0e0 || radius == 0e0 || max_degree == 0) {
+    fprintf(stderr,
+            "[ERROR] Missing mandatory parameter(s) in header of icgem file %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
-- 
2.43.0


From b495814ef323b37c484d31e004863b6df742b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 04/30] fix: http_get reports a failed close and never removes
 a file it did not open

---
 src/web/http_get.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index eff0431..af6df1d 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -61,11 +61,11 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     status = curl_easy_perform(curl_handle);
 
     //  close the header file
-    fclose(pagefile);
-  }
+    if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
 
-  // remove the opened but empty file in case of error
-  if (status != CURLE_OK) remove(local);
+    // remove the opened but empty file in case of error
+    if (status != CURLE_OK) remove(local);
+  }
 
   //  cleanup curl stuff
   curl_easy_cleanup(curl_handle);
-- 
2.43.0


From eb36598b649530df2f6c5e448ec7031faec9c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 05/30] fix: RKF45 step control uses the fifth root of the
 error estimate and the right solution component

---
 var/ode_solvers/rkf45.hpp      | 4 ++--
 var/ode_solvers/rkf45_rkfs.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/var/ode_solvers/rkf45.hpp b/var/ode_solvers/rkf45.hpp
index 54e799d..b2ede3a 100644
--- a/var/ode_solvers/rkf45.hpp
+++ b/var/ode_solvers/rkf45.hpp
@@ -25,10 +25,10 @@ public:
 private:
   ODEfun f;
   int neqn;
-  int iflag, jflag, kflag;
+  int iflag, jflag, kflag{0};
   int nfe,  ///< counter for function evaluations
       kop,  ///< indicator for too many output points
-      init; ///< initialization completion indicator
+      init{0}; ///< initialization completion indicator
   Eigen::MatrixXd F; // dimension 
   Eigen::VectorXd yp;
   double relerr;
diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index f55dcb7..3ec6e87 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -131,7 +131,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       toln = tol;
       const double ypk = std::abs(yp(i));
       if (ypk * std::pow(h, 5e0) > tol) {
-        h = (tol / ypk) * (tol / ypk);
+        h = std::pow(tol / ypk, 0.2e0);
       }
     }
   }
@@ -243,7 +243,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       // solution at the beginning and end of the step.
       double eeoet = 0e0;
       for (int i = 0; i < neqn; i++) {
-        const double et = std::abs(y(i)) + std::abs(F(0, i)) + ae;
+        const double et = std::abs(y(i)) + std::abs(F(i, 0)) + ae;
         if (et <= 0e0) {
           iflag = 5;
           return 0;
@@ -268,7 +268,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       output = false;
       s = 1e-1;
       if (esttol < 59049e0)
-        s = 9e-1 / (esttol * esttol);
+        s = 9e-1 / std::pow(esttol, 0.2e0);
       h *= s;
 
       // if (std::abs(h) > hmin)
@@ -299,7 +299,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
     // stepsize is not allowed to increase
     s = 5e0;
     if (esttol > 1.889568e-4)
-      s = 9e-1 / (esttol * esttol);
+      s = 9e-1 / std::pow(esttol, 0.2e0);
     if (hfaild)
       s = std::min(s, 1e0);
     h = std::copysign(std::max(s * std::abs(h), hmin), h);
-- 
2.43.0


From fd350e89ffc43bb20f2a25e85ee7ea9329dbc5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 06/30] fix: SGOde resets the failure count, limits the
 optimal-step rule to repeated failures, evaluates tau once and restarts after
 a stop-at-tout call

---
 src/integrators/sgode.hpp      | 7 +++++--
 src/integrators/sgode_de.cpp   | 6 +++---
 src/integrators/sgode_step.cpp | 9 ++++-----
 var/ode_solvers/sgode.hpp      | 7 +++++--
 var/ode_solvers/sgode_de.cpp   | 6 +++---
 var/ode_solvers/sgode_step.cpp | 9 ++++-----
 6 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/integrators/sgode.hpp b/src/integrators/sgode.hpp
index 1adaa71..1afb74d 100644
--- a/src/integrators/sgode.hpp
+++ b/src/integrators/sgode.hpp
@@ -17,6 +17,9 @@ public:
     Arrays13 = new double[13 * 7]; // psi, alpha, beta, v, w, sig, g (col-major)
   }
 
+  SGOde(const SGOde &) = delete;
+  SGOde &operator=(const SGOde &) = delete;
+
   ~SGOde() noexcept {
     if (Arrays13) delete[] Arrays13;
   }
@@ -118,8 +121,8 @@ public:
   double *Arrays13;
   double h,hold;
   double x;
-  double /*t,*/told;
-  double delsgn;
+  double /*t,*/told{0e0};
+  double delsgn{0e0};
   double relerr,abserr;
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
diff --git a/src/integrators/sgode_de.cpp b/src/integrators/sgode_de.cpp
index fd6b188..4c28b59 100644
--- a/src/integrators/sgode_de.cpp
+++ b/src/integrators/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/src/integrators/sgode_step.cpp b/src/integrators/sgode_step.cpp
index f237283..2e49133 100644
--- a/src/integrators/sgode_step.cpp
+++ b/src/integrators/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), *params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -302,7 +301,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       double t2 = 5e-1;
       if (ifail == 3) {
         knew = 1;
-      } else if (ifail < 3) {
+      } else if (ifail > 3) {
         if (p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
@@ -344,7 +343,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
     // non-debug mode.
     // Don't have a fucking clue why!!!
     // const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
-    const auto rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
diff --git a/var/ode_solvers/sgode.hpp b/var/ode_solvers/sgode.hpp
index a443edb..6f2605c 100644
--- a/var/ode_solvers/sgode.hpp
+++ b/var/ode_solvers/sgode.hpp
@@ -23,6 +23,9 @@ public:
     Arrays13 = new double[13 * 7]; // psi, alpha, beta, v, w, sig, g (col-major)
   }
 
+  SGOde(const SGOde &) = delete;
+  SGOde &operator=(const SGOde &) = delete;
+
   ~SGOde() noexcept {
     if (Arrays13) delete[] Arrays13;
   }
@@ -119,8 +122,8 @@ public:
   double *Arrays13;
   double h,hold;
   double x;
-  double /*t,*/told;
-  double delsgn;
+  double /*t,*/told{0e0};
+  double delsgn{0e0};
   double relerr,abserr;
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
diff --git a/var/ode_solvers/sgode_de.cpp b/var/ode_solvers/sgode_de.cpp
index 4d18b88..5052b42 100644
--- a/var/ode_solvers/sgode_de.cpp
+++ b/var/ode_solvers/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/var/ode_solvers/sgode_step.cpp b/var/ode_solvers/sgode_step.cpp
index 1d47793..256b898 100644
--- a/var/ode_solvers/sgode_step.cpp
+++ b/var/ode_solvers/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -296,7 +295,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       double t2 = 5e-1;
       if (ifail == 3) {
         knew = 1;
-      } else if (ifail < 3) {
+      } else if (ifail > 3) {
         if (p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
@@ -331,7 +330,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   // correct and evaluate
   const double t1 = h * g(kp1 - 1);
   if (!nornd) {
-    const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
-- 
2.43.0


From 8c040dcad1978b3ebe0470876fa1a11d46d3e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 07/30] fix: gravity partials include the m=1 terms, honour the
 order and are symmetric

---
 src/gravity/gravity_acceleration.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index dc6a4b3..06aeffa 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -103,16 +103,21 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // printf("\tGravitational potential (m=0)\n");
   // printf("\t%+15.6f %+15.6f %15.6f\n", xacc, yacc, zacc);
 
-  double daxdx_m1(0e0), daxdy_m1(0e0), dazdz_m1(0e0);
+  double daxdx_m1(0e0), daxdy_m1(0e0), daxdz_m1(0e0), daydz_m1(0e0),
+      dazdz_m1(0e0);
   // m = 1 part (only considered for partials)
   fac = 2e0; /* recursion of (n+1)! / (n-1)! */
-  for (int i = 1; i <= degree; i++) {
+  for (int i = 1; i <= degree && order > 0; i++) {
     const double Cn1 = hc.C(i, 1);
     const double Sn1 = hc.S(i, 1);
     daxdx_m1 += 0.25e0 * (Cn1 * V(i + 2, 3) + Sn1 * W(i + 2, 3) +
                           fac * (-3e0 * Cn1 * V(i + 2, 1) - Sn1 * W(i + 2, 1)));
     daxdy_m1 += 0.25e0 * (Cn1 * W(i + 2, 3) - Sn1 * V(i + 2, 3) +
                           fac * (-Cn1 * W(i + 2, 1) - Sn1 * V(i + 2, 1)));
+    daxdz_m1 += 0.5e0 * i * (Cn1 * V(i + 2, 2) + Sn1 * W(i + 2, 2)) -
+                0.5e0 * fac * (i + 2) * (Cn1 * V(i + 2, 0));
+    daydz_m1 += 0.5e0 * i * (Cn1 * W(i + 2, 2) - Sn1 * V(i + 2, 2)) -
+                0.5e0 * fac * (i + 2) * (Sn1 * V(i + 2, 0));
     dazdz_m1 += (double)(i * (i + 1)) * (Cn1 * V(i + 2, 1) + Sn1 * W(i + 2, 1));
 
     fac *= ((double)(i + 2) / (double)i);
@@ -203,14 +208,14 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // Sum-up partial derivatives, column-wise
   partials(0, 0) = daxdx_m0 + daxdx_m1 + daxdx_m2; // dax/dx
   partials(1, 0) = daxdy_m0 + daxdy_m1 + daxdy_m2; // dax/dy
-  partials(2, 0) = daxdz_m0 + daxdz_m2;            // dax/dz
+  partials(2, 0) = daxdz_m0 + daxdz_m1 + daxdz_m2; // dax/dz
 
-  partials(0, 1) = partials(0, 1);      // day/dx
+  partials(0, 1) = partials(1, 0);      // day/dx
   partials(1, 1) = 1e0;                 // day/dy
-  partials(2, 1) = daydz_m0 + daydz_m2; // day/dz
+  partials(2, 1) = daydz_m0 + daydz_m1 + daydz_m2; // day/dz
 
-  partials(0, 2) = partials(0, 2);                 // daz/dx
-  partials(1, 2) = partials(1, 2);                 // daz/dy
+  partials(0, 2) = partials(2, 0);                 // daz/dx
+  partials(1, 2) = partials(2, 1);                 // daz/dy
   partials(2, 2) = dazdz_m0 + dazdz_m1 + dazdz_m2; // daz/dz
 
   // computation of day / dy from the fact that:
-- 
2.43.0


From 675ea17c6b25d2de5302c39eb2f53ebdd390ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 08/30] fix: point mass partials use the satellite-body
 distance and the right sign

---
 src/gravity/point_mass_acceleration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravity/point_mass_acceleration.cpp b/src/gravity/point_mass_acceleration.cpp
index 1ea8059..e931d0a 100644
--- a/src/gravity/point_mass_acceleration.cpp
+++ b/src/gravity/point_mass_acceleration.cpp
@@ -36,9 +36,9 @@ dso::point_mass_accel(double GM, const Eigen::Matrix<double, 3, 1> &rsat,
   // const Eigen::Matrix<double, 3, 1> a = (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 
   // partials w.r.t. position
-  const double sn5 = sn2 * sn2 * sn;
+  const double dn5 = dn2 * dn2 * dn;
   partials = (-GM) * ( Eigen::Matrix<double, 3, 3>::Identity() / (dn*dn2) 
-  +3e0 * (d*d.transpose()) / sn5);
+  -3e0 * (d*d.transpose()) / dn5);
 
   return (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 }
-- 
2.43.0


From 88110f3e8963746d7ac04681400abf2efda8c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 09/30] fix: row-wise Lagrange recursion scales the whole
 sectorial term

---
 src/gravity/lagrange_poly.cpp   | 4 ++--
 var/icgem/src/lagrange_poly.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gravity/lagrange_poly.cpp b/src/gravity/lagrange_poly.cpp
index fea9ca7..074f556 100644
--- a/src/gravity/lagrange_poly.cpp
+++ b/src/gravity/lagrange_poly.cpp
@@ -41,8 +41,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
diff --git a/var/icgem/src/lagrange_poly.cpp b/var/icgem/src/lagrange_poly.cpp
index bd8848d..fa6a288 100644
--- a/var/icgem/src/lagrange_poly.cpp
+++ b/var/icgem/src/lagrange_poly.cpp
@@ -41,8 +41,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
-- 
2.43.0


From 0dd1ff731203dfec5a1477f2415cc8d5ea9ffca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 10/30] fix: var/icgem y-acceleration uses W/V terms of order
 m-1 in the right places

---
 var/icgem/src/gravity_acceleration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/icgem/src/gravity_acceleration.cpp b/var/icgem/src/gravity_acceleration.cpp
index cd53e5b..b9fdd48 100644
--- a/var/icgem/src/gravity_acceleration.cpp
+++ b/var/icgem/src/gravity_acceleration.cpp
@@ -41,7 +41,7 @@ int dso::grav_potential_accel(
       xacc2 += 0.5e0 * (-Cnm * Vnp1mp1 - Snm * Wnp1mp1) +
                fac * (Cnm * Vnp1mm1 + Snm * Wnp1mm1);
       yacc2 += 0.5e0 * (-Cnm * Wnp1mp1 + Snm * Vnp1mp1) +
-               fac * (-Cnm * Vnp1mm1 + Snm * Wnp1mm1);
+               fac * (-Cnm * Wnp1mm1 + Snm * Vnp1mm1);
       zacc += (i - j + 1) * (-Cnm * Vnp1mp0 - Snm * Wnp1mp0);
     }
   }
-- 
2.43.0


From 099c459c75e205485a8b33ef1b10b47e9b6a4ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 11/30] fix: Lagrange polynomials are computed when assertions
 are off

---
 src/egravity.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/egravity.hpp b/src/egravity.hpp
index e524b56..5bd4f39 100644
--- a/src/egravity.hpp
+++ b/src/egravity.hpp
@@ -168,7 +168,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() >= degree + 2 && V.cols() >= order + 2);
   assert(W.rows() >= degree + 2 && W.cols() >= order + 2);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W));
+  [[maybe_unused]] const int error =
+      dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc);
 }
@@ -188,7 +190,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() == degree + 3 && V.cols() == order + 3);
   assert(W.rows() == degree + 3 && W.cols() == order + 3);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W));
+  [[maybe_unused]] const int error =
+      dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc,
                               partials);
-- 
2.43.0


From eab4ee95a169ce5b481b658765540acbcc5e7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 12/30] fix: drag_accel (true-of-date) keeps the relative
 velocity, not an expression over a dead temporary

---
 src/astrodynamics/drag.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/astrodynamics/drag.cpp b/src/astrodynamics/drag.cpp
index 5145ea1..bf02570 100644
--- a/src/astrodynamics/drag.cpp
+++ b/src/astrodynamics/drag.cpp
@@ -26,11 +26,11 @@ dso::drag_accel(const Eigen::Matrix<double, 3, 1> &rsat,
   const Eigen::Matrix<double, 3, 1> omega{omegav};
 
   // position and velocity of satellite to true-of-date system
-  const auto rtod = rbpn * rsat;
-  const auto vtod = rbpn * vsat;
+  const Eigen::Matrix<double, 3, 1> rtod = rbpn * rsat;
+  const Eigen::Matrix<double, 3, 1> vtod = rbpn * vsat;
 
   // Velocity relative to the Earth's atmosphere
-  const auto vrel = vtod - omega.cross(rtod);
+  const Eigen::Matrix<double, 3, 1> vrel = vtod - omega.cross(rtod);
   const auto vabs = vrel.norm();
 
   // Acceleration
-- 
2.43.0


From db2093655d394a28a4ff71e176e6da05221174b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 13/30] fix: perifocal matrix third row uses the argument of
 perigee

---
 src/astrodynamics/perifocal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/perifocal.cpp b/src/astrodynamics/perifocal.cpp
index 76a89f5..2710d1f 100644
--- a/src/astrodynamics/perifocal.cpp
+++ b/src/astrodynamics/perifocal.cpp
@@ -19,8 +19,8 @@ dso::Mat3x3 dso::perifocal2equatorial_matrix(double Omega, double omega,
   const double m10 = sO * co + cO * so * ci;
   const double m11 = -sO * so + cO * co * ci;
   const double m12 = -cO * si;
-  const double m20 = sO * si;
-  const double m21 = cO * si;
+  const double m20 = so * si;
+  const double m21 = co * si;
   const double m22 = ci;
 
   return dso::Mat3x3({m00, m01, m02, m10, m11, m12, m20, m21, m22});
-- 
2.43.0


From 49678c8a75c468265e35d688d465938c20463abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 14/30] fix: elements2state (Eigen) rotates by node,
 inclination and perigee in that order

---
 src/astrodynamics/state2kepler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index e74fcd0..54e61d5 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -79,9 +79,9 @@ Eigen::Matrix<double, 6, 1> dso::elements2state(double GM, double dt,
   const double Omega = ele.Omega();
   const double omega = ele.omega();
   const double i = ele.inclination();
-  Eigen::Matrix3d R(Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()) *
+  Eigen::Matrix3d R(Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()) *
                     Eigen::AngleAxisd(-i, Eigen::Vector3d::UnitX()) *
-                    Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()));
+                    Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()));
   //printf("PQW = [%+20.10f %+20.10f %20.10f]\n", R(0,0),R(0,1),R(0,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(1,0),R(1,1),R(1,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(2,0),R(2,1),R(2,2));
-- 
2.43.0


From 5ce7d16f3dd631017c42c45ec425f8d538eef084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 15/30] fix: eccentric anomaly in state2kepler_montenbruck
 divides by a squared

---
 src/astrodynamics/state2kepler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index 54e61d5..ae5a105 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -194,7 +194,7 @@ int dso::alternatives::state2kepler_montenbruck(const double *state,
   const double e = std::sqrt(1e0 - (p / a));
   keplerian[3] = e;
 
-  const double E = atan2(r.dot_product(v) / a * a / n, 1e0 - rmag / a);
+  const double E = atan2(r.dot_product(v) / (a * a) / n, 1e0 - rmag / a);
   const double sE = std::sin(E);
   // const double M = E - e * sE;
 
-- 
2.43.0


From 2d8465ba61fbe6600fd924b4931b7e663b32ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 16/30] fix: ycel2ter/yter2cel evaluate the rotation rate
 matrix before its temporary dies

---
 src/itrs2gcrs.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/itrs2gcrs.cpp b/src/itrs2gcrs.cpp
index 36718b6..e86120c 100644
--- a/src/itrs2gcrs.cpp
+++ b/src/itrs2gcrs.cpp
@@ -105,11 +105,11 @@ dso::ycel2ter(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
@@ -141,11 +141,11 @@ dso::yter2cel(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
-- 
2.43.0


From 8fb59d4a618a50edcdc457337e33d1a107bd7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 17/30] fix: gravity partials are rotated from the terrestrial
 to the celestial frame

---
 src/variational_equations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index d7fe823..a28eee6 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -71,8 +71,9 @@ void dso::VariationalEquations(
   //}
 #else
   gacc = rter2cel(gacc, rc2i, era, rpom);
-  const auto rc2ti = Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
-  gpartials = (rpom * rc2ti) * gpartials * (rpom * rc2ti).transpose();
+  const Eigen::Matrix<double, 3, 3> c2t =
+      rpom * (Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i);
+  gpartials = c2t.transpose() * gpartials * c2t;
   //for (int i=0; i<3; i++) {
   //  for (int j=0; j<3; j++) {
   //    printf(" %+.6f ",(rpom * rc2ti)(i,j));
-- 
2.43.0


From f38e366a173c1e46d6e374b1448f9dc66ebf13c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 18/30] fix: variational equations keep the UTC day when no
 borrow is needed and probe -Z for the density gradient

---
 src/variational_equations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index a28eee6..f6405f9 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -133,7 +133,7 @@ void dso::VariationalEquations(
     if (utc_fday > 1e0) {
       utc_fday -= 1e0;
       ++imjd;
-    } else if (utc_fday < 1e0) {
+    } else if (utc_fday < 0e0) {
       utc_fday += 1e0;
       --imjd;
     }
@@ -171,7 +171,7 @@ void dso::VariationalEquations(
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       p1 = aout.d[5];
-      unitv << 0e0, 0e0, 1e0;
+      unitv << 0e0, 0e0, -1e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       m1 = aout.d[5];
-- 
2.43.0


From eb756cbedc19f47d085eccc366fba6be695af2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 19/30] fix: variational equations call the frame, atmosphere
 and density models when assertions are off

---
 src/variational_equations.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index f6405f9..efe09d4 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -18,6 +18,8 @@ void dso::VariationalEquations(
   // current mjd, TAI
   const double cmjd = params.mjd_tai + tsec / dso::sec_per_day;
 
+  [[maybe_unused]] int error = 0;
+
   // terretrial to celestial for epoch
 #ifdef ABCD
   Eigen::Matrix<double, 3, 3> dt2c;
@@ -25,7 +27,8 @@ void dso::VariationalEquations(
 #else
   Eigen::Matrix<double, 3, 3> rc2i, rpom;
   double era,xlod;
-  assert(!gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod));
+  error = gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod);
+  assert(!error);
   // const auto t2c = (rpom * rc2ti).transpose() ;
 #endif
   //{
@@ -137,10 +140,12 @@ void dso::VariationalEquations(
       utc_fday += 1e0;
       --imjd;
     }
-    assert(!params.AtmDataFeed->update_params(imjd, utc_fday*86400e0));
+    error = params.AtmDataFeed->update_params(imjd, utc_fday*86400e0);
+    assert(!error);
     params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0));
     dso::nrlmsise00::OutParams aout;
-    assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+    error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+    assert(!error);
     const double atmdens = aout.d[5];
     Eigen::Matrix<double,3,1> drhodr;
     { // approximate arithmetic derivative w.r.t satellite ECEF position
@@ -149,31 +154,37 @@ void dso::VariationalEquations(
       // w.r.t X component
       unitv << 1e0, 0e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       p1 = aout.d[5];
       unitv << -1e0, 0e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       m1 = aout.d[5];
       drhodr(0) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Y component
       unitv << 0e0, 1e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       p1 = aout.d[5];
       unitv << 0e0, -1e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       m1 = aout.d[5];
       drhodr(1) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Z component
       unitv << 0e0, 0e0, 1e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       p1 = aout.d[5];
       unitv << 0e0, 0e0, -1e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       m1 = aout.d[5];
       drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
     }
-- 
2.43.0


From 3d64f8d8e2352b5ee1184797a5ba6e2841e128a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 20/30] fix: IntegrationParameters reads the Sun/Moon GM when
 assertions are off and is not copyable

---
 src/orbit_integration.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/orbit_integration.hpp b/src/orbit_integration.hpp
index 8464980..1513ff3 100644
--- a/src/orbit_integration.hpp
+++ b/src/orbit_integration.hpp
@@ -52,9 +52,14 @@ struct IntegrationParameters {
         degree(degree_), order(order_) {
     assert(degree_ == harmonics_.degree());
     // gravitational parameters
-    assert(!dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon));
+    [[maybe_unused]] const int error =
+        dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon);
+    assert(!error);
   };
 
+  IntegrationParameters(const IntegrationParameters &) = delete;
+  IntegrationParameters &operator=(const IntegrationParameters &) = delete;
+
   ~IntegrationParameters() noexcept {
     if (Lagrange_V)
       delete Lagrange_V;
-- 
2.43.0


From 0c3b3f23716d66154842725df681a91dbe0e5df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 21/30] fix: factorialRatio divides when the denominator is the
 larger argument

---
 src/factorial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorial.hpp b/src/factorial.hpp
index 95bf004..f83fd51 100644
--- a/src/factorial.hpp
+++ b/src/factorial.hpp
@@ -23,7 +23,7 @@ constexpr T factorialRatio() noexcept {
   T fact = (T)1;
   for (int i = minInt + 1; i <= maxInt; i++)
     fact *= (T)i;
-  return fact;
+  return (Nominator >= Denominator) ? fact : (T)1 / fact;
 } // factorialRatio
 
 template <typename T>
@@ -35,7 +35,7 @@ constexpr T factorialRatio(int Nominator, int Denominator) noexcept {
   T fact = (T)1;
   for (int i = minInt + 1; i <= maxInt; i++)
     fact *= (T)i;
-  return fact;
+  return (Nominator >= Denominator) ? fact : (T)1 / fact;
 } // factorialRatio
 
 }//dso
-- 
2.43.0


From cbd0947323dd17302193629d9dab51299308af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 22/30] fix: cone shadow model measures the angle from the
 anti-solar direction

---
 src/astrodynamics/occultation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index b072257..404f88b 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -21,7 +21,8 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
 
   const double r = r_sat.norm();
   const double s = r_sun.norm();
-  const double cosz = product / (r * s);
+  // angle of the satellite from the anti-solar direction
+  const double cosz = -product / (r * s);
   const double zeta = std::acos(cosz);
   const double sinz = std::sin(zeta);
   const double sath = r * cosz;
-- 
2.43.0


From 88fe674cba94df7e152616c50e23a008b1bde2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 23/30] fix: exponential atmosphere scale height of the 180-200
 km layer is 29.740 km

---
 src/atmosphere/exponential_atmospheric_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/exponential_atmospheric_model.cpp b/src/atmosphere/exponential_atmospheric_model.cpp
index e28c923..86434bb 100644
--- a/src/atmosphere/exponential_atmospheric_model.cpp
+++ b/src/atmosphere/exponential_atmospheric_model.cpp
@@ -29,7 +29,7 @@ const AtmLayer AtmTable[] = {
     {130, 140, 130, 8.484e-9, 12.636e0},
     {140, 150, 140, 3.845e-9, 16.149e0},
     {150, 180, 150, 2.070e-9, 22.523e0},
-    {180, 200, 180, 5.464e-10, 29740e0},
+    {180, 200, 180, 5.464e-10, 29.740e0},
     {200, 250, 200, 2.789e-10, 37.105e0},
     {250, 300, 250, 7.248e-11, 45.546e0},
     {300, 350, 300, 2.418e-11, 53.628e0},
-- 
2.43.0


From 72f9853bbb7ab457003edc52c05365b9b3e99464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 24/30] fix: EopLookUpTable copies all bytes, keeps the
 capacity on moves and releases its memory on move assignment

---
 src/eop.hpp | 55 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index c22744d..6be859f 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -176,7 +176,7 @@ public:
 
   /// @brief Move constructor
   EopLookUpTable(EopLookUpTable &&eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena{eopt.mem_arena},
+      : sz{eopt.sz}, capacity{eopt.capacity}, mem_arena{eopt.mem_arena},
         mjda{eopt.mjda}, xpa{eopt.xpa}, ypa{eopt.ypa}, ut1a{eopt.ut1a},
         dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda}, omegaa{eopt.omegaa} {
     eopt.sz = eopt.capacity = 0;
@@ -189,21 +189,29 @@ public:
       if (sz != eopt.sz) {
         this->resize(eopt.sz);
       }
-      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sz);
+      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena,
+                                   sz * sizeof(double));
       xpa = (double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz);
+                                  eopt.mem_arena + 1 * eopt.capacity,
+                                  sz * sizeof(double));
       ypa = (double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz);
+                                  eopt.mem_arena + 2 * eopt.capacity,
+                                  sz * sizeof(double));
       ut1a = (double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz);
+                                   eopt.mem_arena + 3 * eopt.capacity,
+                                  sz * sizeof(double));
       dxa = (double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz);
+                                  eopt.mem_arena + 4 * eopt.capacity,
+                                  sz * sizeof(double));
       dya = (double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz);
+                                  eopt.mem_arena + 5 * eopt.capacity,
+                                  sz * sizeof(double));
       loda = (double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz);
+                                   eopt.mem_arena + 6 * eopt.capacity,
+                                  sz * sizeof(double));
       omegaa = (double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz);
+                                     eopt.mem_arena + 7 * eopt.capacity,
+                                  sz * sizeof(double));
     }
     return *this;
   }
@@ -211,9 +219,10 @@ public:
   /// @brief Move assignment operator
   EopLookUpTable &operator=(EopLookUpTable &&eopt) noexcept {
     if (this != &eopt) {
-      // just move elements ...
+      // release own memory, then just move elements ...
+      delete[] mem_arena;
       sz = eopt.sz;
-      capacity = eopt.sz;
+      capacity = eopt.capacity;
       mem_arena = eopt.mem_arena;
       mjda = eopt.mjda;
       xpa = eopt.xpa;
@@ -235,21 +244,29 @@ public:
   ///        (both) equal to eopt's size.
   EopLookUpTable(const EopLookUpTable &eopt) noexcept
       : sz{eopt.sz}, capacity{eopt.sz}, mem_arena(new double[capacity * 8]),
-        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sz)),
+        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena,
+                                   sz * sizeof(double))),
         xpa((double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 1 * eopt.capacity,
+                                  sz * sizeof(double))),
         ypa((double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 2 * eopt.capacity,
+                                  sz * sizeof(double))),
         ut1a((double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz)),
+                                   eopt.mem_arena + 3 * eopt.capacity,
+                                  sz * sizeof(double))),
         dxa((double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 4 * eopt.capacity,
+                                  sz * sizeof(double))),
         dya((double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 5 * eopt.capacity,
+                                  sz * sizeof(double))),
         loda((double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz)),
+                                   eopt.mem_arena + 6 * eopt.capacity,
+                                  sz * sizeof(double))),
         omegaa((double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz)) {}
+                                     eopt.mem_arena + 7 * eopt.capacity,
+                                  sz * sizeof(double))) {}
 
   /// @brief Compute the effect of zonal Earth tides on the rotation of the
   ///        Earth (using iers2010::rg_zont2 on UT1-UTC, LOD and
-- 
2.43.0


From a0bf8c3244ccdbad037e56a7493631e55ac0c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 25/30] fix: EOP interpolation reports a failed Lagrange
 interpolation

---
 src/iers/eop_interpolate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iers/eop_interpolate.cpp b/src/iers/eop_interpolate.cpp
index 772c9e4..09daa8f 100644
--- a/src/iers/eop_interpolate.cpp
+++ b/src/iers/eop_interpolate.cpp
@@ -43,7 +43,8 @@ int dso::EopLookUpTable::interpolate(double tt_fmjd,
                                      dso::EopRecord &eopr, int order) const noexcept {
 
   // perform simple interpolation (lagrangian)
-  dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order);
+  if (dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order))
+    return 1;
 
   // TT as Julian centuries since J2000 (try to keep accuracy)
   double imjd;
-- 
2.43.0


From 5badf8c4649ea0fc5f7fbeee20f408f446f323de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 26/30] fix: solar mean anomaly rate and quadratic node term
 digits in the analytical Sun

---
 src/planets/sunpos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planets/sunpos.cpp b/src/planets/sunpos.cpp
index 71f57d9..7253812 100644
--- a/src/planets/sunpos.cpp
+++ b/src/planets/sunpos.cpp
@@ -49,7 +49,7 @@ int dso::sun_vector_vallado(double t, double *rsun) noexcept {
   const double lambda =
       std::fmod(280.460e0 + 36000.771e0 * t, 360e0); // [degrees]
   const double M =
-      std::fmod(357.5291092e0 + 35999.50534e0 * t, 360e0); // [degrees]
+      std::fmod(357.5291092e0 + 35999.05034e0 * t, 360e0); // [degrees]
   const double Mrad = dso::deg2rad(M);
   const double l_ecliptic = std::fmod(lambda + 1.914666471e0 * sin(Mrad) +
                                           0.019994643e0 * sin(2e0 * Mrad),
@@ -80,7 +80,7 @@ int dso::sun_vector_approx21(double t, double *rsun) noexcept {
   const double lambda = std::modf(cf1 + cf2 * t, &dummy) * pi2; // [rad]
 
   constexpr double cf3 = normalize_deg(357.5291092e0);
-  constexpr double cf4 = normalize_deg(35999.50534e0);
+  constexpr double cf4 = normalize_deg(35999.05034e0);
   const double M = std::modf(cf3 + cf4 * t, &dummy) * pi2; // [rad]
 
   const double lon_arg = 1.914666471e0 * sin(M) + 0.019994643e0 * sin(2e0 * M);
@@ -114,7 +114,7 @@ int dso::sun_vector_curtis(double n, double *rsun) noexcept {
                                    0.0200e0 * sin(2e0 * dso::deg2rad(M)),
                                360e0);
   // Calculate the obliquity ε [deg]
-  const double e = 23.439e0 - 3.65e-7 * n;
+  const double e = 23.439e0 - 3.56e-7 * n;
   // Calculate the unit vector u_n from the earth to the sun
   const double ux = cos(dso::deg2rad(lon));
   const double uy = cos(dso::deg2rad(e)) * sin(dso::deg2rad(lon));
-- 
2.43.0


From 9dd8a92cdff8bf9f299fe38658dd1a554d22946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 27/30] fix: Sun perturbation is converted from km/s2 to m/s2

---
 src/sunmoon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunmoon.cpp b/src/sunmoon.cpp
index aa12e71..ed42372 100644
--- a/src/sunmoon.cpp
+++ b/src/sunmoon.cpp
@@ -29,7 +29,7 @@ void dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
 
   // Sun-induced acceleration [km/sec^2]
   sun_acc = dso::point_mass_accel(GMSun, rsat * 1e-3, rSun);
-  sun_acc = sun_acc * 1e-3; // [m/sec^2]
+  sun_acc = sun_acc * 1e3; // [m/sec^2]
 
   // Moon-induced acceleration [m/sec^2]
   moon_acc =
-- 
2.43.0


From 01ccd2085166d9e929a2842ca5b2ee68d094b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 28/30] fix: parse_iers_C04 refuses more records than the table
 has room for

---
 src/iers/parse_c04.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iers/parse_c04.cpp b/src/iers/parse_c04.cpp
index 9af4ea6..f4c9166 100644
--- a/src/iers/parse_c04.cpp
+++ b/src/iers/parse_c04.cpp
@@ -76,6 +76,14 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
       // if the date is ok, collect data
       if (cmjd >= start_mjd && cmjd < end_mjd) {
         error = 0;
+        // the table only has room for one record per day
+        if (sz >= days) {
+          fprintf(stderr,
+                  "[ERROR] More EOP records than days in interval. EOP file is "
+                  "%s (traceback: %s)\n",
+                  c04fn, __func__);
+          return 3;
+        }
         // do we need to transform the given UTC date to TAI?
         if (utc2tt) {
           dso::modified_julian_day tai_mjd;
-- 
2.43.0


From a96e57ae8f2b2951edbb6fda06841e7e17d66be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:44 +0000
Subject: [PATCH 29/30] fix: a-priori wet delays of all beacons use the
 three-parameter stride of the linear clock layout

---
 src/filters/filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filters/filters.hpp b/src/filters/filters.hpp
index f595bff..925c200 100644
--- a/src/filters/filters.hpp
+++ b/src/filters/filters.hpp
@@ -148,7 +148,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.x(tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.x(idx) = val;
@@ -165,7 +165,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.P(tropo_index(beacon_nr), tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.P(idx,idx) = val;
-- 
2.43.0


From 214548235bce4908965c6df6c5376b2627c7aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:39 +0000
Subject: [PATCH 30/30] fix: polynomial model owns its coefficients through
 assignment and moves

---
 src/filters/models.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index d271e8b..2ff3fb2 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -41,7 +41,7 @@ namespace dso {
     PolynomialModel(int porder) noexcept
         : _order(porder), cf(new double[porder + 1]){};
     
-    ~PolynomialModel() noexcept { if (_order) delete[] cf;}
+    ~PolynomialModel() noexcept { delete[] cf; }
     
     PolynomialModel(const PolynomialModel &p) noexcept
         : _order(p._order), xref(p.xref), cf(new double[p._order + 1]) {
@@ -49,21 +49,29 @@ namespace dso {
     }
     
     PolynomialModel &operator=(const PolynomialModel &p) noexcept {
-      if (*this != p) {
+      if (this != &p) {
         this->resize(p._order);
         std::memcpy(cf, p.cf, sizeof(double)*(_order+1));
-        xref = p.xref();
+        xref = p.xref;
       }
       return *this;
     }
 
     PolynomialModel(PolynomialModel &&p) noexcept
-        : _order(p._order), xref(p.xref), cf(p.cf) {};
+        : _order(p._order), xref(p.xref), cf(p.cf) {
+      p._order = -1;
+      p.cf = nullptr;
+    }
     
     PolynomialModel &operator=(PolynomialModel &&p) noexcept {
-      _order = p._order;
-      xref = p.xref;
-      cf = p.cf;
+      if (this != &p) {
+        delete[] cf;
+        _order = p._order;
+        xref = p.xref;
+        cf = p.cf;
+        p._order = -1;
+        p.cf = nullptr;
+      }
       return *this;
     }
 
-- 
2.43.0

