From 55a883033d87a5afc1b6821399c1eba7108058cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:44 +0000
Subject: [PATCH 01/32] fix: hand over forward-sweep data when jMin is a rank's
 last surface in TridiagonalSolveOpenMP

---
 src/vmecpp/cpp/vmecpp/common/util/util.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/util/util.cc b/src/vmecpp/cpp/vmecpp/common/util/util.cc
index 37cb90f..89fd3b4 100644
--- a/src/vmecpp/cpp/vmecpp/common/util/util.cc
+++ b/src/vmecpp/cpp/vmecpp/common/util/util.cc
@@ -156,6 +156,17 @@ void TridiagonalSolveOpenMP(
         m_cr[k][idx_mn] /= m_dr[idx_mn];
         m_cz[k][idx_mn] /= m_dz[idx_mn];
       }  // k
+
+      if (jMin[mn] == nsMaxF - 1) {
+        // The forward sweep below starts at jMin + 1, so if jMin is the last
+        // surface of this rank, leave the handover data for the next rank here.
+        m_handover_ar[mn] = m_ar[idx_mn];
+        m_handover_az[mn] = m_az[idx_mn];
+        for (int k = 0; k < nRHS; ++k) {
+          m_handover_cr[k][mn] = m_cr[k][idx_mn];
+          m_handover_cz[k][mn] = m_cz[k][idx_mn];
+        }  // k
+      }
     }  // mn
   }  // myid == 0
 
-- 
2.43.0


From c1f866c70c9d1b4a3ca9c5fd7988a9394bc69b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:07 +0000
Subject: [PATCH 02/32] fix: reject JSON integers that do not fit into an int
 instead of truncating them

---
 src/vmecpp/cpp/util/json_io/json_io.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/vmecpp/cpp/util/json_io/json_io.cc b/src/vmecpp/cpp/util/json_io/json_io.cc
index 86f8178..dbee3c0 100644
--- a/src/vmecpp/cpp/util/json_io/json_io.cc
+++ b/src/vmecpp/cpp/util/json_io/json_io.cc
@@ -4,6 +4,8 @@
 // SPDX-License-Identifier: MIT
 #include "util/json_io/json_io.h"
 
+#include <cstdint>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -11,7 +13,19 @@
 
 namespace {
 using nlohmann::json;
+
+// JSON integers are 64 bit wide; converting one that does not fit into an int
+// would silently change its value.
+bool FitsIntoInt(const json& value) {
+  if (value.is_number_unsigned()) {
+    return value.get<std::uint64_t>() <=
+           static_cast<std::uint64_t>(std::numeric_limits<int>::max());
+  }
+  const std::int64_t number = value.get<std::int64_t>();
+  return number >= std::numeric_limits<int>::min() &&
+         number <= std::numeric_limits<int>::max();
 }
+}  // namespace
 
 namespace json_io {
 
@@ -42,6 +56,11 @@ absl::StatusOr<std::optional<int>> JsonReadInt(const json& j,
         absl::StrFormat("JSON element '%s' is not an integer", name));
   }
 
+  if (!FitsIntoInt(j[name])) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("JSON element '%s' is out of range", name));
+  }
+
   return j[name];
 }  // JsonReadInt
 
@@ -91,6 +110,10 @@ absl::StatusOr<std::optional<Eigen::VectorXi>> JsonReadVectorInt(
   int i = 0;
   for (const auto& entry : j[name]) {
     if (entry.is_number_integer()) {
+      if (!FitsIntoInt(entry)) {
+        return absl::InvalidArgumentError(
+            absl::StrFormat("JSON entry '%s'[%d] is out of range", name, i));
+      }
       entries.push_back(entry);
     } else {
       return absl::InvalidArgumentError(
-- 
2.43.0


From ce058becaf86684c769c4b52a7f0904a3f68cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:45 +0000
Subject: [PATCH 03/32] fix: write the whole asymmetric axis and boundary
 arrays to JSON and HDF5

---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index cd3a0e9..79f60f4 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -312,8 +312,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(raxis_c, "/indata/raxis_c", file);
   WriteH5Dataset(zaxis_s, "/indata/zaxis_s", file);
   if (lasym) {
-    WriteH5Dataset(raxis_s->value(), "/indata/raxis_s", file);
-    WriteH5Dataset(zaxis_c->value(), "/indata/zaxis_c", file);
+    WriteH5Dataset(*raxis_s, "/indata/raxis_s", file);
+    WriteH5Dataset(*zaxis_c, "/indata/zaxis_c", file);
   }
 
   // 2D matrices
@@ -321,8 +321,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(rbc, "/indata/rbc", file);
   WriteH5Dataset(zbs, "/indata/zbs", file);
   if (lasym) {
-    WriteH5Dataset(rbs->value(), "/indata/rbs", file);
-    WriteH5Dataset(zbc->value(), "/indata/zbc", file);
+    WriteH5Dataset(*rbs, "/indata/rbs", file);
+    WriteH5Dataset(*zbc, "/indata/zbc", file);
   }
 
   return absl::OkStatus();
@@ -1200,8 +1200,8 @@ absl::StatusOr<std::string> VmecINDATA::ToJson() const {
   output["raxis_c"] = raxis_c;
   output["zaxis_s"] = zaxis_s;
   if (lasym) {
-    output["raxis_s"] = raxis_s->value();
-    output["zaxis_c"] = zaxis_c->value();
+    output["raxis_s"] = *raxis_s;
+    output["zaxis_c"] = *zaxis_c;
   }
 
   // (Initial Guess for) Boundary Geometry
-- 
2.43.0


From fce500cd202ef7e4309f0e90ca33b1b19d72211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:45 +0000
Subject: [PATCH 04/32] fix: ignore boundary coefficients with negative m (or n
 outside [-ntor, ntor]) instead of writing out of bounds

---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 79f60f4..0800afb 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -982,14 +982,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.rbc.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_rbc->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring rbc entry with m = %d, since m is larger than (mpol - 1) "
-            "= %d",
+            "Ignoring rbc entry with m = %d, since m is not in [0, mpol - 1] "
+            "= [0, %d]",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring rbc entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1012,14 +1012,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.zbs.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_zbs->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring zbs entry with m = %d, since m is larger than (mpol - 1) "
-            "= %d",
+            "Ignoring zbs entry with m = %d, since m is not in [0, mpol - 1] "
+            "= [0, %d]",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring zbs entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1049,14 +1049,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_rbs->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_rbs->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring rbs entry with m = %d, since m is larger than (mpol - "
-              "1) = %d",
+              "Ignoring rbs entry with m = %d, since m is not in [0, mpol - 1] "
+              "= [0, %d]",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring rbs entry with n = %d, since |n| is larger than ntor = "
               "%d",
@@ -1079,14 +1079,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_zbc->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_zbc->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring zbc entry with m = %d, since m is larger than (mpol - "
-              "1) = %d",
+              "Ignoring zbc entry with m = %d, since m is not in [0, mpol - 1] "
+              "= [0, %d]",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring zbc entry with n = %d, since |n| is larger than ntor = "
               "%d",
-- 
2.43.0


From f6cab29a8194d30bb9bb5beb869e97bb43b1fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 05/32] fix: refuse negative mpol or ntor before sizing arrays
 in FromJson

---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 0800afb..ba11968 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -531,6 +531,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.ntor = maybe_ntor->value();
   }
 
+  // needed here already, since arrays are sized with mpol and ntor below
+  if (vmec_indata.mpol < 0 || vmec_indata.ntor < 0) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variables 'mpol' and 'ntor' must not be negative, but are %d "
+        "and %d\n",
+        vmec_indata.mpol, vmec_indata.ntor));
+  }
+
   auto maybe_mpol_geometry = JsonReadInt(j, "mpol_geometry");
   if (!maybe_mpol_geometry.ok()) {
     return maybe_mpol_geometry.status();
-- 
2.43.0


From 917303b9627fe263df8d90d813436860a063d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 06/32] fix: default missing asymmetric axis arrays to zero in
 FromJson

---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index ba11968..c42fc26 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -951,6 +951,8 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
   }
 
   if (vmec_indata.lasym) {
+    // zero-padded below if not specified
+    vmec_indata.raxis_s.emplace();
     auto maybe_raxis_s = JsonReadVectorDouble(j, "raxis_s");
     if (!maybe_raxis_s.ok()) {
       return maybe_raxis_s.status();
@@ -965,6 +967,8 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
       return status;
     }
 
+    // zero-padded below if not specified
+    vmec_indata.zaxis_c.emplace();
     auto maybe_zaxis_c = JsonReadVectorDouble(j, "zaxis_c");
     if (!maybe_zaxis_c.ok()) {
       return maybe_zaxis_c.status();
-- 
2.43.0


From 893d0225e1f5d0f9d95aa72fb717124d7cf11bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:27 +0000
Subject: [PATCH 07/32] fix: check that ftol_array and niter_array cover all
 multigrid steps

---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc   | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index c42fc26..2019be3 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1333,6 +1333,13 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   // ftol_array
+  // * needs to have an entry for every multigrid step
+  if (vmec_indata.ftol_array.size() < vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variable 'ftol_array' needs to have at least as many entries as "
+        "'ns_array' (%ld), but size is %ld\n",
+        vmec_indata.ns_array.size(), vmec_indata.ftol_array.size()));
+  }
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
     double ftol = vmec_indata.ftol_array[idx];
@@ -1345,6 +1352,13 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   // niter_array
+  // * needs to have an entry for every multigrid step
+  if (vmec_indata.niter_array.size() < vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variable 'niter_array' needs to have at least as many entries as "
+        "'ns_array' (%ld), but size is %ld\n",
+        vmec_indata.ns_array.size(), vmec_indata.niter_array.size()));
+  }
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
     int niter = vmec_indata.niter_array[idx];
-- 
2.43.0


From aa0afbf3220ffc193a124743a8360ef3bf3b11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:27 +0000
Subject: [PATCH 08/32] fix: report missing asymmetric arrays in IsConsistent
 instead of dereferencing them

---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 2019be3..1a2d537 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1549,6 +1549,12 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   if (vmec_indata.lasym) {
+    if (!vmec_indata.raxis_s.has_value() || !vmec_indata.zaxis_c.has_value() ||
+        !vmec_indata.rbs.has_value() || !vmec_indata.zbc.has_value()) {
+      return absl::InvalidArgumentError(
+          "input variables 'raxis_s', 'zaxis_c', 'rbs' and 'zbc' need to be "
+          "set when 'lasym' is true.");
+    }
     // raxis_s
     if (vmec_indata.raxis_s->size() != expected_axis_size) {
       return absl::InvalidArgumentError(
-- 
2.43.0


From e92740fc4671486cf2aa9374af69b4f394583b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 09/32] fix: read netCDF variables with typed calls so that
 other numeric types are converted, not misread

---
 src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
index eef6215..f466a29 100644
--- a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
+++ b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
@@ -121,8 +121,8 @@ absl::StatusOr<char> NetcdfReadChar(int ncid,
   // actually read data
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<char> variable_data(1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -209,8 +209,8 @@ absl::StatusOr<std::string> NetcdfReadString(int ncid,
   // one extra element that stays at 0 in order to properly zero-terminate the
   // string
   std::vector<char> variable_data(total_element_count + 1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -247,8 +247,9 @@ absl::StatusOr<std::vector<double> > NetcdfReadArray1D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions->data(),
+                         variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -283,8 +284,8 @@ absl::StatusOr<std::vector<std::vector<double> > > NetcdfReadArray2D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -327,8 +328,8 @@ NetcdfReadArray3D(int ncid, const std::string& variable_name) {
   size_t total_element_count = dimensions[0] * dimensions[1] * dimensions[2];
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
-- 
2.43.0


From 398ebb8dcded67836faac2b6008d393cbdfd62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:48 +0000
Subject: [PATCH 10/32] fix: pass C strings to HDF5 when writing and reading
 lists of strings

---
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
index 1805011..7e18d93 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
@@ -32,7 +32,12 @@ void hdf5_io::WriteH5Dataset(const std::vector<std::string>& vs,
   H5::DataSpace dataspace(/*rank=*/1, /*dims=*/&size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
   H5::DataSet dataset = file.createDataSet(name, str_type, dataspace);
-  dataset.write(vs.data(), str_type);
+  // HDF5 expects an array of C strings for variable-length string data.
+  std::vector<const char*> c_strings(vs.size());
+  for (size_t i = 0; i < vs.size(); ++i) {
+    c_strings[i] = vs[i].c_str();
+  }
+  dataset.write(c_strings.data(), str_type);
 }
 
 void hdf5_io::WriteH5Dataset(const std::string& str, const std::string& name,
@@ -64,9 +69,21 @@ void hdf5_io::ReadH5Dataset(std::vector<std::string>& vs,
   hsize_t size;
   space.getSimpleExtentDims(&size);
 
-  vs.resize(size);
+  // HDF5 returns variable-length string data as an array of C strings that it
+  // allocated, which have to be handed back after copying them.
+  std::vector<char*> c_strings(size, nullptr);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
-  ds.read(vs.data(), str_type);
+  ds.read(c_strings.data(), str_type);
+
+  vs.assign(size, "");
+  for (size_t i = 0; i < c_strings.size(); ++i) {
+    if (c_strings[i] != nullptr) {
+      vs[i] = c_strings[i];
+    }
+  }
+  if (size > 0) {
+    H5::DataSet::vlenReclaim(c_strings.data(), str_type, space);
+  }
 }
 
 void hdf5_io::ReadH5Dataset(std::string& str, const std::string& dataset,
-- 
2.43.0


From a92fb517e916d6ded8f6c516828894d654518168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:14 +0000
Subject: [PATCH 11/32] fix: report an error when WriteFile could not store the
 contents

---
 src/vmecpp/cpp/util/file_io/file_io.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/cpp/util/file_io/file_io.cc b/src/vmecpp/cpp/util/file_io/file_io.cc
index 6651fcc..581bc12 100644
--- a/src/vmecpp/cpp/util/file_io/file_io.cc
+++ b/src/vmecpp/cpp/util/file_io/file_io.cc
@@ -41,6 +41,10 @@ absl::Status file_io::WriteFile(const std::filesystem::path& filename,
 
   file_stream.flush();
   file_stream.close();
+  if (!file_stream.good()) {
+    return absl::DataLossError("File " + filename.string() +
+                               " could not be written completely.");
+  }
 
   return absl::OkStatus();
 }
-- 
2.43.0


From 1940c38fc036bde5b442a4cae56603ef5b5f55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:07 +0000
Subject: [PATCH 12/32] fix: write the magnetic axis of a VMEC++ JSON input to
 the INDATA namelist

---
 src/vmecpp/_util.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index f5518fc..0d33974 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -229,10 +229,15 @@ def vmecpp_json_to_indata(vmecpp_json: dict[str, Any]) -> str:
     indata += _int_to_namelist("nvacskip", vmecpp_json)
 
     indata += "\n  ! initial guess for magnetic axis\n"
-    indata += _float_array_to_namelist("raxis_cc", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("raxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cc", vmecpp_json)
+    # The VMEC++ JSON names differ from the INDATA ones, e.g. raxis_c vs. raxis_cc.
+    for indata_name, json_name in (
+        ("raxis_cc", "raxis_c"),
+        ("zaxis_cs", "zaxis_s"),
+        ("raxis_cs", "raxis_s"),
+        ("zaxis_cc", "zaxis_c"),
+    ):
+        axis = vmecpp_json.get(json_name, vmecpp_json.get(indata_name))
+        indata += _float_array_to_namelist(indata_name, {indata_name: axis})
 
     indata += "\n  ! (initial guess for) boundary shape\n"
     indata += _fourier_coefficients_to_namelist("rbc", vmecpp_json)
-- 
2.43.0


From 0c53aa762940f42edb25b0c9bed99cb739662e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:07 +0000
Subject: [PATCH 13/32] fix: double quotes inside character values of the
 INDATA namelist

---
 src/vmecpp/_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index 0d33974..ae00d96 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -261,7 +261,9 @@ def _string_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
     if varname not in vmecpp_json:
         return ""
 
-    return f"  {varname} = '{vmecpp_json[varname]}'\n"
+    # A quote inside a Fortran character literal is written twice.
+    escaped = vmecpp_json[varname].replace("'", "''")
+    return f"  {varname} = '{escaped}'\n"
 
 
 def _int_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
-- 
2.43.0


From 1b61593d8645594ec3d40264a6032c1bcf45c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:49 +0000
Subject: [PATCH 14/32] fix: read empty integer and logical arrays back with
 their declared type

---
 src/vmecpp/_pydantic_numpy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmecpp/_pydantic_numpy.py b/src/vmecpp/_pydantic_numpy.py
index 5be497b..e71c099 100644
--- a/src/vmecpp/_pydantic_numpy.py
+++ b/src/vmecpp/_pydantic_numpy.py
@@ -234,6 +234,11 @@ def _deserialize_value(
     if issubclass(declared_type, NpOrAbstractArray) and isinstance(value, list):
         fixed_list = _reconstruct_floats_for_numpy(value)
         np_data = np.array(fixed_list)
+        if np_data.size == 0:
+            # An empty list does not carry a dtype, use one that the type declares.
+            for dtype in _NUMPY_ALLOWED_NONBINARY_DTYPES:
+                if isinstance(np_data.astype(dtype), declared_type):
+                    return np_data.astype(dtype)
         # Only accept allowed dtypes, to avoid misinterpreting non-numpy lists.
         if np_data.dtype in _NUMPY_ALLOWED_NONBINARY_DTYPES:
             return np_data
-- 
2.43.0


From 35b5d3ce3d3c640f75b0e05d36163b982f999503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:33 +0000
Subject: [PATCH 15/32] fix: axis guess leaves a toroidal plane unset when
 nzeta is odd

The stellarator-symmetric mirror loop stopped one plane short for an odd number
of toroidal planes, so the plane at nzeta/2 + 1 kept R = Z = 0 and pulled the new
axis away from the plasma; the plane at nzeta/2 was also treated as a symmetry
plane, which it is only for an even number of planes.
---
 src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
index 14d453c..77fe8f3 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
@@ -414,7 +414,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
       double z_grid = min_z + index_z * delta_z;
 
       // early exit in some cases(?)
-      if (!s.lasym && (k == 0 || k == s.nZeta / 2)) {
+      if (!s.lasym && (k == 0 || 2 * k == s.nZeta)) {
         z_grid = 0.0;
         if (index_z > 0) {
           break;
@@ -454,7 +454,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
   // in order to always have a full toroidal module for the Fourier transform
   // below
   if (!s.lasym) {
-    for (int k = 1; k < s.nZeta / 2; ++k) {
+    for (int k = 1; k < (s.nZeta + 1) / 2; ++k) {
       const int k_reversed = (s.nZeta - k) % s.nZeta;
       w.new_r_axis[k_reversed] = w.new_r_axis[k];
       w.new_z_axis[k_reversed] = -w.new_z_axis[k];
-- 
2.43.0


From 32710c53715811dff3b9814aa177801a51893c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:45 +0000
Subject: [PATCH 16/32] fix: axis guess ignores half of an asymmetric boundary

For non-stellarator-symmetric runs the boundary was evaluated on theta in [0, pi]
only and the new axis was searched in half of the toroidal planes; all other
points and planes kept R = Z = 0. Evaluate the full poloidal range and search
every plane when lasym is set.
---
 .../vmec/boundaries/guess_magnetic_axis.cc    | 124 ++++++++++--------
 1 file changed, 68 insertions(+), 56 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
index 77fe8f3..ac5422a 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
@@ -227,8 +227,17 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // inverse Fourier transforms:
   // evaluate R, Z, dR/dTheta and dZ/dTheta at radial locations ns12 and ns-1
+  // In the non-stellarator-symmetric case, the full poloidal range is needed.
+  const int num_theta = s.lasym ? s.nThetaEven : s.nThetaReduced;
   for (int k = 0; k < s.nZeta; ++k) {
-    for (int l = 0; l < s.nThetaReduced; ++l) {
+    for (int l = 0; l < num_theta; ++l) {
+      // The poloidal basis is tabulated on [0, pi] only; on ]pi, 2 pi[,
+      // evaluate it at 2 pi - theta, where the sine terms have the opposite
+      // sign.
+      const bool is_mirrored = l >= s.nThetaReduced;
+      const int l_basis = is_mirrored ? s.nThetaEven - l : l;
+      const double sign_sin = is_mirrored ? -1.0 : 1.0;
+
       // set target storage to zero
       w.r_lcfs[k][l] = 0.0;
       w.z_lcfs[k][l] = 0.0;
@@ -242,83 +251,85 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
       for (int m = 0; m < s.mpol; ++m) {
         for (int n = 0; n <= s.ntor; ++n) {
-          int idx_ml = m * s.nThetaReduced + l;
+          int idx_ml = m * s.nThetaReduced + l_basis;
+          const double cosmu = t.cosmu[idx_ml];
+          const double cosmum = t.cosmum[idx_ml];
+          const double sinmu = sign_sin * t.sinmu[idx_ml];
+          const double sinmum = sign_sin * t.sinmum[idx_ml];
           int idx_kn = k * (s.nnyq2 + 1) + n;
           int idx_mn = m * (s.ntor + 1) + n;
 
           const double basis_norm = 1.0 / (t.mscale[m] * t.nscale[n]);
 
-          w.r_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
-          w.z_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+          w.r_lcfs[k][l] += basis_norm * rbcc[idx_mn] * cosmu * t.cosnv[idx_kn];
+          w.z_lcfs[k][l] += basis_norm * zbsc[idx_mn] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rbcc[idx_mn] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zbsc[idx_mn] * cosmum * t.cosnv[idx_kn];
           w.r_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * cosmu * t.cosnv[idx_kn];
           w.z_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * cosmum * t.cosnv[idx_kn];
           if (s.lthreed) {
-            w.r_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.sinnv[idx_kn];
-            w.z_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.sinnv[idx_kn];
-            w.d_r_d_theta_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            w.d_z_d_theta_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+            w.r_lcfs[k][l] +=
+                basis_norm * rss_boundary[m][n] * sinmu * t.sinnv[idx_kn];
+            w.z_lcfs[k][l] +=
+                basis_norm * zcs_boundary[m][n] * cosmu * t.sinnv[idx_kn];
+            w.d_r_d_theta_lcfs[k][l] +=
+                basis_norm * rss_boundary[m][n] * cosmum * t.sinnv[idx_kn];
+            w.d_z_d_theta_lcfs[k][l] +=
+                basis_norm * zcs_boundary[m][n] * sinmum * t.sinnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rss_half[m][n] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * rss_half[m][n] * sinmu * t.sinnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcs_half[m][n] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
-            w.d_r_d_theta_half[k][l] += basis_norm * rss_half[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            w.d_z_d_theta_half[k][l] += basis_norm * zcs_half[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * zcs_half[m][n] * cosmu * t.sinnv[idx_kn];
+            w.d_r_d_theta_half[k][l] +=
+                basis_norm * rss_half[m][n] * cosmum * t.sinnv[idx_kn];
+            w.d_z_d_theta_half[k][l] +=
+                basis_norm * zcs_half[m][n] * sinmum * t.sinnv[idx_kn];
           }
           if (s.lasym) {
-            w.r_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.cosnv[idx_kn];
-            w.z_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.cosnv[idx_kn];
-            w.d_r_d_theta_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
-            w.d_z_d_theta_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+            w.r_lcfs[k][l] +=
+                basis_norm * rsc_boundary[m][n] * sinmu * t.cosnv[idx_kn];
+            w.z_lcfs[k][l] +=
+                basis_norm * zcc_boundary[m][n] * cosmu * t.cosnv[idx_kn];
+            w.d_r_d_theta_lcfs[k][l] +=
+                basis_norm * rsc_boundary[m][n] * cosmum * t.cosnv[idx_kn];
+            w.d_z_d_theta_lcfs[k][l] +=
+                basis_norm * zcc_boundary[m][n] * sinmum * t.cosnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * rsc_half[m][n] * sinmu * t.cosnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
-            w.d_r_d_theta_half[k][l] += basis_norm * rsc_half[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
-            w.d_z_d_theta_half[k][l] += basis_norm * zcc_half[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * zcc_half[m][n] * cosmu * t.cosnv[idx_kn];
+            w.d_r_d_theta_half[k][l] +=
+                basis_norm * rsc_half[m][n] * cosmum * t.cosnv[idx_kn];
+            w.d_z_d_theta_half[k][l] +=
+                basis_norm * zcc_half[m][n] * sinmum * t.cosnv[idx_kn];
             if (s.lthreed) {
               w.r_lcfs[k][l] +=
-                  basis_norm * rbcs[idx_mn] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * rbcs[idx_mn] * cosmu * t.sinnv[idx_kn];
               w.z_lcfs[k][l] +=
-                  basis_norm * zbss[idx_mn] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
-              w.d_r_d_theta_lcfs[k][l] += basis_norm * rbcs[idx_mn] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              w.d_z_d_theta_lcfs[k][l] += basis_norm * zbss[idx_mn] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
-
-              w.r_half[k][l] += basis_norm * rcs_half[m][n] * t.cosmu[idx_ml] *
-                                t.sinnv[idx_kn];
-              w.z_half[k][l] += basis_norm * zss_half[m][n] * t.sinmu[idx_ml] *
-                                t.sinnv[idx_kn];
-              w.d_r_d_theta_half[k][l] += basis_norm * rcs_half[m][n] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              w.d_z_d_theta_half[k][l] += basis_norm * zss_half[m][n] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * zbss[idx_mn] * sinmu * t.sinnv[idx_kn];
+              w.d_r_d_theta_lcfs[k][l] +=
+                  basis_norm * rbcs[idx_mn] * sinmum * t.sinnv[idx_kn];
+              w.d_z_d_theta_lcfs[k][l] +=
+                  basis_norm * zbss[idx_mn] * cosmum * t.sinnv[idx_kn];
+
+              w.r_half[k][l] +=
+                  basis_norm * rcs_half[m][n] * cosmu * t.sinnv[idx_kn];
+              w.z_half[k][l] +=
+                  basis_norm * zss_half[m][n] * sinmu * t.sinnv[idx_kn];
+              w.d_r_d_theta_half[k][l] +=
+                  basis_norm * rcs_half[m][n] * sinmum * t.sinnv[idx_kn];
+              w.d_z_d_theta_half[k][l] +=
+                  basis_norm * zss_half[m][n] * cosmum * t.sinnv[idx_kn];
             }
           }
         }  // n
@@ -379,7 +390,8 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // main loop in which, for each poloidal cutplane,
   // the new axis position is estimated
-  for (int k = 0; k < s.nZeta / 2 + 1; ++k) {
+  const int num_planes = s.lasym ? s.nZeta : s.nZeta / 2 + 1;
+  for (int k = 0; k < num_planes; ++k) {
     // compute grid extent
     const double min_r =
         *std::min_element(w.r_lcfs[k].begin(), w.r_lcfs[k].end());
-- 
2.43.0


From 9e30cbbcb98811e0bce7f52a14cc1de6322fe973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:19 +0000
Subject: [PATCH 17/32] fix: line_segment profile interpolates in the segment
 that contains x

The knot found by std::lower_bound, the right end of the segment, was used as its
left end: the profile was extrapolated from the next segment, and was constant
throughout the last one.
---
 .../vmecpp/vmec/radial_profiles/radial_profiles.cc  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 9bbd514..cb502ce 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1055,18 +1055,19 @@ double RadialProfiles::evalLineSegment(const Eigen::VectorXd& splineKnots,
   if (n < 2 || n != static_cast<int>(splineValues.size())) {
     return 0.0;
   }
-  auto it = std::lower_bound(splineKnots.begin(), splineKnots.end(), x);
-  if (it >= (splineKnots.end() - 1)) {
-    // x is out of bounds (or x1 = it+1 would be out of bounds)
+  // first knot above x
+  auto it = std::upper_bound(splineKnots.begin(), splineKnots.end(), x);
+  if (it == splineKnots.end()) {
+    // x is at or above the last knot
     return splineValues[n - 1];
   }
   if (it == splineKnots.begin()) {
     // x is below the first knot
     return splineValues[0];
   }
-  const double x0 = *it;
-  const double x1 = *(it + 1);
-  int ilow = static_cast<int>(std::distance(splineKnots.begin(), it));
+  const double x0 = *(it - 1);
+  const double x1 = *it;
+  int ilow = static_cast<int>(std::distance(splineKnots.begin(), it)) - 1;
   const double y0 = splineValues[ilow];
   const double y1 = splineValues[ilow + 1];
   const double t = (x - x0) / (x1 - x0);
-- 
2.43.0


From b6c6e5243f2e650792b8e8d11ef2f270f1bb1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:19 +0000
Subject: [PATCH 18/32] fix: line_segment_ip integrates the profile from 0 to x

The integral left out the part below the first knot, used the value at the end of
the segment for a partial segment, read beyond the knots for x above the last one,
and was NaN at x = 0.
---
 .../vmec/radial_profiles/radial_profiles.cc   | 38 ++++---------------
 1 file changed, 8 insertions(+), 30 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index cb502ce..9d20f51 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1082,37 +1082,15 @@ double RadialProfiles::evalLineSegmentIntegrated(
     return 0.0;
   }
 
-  auto integrate_segment = [](double x0, double x1, double y0, double y1) {
-    const double m = (y1 - y0) / (x1 - x0);
-    const double b = y0 - m * x0;
-    return m * 0.5 * (x1 * x1 - x0 * x0) + b * (x1 - x0);
-  };
-
-  double xi = x;
-  double result = 0.0;
-
-  if (xi <= splineKnots[0]) {
-    result += integrate_segment(0.0, xi, splineValues[0],
-                                evalLineSegment(splineKnots, splineValues, xi));
-    return result;
+  // The profile is constant below the first and above the last knot.
+  double result = splineValues[0] * std::min(x, splineKnots[0]);
+  for (int idx = 0; idx < n - 1 && x > splineKnots[idx]; ++idx) {
+    const double x1 = std::min(x, splineKnots[idx + 1]);
+    const double y1 = evalLineSegment(splineKnots, splineValues, x1);
+    result += 0.5 * (splineValues[idx] + y1) * (x1 - splineKnots[idx]);
   }
-
-  int idx = 0;
-  while (idx < n - 1 && xi > splineKnots[idx + 1]) {
-    result += integrate_segment(splineKnots[idx], splineKnots[idx + 1],
-                                splineValues[idx], splineValues[idx + 1]);
-    ++idx;
-  }
-
-  const double x0 = splineKnots[idx];
-  const double x1 = std::min(xi, splineKnots[idx + 1]);
-  const double y0 = splineValues[idx];
-  const double y1 = splineValues[idx + 1];
-  result += integrate_segment(x0, x1, y0, y1);
-
-  if (xi > splineKnots[n - 1]) {
-    result += integrate_segment(splineKnots[n - 1], xi, splineValues[n - 1],
-                                evalLineSegment(splineKnots, splineValues, xi));
+  if (x > splineKnots[n - 1]) {
+    result += splineValues[n - 1] * (x - splineKnots[n - 1]);
   }
 
   return result;
-- 
2.43.0


From 2f564f5f74014efa626f2af62722926e3580028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:50 +0000
Subject: [PATCH 19/32] fix: sum_atan profile terms are normalized with 2/pi

Without the factor the profile jumped at the edge: the arctangent terms tend to
pi/2 for x -> 1, while the value at x = 1 is the plain sum of the amplitudes, as in
Fortran VMEC.
---
 .../vmec/radial_profiles/radial_profiles.cc   | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 9d20f51..cf300d2 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -692,26 +692,29 @@ double RadialProfiles::evalSumAtan(const Eigen::VectorXd& coeffs, double x) {
       ret += coeffs[17];
     }
   } else {
+    // the arctangent terms are normalized to 1 at x = 1
+    double sum_atan = 0.0;
     if (coeffs.size() >= 5) {
-      ret += coeffs[1] * std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
-                                   std::pow(1 - x, coeffs[4]));
+      sum_atan += coeffs[1] * std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
+                                        std::pow(1 - x, coeffs[4]));
     }
     if (coeffs.size() >= 9) {
-      ret += coeffs[5] * std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
-                                   std::pow(1 - x, coeffs[8]));
+      sum_atan += coeffs[5] * std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
+                                        std::pow(1 - x, coeffs[8]));
     }
     if (coeffs.size() >= 13) {
-      ret += coeffs[9] * std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
-                                   std::pow(1 - x, coeffs[12]));
+      sum_atan += coeffs[9] * std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
+                                        std::pow(1 - x, coeffs[12]));
     }
     if (coeffs.size() >= 17) {
-      ret += coeffs[13] * std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
-                                    std::pow(1 - x, coeffs[16]));
+      sum_atan += coeffs[13] * std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
+                                         std::pow(1 - x, coeffs[16]));
     }
     if (coeffs.size() >= 21) {
-      ret += coeffs[17] * std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
-                                    std::pow(1 - x, coeffs[20]));
+      sum_atan += coeffs[17] * std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
+                                         std::pow(1 - x, coeffs[20]));
     }
+    ret += 2.0 / M_PI * sum_atan;
   }
 
   return ret;
-- 
2.43.0


From 045dd816c22545d3b6faff61c6684f0007f3a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:04 +0000
Subject: [PATCH 20/32] fix: fold the full-range sin kernel into the lasym
 Laplace matrix

---
 .../laplace_solver/laplace_solver.cc           | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
index 16aa7bd..b1c2590 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
@@ -427,6 +427,13 @@ void LaplaceSolver::PerformPoloidalFourierTransforms() {
       for (int l = 0; l < s_.nThetaReduced; ++l) {
         actemp_l[l] = actemp[base_idx + l];
         astemp_l[l] = astemp[base_idx + l];
+        if (s_.lasym) {
+          // The kernel covers the full theta range, so fold it for the
+          // sin-observation just like the cos-source kernel below.
+          const int rl = (s_.nThetaEven - l) % s_.nThetaEven;
+          actemp_l[l] = 0.5 * (actemp_l[l] - actemp[base_idx + rl]);
+          astemp_l[l] = 0.5 * (astemp_l[l] + astemp[base_idx + rl]);
+        }
       }
 
       Eigen::VectorXd result_ss = sinmui_scaled.transpose() * actemp_l -
@@ -438,8 +445,15 @@ void LaplaceSolver::PerformPoloidalFourierTransforms() {
       }
 
       if (s_.lasym) {
-        Eigen::VectorXd result_sc = cosmui_scaled.transpose() * actemp_l +
-                                    sinmui_scaled.transpose() * astemp_l;
+        // cos-observation: the complementary fold
+        Eigen::VectorXd sac_co(s_.nThetaReduced), sas_co(s_.nThetaReduced);
+        for (int l = 0; l < s_.nThetaReduced; ++l) {
+          const int rl = (s_.nThetaEven - l) % s_.nThetaEven;
+          sac_co[l] = 0.5 * (actemp[base_idx + l] + actemp[base_idx + rl]);
+          sas_co[l] = 0.5 * (astemp[base_idx + l] - astemp[base_idx + rl]);
+        }
+        Eigen::VectorXd result_sc = cosmui_scaled.transpose() * sac_co +
+                                    sinmui_scaled.transpose() * sas_co;
         for (int m = 0; m < mf + 1; ++m) {
           const int idx_amat = (all_n * (mf + 1) + m) * mnpd + mn;
           amat_sin_cos[idx_amat] = result_sc[m];
-- 
2.43.0


From 3c5f280ca2288893cffe099fa2950bdf2bf62e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:33 +0000
Subject: [PATCH 21/32] fix: do not transpose wout tables with as many surfaces
 as modes on load

---
 .../vmec/output_quantities/output_quantities.cc       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 7e7f8ed..02434f0 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1067,7 +1067,10 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   // 2D Fourier arrays: old HDF5 files store (ns, mnmax) layout,
   // new format uses (mnmax, ns). Detect by checking if dimensions match.
   // Also handle half-grid arrays that changed from (ns-1, mnmax) to (mnmax,
-  // ns).
+  // ns). If there are as many surfaces as modes, the shapes do not tell the two
+  // layouts apart; then only transpose if the names are the old ones.
+  const bool legacy_layout =
+      !from_file.nameExists(absl::StrFormat("%s/%s", H5key, "iotas"));
   auto ReadAndTranspose2D = [&](RowMatrixXd& dest, const std::string& name) {
     RowMatrixXd tmp;
     ReadH5Dataset(tmp, absl::StrFormat("%s/%s", H5key, name), from_file);
@@ -1076,7 +1079,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
     // so we check if the stored shape matches (mnmax, ns) or (ns, mnmax).
     // We know mnmax and ns from already-read fields.
     if (tmp.rows() == m_obj.ns &&
-        (tmp.cols() == m_obj.mnmax || tmp.cols() == m_obj.mnmax_nyq)) {
+        (tmp.cols() == m_obj.mnmax || tmp.cols() == m_obj.mnmax_nyq) &&
+        (tmp.rows() != tmp.cols() || legacy_layout)) {
       dest = tmp.transpose();
     } else {
       dest = tmp;
@@ -1090,7 +1094,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
         if (tmp.rows() == m_obj.ns - 1 && tmp.cols() == mnsize) {
           dest = RowMatrixXd::Zero(mnsize, m_obj.ns);
           dest.rightCols(m_obj.ns - 1) = tmp.transpose();
-        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize) {
+        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize &&
+                   (tmp.rows() != tmp.cols() || legacy_layout)) {
           // Old full-grid format (ns, mnsize) e.g. bsubsmns -> transpose
           dest = tmp.transpose();
         } else {
-- 
2.43.0


From a813708e29c0b4184a344326385f4648113bc434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 22/32] fix: read B_s at its own grid point in the lasym
 symmetry decomposition

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 02434f0..512305e 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2069,11 +2069,11 @@ vmecpp::SymmetryDecomposedCovariantB vmecpp::DecomposeCovariantBBySymmetry(
     // bs_a(v,u) = .5*( bs(v,u) + bs(-v,-u) )     ! * COS(mu - nv)
     for (int jF = 0; jF < vmec_internal_results.num_full; ++jF) {
       for (int kl = 0; kl < vmec_internal_results.nZnT_reduced; ++kl) {
-        const int source_index = jF * s.nZnT + kl;
-
         const int k = kl / s.nThetaReduced;
         const int l = kl % s.nThetaReduced;
 
+        const int source_index = jF * s.nZnT + (k * s.nThetaEven + l);
+
         const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
         const int k_reversed = (s.nZeta - k) % s.nZeta;
         const int kl_reversed = k_reversed * s.nThetaEven + l_reversed;
-- 
2.43.0


From 91137752e6c87d99beea88b54a5f2df1ba72f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 23/32] fix: extend dB_u/dv and dB_v/du to the whole poloidal
 range for lasym

---
 .../output_quantities/output_quantities.cc    | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 512305e..e22878c 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2155,7 +2155,6 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
   covariant_b_derivatives.bsubsv =
       RowMatrixXd::Zero(m_vmec_internal_results.num_full, s.nZnT);
 
-  // TODO(jons): no split into (non-)stellarator-symmetric contributions?
   covariant_b_derivatives.bsubuv =
       RowMatrixXd::Zero(m_vmec_internal_results.num_half, s.nZnT);
   covariant_b_derivatives.bsubvu =
@@ -2181,6 +2180,15 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
     bsubv_filtered_a.resize(m_vmec_internal_results.num_half * s.nZnT);
   }
 
+  std::vector<double> bsubuv_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubvu_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubuv_a;
+  std::vector<double> bsubvu_a;
+  if (s.lasym) {
+    bsubuv_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+    bsubvu_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+  }
+
   // FOURIER LOW-PASS FILTER bsubs
   for (int jF = 0; jF < m_vmec_internal_results.num_full; ++jF) {
     for (int m = 0; m < s.mpol; ++m) {
@@ -2358,13 +2366,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
             const double tsinm1 = t.sinmum[idx_ml] * t.cosnv[idx_kn];
             const double tsinm2 = t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            covariant_b_derivatives.bsubvu(target_index) +=
-                tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
+            bsubvu_s[target_index] += tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
 
             const double tsinn1 = t.cosmu[idx_ml] * t.sinnvn[idx_kn];
             const double tsinn2 = t.sinmu[idx_ml] * t.cosnvn[idx_kn];
-            covariant_b_derivatives.bsubuv(target_index) +=
-                tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
+            bsubuv_s[target_index] += tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
 
             if (s.lasym) {
               const double tsin1 = t.sinmu[idx_ml] * t.cosnv[idx_kn];
@@ -2376,13 +2382,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
               const double tcosm1 = t.cosmum[idx_ml] * t.cosnv[idx_kn];
               const double tcosm2 = t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              covariant_b_derivatives.bsubvu(target_index) +=
-                  tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
+              bsubvu_a[target_index] += tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
 
               const double tcosn1 = t.sinmu[idx_ml] * t.sinnvn[idx_kn];
               const double tcosn2 = t.cosmu[idx_ml] * t.cosnvn[idx_kn];
-              covariant_b_derivatives.bsubuv(target_index) +=
-                  tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
+              bsubuv_a[target_index] += tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
             }  // lasym
           }  // l
         }  // k
@@ -2409,6 +2413,10 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
               bsubu_filtered_s[source_index] + bsubu_filtered_a[source_index];
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index] + bsubv_filtered_a[source_index];
+          covariant_b_derivatives.bsubuv(target_index) =
+              bsubuv_s[source_index] + bsubuv_a[source_index];
+          covariant_b_derivatives.bsubvu(target_index) =
+              bsubvu_s[source_index] + bsubvu_a[source_index];
         }  // l
         for (int l = s.nThetaReduced; l < s.nThetaEven; ++l) {
           const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
@@ -2422,6 +2430,13 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index_reversed] -
               bsubv_filtered_a[source_index_reversed];
+          // the angular derivatives have the opposite parity
+          covariant_b_derivatives.bsubuv(target_index) =
+              -bsubuv_s[source_index_reversed] +
+              bsubuv_a[source_index_reversed];
+          covariant_b_derivatives.bsubvu(target_index) =
+              -bsubvu_s[source_index_reversed] +
+              bsubvu_a[source_index_reversed];
         }  // l
       }  // k
     }  // jH
@@ -2432,6 +2447,8 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
         const int idx_kl = jH * s.nZnT + kl;
         m_vmec_internal_results.bsubu(idx_kl) = bsubu_filtered_s[idx_kl];
         m_vmec_internal_results.bsubv(idx_kl) = bsubv_filtered_s[idx_kl];
+        covariant_b_derivatives.bsubuv(idx_kl) = bsubuv_s[idx_kl];
+        covariant_b_derivatives.bsubvu(idx_kl) = bsubvu_s[idx_kl];
       }  // kl
     }  // jH
   }
-- 
2.43.0


From 1d0f333db7e4bbc6704e3fafaff00dbbeb297f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:07 +0000
Subject: [PATCH 24/32] fix: integrate the toroidal flux from the half-grid
 flux derivative

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index e22878c..b412d9d 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1895,7 +1895,7 @@ void vmecpp::RecomputeToroidalFlux(
   m_vmec_internal_results.phiF[0] = 0.0;
   for (int jF = 1; jF < fc.ns; ++jF) {
     m_vmec_internal_results.phiF[jF] = m_vmec_internal_results.phiF[jF - 1] +
-                                       m_vmec_internal_results.phipF[jF - 1];
+                                       m_vmec_internal_results.phipH[jF - 1];
   }  // jF
 
   // now apply scaling
-- 
2.43.0


From 89546b7321d7fa6c9ae6013359c711b0abd1edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:07 +0000
Subject: [PATCH 25/32] fix: take the inboard point of the plasma waist on its
 own cross section for lasym

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index b412d9d..1f81a41 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3927,7 +3927,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
                               vmec_internal_results.r_o(index_outboard);
 
     const int index_inboard =
-        ((fc.ns - 1) * s.nZeta + k) * s.nThetaReduced + (s.nThetaReduced - 1);
+        ((fc.ns - 1) * s.nZeta + k) * s.nThetaEff + (s.nThetaReduced - 1);
     const double r_inboard = vmec_internal_results.r_e(index_inboard) +
                              vmec_internal_results.r_o(index_inboard);
 
-- 
2.43.0


From cebdbfc27aa46af09dd7539b25baa953dd722fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:07 +0000
Subject: [PATCH 26/32] fix: sign of the toroidal component of the
 perpendicular current

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 1f81a41..4272657 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2652,7 +2652,7 @@ vmecpp::JxBOutFileContents vmecpp::ComputeJxBOutputFileContents(
           vmec_internal_results.bsubv(jHi * s.nZnT + kl);
 
       kperpu[kl] = 0.5 * (bsubv_outside + bsubv_inside) * pprime / sqgb2[kl];
-      kperpv[kl] = 0.5 * (bsubu_outside + bsubu_inside) * pprime / sqgb2[kl];
+      kperpv[kl] = -0.5 * (bsubu_outside + bsubu_inside) * pprime / sqgb2[kl];
 
       // --------
 
-- 
2.43.0


From 760a765e650b4441866529d61f7a4a30822d0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:34 +0000
Subject: [PATCH 27/32] fix: energy decay in the wout contents read entries it
 had already overwritten

The in-place Eigen expression is evaluated coefficient by coefficient, so from
the second step on the previous energy was replaced by the previous decay rate.
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 4272657..335b6ff 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4488,7 +4488,8 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
     wout.wdot.tail(wout.wdot.size() - 1) =
         (wout.wdot.tail(wout.wdot.size() - 1) -
          wout.wdot.head(wout.wdot.size() - 1))
-            .cwiseQuotient(wout.wdot.tail(wout.wdot.size() - 1));
+            .cwiseQuotient(wout.wdot.tail(wout.wdot.size() - 1))
+            .eval();
   }
   // -------------------
   // one-dimensional array quantities
-- 
2.43.0


From 1e719b1b57f58d00522547d41b407848be88c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:34 +0000
Subject: [PATCH 28/32] fix: halve the highest toroidal mode of the wout field
 tables only for even nzeta

With an odd number of toroidal grid points the highest mode is not the Nyquist
mode; halving it made the tables miss half of that harmonic of the field.
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 335b6ff..95886ab 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4586,7 +4586,8 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
   for (int kn = 0; kn < (s.nnyq2 + 1) * s.nZeta; ++kn) {
     cosnv[kn] = t.cosnv[kn];
   }
-  if (s.nnyq != 0) {
+  // an odd number of toroidal grid points does not resolve a Nyquist mode
+  if (s.nnyq != 0 && s.nZeta % 2 == 0) {
     for (int k = 0; k < s.nZeta; ++k) {
       // FIXME(eguiraud) slow loop
       const int kn = k * (s.nnyq2 + 1) + s.nnyq;
-- 
2.43.0


From 119c8ed0f7e26ae06dcfa42606ee2c364120850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:03 +0000
Subject: [PATCH 29/32] fix: compute the full coil-field grid when it is not
 up-down symmetric

With assume_stellarator_symmetry the second half of the toroidal planes is
filled by reflection about Z = 0. For a grid whose Z extent is not symmetric,
that reflection does not map grid points onto grid points and the mirrored
half silently held the field of other positions.
---
 src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 8233056..6392dd3 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -312,7 +312,12 @@ absl::StatusOr<RowMatrix3Xd> MakeCylindricalGrid(
           "make use to stellarator symmetry in makegrid, but was num_phi=",
           num_phi));
     }
-    num_phi_effective = num_phi / 2 + 1;
+    // The other half of the grid is obtained by reflection about Z = 0, which
+    // maps grid points onto grid points only if the grid itself is up-down
+    // symmetric. Otherwise, the full grid has to be evaluated.
+    if (std::abs(min_z + max_z) <= 1.0e-9 * (max_z - min_z)) {
+      num_phi_effective = num_phi / 2 + 1;
+    }
   }
 
   const int total_number_of_grid_points = num_phi_effective * num_z * num_r;
-- 
2.43.0


From a9d820278cd232c4c4a501933bffb5329827d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:03 +0000
Subject: [PATCH 30/32] fix: treat unset num_windings as one when moving
 windings into circuit currents

A coil without num_windings has one winding, but its default value zero was
used as the reference, giving zero current and NaN windings. A circuit without
coils was read out of bounds, and a reference of zero windings divided by zero.
---
 .../magnetic_configuration_lib.cc             | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index b4e629c..e08036f 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -262,12 +262,28 @@ absl::Status NumWindingsToCircuitCurrents(
         m_magnetic_configuration.mutable_serial_circuits(idx_circuit);
     const int num_coils = m_serial_circuit->coils_size();
 
+    if (num_coils == 0) {
+      // no coils -> no num_windings to migrate
+      continue;
+    }
+
+    // num_windings == 1 is assumed for coils where it is not populated
+    const auto num_windings_of = [](const Coil& coil) {
+      return coil.has_num_windings() ? coil.num_windings() : 1.0;
+    };
+
     // Use the first coil's num_windings as the reference for normalization.
     // Fortran MAKEGRID normalizes by the first coil's num_windings even when
     // coils within a circuit have different magnitudes (e.g., a TF coil at
     // 96 turns and PF coils at -16 turns) but share the same current
     const double reference_num_windings =
-        m_serial_circuit->coils(0).num_windings();
+        num_windings_of(m_serial_circuit->coils(0));
+    if (reference_num_windings == 0.0) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "cannot normalize by the number of windings of the first coil of "
+          "serial circuit ",
+          idx_circuit, ", since it is zero"));
+    }
 
     // step 1: migrate num_windings into circuit current using the reference
     const double current_times_num_windings =
@@ -281,7 +297,8 @@ absl::Status NumWindingsToCircuitCurrents(
     // output: field_scaled = sum_i(w_i/w_ref * B_i).
     for (int idx_coil = 0; idx_coil < num_coils; ++idx_coil) {
       Coil* m_coil = m_serial_circuit->mutable_coils(idx_coil);
-      m_coil->set_num_windings(m_coil->num_windings() / reference_num_windings);
+      m_coil->set_num_windings(num_windings_of(*m_coil) /
+                               reference_num_windings);
     }
   }
 
-- 
2.43.0


From 8e03afdd4ad51bea43d3ecf0344f0499f6ee5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:03 +0000
Subject: [PATCH 31/32] fix: report an unreadable makegrid parameters file
 instead of aborting

---
 src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 6392dd3..7ae4863 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -274,7 +274,9 @@ absl::StatusOr<MakegridParameters> ImportMakegridParametersFromFile(
     const std::filesystem::path& makegrid_parameters_file) {
   const auto maybe_makegrid_params_json =
       file_io::ReadFile(makegrid_parameters_file);
-  CHECK_OK(maybe_makegrid_params_json);
+  if (!maybe_makegrid_params_json.ok()) {
+    return maybe_makegrid_params_json.status();
+  }
   const auto& makegrid_params_json = *maybe_makegrid_params_json;
   return ImportMakegridParametersFromJson(makegrid_params_json);
 }  // ImportMakegridParametersFromFile
-- 
2.43.0


From a87845abb8f83b5597968b59caf38280cc39c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:23 +0000
Subject: [PATCH 32/32] fix: revert on a mid-run bad Jacobian under every
 Python iteration style

---
 src/vmecpp/_iteration.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vmecpp/_iteration.py b/src/vmecpp/_iteration.py
index f0b8350..aa1f5b4 100644
--- a/src/vmecpp/_iteration.py
+++ b/src/vmecpp/_iteration.py
@@ -371,6 +371,18 @@ def solve_equilibrium(
                 saved_backup = True
                 iter1 = iter2
                 bad_resets += 1
+            elif rr == RestartReason.BAD_JACOBIAN and (parvmec or robust):
+                # Overlapping flux surfaces in the middle of the run: the forces
+                # and residuals are those of an earlier geometry. The C++ loop
+                # reverts here under every style (RestartIteration: delt0r *= 0.9,
+                # ijacob++).
+                model.restore_backup()
+                delt0r *= 0.9
+                ijacob += 1
+                iter1 = iter2
+                bad_resets += 1
+                n_restarts += 1
+                restarted = True
             # --- time-step / restart control (style-dependent) ---
             elif parvmec:
                 # PARVMEC TimeStepControl: track the running minima of both the
-- 
2.43.0

