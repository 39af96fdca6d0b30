From 2238e091667d5d9b0163d4428d78875700a05811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 01/26] fix: FSM dropped repeated single-site terms

A single-site term whose operator equals what the ready -> final link already
holds was skipped, so adding the same on-site term twice counted it once.
---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index dec4279..1c3f10a 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -275,11 +275,12 @@ inline void FSM::CastFSMPathToMatRepr_(
 
     if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) == kNullOpRepr) {
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, tgt_op);
-    } else if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
+    } else if (tgt_row_fsm_node.fsm_stat_idx != tgt_col_fsm_node.fsm_stat_idx) {
+      // A further single-site term on the ready -> final link.
       auto new_op = fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) + tgt_op;
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, new_op);
     } else {
-      // Do nothing
+      // Do nothing: ready -> ready and final -> final identity links are shared by the terms.
     }
   }
 }
-- 
2.43.0


From f5bc17526ed4eac4e452c1cd5792987238492aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 02/26] fix: DuoVector self assignment destroyed its elements

---
 include/qlmps/one_dim_tn/framework/duovector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index c009fe0..246f8ed 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -66,6 +66,7 @@ public:
   DuoVector<ElemT> &operator=(const DuoVector<ElemT> &rhs) {
 //    this->DuoVector::~DuoVector();
 //    I'm no sure why above line do not work if used in the derived FiniteMPS class
+    if (this == &rhs) { return *this; }
     for (auto &rpelem : raw_data_) {
       if (rpelem != nullptr) {
         delete rpelem;
@@ -100,6 +101,7 @@ public:
   DuoVector<ElemT> &operator=(DuoVector<ElemT> &&rhs) noexcept {
 //    this->DuoVector::~DuoVector();
 //    I have no idea why above line do not work if used in the derived FiniteMPS class
+    if (this == &rhs) { return *this; }
     for (auto &rpelem : raw_data_) {
       if (rpelem != nullptr) {
         delete rpelem;
-- 
2.43.0


From 2d5bc1927bac40fb129764acb828a2648fb32397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 03/26] fix: CoefRepr::ToString printed its second label for
 every summand

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index 486a437..e017a1c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -134,7 +134,7 @@ class CoefRepr {
     } else {
       std::string symbol_string = "(";
       for (size_t i = 0; i < coef_label_list_.size(); i++) {
-        const CNumberLabel coef_label = coef_label_list_[1];
+        const CNumberLabel coef_label = coef_label_list_[i];
         if (coef_label == kIdCoefLabel) {
           symbol_string += "1";
         } else {
-- 
2.43.0


From 4106139aae43fcbb3094ef36df03ce4f23d1695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 04/26] fix: CaseParamsParserBasic silently accepted values of
 the wrong type

ParseSizeTVec wrapped negative numbers, ParseInt truncated floats, wrapped
out-of-range integers and took booleans (as did ParseDouble), although the guide
promises an error for a wrong type and TryParseSizeTVec already rejected them.
---
 include/qlmps/case_params_parser.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/qlmps/case_params_parser.h b/include/qlmps/case_params_parser.h
index 0961f6e..5ebfeb4 100644
--- a/include/qlmps/case_params_parser.h
+++ b/include/qlmps/case_params_parser.h
@@ -18,6 +18,9 @@
 
 #include <iostream>
 #include <fstream>                                  // ifstream
+#include <algorithm>                                // all_of
+#include <limits>                                   // numeric_limits
+#include <stdexcept>                                // invalid_argument
 
 #include "qlmps/third_party/nlohmann/json.hpp"     // json
 
@@ -250,12 +253,40 @@ class CaseParamsParserBasic {
     return TryParseStrict<std::vector<double>>(item, out_value);
   }
  private:
+  // Whether a JSON value is a T, as opposed to merely convertible to it by
+  // nlohmann::json (which turns booleans into numbers, truncates floats and wraps
+  // out-of-range integers).
+  static bool Holds(const json &value, const int *) {
+    if (value.is_number_unsigned()) {
+      return value.get<unsigned long long>() <= static_cast<unsigned long long>(std::numeric_limits<int>::max());
+    }
+    if (!value.is_number()) return false;
+    const double number = value.get<double>();
+    return number >= std::numeric_limits<int>::min() && number <= std::numeric_limits<int>::max()
+        && number == static_cast<int>(number);
+  }
+  static bool Holds(const json &value, const size_t *) {
+    return value.is_number_unsigned() || (value.is_number_integer() && value.get<long long>() >= 0);
+  }
+  static bool Holds(const json &value, const double *) { return value.is_number(); }
+  static bool Holds(const json &value, const bool *) { return value.is_boolean(); }
+  static bool Holds(const json &value, const std::string *) { return value.is_string(); }
+  template <typename T>
+  static bool Holds(const json &value, const std::vector<T> *) {
+    return value.is_array() && std::all_of(value.begin(), value.end(), [](const json &elem) {
+      return Holds(elem, static_cast<const T *>(nullptr));
+    });
+  }
+
   template <typename T>
   T StrictParse(const std::string &item, const char *expected_type_name) const {
     if (case_params_.find(item) == case_params_.end()) {
       ReportAndExitMissing(item, expected_type_name);
     }
     try {
+      if (!Holds(case_params_.at(item), static_cast<const T *>(nullptr))) {
+        throw std::invalid_argument(item);
+      }
       return case_params_.at(item).get<T>();
     } catch (const std::exception &e) {
       const char *actual = case_params_.at(item).type_name();
@@ -268,6 +299,7 @@ class CaseParamsParserBasic {
   bool TryParseStrict(const std::string &item, T &out_value) const {
     if (case_params_.find(item) == case_params_.end()) return false;
     try {
+      if (!Holds(case_params_.at(item), static_cast<const T *>(nullptr))) return false;
       out_value = case_params_.at(item).get<T>();
       return true;
     } catch (...) {
-- 
2.43.0


From 7005d41e51157d459ee90c853939aac8059018b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 05/26] fix: FSMNode::Site() returned the state index

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index 1c3f10a..3fc3534 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -69,7 +69,7 @@ struct FSMNode {
   }
 
   [[nodiscard]] size_t Site(void) const {
-    return fsm_stat_idx;
+    return fsm_site_idx;
   }
 
   void SetSite(size_t site) {
-- 
2.43.0


From d3cac1ec638d8e7302b7e788d364ec383ea66f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 06/26] fix: mps_log_simplifier.sh failed on log paths with
 spaces or glob characters

---
 script/mps_log_simplifier.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/mps_log_simplifier.sh b/script/mps_log_simplifier.sh
index 7a0a6a4..1c14c56 100755
--- a/script/mps_log_simplifier.sh
+++ b/script/mps_log_simplifier.sh
@@ -3,7 +3,7 @@
 
 
 if [[ -f $1 ]]; then
-  cat $1 | egrep -i '(Site|sweep|Simu)'
+  cat "$1" | egrep -i '(Site|sweep|Simu)'
 else
   egrep -i '(Site|sweep|Simu)'
 fi
-- 
2.43.0


From 92ef75564c523e229ce27411c25d0ec1c51a18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 07/26] fix: ordering of CoefRepr was inconsistent with its
 equality

{a,b} == {b,a} but also {a,b} < {b,a}.
---
 .../one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index e017a1c..7c857fc 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -77,19 +77,19 @@ class CoefRepr {
   }
 
   bool operator<(const CoefRepr &rhs) const {
-    return coef_label_list_ < rhs.coef_label_list_;
+    return SortedLabels_() < rhs.SortedLabels_();
   }
 
   bool operator<=(const CoefRepr &rhs) const {
-    return coef_label_list_ <= rhs.coef_label_list_;
+    return SortedLabels_() <= rhs.SortedLabels_();
   }
 
   bool operator>(const CoefRepr &rhs) const {
-    return coef_label_list_ > rhs.coef_label_list_;
+    return SortedLabels_() > rhs.SortedLabels_();
   }
 
   bool operator>=(const CoefRepr &rhs) const {
-    return coef_label_list_ >= rhs.coef_label_list_;
+    return SortedLabels_() >= rhs.SortedLabels_();
   }
 
   CoefRepr &operator+=(const CoefRepr &rhs) {
@@ -152,6 +152,13 @@ class CoefRepr {
   }
 
  private:
+  // The order of the summands is irrelevant, see operator==.
+  std::vector<CNumberLabel> SortedLabels_(void) const {
+    std::vector<CNumberLabel> sorted_labels(coef_label_list_);
+    std::sort(sorted_labels.begin(), sorted_labels.end());
+    return sorted_labels;
+  }
+
   std::vector<CNumberLabel> coef_label_list_;
 };
 
-- 
2.43.0


From 0dbad51465fb1587683c0b3aec7dc37dd0a9ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 08/26] fix: AddTerm: start the tail insertion string behind
 the last physical operator

---
 include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
index 4d1d976..232bb4c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
@@ -221,7 +221,7 @@ void MPOGenerator<TenElemT, QNT>::AddTerm(
   local_ops_idxs.push_back(phys_ops_idxs.back());
   if (inst_ops.size() == phys_ops.size()) {
     if (inst_ops_idxs_set == kNullUintVecVec) {
-      for (size_t j = phys_ops_idxs.back(); j < N_; ++j) {
+      for (size_t j = phys_ops_idxs.back() + 1; j < N_; ++j) {
         local_ops.push_back(inst_ops.back());
         local_ops_idxs.push_back(j);
       }
-- 
2.43.0


From 801ab5113ec1982e5b018b9b5e3e7e8342588c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 09/26] fix: tJOperators: bdnc_multi_bupa and bupc_multi_bdna
 were exchanged

---
 include/qlmps/model_relevant/operators/fermion/tJ_operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
index 4d7d693..6b828b3 100644
--- a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
+++ b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
@@ -69,8 +69,8 @@ struct tJOperators {
     ndn({spin_down, spin_down}) = 1;      // ⟨↓| n_↓ |↓⟩ = 1
 
     // Composite operators
-    bdnc_multi_bupa({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↓ c_↑ |↓⟩ = 1
-    bupc_multi_bdna({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↑ c_↓ |↑⟩ = 1
+    bdnc_multi_bupa({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↓ c_↑ |↑⟩ = 1
+    bupc_multi_bdna({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↑ c_↓ |↓⟩ = 1
   }
 
   // Spin operators
-- 
2.43.0


From 54282e75fee1901099b069608989b4e88ee5bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:05 +0000
Subject: [PATCH 10/26] fix: HubbardOperators: reference members dangled in
 copies

---
 .../operators/fermion/hubbard_operators.h       | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h b/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h
index 6d22d62..41e2fdc 100644
--- a/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h
+++ b/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h
@@ -47,9 +47,9 @@ struct HubbardOperators {
                                                           nfsquare({site.phys_bond_in, site.phys_bond_out}),
                                                           nup({site.phys_bond_in, site.phys_bond_out}),
                                                           ndn({site.phys_bond_in, site.phys_bond_out}),
-                                                          cupccdna(sp),      // Initialize reference
-                                                           cdnccupa(sm),      // Initialize reference
-                                                           Uterm(nupndn)      // Initialize reference
+                                                          cupccdna({site.phys_bond_in, site.phys_bond_out}),
+                                                          cdnccupa({site.phys_bond_in, site.phys_bond_out}),
+                                                          Uterm({site.phys_bond_in, site.phys_bond_out})
   {
     const size_t empty = site.empty;
     const size_t double_occupy = site.double_occupancy;
@@ -116,6 +116,11 @@ struct HubbardOperators {
     nup({spin_up, spin_up}) = 1;                 // ⟨↑| n_↑ |↑⟩ = 1
     ndn({double_occupy, double_occupy}) = 1;     // ⟨↑↓| n_↓ |↑↓⟩ = 1
     ndn({spin_down, spin_down}) = 1;             // ⟨↓| n_↓ |↓⟩ = 1
+
+    // Aliases
+    cupccdna = sp;
+    cdnccupa = sm;
+    Uterm = nupndn;
   }
 
 // Spin operators
@@ -155,12 +160,12 @@ struct HubbardOperators {
 // Pairing operators
   Tensor cupccdnc;  // c_up^creation * c_down^creation
   Tensor cdnacupa;  // onsite pair operator (c_down*c_up)
-  const Tensor &cupccdna; // exciton pair
-  const Tensor &cdnccupa;
+  Tensor cupccdna; // exciton pair
+  Tensor cdnccupa;
 
 // density relevant operators
   Tensor nupndn;  // nup * ndown
-  const Tensor &Uterm;   // Hubbard U term
+  Tensor Uterm;   // Hubbard U term
   Tensor nf;      // fermion number (nup + ndn)
   Tensor nfsquare;// square of fermion number
   Tensor nup;     // spin-up number operator
-- 
2.43.0


From b79da02e9cf765f93908cffa6b1fd83d55c05d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:42 +0000
Subject: [PATCH 11/26] fix: failed writes of tensors went unnoticed

---
 include/qlmps/one_dim_tn/framework/ten_vec.h | 13 +++++++++++++
 include/qlmps/utilities.h                    |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/ten_vec.h b/include/qlmps/one_dim_tn/framework/ten_vec.h
index bf54d12..d6413fd 100644
--- a/include/qlmps/one_dim_tn/framework/ten_vec.h
+++ b/include/qlmps/one_dim_tn/framework/ten_vec.h
@@ -19,6 +19,7 @@
 
 #include <string>     // string
 #include <fstream>    // ifstream
+#include <stdexcept>  // runtime_error
 
 namespace qlmps {
 using namespace qlten;
@@ -82,8 +83,14 @@ class TenVec : public DuoVector<TenT> {
   */
   void DumpTen(const size_t idx, const std::string &file) const {
     std::ofstream ofs(file, std::ofstream::binary);
+    if (!ofs.is_open()) {
+      throw std::runtime_error("Error opening file: " + file);
+    }
     ofs << (*this)[idx];
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
   }
 
   /**
@@ -99,8 +106,14 @@ class TenVec : public DuoVector<TenT> {
       const bool release_mem = false
   ) {
     std::ofstream ofs(file, std::ofstream::binary);
+    if (!ofs.is_open()) {
+      throw std::runtime_error("Error opening file: " + file);
+    }
     ofs << (*this)[idx];
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
     if (release_mem) { this->dealloc(idx); }
   }
 };
diff --git a/include/qlmps/utilities.h b/include/qlmps/utilities.h
index 9a07b9d..e2584e4 100644
--- a/include/qlmps/utilities.h
+++ b/include/qlmps/utilities.h
@@ -14,6 +14,7 @@
 
 #include <iostream>
 #include <fstream>          // ifstream, ofstream
+#include <stdexcept>        // runtime_error
 
 #include <sys/stat.h>       // stat, mkdir, S_IRWXU, S_IRWXG, S_IROTH, S_IXOTH
 
@@ -63,8 +64,14 @@ void SVD(
 template <typename TenT>
 inline void WriteQLTensorTOFile(const TenT &t, const std::string &file) {
   std::ofstream ofs(file, std::ofstream::binary);
+  if (!ofs.is_open()) {
+    throw std::runtime_error("Error opening file: " + file);
+  }
   ofs << t;
   ofs.close();
+  if (ofs.fail()) {
+    throw std::runtime_error("Error writing file: " + file);
+  }
 }
 
 
-- 
2.43.0


From a10125c043319adf7d90187c3bece4ed372f1870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:42 +0000
Subject: [PATCH 12/26] fix: FiniteMPS kept stale canonical flags after loading
 tensors

---
 .../one_dim_tn/mps/finite_mps/finite_mps.h    | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index d0fe20d..626397c 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -106,7 +106,30 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
     return DuoVector<LocalTenT>::operator()(idx);
   }
 
-  using MPS<TenElemT, QNT>::LoadTen;
+  /**
+  Load local tensor from a file. Set canonical type to NONE and MPS to
+  uncentralized.
+
+  @param idx Index of the MPS local tensor.
+  @param file The file which contains the tensor to be loaded.
+  */
+  void LoadTen(const size_t idx, const std::string &file) {
+    tens_cano_type_[idx] = MPSTenCanoType::NONE;
+    center_ = kUncentralizedCenterIdx;
+    MPS<TenElemT, QNT>::LoadTen(idx, file);
+  }
+
+  /**
+  Load MPS from HDD. Set all canonical types to NONE and MPS to uncentralized.
+
+  @param mps_path Path to the MPS directory.
+  */
+  void Load(const std::string &mps_path = kMpsPath) {
+    for (size_t i = 0; i < this->size(); ++i) {
+      this->LoadTen(i, GenMPSTenName(mps_path, i));
+    }
+  }
+
   using MPS<TenElemT, QNT>::DumpTen;
   void LoadTen(const std::string &mps_path, const size_t idx) {
     this->LoadTen(idx, GenMPSTenName(mps_path, idx));
-- 
2.43.0


From 8b9c730968c1cfbad177d8884e96313509667a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:42 +0000
Subject: [PATCH 13/26] fix: von Neumann entropy was NaN with vanishing
 singular values

---
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index 626397c..780b9b5 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -312,7 +312,7 @@ std::vector<double> FiniteMPS<TenElemT, QNT>::GetEntanglementEntropy(size_t n) {
       double singular_value = s(k, k);
       double p = singular_value * singular_value;
       if (n == 1) {
-        ee += (-p * std::log(p));
+        if (p > 0.0) { ee += (-p * std::log(p)); }
       } else {
         double p_to_n = p;
         for (size_t j = 1; j < n; j++) { // order of power
-- 
2.43.0


From 4209aece68cfdb5f75faeaef5744d8edda0b53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:10 +0000
Subject: [PATCH 14/26] fix: FiniteMPO kept stale canonical flags after loading
 tensors

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index c9c385c..e058206 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -221,6 +221,16 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
 
   void Truncate(const QLTEN_Double, const size_t, const size_t);
 
+  /**
+   * Load local tensor from a file. Set canonical type to NONE and MPO to
+   * uncentralized.
+   */
+  void LoadTen(const size_t idx, const std::string &file) {
+    tens_cano_type_[idx] = MPOTenCanoType::NONE;
+    center_ = kUncentralizedCenterIdx;
+    TenVec<LocalTenT>::LoadTen(idx, file);
+  }
+
   void Dump(const std::string &mpo_path = kMpoPath) const {
     if (!IsPathExist(mpo_path)) { CreatPath(mpo_path); }
     std::string file;
@@ -248,7 +258,7 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
 
     file = mpo_path + "/center";
     std::ifstream ifs(file, std::ifstream::binary);
-    ifs >> center_;
+    if (!(ifs >> center_)) { center_ = kUncentralizedCenterIdx; }
     ifs.close();
     SetCenter_();
     return true;
-- 
2.43.0


From 636fa195da3b4452b0ed526cd99aaab084dc6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 15/26] fix: MeasureFourSiteOpGroup left tensors in memory

---
 .../qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
index 78002ab..5092e3c 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
@@ -376,9 +376,7 @@ MeasuRes<TenElemT> MeasureFourSiteOpGroup(
                                                 avg);
   }
   //clean the data
-  for (size_t i = target_sites_set.back()[0]; i <= target_sites_set.back()[1]; i++) {
-    mps.dealloc(i);
-  }
+  mps.clear();
   assert(mps.empty());
   return measure_res;
 }
-- 
2.43.0


From 9d48ad168b0ca9203913476495fcab7b1d5ce6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:44 +0000
Subject: [PATCH 16/26] fix: FiniteMPO::SimpleProduct returned nothing

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index e058206..a397ca9 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -69,6 +69,13 @@ void MpoProduct(
     const bool output_info = false
 );
 
+template<typename TenElemT, typename QNT>
+void MpoProduct(
+    const FiniteMPO<TenElemT, QNT> &mpo1,
+    const FiniteMPO<TenElemT, QNT> &mpo2,
+    FiniteMPO<TenElemT, QNT> &output_mpo
+);
+
 inline std::string GenMPOTenName(const std::string &mpo_path, const size_t idx) {
   return mpo_path + "/" +
       kMpoTenBaseName + std::to_string(idx) + "." + kQLTenFileSuffix;
@@ -171,7 +178,9 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
 
   ///<  *this * rhs,  *this is at below, represent the front matrix
   FiniteMPO SimpleProduct(const FiniteMPO &rhs) const {
-
+    FiniteMPO res(this->size());
+    MpoProduct(*this, rhs, res);
+    return res;
   }
 
   /**
-- 
2.43.0


From ab391ba7eb02271b69777a1067a833996a2b0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:44 +0000
Subject: [PATCH 17/26] fix: MpoAllScale did not compile

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
index 183b917..b6af5f1 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
@@ -81,8 +81,8 @@ void MpoAllScale(
     FiniteMPO<TenElemT, QNT> &mpo,
     const TenElemT factor
 ) {
-  for (QLTensor<TenElemT, QNT> *ptensor : mpo) {
-    ptensor->MultiplyByScalar(factor);
+  for (size_t i = 0; i < mpo.size(); i++) {
+    mpo[i] *= factor;
   }
   return;
 }
-- 
2.43.0


From 12b850e0c997aa0f830d6da4c8549505423cbfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:44 +0000
Subject: [PATCH 18/26] fix: FiniteMPO::Normalize without a center normalized
 only the first tensor

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index a397ca9..34e7df9 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -284,14 +284,10 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
   }
 
   double Normalize() {
-    double norm2;
-    if (center_ != kUncentralizedCenterIdx) {
-      const size_t old_center = center_;
-      norm2 = (*this)(old_center)->Normalize();
-      center_ = old_center;
-    } else {
-      norm2 = (*this)(0)->Normalize();
-    }
+    if (center_ == kUncentralizedCenterIdx) { Centralize(0); }
+    const size_t old_center = center_;
+    double norm2 = (*this)(old_center)->Normalize();
+    center_ = old_center;
     return norm2;
   }
 
-- 
2.43.0


From 237e71deec7cf2a2a452be58f40fb79a87128aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 19/26] fix: Lanczos solvers normalised round-off noise when
 the Krylov space was exhausted, and overran with one iteration

---
 .../dmrg/lanczos_dmrg_solver_mpi_master.h     |  2 +-
 .../algo_mpi/tdvp/lanczos_expmv_solver_mpi.h  |  2 +-
 .../algo_mpi/vmps/lanczos_solver_mpi_master.h |  2 +-
 .../algorithm/dmrg/lanczos_dmrg_solver_impl.h |  2 +-
 include/qlmps/algorithm/lanczos_params.h      | 28 +++++++++++++++++++
 .../tdvp/lanczos_expmv_solver_impl.h          |  2 +-
 .../algorithm/vmps/lanczos_vmps_solver_impl.h |  2 +-
 7 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index c4ad67c..8c1801c 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -106,7 +106,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a, b, m, params)) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
index 7f2b59d..10cce62 100644
--- a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
+++ b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
@@ -113,7 +113,7 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
     trigssolver.Suspend();
 #endif
 
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a, b, m, params)) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 89c5382..96b5f67 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -128,7 +128,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a, b, m, params)) {
       if (m == 1) {
 #ifdef QLMPS_TIMING_MODE
         Timer lancozs_post_precessing("lancz_post_processing");
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index e284521..df474b4 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -130,7 +130,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a, b, m, params)) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algorithm/lanczos_params.h b/include/qlmps/algorithm/lanczos_params.h
index 04a643a..31e2cfa 100644
--- a/include/qlmps/algorithm/lanczos_params.h
+++ b/include/qlmps/algorithm/lanczos_params.h
@@ -16,6 +16,9 @@
 
 
 #include <stdlib.h>     // size_t
+#include <algorithm>    // max
+#include <cmath>        // abs
+#include <vector>       // vector
 
 
 namespace qlmps {
@@ -44,6 +47,31 @@ struct LanczosParams {
   double error;             ///< The Lanczos tolerated error.
   size_t max_iterations;    ///< The maximal iteration times.
 };
+
+
+/**
+Whether the Lanczos iteration has to stop before its (m+1)-th vector is added: the
+Krylov space is exhausted (what is left of the new vector is round-off noise, which
+normalization would blow up to a vector not orthogonal to the others) or there is no
+room for another vector.
+
+@param norm_gamma The norm of the new vector before normalization.
+@param a The first m diagonal elements of the tridiagonal matrix.
+@param b The first m-1 off-diagonal elements of the tridiagonal matrix.
+@param m The number of Lanczos vectors.
+*/
+inline bool IsKrylovSpaceExhausted(
+    const double norm_gamma,
+    const std::vector<double> &a, const std::vector<double> &b, const size_t m,
+    const LanczosParams &params
+) {
+  double scale = 1.0;
+  for (size_t i = 0; i < m; ++i) {
+    scale = std::max(scale, std::abs(a[i]));
+    if (i + 1 < m) { scale = std::max(scale, std::abs(b[i])); }
+  }
+  return norm_gamma < 1.0E-13 * scale || m >= params.max_iterations;
+}
 } /* qlmps */
 
 
diff --git a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
index 49a6ad9..7856b95 100644
--- a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
+++ b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
@@ -121,7 +121,7 @@ ExpmvRes<TenT> LanczosExpmvSolver(
     }
     QLTEN_Double norm_gamma = gamma->Normalize();
 
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a, b, m, params)) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index a21cf92..1a54354 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -183,7 +183,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->QuasiNormalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a, b, m, params)) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
-- 
2.43.0


From ec6159ce2c8882ea6e8b3b95134e0f43a61a4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 20/26] fix: TwoSiteFiniteVMPSWithNoise without noises went on
 with the noised algorithm

---
 .../algorithm/vmps/two_site_update_noise_finite_vmps_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
index c9299d3..ef43208 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
@@ -86,7 +86,7 @@ QLTEN_Double TwoSiteFiniteVMPSWithNoise( //same function name, overload by class
   if (sweep_params.noises.size() == 0) {
     FiniteVMPSSweepParams sweep_params_copy = sweep_params;
     sweep_params_copy.noise_valid = false;
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
   }
   assert(mps.size() == mpo.size());
 
-- 
2.43.0


From b5175075dcb2926bc856c948793a07f54d5d77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:20 +0000
Subject: [PATCH 21/26] fix: DMRG used outdated block operators when a lower
 bond limit widened the sweep range again

---
 .../algo_mpi/dmrg/dmrg_mpi_impl_master.h      |  1 +
 include/qlmps/algorithm/dmrg/dmrg_init.h      |  1 +
 include/qlmps/algorithm/dmrg/operator_io.h    | 22 +++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
index 07904d8..fd39f98 100644
--- a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
+++ b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
@@ -635,6 +635,7 @@ void UpdateBoundaryBlockOpsMaster(
   }
 
   WriteOperatorGroup("l", left_boundary, log, temp_path);
+  RemoveOutOfRangeRightBlockOps(mat_repr_mpo, left_boundary, right_boundary, temp_path);
 }
 
 template<typename TenElemT, typename QNT>
diff --git a/include/qlmps/algorithm/dmrg/dmrg_init.h b/include/qlmps/algorithm/dmrg/dmrg_init.h
index 735ca26..168f827 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_init.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_init.h
@@ -262,6 +262,7 @@ void UpdateBoundaryBlockOps(
   }
 
   WriteOperatorGroup("l", left_boundary, log, temp_path);
+  RemoveOutOfRangeRightBlockOps(mat_repr_mpo, left_boundary, right_boundary, temp_path);
 }
 
 /**
diff --git a/include/qlmps/algorithm/dmrg/operator_io.h b/include/qlmps/algorithm/dmrg/operator_io.h
index b02e3e8..0b198c2 100644
--- a/include/qlmps/algorithm/dmrg/operator_io.h
+++ b/include/qlmps/algorithm/dmrg/operator_io.h
@@ -76,6 +76,28 @@ bool ReadAndRemoveOperatorGroup(
   return read_success;
 }
 
+/**
+ * Remove the right block operators out of the sweep range. The sweeps make them outdated,
+ * thus do not leave them to later runs with other boundaries.
+ */
+template<typename TenT>
+void RemoveOutOfRangeRightBlockOps(
+    const MatReprMPO<TenT> &mat_repr_mpo,
+    const size_t left_boundary,
+    const size_t right_boundary,
+    const std::string &temp_path
+) {
+  const size_t N = mat_repr_mpo.size();
+  for (size_t site = 0; site < N; site++) {
+    if (site > left_boundary && site <= right_boundary) { continue; }
+    const size_t blk_len = (N - 1) - site;
+    for (size_t comp = 0; comp < mat_repr_mpo[site].cols; comp++) {
+      std::string file_name = GenOpFileName("r", blk_len, comp, temp_path);
+      if (access(file_name.c_str(), 0) == 0) { RemoveFile(file_name); }
+    }
+  }
+}
+
 }
 
 #endif //QLMPS_ALGORITHM_DMRG_OPERATOR_IO_H
-- 
2.43.0


From 800d72156a880b9b6af28fd55b07af345dda89e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:42 +0000
Subject: [PATCH 22/26] fix: distributed VMPS Lanczos solver reported one
 iteration too few

---
 include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 96b5f67..f9022f2 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -219,7 +219,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #ifdef QLMPS_TIMING_MODE
       Timer lancozs_post_precessing("lancz_post_processing");
 #endif
-      lancz_res.iters = m;
+      lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
       LanczosFree(eigvec, bases, last_mat_mul_vec_res);
-- 
2.43.0


From 63f1d0e3ffe6c2e9d3f44286d36b0dbd67435997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:42 +0000
Subject: [PATCH 23/26] fix: distributed noised VMPS left tensors of the MPS in
 memory

---
 .../vmps/two_site_update_noised_finite_vmps_mpi_impl.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index 903e397..bfe953e 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -149,9 +149,9 @@ void NoisedVMPSPostProcess(
   for (size_t site = center; site > 0; site--) {
     mps.LoadTen(sweep_params.mps_path, site - 1);
     mps.RightCanonicalizeTen(site);
-    mps.DumpTen(sweep_params.mps_path, site);
+    mps.DumpTen(site, GenMPSTenName(sweep_params.mps_path, site), true);
   }
-  mps.DumpTen(sweep_params.mps_path, 0);
+  mps.DumpTen(0, GenMPSTenName(sweep_params.mps_path, 0), true);
   std::cout << "Moved the center of MPS to 0." << std::endl;
 }
 
-- 
2.43.0


From 7d7520187a20008e7e2c3ba63f60f06d76014044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:33 +0000
Subject: [PATCH 24/26] fix: distributed noised VMPS could not expand a bond
 whose right leg points inwards

---
 ..._site_update_noised_finite_vmps_mpi_impl.h | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index bfe953e..98c44cc 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -475,6 +475,25 @@ double MasterTwoSiteFiniteVMPSUpdate(
   return lancz_res.gs_eng;
 }
 
+/// MPO tensor of the right site to be used in the right-moving expansion. If the right leg of the state points
+/// inwards (see CheckAndUpdateBoundaryMPSTensors, right boundary setup), so has to do the right leg of the MPO tensor.
+template<typename TenElemT, typename QNT>
+QLTensor<TenElemT, QNT> RightMovingExpandMPOTen(
+    const QLTensor<TenElemT, QNT> &mpo_ten,
+    const Index<QNT> &state_right_index
+) {
+  if (state_right_index.GetDir() == OUT) { return mpo_ten; }
+  auto mpo_ten_tmp = mpo_ten;
+  mpo_ten_tmp.Transpose({3, 0, 1, 2});
+  QNT some_qn = state_right_index.GetQNSct(0).GetQn();
+  QNT qn0 = some_qn + (-some_qn);
+  QLTensor<TenElemT, QNT> u, v;
+  QLTensor<QLTEN_Double, QNT> s;
+  mock_qlten::SVD(&mpo_ten_tmp, 1, qn0, &u, &s, &v);
+  v.Transpose({1, 2, 3, 0});
+  return v;
+}
+
 template<typename TenElemT, typename QNT>
 void MasterTwoSiteFiniteVMPSRightMovingExpand(
     FiniteMPS<TenElemT, QNT> &mps,
@@ -513,13 +532,14 @@ void MasterTwoSiteFiniteVMPSRightMovingExpand(
   IndexVec<QNT> ten_tmp_indexes(4);
   ten_tmp_indexes[1] = splited_index;
   ten_tmp_indexes[2] = eff_ham[1]->GetIndexes()[2];
-  ten_tmp_indexes[3] = eff_ham[2]->GetIndexes()[2];
+  const TenT rmpo_ten = RightMovingExpandMPOTen(*eff_ham[2], gs_vec->GetIndexes()[3]);
+  ten_tmp_indexes[3] = rmpo_ten.GetIndexes()[2];
 
   Index<QNT> index_a = gs_vec->GetIndexes()[3];
   std::vector<qlten::QNSctsOffsetInfo> qnscts_offset_info_list;
   Index<QNT> index_b = FuseTwoIndexAndRecordInfo(
       index_a,
-      eff_ham[2]->GetIndexes()[3],
+      rmpo_ten.GetIndexes()[3],
       qnscts_offset_info_list
   );
   std::map<size_t, int> b_idx_qnsct_coor_expanded_idx_qnsct_coor_map;
@@ -617,6 +637,7 @@ void SlaveTwoSiteFiniteVMPSRightMovingExpand(
   broadcast_state_timer.PrintElapsed();
   size_t task_count = 0;
 #endif
+  const TenT rmpo_ten = RightMovingExpandMPOTen(*eff_ham[2], ground_state.GetIndexes()[3]);
   TenT state_shell(ground_state.GetIndexes());
   state_shell.Transpose({3, 0, 1, 2});
   const size_t split_idx = 0; //index of mps tensor
@@ -653,7 +674,7 @@ void SlaveTwoSiteFiniteVMPSRightMovingExpand(
   Contract(&eff_ham0_times_state, eff_ham[1], {{1, 2},
                                                {0, 1}}, &temp);
   eff_ham0_times_state.GetBlkSparDataTen().Clear();// save for memory
-  Contract(&temp, eff_ham[2], {{4, 1},
+  Contract(&temp, &rmpo_ten, {{4, 1},
                                {0, 1}}, &res);
   temp.GetBlkSparDataTen().Clear();
   res.FuseIndex(1, 4);
@@ -679,7 +700,7 @@ void SlaveTwoSiteFiniteVMPSRightMovingExpand(
     Contract(&eff_ham0_times_state, eff_ham[1], {{1, 2},
                                                  {0, 1}}, &temp);
     eff_ham0_times_state.GetBlkSparDataTen().Clear();// save for memory
-    Contract(&temp, eff_ham[2], {{4, 1},
+    Contract(&temp, &rmpo_ten, {{4, 1},
                                  {0, 1}}, &res);
     temp.GetBlkSparDataTen().Clear();
     res.FuseIndex(1, 4);
-- 
2.43.0


From 1d24eb41957e947826eb60dda515812f13f5c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:29 +0000
Subject: [PATCH 25/26] fix: entanglement entropy reported by the sweeps was
 NaN when a vanishing Schmidt value was kept

---
 include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
index 232d6e1..fb00d59 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
@@ -43,7 +43,7 @@ inline double MeasureEE(const DTenT &s, const size_t sdim) {
   for (size_t i = 0; i < sdim; ++i) {
     singular_value = s(i, i);
     p = singular_value * singular_value;
-    ee += (-p * std::log(p));
+    if (p > 0) { ee += (-p * std::log(p)); } // vanishing weights do not contribute
   }
   return ee;
 }
-- 
2.43.0


From 01d844076b87813cce4f5bc0be29c00d3e20b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:43 +0000
Subject: [PATCH 26/26] fix: Lanczos solvers returned a vector that is not
 normalised when started next to an eigenvector

---
 include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h | 2 ++
 include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h      | 2 ++
 include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h      | 2 ++
 include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index 8c1801c..ef61402 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -118,6 +118,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
         TridiagGsSolver(a, b, m, eigval, eigvec, 'V');
         auto gs_vec = new Tensor(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->Normalize(); // rounding errors leave the bases not exactly orthogonal
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
         lancz_res.gs_vec = gs_vec;
@@ -153,6 +154,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
       energy0 = energy0_new;
       auto gs_vec = new Tensor(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->Normalize(); // rounding errors leave the bases not exactly orthogonal
       lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index f9022f2..183fff6 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -154,6 +154,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
         auto gs_vec = new TenT(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->Normalize(); // rounding errors leave the bases not exactly orthogonal
 #ifdef QLMPS_TIMING_MODE
         final_linear_combine_timer.PrintElapsed();
 #endif
@@ -213,6 +214,7 @@ LanczosRes<TenT> MasterLanczosSolver(
       energy0 = energy0_new;
       auto gs_vec = new TenT(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->Normalize(); // rounding errors leave the bases not exactly orthogonal
 #ifdef QLMPS_TIMING_MODE
       final_linear_combine_timer.PrintElapsed();
 #endif
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index df474b4..bfcdfe4 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -141,6 +141,7 @@ LanczosRes<TenT> LanczosSolver(
         TridiagGsSolver(a, b, m, eigval, eigvec, 'V');
         auto gs_vec = new TenT(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->Normalize(); // rounding errors leave the bases not exactly orthogonal
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
         lancz_res.gs_vec = gs_vec;
@@ -183,6 +184,7 @@ LanczosRes<TenT> LanczosSolver(
       energy0 = energy0_new;
       auto gs_vec = new TenT(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->Normalize(); // rounding errors leave the bases not exactly orthogonal
       lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index 1a54354..f0b510d 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -194,6 +194,7 @@ LanczosRes<TenT> LanczosSolver(
         TridiagGsSolver(a, b, m, eigval, eigvec, 'V');
         auto gs_vec = new TenT(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->QuasiNormalize(); // rounding errors leave the bases not exactly orthogonal
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
         lancz_res.gs_vec = gs_vec;
@@ -236,6 +237,7 @@ LanczosRes<TenT> LanczosSolver(
       energy0 = energy0_new;
       auto gs_vec = new TenT(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->QuasiNormalize(); // rounding errors leave the bases not exactly orthogonal
       lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
-- 
2.43.0

