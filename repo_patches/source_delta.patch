From 9a65723aa7fd64571d820abb1f8eb9003d2588e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:39 +0000
Subject: [PATCH 01/15] fix: use the configured tolerance in the multinomial
 supervised E step

---
 src/ldaplusplus/em/MultinomialSupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
index 9c8168d..1bf32b4 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
@@ -55,7 +55,7 @@ std::shared_ptr<parameters::Parameters> MultinomialSupervisedEStep<Scalar>::doc_
 
     for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {
         // check for early stopping
-        if (this->converged(gamma_old, gamma, compute_likelihood_)) {
+        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
             break;
         }
         gamma_old = gamma;
-- 
2.43.0


From 9c0d89edf6c00f365cfbd757de5dba6f18fcc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 02/15] fix: skip absent words when computing the products in
 the supervised E step

---
 src/ldaplusplus/e_step_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 09c69a1..b0580bf 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -230,6 +230,10 @@ void compute_supervised_phi_gamma(
 
     // Compute the products that will allow us to compute and update h
     for (int n=0; n<X.rows(); n++) {
+        // Skip this word if it is not in the document
+        if (X[n] == 0)
+            continue;
+
         exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);
         //exp_eta_scaled = (eta * X_ratio[n]).array().exp();
         products.array() *= (exp_eta_scaled.transpose() * phi.col(n)).array();
-- 
2.43.0


From fd9973a2cb494a729163fb28423032a3d92f9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 03/15] fix: do not read past the responsibilities in the
 likelihood of an empty document

---
 src/ldaplusplus/e_step_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index b0580bf..766cc4f 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -87,6 +87,10 @@ Scalar compute_supervised_likelihood(
         if (X[n] > 0)
             break;
     }
+    // With no words every class is equally likely
+    if (n < 0)
+        return likelihood - std::log(static_cast<Scalar>(eta.cols()));
+
     likelihood += (eta.col(y).transpose() * phi * X.cast<Scalar>()).value() / X.sum();
     likelihood += - std::log((h.transpose() * phi.col(n)).value());
 
-- 
2.43.0


From 5b95b81905e04c7906f4031dd612a66f018b7488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:57 +0000
Subject: [PATCH 04/15] fix: report the likelihood of the returned
 responsibilities in the supervised E step even when no iteration ran

---
 src/ldaplusplus/em/SupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index c6f6b56..35ce2ad 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -79,7 +79,7 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
         this->get_event_dispatcher()->
             template dispatch<events::ExpectationProgressEvent<Scalar> >(
                 e_step_utils::compute_supervised_likelihood<Scalar>(
-                    X, y, alpha, beta, eta, phi, gamma, h
+                    X, y, alpha, beta, eta, phi, gamma
                 )
             );
     } else {
-- 
2.43.0


From d66d7eb0a450d648dd7876d07a190c4c70da5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:42 +0000
Subject: [PATCH 05/15] fix: do not turn topics without expected counts into
 NaN in the unsupervised M step

---
 src/ldaplusplus/em/UnsupervisedMStep.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/UnsupervisedMStep.cpp b/src/ldaplusplus/em/UnsupervisedMStep.cpp
index 37d6832..667bd99 100644
--- a/src/ldaplusplus/em/UnsupervisedMStep.cpp
+++ b/src/ldaplusplus/em/UnsupervisedMStep.cpp
@@ -1,4 +1,5 @@
 #include "ldaplusplus/em/UnsupervisedMStep.hpp"
+#include "ldaplusplus/utils.hpp"
 
 namespace ldaplusplus {
 namespace em {
@@ -9,8 +10,9 @@ void UnsupervisedMStep<Scalar>::m_step(
     std::shared_ptr<parameters::Parameters> parameters
 ) {
     // we maximized w.r.t \beta during each doc_m_step
-    std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta = 
-        b_.array().colwise() / b_.array().rowwise().sum();
+    auto model = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters);
+    model->beta = b_;
+    math_utils::normalize_rows(model->beta);
 
     b_.fill(0);
 }
-- 
2.43.0


From 4666665e1f7b41aa289b9a1e2314953844695e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:42 +0000
Subject: [PATCH 06/15] fix: use the class weights in the online supervised M
 step

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 0485893..8693615 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -112,6 +112,7 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
         y_,
+        class_weights_,
         regularization_penalty_
     );
     mlr.gradient(eta, eta_gradient_);
-- 
2.43.0


From 4974d9b0a399f183b01f503f8a87d57bbec8e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:55 +0000
Subject: [PATCH 07/15] fix: keep empty documents and topics without counts
 from turning the online model into NaN

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 8693615..45363ff 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -3,6 +3,7 @@
 #include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
 #include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
 #include "ldaplusplus/events/ProgressEvents.hpp"
+#include "ldaplusplus/utils.hpp"
 
 namespace ldaplusplus {
 namespace em {
@@ -74,7 +75,10 @@ void FastOnlineSupervisedMStep<Scalar>::doc_m_step(
 
     // Supervised suff stats
     expected_z_bar_.col(docs_seen_so_far_) = gamma - alpha;
-    expected_z_bar_.col(docs_seen_so_far_).array() /= expected_z_bar_.col(docs_seen_so_far_).sum();
+    auto words_in_doc = expected_z_bar_.col(docs_seen_so_far_).sum();
+    if (words_in_doc != 0) {
+        expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
+    }
     y_(docs_seen_so_far_) = y;
 
     // mark another document as seen
@@ -103,10 +107,9 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     // update the topic distributions
     // TODO: Change the update to something more formal like the online update
     //       of Hoffman et al.
-    beta.array() = (
-        beta_weight_ * beta.array() +
-        (1-beta_weight_) * (b_.array().colwise() / b_.array().rowwise().sum())
-    );
+    MatrixX mle = b_;
+    math_utils::normalize_rows(mle);
+    beta = beta_weight_ * beta + (1-beta_weight_) * mle;
 
     // update the eta
     optimization::MultinomialLogisticRegression<Scalar> mlr(
-- 
2.43.0


From 0ab9fc8ae07b08b42a945886b5faecdf1fd23118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:55 +0000
Subject: [PATCH 08/15] fix: scale the statistics of empty and very long
 documents correctly in the supervised M step

---
 src/ldaplusplus/em/SupervisedMStep.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 0d08756..cdc543d 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -52,12 +52,14 @@ void SupervisedMStep<Scalar>::doc_m_step(
 
     // get the expected_z_bar
     expected_z_bar_.col(docs_) = gamma - alpha;
-    expected_z_bar_.col(docs_).array() /= N;
+    if (N != 0)
+        expected_z_bar_.col(docs_).array() /= N;
 
     // get the variance_z_bar
     MatrixX phi_scaled = phi.array().rowwise() * X.cast<Scalar>().array().transpose();
     variance_z_bar_[docs_] = phi_scaled * phi_scaled.transpose();
-    variance_z_bar_[docs_] *= 1.0/(N * N);
+    if (N != 0)
+        variance_z_bar_[docs_] *= 1.0/(static_cast<double>(N) * N);
 
     docs_ += 1;
 }
-- 
2.43.0


From 1a02460804af4a45a0ef1fbbe70de6b228a8d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:55 +0000
Subject: [PATCH 09/15] fix: leave the classifier alone when an epoch had no
 labelled document

---
 src/ldaplusplus/em/FastSupervisedMStep.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldaplusplus/em/FastSupervisedMStep.cpp b/src/ldaplusplus/em/FastSupervisedMStep.cpp
index 5a52e78..b287f02 100644
--- a/src/ldaplusplus/em/FastSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastSupervisedMStep.cpp
@@ -62,6 +62,10 @@ void FastSupervisedMStep<Scalar>::m_step(
     );
     MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;
 
+    // there is nothing to train on if no labelled document has been seen
+    if (docs_ == 0)
+        return;
+
     // resize the member variables to fit the documents we 've seen so far in
     // the doc_m_steps
     y_.conservativeResize(docs_);
-- 
2.43.0


From 2fd3216222f47b8d9268f87f3f231a80db162e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:02 +0000
Subject: [PATCH 10/15] fix: do not step before the first listener when erasing
 deleted listeners

---
 src/ldaplusplus/events/Events.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c9c7a27..c8d898b 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -77,10 +77,11 @@ void ThreadSafeEventDispatcher::process_events() {
 
         std::lock(l1, l2);
 
-        for (auto l=listeners_.begin(); l!=listeners_.end(); l++) {
+        for (auto l=listeners_.begin(); l!=listeners_.end(); ) {
             if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {
                 l = listeners_.erase(l);
-                l--;
+            } else {
+                l++;
             }
         }
 
-- 
2.43.0


From 29a5e43ab18c0c270cf585d30cac428c3306c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:02 +0000
Subject: [PATCH 11/15] fix: let listeners add or remove listeners while being
 notified

---
 src/ldaplusplus/events/Events.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c8d898b..3a90a2c 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -40,7 +40,10 @@ void EventDispatcher::remove_listener(std::shared_ptr<EventListenerInterface> li
 
 
 void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
-    for (auto l : listeners_) {
+    // copy the listeners so that a listener can add or remove listeners
+    auto listeners = listeners_;
+
+    for (auto l : listeners) {
         l->on_event(event);
     }
 }
-- 
2.43.0


From 170acd76d573ad215271d0383ff3bfcc19bc0334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:37 +0000
Subject: [PATCH 12/15] fix: a listener added again after its removal stays
 registered in the thread safe dispatcher

---
 src/ldaplusplus/events/Events.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index 3a90a2c..e805012 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -52,7 +52,15 @@ void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
 void ThreadSafeEventDispatcher::add_listener(
     std::shared_ptr<EventListenerInterface> listener
 ) {
-    std::lock_guard<std::mutex> l(listeners_mutex_);
+    std::unique_lock<std::mutex> l1(listeners_mutex_, std::defer_lock);
+    std::unique_lock<std::mutex> l2(deleted_listeners_mutex_, std::defer_lock);
+
+    std::lock(l1, l2);
+
+    // a pending removal refers to the previous registration, not to this one
+    if (deleted_listeners_.erase(listener) > 0) {
+        listeners_.remove(listener);
+    }
 
     listeners_.push_back(listener);
 }
-- 
2.43.0


From bcd4d635b70930858a019afc1716610a7dec654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:11 +0000
Subject: [PATCH 13/15] fix: do not count negative (unlabeled) labels in the
 class priors

---
 src/ldaplusplus/Document.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 937245d..5716484 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <numeric>
 #include <utility>
 
@@ -97,11 +98,13 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 ) : indices_(X.cols(), random_state),
     X_(X),
     y_(y),
-    priors_(y.maxCoeff()+1)
+    priors_(std::max(y.maxCoeff()+1, 0))
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-        priors_[y_[i]] ++;
+        // negative labels mark unlabeled documents
+        if (y_[i] >= 0)
+            priors_[y_[i]] ++;
     }
     priors_.array() /= priors_.sum();
 }
-- 
2.43.0


From 773162e55f26f9e509892bce60ea06a22ae202ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 14/15] fix: write the swapped bytes back when reading arrays
 of the other byte order

---
 include/ldaplusplus/NumpyFormat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 3c90c44..550ebbd 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -69,6 +69,8 @@ namespace numpy_format {
             for (size_t j=0; j<sizeof(Scalar)/2; j++) {
                 std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);
             }
+
+            data[i] = d.v;
         }
     }
 
-- 
2.43.0


From 13296fbb332cbd2d08d631d4400361a025e3fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:45 +0000
Subject: [PATCH 15/15] fix: do not take the address of the first element of an
 empty vector when reading a numpy array

---
 include/ldaplusplus/NumpyFormat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 550ebbd..e13ba6f 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -350,11 +350,11 @@ namespace numpy_format {
 
                 // read the data
                 data.data_.resize(N);
-                is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));
+                is.read(reinterpret_cast<char *>(data.data_.data()), N*sizeof(Scalar));
 
                 // fix the endianess
                 if (endianness != is_big_endian()) {
-                    swap_endianess(&data.data_[0], N);
+                    swap_endianess(data.data_.data(), N);
                 }
 
                 return is;
-- 
2.43.0

