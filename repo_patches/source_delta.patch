From df58b3e2a92c2820a7180a630fc8037e7920baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 01/17] fix: reject shapes that do not broadcast instead of
 ignoring the mismatch

---
 src/INNC/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/utils/utils.cpp b/src/INNC/utils/utils.cpp
index dd3afb6..b340d1e 100644
--- a/src/INNC/utils/utils.cpp
+++ b/src/INNC/utils/utils.cpp
@@ -28,8 +28,8 @@ SizeVec broadcast_range(const SizeVec *u, const SizeVec *v) {
     if (i <= dim_v) {
       auto su = (*u)[dim_u - i];
       auto sv = (*v)[dim_v - i];
-      run_expect(su != 1 || sv != 1 || su == sv, "Size ", u, " and Size ", v,
-                 " are not broadcastable.");
+      run_expect(su == sv || std::min(su, sv) == 1, "Size ", *u, " and Size ",
+                 *v, " are not broadcastable.");
       ret[dim_u - i] = std::max(su, sv);
     } else {
       ret[dim_u - i] = (*u)[dim_u - i];
-- 
2.43.0


From b85f2e3bda241ec86dc789ef8dfa19ffe93299e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 02/17] fix: max/min start from the tensor's own first element,
 not the storage's

---
 include/INNC/ops.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 7412be1..f7000b7 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -245,8 +245,11 @@ void tensor_max(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  if (from->view->numel() == 0)
+    return;
   SizeVec max_sv;
+  max_sv.resize(from->dim(), 0);
+  *to_ptr = *(from_ptr + from->cnt_from_index(max_sv));
   for_each_sizevec(from->view->sizes, [=, &max_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
     if (__LIKELY(*to_ptr >= t))
@@ -272,8 +275,11 @@ void tensor_min(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  if (from->view->numel() == 0)
+    return;
   SizeVec min_sv;
+  min_sv.resize(from->dim(), 0);
+  *to_ptr = *(from_ptr + from->cnt_from_index(min_sv));
   for_each_sizevec(from->view->sizes, [=, &min_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
     if (__LIKELY(*to_ptr <= t))
-- 
2.43.0


From 87121479ef9be07856acc562e45f888a4774f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 03/17] fix: the gradient of mean takes the upstream gradient
 into account

---
 src/INNC/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index f1b2c36..6b60b0f 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -98,7 +98,8 @@ void MeanBack::step_back() {
                       TensorImpl::full(input_tfs[0]->view->sizes,
                                        1. / ((double)input_tfs[0]->numel()),
                                        input_tfs[0]->dtype)
-                          .get());
+                          .get(),
+                      &get_out_grad());
 }
 
 void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
-- 
2.43.0


From c8697afcbcfb90f9294eb6ee5b9907ffdff7a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 04/17] fix: the gradient of a/b skips an operand that does not
 require grad

---
 src/INNC/function.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 6b60b0f..8250d83 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -78,13 +78,17 @@ void tensor_div_back_numerator_f(TensorImpl &dst, TensorImpl &tf1,
                                                                     tf2);
 }
 void DivBack::step_back() {
-  try_accumulate_update(input_tfs[0].get());
-  tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
-                              *input_tfs[1]);
-  try_accumulate_update(input_tfs[1].get());
-  native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
-                                                       this_tf->type())(
-      input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  if (input_tfs[0]->requires_grad) {
+    try_accumulate_update(input_tfs[0].get());
+    tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
+                                *input_tfs[1]);
+  }
+  if (input_tfs[1]->requires_grad) {
+    try_accumulate_update(input_tfs[1].get());
+    native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
+                                                         this_tf->type())(
+        input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  }
 }
 
 void SumBack::step_back() {
-- 
2.43.0


From 510471fdb3b49dcd2fc9bae925eb3f3e393a81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 05/17] fix: the gradient of a/b reaches a broadcast
 denominator

---
 include/INNC/ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index f7000b7..7993e06 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -386,7 +386,7 @@ void tensor_div_back_denominator(TensorImpl *dst, const TensorImpl *outgrad,
   auto quot_ptr = reinterpret_cast<Quot *>(quot->data_->get_blob());
   auto den_ptr = reinterpret_cast<Den *>(den->data_->get_blob());
   for_each_sizevec(quot->size(), [=](const SizeVec &sv) {
-    *(dst_ptr + dst->cnt_from_index(sv)) -=
+    *(dst_ptr + dst->cnt_from_aug_index(sv)) -=
         *(outgrad_ptr + outgrad->cnt_from_aug_index(sv)) *
         *(quot_ptr + quot->cnt_from_aug_index(sv)) /
         *(den_ptr + den->cnt_from_aug_index(sv));
-- 
2.43.0


From bb91043f0c112c431b3ced3b33cd0d2d6f2385b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 06/17] fix: unary minus keeps i8 and i16 dtypes

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9ca8418..42ede65 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -145,7 +145,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator+() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::operator-() {
-  return *create(char(0)) - *this;
+  return *create(std::int8_t(0)) - *this;
 }
 
 std::shared_ptr<TensorImpl> operator+(TensorImpl &l, TensorImpl &r) {
-- 
2.43.0


From b87abba8e46b545a98b077bea4270048ba6362ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 07/17] fix: abs of a view allocates its result for the sizes,
 not for the view

---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 42ede65..586116d 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -392,11 +392,11 @@ std::shared_ptr<TensorImpl> TensorImpl::mean() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::abs() {
-  auto ret = create(dtype, view);
+  auto ret = create(dtype, StridedLayout{view->sizes});
   if (!requires_grad) {
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this, nullptr);
   } else {
-    auto grad = create(dtype, view);
+    auto grad = create(dtype, StridedLayout{view->sizes});
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this,
                                                       grad.get());
     ret->requires_grad = true;
-- 
2.43.0


From 0b5fb50adf4d41164cf5bdbcb5ff4258c4780e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 08/17] fix: the grad of a tensor that is a view gets storage
 its layout fits in

---
 src/INNC/function.cpp   | 6 +++++-
 src/INNC/tensorImpl.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 8250d83..692a194 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -44,7 +44,11 @@ void Backward::try_accumulate_update(TensorImpl *tf_prev, bool zero_init) {
   if (tf_prev->grad_fn.get() != nullptr)
     ++tf_prev->grad_fn->accumulated_n_outway;
   if (tf_prev->grad.get() == nullptr) {
-    tf_prev->grad = TensorImpl::create(tf_prev->dtype, tf_prev->view);
+    // the grad has the layout of the tensor, which may be a view into a larger
+    // storage
+    tf_prev->grad = TensorImpl::create(
+        tf_prev->dtype, tf_prev->view,
+        std::make_shared<UntypedStorage>(tf_prev->data_->get_size()));
     if (zero_init)
       tf_prev->grad->data_->zero_();
   } else if (!tf_prev->grad->data_->is_alloc()) {
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 586116d..1df177c 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -443,7 +443,11 @@ void TensorImpl::zero_grad() const noexcept {
 void share_grad_storage(TensorImpl &to, TensorImpl &from,
                         const std::shared_ptr<Layout> &view) {
   if (from.grad == nullptr) {
-    from.grad = TensorImpl::create(from.dtype, from.view, false);
+    // the grad has the layout of `from`, which may be a view into a larger
+    // storage
+    from.grad = TensorImpl::create(
+        from.dtype, from.view,
+        std::make_shared<UntypedStorage>(from.data_->get_size(), false));
   }
   to.grad = TensorImpl::create(to.dtype, view, from.grad->data_);
 }
-- 
2.43.0


From 44739ace6e6afa1aa7d51b5988b512851ca7b4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 09/17] fix: backward() from a view reaches the tensor it was
 taken from

---
 src/INNC/tensorImpl.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 1df177c..9cd7894 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -342,7 +342,16 @@ void TensorImpl::backward() {
   refresh_n_outway(this);
   std::queue<TensorImpl *> q; // TODO 3 multiprocessing
   q.push(this);
-  grad = ones_like(*this);
+  if (grad.get() != nullptr &&
+      dynamic_cast<NoBack *>(grad_fn.get()) != nullptr) {
+    // a view shares its grad storage with the tensor it was taken from
+    if (!grad->data_->is_alloc()) {
+      grad->data_->alloc();
+      grad->data_->zero_();
+    }
+    *grad += *ones_like(*this);
+  } else
+    grad = ones_like(*this);
   grad_fn->back_version = ++Backward::global_back_version;
   while (!q.empty()) {
     auto t = q.front();
-- 
2.43.0


From 98f3f0390b31101d8f37a4ef212025071786dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 10/17] fix: randn of f64 creates an f64 tensor

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9cd7894..bf14bc2 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -803,7 +803,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     return ret;
   } else {
     std::normal_distribution<double> gen_norm{};
-    auto ret = create(INNC::f32, StridedLayout{sizes});
+    auto ret = create(INNC::f64, StridedLayout{sizes});
     auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
-- 
2.43.0


From e21ea79fe64e83702dcddd2ab9a745d1414847d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 11/17] fix: reshape of a one-element tensor that requires grad
 returns its view

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index bf14bc2..e9416db 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -668,6 +668,7 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
     share_grad_storage(*tf, *input);
+    return tf;
   }
 
   bool isometry = true;
-- 
2.43.0


From 7c2c60d3171d7f2dd7e3fb07cab5e1d3e3acafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 12/17] fix: reshape rejects negative sizes and an inference
 with a zero size

---
 src/INNC/tensorImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index e9416db..995faed 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -617,6 +617,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
   size_t minus_one_exist = false;
   size_t minus_one_index;
   for (size_t i = 0; i < sizes_.size(); i++) {
+    run_expect(sizes_[i] >= -1, "Illegal size ", sizes_[i], " in sizes.");
     if (sizes_[i] == -1) {
       run_expect(!minus_one_exist,
                  "Cannot have more than two minus ones in size.");
@@ -629,7 +630,8 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
     for (size_t i = 0; i < sizes_.size(); i++)
       if (i != minus_one_index)
         s *= sizes_[i];
-    run_expect(numel % s == 0, "The input of sizes and numel is illegal.");
+    run_expect(s != 0 && numel % s == 0,
+               "The input of sizes and numel is illegal.");
     sizes_[minus_one_index] = numel / s;
   }
   SizeVec sizes__;
-- 
2.43.0


From 89311b408b3c3a67c5df6f1947b1e38c88256a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 13/17] fix: stride() recognises strided layouts

---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 995faed..6972cc6 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -56,8 +56,8 @@ size_t TensorImpl::size(int d) const {
 }
 
 SignedVec TensorImpl::stride() const {
-  if (typeid(view) == typeid(std::shared_ptr<StridedLayout>)) {
-    return dynamic_cast<StridedLayout *>(view.get())->strides;
+  if (auto view_s = dynamic_cast<StridedLayout *>(view.get())) {
+    return view_s->strides;
   } else {
     throw std::runtime_error("Scalar do not have stride");
   }
-- 
2.43.0


From 4738d6c40e129dabd99caa35af465334cb6c9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 14/17] fix: all() looks at the elements of any dtype, not at
 single bytes

---
 src/INNC/tensorImpl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 6972cc6..a90d54d 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -759,6 +759,10 @@ std::shared_ptr<TensorImpl> TensorImpl::detach() {
 }
 
 bool TensorImpl::all() const {
+  if (dtype != i8)
+    return apply_cmp_op<native::tensor_ne_helper>(*this,
+                                                  *create(std::int8_t(0)))
+        ->all();
   if (dlayout == layouts::strided) {
     for (auto r : view->sizes) {
       if (r == 0)
@@ -776,13 +780,13 @@ bool TensorImpl::all() const {
           sv[ptr] = 0;
           ++sv[--ptr];
         }
-        if (!*reinterpret_cast<bool *>(
+        if (!*reinterpret_cast<std::int8_t *>(
                 (data_->get_blob() + cnt_from_index(sv))))
           return false;
         ++sv[last_idx];
       };
     } else {
-      return *reinterpret_cast<bool *>(
+      return *reinterpret_cast<std::int8_t *>(
           (data_->get_blob() + cnt_from_index(SizeVec{})));
     }
   } else {
-- 
2.43.0


From f588e49853c734c3c7d7f9909981ed4faa1ab9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 15/17] fix: cat rejects an empty list

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index a90d54d..ad699f1 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -826,6 +826,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn_like(const TensorImpl &t) {
 std::shared_ptr<TensorImpl>
 TensorImpl::cat(const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_ts,
                 const size_t dim) {
+  run_expect(!input_ts.empty(), "cannot cat an empty list of tensors");
   run_expect(dim >= 0 && dim < input_ts[0]->dim(),
              "you give out a illegal dim");
   for (size_t i = 1; i < input_ts.size(); i++) {
-- 
2.43.0


From 8eda9392434bebcd6db1f644c554765ca8f8055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 16/17] fix: grad() of a sliced tensor is empty until
 backward() fills it

---
 src/INNC/tensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensor.cpp b/src/INNC/tensor.cpp
index 4784581..afe243b 100644
--- a/src/INNC/tensor.cpp
+++ b/src/INNC/tensor.cpp
@@ -114,7 +114,7 @@ bool Tensor::retain_grad() const noexcept { return fptr->retain_grad; }
 void Tensor::retain_grad(bool b) noexcept { fptr->retain_grad = b; }
 
 Tensor Tensor::grad() const noexcept {
-  if (fptr->grad.get() == nullptr)
+  if (fptr->grad.get() == nullptr || !fptr->grad->data_->is_alloc())
     return Tensor();
   return Tensor(fptr->grad);
 }
-- 
2.43.0


From 42e61de7a024dafaaca5b9cd875a50645acdbd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 17/17] fix: slicing an empty dimension still checks the slice
 text

---
 src/INNC/tensorImpl.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index ad699f1..53d8ffb 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -494,11 +494,6 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
                    " with size ", sizes[dim]);
         _offset += strides[dim] * idx;
       } else { // like a[-2:]
-        if (sizes[dim] == 0) {
-          _sizes.push_back(0);
-          _strides.push_back(0);
-          continue;
-        }
         for (int i = split_slice.size(); i < 3; ++i)
           split_slice.push_back("");
         long long step, beg, end;
-- 
2.43.0

