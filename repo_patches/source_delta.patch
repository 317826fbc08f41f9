From bb462bf88b9709892aed25d847d2d74d9bf2ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:41 +0000
Subject: [PATCH 01/24] fix: copy the input of a rank without a leading
 executor

The copy that precedes the first active reshape took its length from an
executor that can be missing: single rank backward transforms that end with
a reorder (the three transforms are merged in the last executor) skipped the
copy and transformed garbage, and ranks without data dereferenced null.
---
 src/heffte_compute_transform.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 1f425fe..be2d881 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -12,6 +12,22 @@
 
 namespace heffte {
 
+/*!
+ * \brief Returns the number of entries that this rank holds before the first active reshape.
+ *
+ * The leading executors can be missing when the rank has no data or when several 1-D transforms
+ * have been merged into a single executor, must not look at executors that come after a reshape.
+ */
+template<typename index>
+inline int get_input_size(std::array<std::unique_ptr<reshape3d_base<index>>, 4> const &shaper,
+                          std::array<executor_base*, 3> const &executor){
+    for(int i=0; i<3; i++){
+        if (shaper[i]) return 0; // there is no data before the reshape
+        if (executor[i] != nullptr) return executor[i]->box_size();
+    }
+    return 0;
+}
+
 template<typename location_tag, typename index, typename scalar_type>
 void compute_transform(typename backend::data_manipulator<location_tag>::stream_type stream,
                        int const batch_size,
@@ -57,8 +73,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         if (last == 0){
             shaper[0]->apply(batch_size, input, output, workspace);
         }else if (input != output){
-            int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[valid_executor]->box_size(), output);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * get_input_size(shaper, executor), output);
         }
         for(int i=0; i<3; i++)
             apply_fft(i, output);
@@ -72,8 +87,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         scalar_type *effective_input = output;
         if (input != output){
             add_trace name("copy");
-            if (executor[0] != nullptr)
-                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * get_input_size(shaper, executor), temp_buffer);
             effective_input = temp_buffer;
         }
         for(int i=0; i<last; i++)
@@ -95,7 +109,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
             shaper[0]->apply(batch_size, input, temp_buffer, workspace);
         }else{
             add_trace name("copy");
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * get_input_size(shaper, executor), temp_buffer);
         }
         active_shaper = 1;
     }else{
@@ -214,9 +228,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         shaper[0]->apply(batch_size, input, temp_buffer, workspace);
     }else{
         add_trace name("copy");
-        int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
         backend::data_manipulator<location_tag>::copy_n(stream, input,
-                                                        batch_size * executor[valid_executor]->box_size(), temp_buffer);
+                                                        batch_size * get_input_size(shaper, executor), temp_buffer);
     }
 
     for(int i=0; i<2; i++){ // apply the two complex-to-complex ffts
-- 
2.43.0


From b554dec27d22e4c9913338620b45296dac3c3830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 02/24] fix: merged 2D and 3D executors must follow the order
 of the box

The lengths, strides and number of transforms of the merged FFTW and MKL
executors were taken from the sizes in world order, which is wrong whenever
the storage order of the box differs from (0, 1, 2) and the sizes differ.
---
 include/heffte_backend_fftw.h | 30 ++++++++++++++++--------------
 include/heffte_backend_mkl.h  | 15 ++++++++-------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index b501e8b..14438bf 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -230,7 +230,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -239,22 +240,22 @@ public:
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
@@ -594,7 +595,8 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
     //! \brief Construct a plan for batch 2D transforms, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -603,22 +605,22 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Construct a plan for a single 3D transform, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index cdbc32c..72957ec 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -195,7 +195,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count())
     {
         int odir1 = box.find_order(dir1);
@@ -205,23 +206,23 @@ public:
             stride = 1;
             dist = size * size2;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size)};
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size) * static_cast<MKL_LONG>(stride)};
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.size[1]) * static_cast<MKL_LONG>(box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.osize(1)) * static_cast<MKL_LONG>(box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
-- 
2.43.0


From 9b814018e81994b9c4c3d5977fcf63d8fc8110d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 03/24] fix: plan the FFTW real-to-complex transforms as
 out-of-place

Passing null for both arrays made FFTW plan an in-place transform, which was
then executed out-of-place.  For a reduced direction with a single point there
is no such plan (null plan, crash) or the plan does nothing.
---
 include/heffte_backend_fftw.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 14438bf..1c6f4e1 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -359,16 +359,21 @@ struct plan_fftw<float, dir>{
      * \param cdist is the distance between the first entries of consecutive sequences in the complex sequences
      */
     plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
+        plan(nullptr)
+        {
+            // the transform is always out-of-place and the planner must see two different arrays
+            // the arrays are never accessed when using FFTW_ESTIMATE
+            alignas(64) fftwf_complex placeholder[1];
+            plan = (dir == direction::forward) ?
              fftwf_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+                                                   placeholder, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE
                                    ) :
-             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
+             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, placeholder, nullptr, stride, cdist,
                                                    nullptr, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE
-                                   ))
-        {}
+                                   );
+        }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
@@ -384,16 +389,21 @@ template<direction dir>
 struct plan_fftw<double, dir>{
     //! \brief Identical to the float-complex specialization.
     plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
+        plan(nullptr)
+        {
+            // the transform is always out-of-place and the planner must see two different arrays
+            // the arrays are never accessed when using FFTW_ESTIMATE
+            alignas(64) fftw_complex placeholder[1];
+            plan = (dir == direction::forward) ?
              fftw_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+                                                   placeholder, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE
                                    ) :
-             fftw_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
+             fftw_plan_many_dft_c2r(1, &size, howmanyffts, placeholder, nullptr, stride, cdist,
                                                    nullptr, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE
-                                   ))
-        {}
+                                   );
+        }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
-- 
2.43.0


From 066147b3be71084750d2495a1f1fb89f6814d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:08 +0000
Subject: [PATCH 04/24] fix: stride of the complex batch entries in the
 reshape-free real-to-complex transform

The second and third transforms of a batch entry were offset by the number of
real entries of the box and not by the number of complex entries, which wrote
past the end of the output and left the result of the batch wrong.
---
 src/heffte_compute_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index be2d881..87ed864 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -169,8 +169,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         for(int j=0; j<batch_size; j++){
             if (executor[0] != nullptr) executor[0]->forward(effective_input + j * executor[0]->box_size(),
                                                              output + j * executor[0]->complex_size(), executor_workspace);
-            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[0]->box_size(), executor_workspace);
-            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[0]->box_size(), executor_workspace);
+            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[1]->box_size(), executor_workspace);
+            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[2]->box_size(), executor_workspace);
         }
         return;
     }
-- 
2.43.0


From eefb4f55184cc950a110150366accb0304ff0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 05/24] fix: report a unit factor when no scaling is requested

get_scale_factor(scale::none) returned the full factor, i.e. not the factor
that the transforms apply for that scaling.
---
 include/heffte_fft3d.h     | 1 +
 include/heffte_fft3d_r2c.h | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 95d22ff..66d0162 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -543,6 +543,7 @@ public:
 
     //! \brief Returns the scale factor for the given scaling.
     double get_scale_factor(scale scaling) const{
+        if (scaling == scale::none) return 1.0;
         return (scaling == scale::symmetric) ? std::sqrt(scale_factor) : scale_factor;
     }
 
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e95ef47..70c7f44 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -294,7 +294,10 @@ public:
     /*!
      * \brief Returns the scale factor for the given scaling.
      */
-    double get_scale_factor(scale scaling) const{ return (scaling == scale::symmetric) ? std::sqrt(scale_factor) : scale_factor; }
+    double get_scale_factor(scale scaling) const{
+        if (scaling == scale::none) return 1.0;
+        return (scaling == scale::symmetric) ? std::sqrt(scale_factor) : scale_factor;
+    }
 
 private:
     //! \brief Same as in the fft3d case.
-- 
2.43.0


From 143ce9b346144a604ff4db3f60c98735601c1e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:17 +0000
Subject: [PATCH 06/24] fix: factor the squares of large primes in the stock
 backend

The trial division stopped before the square root, thus the square of a prime
above the table was treated as a prime and given to Rader's algorithm.
---
 include/stock_fft/heffte_stock_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stock_fft/heffte_stock_tree.h b/include/stock_fft/heffte_stock_tree.h
index 4ecdc59..c635eef 100644
--- a/include/stock_fft/heffte_stock_tree.h
+++ b/include/stock_fft/heffte_stock_tree.h
@@ -48,7 +48,7 @@ inline size_t factor(const size_t f) {
     }
 
     // If none of those work, turn to odd numbers that are greater than the last index
-    for(k = factors[k - 1]; k*k < f; k+=2) {
+    for(k = factors[k - 1]; k*k <= f; k+=2) {
         if( f % k == 0 ) return k;
     }
 
-- 
2.43.0


From ed454049514ecfa003f9c4aaf03d076fc81c8585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:18 +0000
Subject: [PATCH 07/24] fix: consider every factorization in
 proc_setup_min_surface

---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index e030715..d9ff603 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -668,7 +668,7 @@ inline std::array<int, 3> proc_setup_min_surface(box3d<index> const world, int n
         if (num_procs % i == 0){
             int const j_max = std::min((index)(num_procs / i), all_indexes[1]);
             for(int j=1; j<=j_max; j++){
-                if (j_max % j == 0){
+                if ((num_procs / i) % j == 0){
                     int const k = num_procs / (i * j);
                     if (k <= all_indexes[2]){
                         if (i * j * k == num_procs) {
-- 
2.43.0


From ee83dd9bb417ca55fcf36d426f2dd0cbbdf82bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 08/24] fix: check the size of the input vector in
 backward_real and the real-to-complex backward

---
 include/heffte_fft3d.h     | 2 ++
 include/heffte_fft3d_r2c.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 66d0162..a102e49 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -536,6 +536,8 @@ public:
     real_buffer_container<scalar_type> backward_real(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(not backend::uses_fft_types<backend_tag>::value or is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename transform_real_type<scalar_type, backend_tag>::type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index 70c7f44..cad119e 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -286,6 +286,8 @@ public:
     real_buffer_container<scalar_type> backward(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename define_standard_type<scalar_type>::type::value_type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
-- 
2.43.0


From 34d2480e9b05cc57cf5d7c15e9d5ac795c748cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:48 +0000
Subject: [PATCH 09/24] fix: check the real-to-complex direction before it is
 used

---
 src/heffte_plan_logic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heffte_plan_logic.cpp b/src/heffte_plan_logic.cpp
index 84c061c..1664d8a 100644
--- a/src/heffte_plan_logic.cpp
+++ b/src/heffte_plan_logic.cpp
@@ -435,6 +435,7 @@ logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_directi
     box3d<index> const world_out = find_world(boxes.out);
 
     // perform basic sanity check
+    assert( -1 <= r2c_direction and r2c_direction <= 2 );
     assert( world_complete(boxes.in,  world_in) );
     assert( world_complete(boxes.out, world_out) );
     if (r2c_direction == -1){
-- 
2.43.0


From 777f3057a9c3a1213bebadf22db0adcf0efa4a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:35 +0000
Subject: [PATCH 10/24] fix: name the sending rank in the trace of a
 point-to-point unpack

---
 src/heffte_reshape3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heffte_reshape3d.cpp b/src/heffte_reshape3d.cpp
index 5f39b89..1ea7f63 100644
--- a/src/heffte_reshape3d.cpp
+++ b/src/heffte_reshape3d.cpp
@@ -701,7 +701,7 @@ void reshape3d_pointtopoint<location_tag, packer, index>::apply_base(int batch_s
             gpu::synchronize_default_stream();
         #endif
 
-        { heffte::add_trace name("unpacking from " + std::to_string(irecv));
+        { heffte::add_trace name("unpacking from " + std::to_string(recv_proc[irecv]));
             for(int j=0; j<batch_size; j++){
                 packit.unpack(this->stream(), unpackplan[irecv], recv_buffer + batch_size * recv_loc[irecv] + j * recv_size[irecv],
                               destination + j * this->output_size + recv_offset[irecv]);
-- 
2.43.0


From be2554946e35de9295cd8abff14fe11b1e977f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:42 +0000
Subject: [PATCH 11/24] fix: trace the stages of the complex-to-real transform
 as single transforms

---
 src/heffte_compute_transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 87ed864..5917556 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -233,7 +233,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
     }
 
     for(int i=0; i<2; i++){ // apply the two complex-to-complex ffts
-        { add_trace name("fft-1d x3");
+        { add_trace name("fft-1d");
             if (executor[i] != nullptr){
                 for(int j=0; j<batch_size; j++)
                     executor[i]->backward(temp_buffer + j * executor[i]->box_size(), executor_workspace);
-- 
2.43.0


From 76adb1f48b89835400ef432b99f0078b04977c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 12/24] fix: set use_gpu_aware in heffte_set_default_options

---
 src/heffte_c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 75bf9e1..4a9c72c 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -223,6 +223,7 @@ int heffte_set_default_options(int backend, heffte_plan_options *options){
     options->use_reorder = (opts.use_reorder) ? 1 : 0;
     options->algorithm = Heffte_RESHAPE_ALGORITHM_ALLTOALLV;
     options->use_pencils = (opts.use_pencils) ? 1 : 0;
+    options->use_gpu_aware = (opts.use_gpu_aware) ? 1 : 0;
     return Heffte_SUCCESS;
 }
 
-- 
2.43.0


From 4c8cfabcaa400311bf6efecb9857a36469687a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 13/24] fix: report every failure of a plan creation as an
 error code

---
 src/heffte_c.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 4a9c72c..fbb978b 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -244,9 +244,9 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
+    try{
     heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
-    try{
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d<heffte::backend::stock>(inbox, outbox, comm, cpp_opts));
     }
@@ -271,7 +271,7 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
         plan = nullptr;
         return 2;
@@ -298,9 +298,9 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
+    try{
     heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
-    try{
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d_r2c<heffte::backend::stock>(inbox, outbox, r2c_direction, comm, cpp_opts));
     }
@@ -325,7 +325,7 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
         plan = nullptr;
         return 2;
-- 
2.43.0


From aee2132e4476f37f92ecb32ccecedca6ffdc9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:08 +0000
Subject: [PATCH 14/24] fix: leave a null handle after a failed plan creation

---
 src/heffte_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index fbb978b..1fcda20 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -273,7 +273,7 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
 
     }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
@@ -327,7 +327,7 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
 
     }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
-- 
2.43.0


From 2b2b6c629aba3ae095eda5184e73104650d6b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 15/24] fix: give the python box3d a size and use whole sizes
 in the geometry helpers

---
 python/heffte.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 4ffa2b0..823ae79 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -130,6 +130,13 @@ class box3d:
         assert self.order.size == 3
         for i in range(3):
             assert self.order[i] in [0, 1, 2]
+        self.size = self.high - self.low + 1
+
+    def count(self):
+        '''
+        Returns the number of indexes in the box.
+        '''
+        return int(np.prod(self.size)) if np.all(self.size > 0) else 0
 
 def fft3d(backend_tag, inbox, outbox, comm):
     '''
@@ -430,18 +437,18 @@ def proc_setup(world, num_procs):
     assert(world.count() > 0)
     all_indexes = world.size
 
-    best_grid = [1, 1, num_procs]
-    surface = lambda x: np.sum( all_indexes/x * np.roll(all_indexes/x,-1) )
-    best_surface = surface([1, 1, num_procs])
+    best_grid = [1, 1, 1]
+    best_surface = None
+    surface = lambda x: np.sum( (all_indexes//x) * np.roll(all_indexes//x,-1) )
 
-    for i in np.arange(1, num_procs+1):
+    for i in range(1, min(num_procs, all_indexes[0]) + 1):
         if (num_procs % i == 0):
-            remainder = num_procs / i
-            for j in np.arange(1, remainder+1):
-                if (remainder % j == 0):
-                    candidate_grid = [i, j, remainder / j]
+            remainder = num_procs // i
+            for j in range(1, min(remainder, all_indexes[1]) + 1):
+                if (remainder % j == 0 and remainder // j <= all_indexes[2]):
+                    candidate_grid = [i, j, remainder // j]
                     candidate_surface = surface(candidate_grid)
-                    if (candidate_surface < best_surface):
+                    if (best_surface is None or candidate_surface < best_surface):
                         best_surface = candidate_surface
                         best_grid    = candidate_grid
 
@@ -450,9 +457,9 @@ def proc_setup(world, num_procs):
     return best_grid
 
 def split_world(world, proc_grid):
-    fast = lambda i : world.low[0] + i * (world.size[0] / proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
-    mid  = lambda i : world.low[1] + i * (world.size[1] / proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
-    slow = lambda i : world.low[2] + i * (world.size[2] / proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
+    fast = lambda i : world.low[0] + i * (world.size[0] // proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
+    mid  = lambda i : world.low[1] + i * (world.size[1] // proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
+    slow = lambda i : world.low[2] + i * (world.size[2] // proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
 
     result = []
     for k in np.arange(proc_grid[2]):
-- 
2.43.0


From f6fbf87658fa4c246c886aaa991edd2bfb20204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 16/24] fix: match the python plan_options to the C struct

---
 python/heffte.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 823ae79..f31590e 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -38,7 +38,7 @@ class heffte_plan(Structure):
 LP_plan = POINTER(heffte_plan)
 
 class plan_options(Structure):
-    _fields_ = [ ("use_reorder", c_int), ("use_alltoall", c_int), ("use_pencils", c_int) ]
+    _fields_ = [ ("use_reorder", c_int), ("algorithm", c_int), ("use_pencils", c_int), ("use_gpu_aware", c_int) ]
 
 # double-check this!
 MPI_Comm = c_int if mpi._sizeof(mpi.COMM_WORLD) == sizeof(c_int) else c_void_p
@@ -157,7 +157,7 @@ def fft3d(backend_tag, inbox, outbox, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options(0,0,1,1)
 
     herr = libheffte.heffte_plan_create(backend_tag, inbox.low, inbox.high, inbox.order,
                                         outbox.low, outbox.high, outbox.order,
@@ -189,7 +189,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options(0,0,1,1)
 
     herr = libheffte.heffte_plan_create_r2c(backend_tag, inbox.low, inbox.high, inbox.order,
                                             outbox.low, outbox.high, outbox.order,
-- 
2.43.0


From 6ec9c52cf8634173589c1384413f9f95b8e22c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 17/24] fix: print the message of heffte_input_error

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index f31590e..cd12612 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -31,7 +31,7 @@ class heffte_input_error(Exception):
         '''
         Prints the message set by the constructor.
         '''
-        print(message)
+        print(self.message)
 
 class heffte_plan(Structure):
     _fields_ = [ ("backend_type", c_int), ("using_r2c", c_int), ("fft", c_void_p) ]
-- 
2.43.0


From e147c721ad722dea0f50a64960b42abf8aa7a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:51 +0000
Subject: [PATCH 18/24] fix: destroy a python plan only when it was created

---
 python/heffte.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index cd12612..9a22f5a 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -209,7 +209,8 @@ class heffte_fft_plan:
         pass
 
     def __del__(self):
-        libheffte.heffte_plan_destroy(self.plan)
+        if getattr(self, "plan", None): # a failed creation leaves no plan to destroy
+            libheffte.heffte_plan_destroy(self.plan)
 
     def _get_ctypes_data(self, x, xtype):
         '''
-- 
2.43.0


From 108255d2753d918116030305094f82d9da15b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:02 +0000
Subject: [PATCH 19/24] fix: check the size of the workspace in the python
 backward_buffered

---
 python/heffte.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/heffte.py b/python/heffte.py
index 9a22f5a..eab7f51 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -370,6 +370,9 @@ class heffte_fft_plan:
         if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
             raise heffte_input_error("backward() called with invalid array size")
 
+        if workspace.size < self.size_workspace():
+            raise heffte_input_error("backward() called with insufficient workspace size")
+
         if self.use_r2c:
             if outarray.dtype == np.complex64 or outarray.dtype == np.complex128:
                 raise heffte_input_error("backward() called with r2c can use only real outarray types")
-- 
2.43.0


From 9e0ef08cce894811c92b6c8d9838955c69042c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 20/24] fix: check the sizes of the python backward transforms
 against the matching boxes

---
 python/heffte.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index eab7f51..f3c7df1 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -324,7 +324,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if self.use_r2c:
@@ -367,7 +367,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if workspace.size < self.size_workspace():
-- 
2.43.0


From e91eb966208db5b2125b68452aed9acafe5716d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 21/24] fix: mark the python real-to-complex plans as such

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index f3c7df1..617a882 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -181,7 +181,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
         raise heffte_input_error("fft3d_r2c() called with invalid r2c_direction, must use 0, 1, or 2")
 
     plan = heffte_fft_plan()
-    plan.use_r2c = False
+    plan.use_r2c = True
 
     # Define ctypes API for each library method
     comm_value = MPI_Comm.from_address( mpi._addressof(comm) )
-- 
2.43.0


From 14cd26afff6e39217943fe74d272d658fac5d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 22/24] fix: reject arrays that are not contiguous in the
 python interface

---
 python/heffte.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/heffte.py b/python/heffte.py
index 617a882..deaafad 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -217,6 +217,8 @@ class heffte_fft_plan:
         Internal use, extracts ctypes array from x
         '''
         if type(x) is np.ndarray:
+            if not (x.flags.c_contiguous or x.flags.f_contiguous):
+                raise heffte_input_error("the arrays must be contiguous")
             return x.ctypes.data_as(xtype)
         else:
             return cast(x.device_ctypes_pointer.value, xtype)
-- 
2.43.0


From 1277d63091397a8ee556f98e9b5d27e94dd9fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:23 +0000
Subject: [PATCH 23/24] fix: compare overlaps of more than 2^31 points in
 maximize_overlap

---
 include/heffte_geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index d9ff603..8889b25 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -506,10 +506,10 @@ inline std::vector<box3d<index>> maximize_overlap(std::vector<box3d<index>> cons
         }
         // for each box in the result, find the box among the new_boxes
         // that has not been taken and has the largest overlap with the corresponding old box
-        int max_overlap = -1;
+        long long max_overlap = -1;
         size_t max_index = new_boxes.size();
         for(size_t j=0; j<new_boxes.size(); j++){
-            int overlap = old_boxes[i].collide(new_boxes[j]).count();
+            long long overlap = old_boxes[i].collide(new_boxes[j]).count();
             if (not taken[j] and overlap > max_overlap){
                 max_overlap = overlap;
                 max_index = j;
-- 
2.43.0


From 5485a33259b6b0f064c8ed984ba76c508c93ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:05 +0000
Subject: [PATCH 24/24] fix: compute the workspace of real-to-real executors in
 size_t

The sum of the sizes was made in int and overflowed for large cosine
plans, which turned the reported workspace into 1.8e19 entries.
---
 include/heffte_r2r_executor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_r2r_executor.h b/include/heffte_r2r_executor.h
index e79ed0c..6e8aeb0 100644
--- a/include/heffte_r2r_executor.h
+++ b/include/heffte_r2r_executor.h
@@ -257,7 +257,7 @@ struct real2real_executor : public executor_base{
     int box_size() const override{ return total_size; }
     //! \brief Returns the size of the box.
     size_t workspace_size() const override{
-        return fft->box_size() + 2 * fft->complex_size() + 2 * fft->workspace_size()
+        return static_cast<size_t>(fft->box_size()) + 2 * static_cast<size_t>(fft->complex_size()) + 2 * fft->workspace_size()
                + ((std::is_same<fft_backend_tag, backend::cufft>::value) ? 2 : 1 );
     }
     //! \brief Forward r2r, single precision.
-- 
2.43.0

