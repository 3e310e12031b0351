From f0e45df5489a56bb2b46762d72c7af5c373680a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 01/99] fix: moving a Tensor transfers ownership state (shadow,
 memory map)

---
 src/util/Tensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d927f44..bd11560 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -73,8 +73,14 @@ Tensor::Tensor ( Tensor && tensor ) {
   width_ = tensor.width_;
   height_ = tensor.height_;
   elements_ = tensor.elements_;
+  is_shadow_ = tensor.is_shadow_;
+  shadow_target_ = tensor.shadow_target_;
+  mmapped_ = tensor.mmapped_;
+  original_mmap_ = tensor.original_mmap_;
 
   tensor.data_ptr_ = nullptr;
+  tensor.mmapped_ = false;
+  tensor.original_mmap_ = nullptr;
   tensor.DeleteIfPossible();
 }
 
-- 
2.43.0


From 31623d53fc169ca23bb514d2ab653f3d40a51448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 02/99] fix: release the right memory map, and all of it, when
 a mapped tensor is replaced or deleted

---
 src/util/CompressedTensor.cpp | 6 ++++--
 src/util/Tensor.cpp           | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index b8a76a5..175a4e1 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -156,10 +156,11 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
-      original_mmap_ = target_mmap;
+      void* mmap_base = target_mmap;
       
       target_mmap = (void*)(((long)target_mmap) + offset_in_page);
       Resize(samples, width, height, maps, compressed_length, (char*)target_mmap, true);
+      original_mmap_ = mmap_base;
       input.seekg(compressed_length, std::ios::cur);
     } else
 #endif
@@ -173,7 +174,8 @@ void CompressedTensor::DeleteIfPossible() {
   if ( compressed_data_ptr_ != nullptr ) {
 #ifdef BUILD_POSIX
     if(mmapped_) {
-      munmap((void*)original_mmap_, compressed_length_);
+      // The mapping starts at a page boundary, possibly before the data
+      munmap((void*)original_mmap_, (compressed_data_ptr_ - (char*)original_mmap_) + compressed_length_);
       original_mmap_ = nullptr;
       mmapped_ = false;
     } else {
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index bd11560..71b9cb7 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -310,10 +310,11 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
-      original_mmap_ = target_mmap;
+      void* mmap_base = target_mmap;
       
       target_mmap = (void*)(((long)target_mmap) + offset_in_page);
       Resize(samples, width, height, maps, (datum*)target_mmap, true);
+      original_mmap_ = mmap_base;
       input.seekg(( elements * sizeof ( datum ) ) / sizeof ( char ) , std::ios::cur);
     } else
 #endif
@@ -403,7 +404,8 @@ void Tensor::DeleteIfPossible() {
     if ( !is_shadow_ ) {
 #ifdef BUILD_POSIX
       if(mmapped_) {
-        munmap((void*)original_mmap_, (elements_ * sizeof(datum)) / sizeof(char));
+        // The mapping starts at a page boundary, possibly before the data
+        munmap((void*)original_mmap_, ((char*)data_ptr_ - (char*)original_mmap_) + (elements_ * sizeof(datum)) / sizeof(char));
         original_mmap_ = nullptr;
         mmapped_ = false;
       } else {
-- 
2.43.0


From ce3749b1e51250e27aed39ded8652c1958f1898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:27 +0000
Subject: [PATCH 03/99] fix: load and write files named .Tensor, .jpeg and
 .JPEG, refuse very short names

---
 src/util/Tensor.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 71b9cb7..ced5a43 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -34,6 +34,11 @@
 
 namespace Conv {
 
+static bool HasSuffix ( const std::string& filename, const std::string& suffix ) {
+  return filename.length() >= suffix.length() &&
+    filename.compare ( filename.length() - suffix.length(), suffix.length(), suffix ) == 0;
+}
+
 Tensor::Tensor() {
 
 }
@@ -591,8 +596,8 @@ std::size_t Tensor::PixelMaximum ( std::size_t x, std::size_t y, std::size_t sam
 void Tensor::LoadFromFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( HasSuffix ( filename, "png" )
+       || HasSuffix ( filename, "PNG" )
      ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
@@ -606,10 +611,10 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( HasSuffix ( filename, "jpg" )
+       || HasSuffix ( filename, "jpeg" )
+       || HasSuffix ( filename, "JPG" )
+       || HasSuffix ( filename, "JPEG" )
      ) {
     Conv::JPGUtil::LoadFromFile ( filename, *this );
     return;
@@ -617,7 +622,7 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasSuffix ( filename, "Tensor" ) ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
@@ -633,8 +638,8 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 void Tensor::WriteToFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( HasSuffix ( filename, "png" )
+       || HasSuffix ( filename, "PNG" )
      ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
@@ -649,10 +654,10 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( HasSuffix ( filename, "jpg" )
+       || HasSuffix ( filename, "jpeg" )
+       || HasSuffix ( filename, "JPG" )
+       || HasSuffix ( filename, "JPEG" )
      ) {
     Conv::JPGUtil::WriteToFile ( filename, *this );
     return;
@@ -660,7 +665,7 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasSuffix ( filename, "Tensor" ) ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
     if ( !output_image_file.good() )
-- 
2.43.0


From 4508c9fef31fb98148cc03862311666d42386397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 04/99] fix: tensor streams close the file they loaded

---
 src/util/CompressedTensorStream.cpp | 9 ++++++++-
 src/util/FloatTensorStream.cpp      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 8f1d7f2..f84c0cc 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -10,6 +10,7 @@
 
 #ifdef BUILD_POSIX
 #include <fcntl.h>
+#include <unistd.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 #endif
@@ -49,8 +50,10 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
     tensor->Deserialize (input_stream, false);
 #endif
 
-    if (tensor->elements() == 0)
+    if (tensor->elements() == 0) {
+      delete tensor;
       break;
+    }
     
     if(tensor->elements() > max_elements_)
       max_elements_ = tensor->elements();
@@ -59,6 +62,10 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
     std::cout << "." << std::flush;
     input_stream.peek();
   }
+#ifdef BUILD_POSIX
+  // The memory maps stay valid without the descriptor
+  close(input_fd);
+#endif
   
   temp_tensor_.Resize(1,max_elements_);
   return 0;
diff --git a/src/util/FloatTensorStream.cpp b/src/util/FloatTensorStream.cpp
index 443fdcf..6ac6937 100644
--- a/src/util/FloatTensorStream.cpp
+++ b/src/util/FloatTensorStream.cpp
@@ -10,6 +10,7 @@
 
 #ifdef BUILD_POSIX
 #include <fcntl.h>
+#include <unistd.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 #endif
@@ -42,13 +43,19 @@ unsigned int FloatTensorStream::LoadFile(std::string path)
     tensor->Deserialize (input_stream, false);
 #endif
 
-    if (tensor->elements() == 0)
+    if (tensor->elements() == 0) {
+      delete tensor;
       break;
+    }
 
     tensors_.push_back(tensor);
     std::cout << "." << std::flush;
     input_stream.peek();
   }
+#ifdef BUILD_POSIX
+  // The memory maps stay valid without the descriptor
+  close(input_fd);
+#endif
   return 0;
 }
 
-- 
2.43.0


From 5d4647276e91513d7eb856d60e61973969b775f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 05/99] fix: compressed streams refuse a target sample the
 target tensor does not have

---
 src/util/CompressedTensorStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index f84c0cc..56a2cd1 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -76,7 +76,7 @@ bool CompressedTensorStream::CopySample(const unsigned int source, const std::si
 {
   if(source < tensors_.size()) {
     CompressedTensor* const ctensor = tensors_[source];
-    if(source_sample == 0 && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
+    if(source_sample == 0 && target_sample < target.samples() && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
       // This is a little hack for faster loading of certain datasets
 #ifdef BUILD_OPENCL
       target.MoveToCPU();
-- 
2.43.0


From 3bd1d4711f354cb4c2442a5e102a465edda04cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 06/99] fix: copying an empty tensor does not pass null
 pointers to memcpy

---
 src/util/Tensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index ced5a43..d2c38b8 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -60,7 +60,8 @@ Tensor::Tensor ( const Tensor& tensor, bool intentional ) {
   std::size_t bytes_to_copy = tensor.elements() * sizeof ( datum );
 
   // Copy
-  std::memcpy ( target_data, source_data, bytes_to_copy );
+  if ( bytes_to_copy > 0 )
+    std::memcpy ( target_data, source_data, bytes_to_copy );
 
   if ( !intentional ) {
     LOGDEBUG << "Tensor copied! Is this intentional?";
-- 
2.43.0


From 200ccaf6188c4c03c3163ec034d87ffc7f3f7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 07/99] fix: COL2IM checks the column against the image width

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index f1cbebe..767a1af 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -332,7 +332,7 @@ void TensorMath::COL2IM(Tensor& source, const int source_width, const int source
           if(iy >= 0 && iy < source_height) {
             for(int ox = 0; ox < target_width; ox++) {
               int ix = ox * stride_width - pad_width + kx;
-              if(ix >= 0 && iy < source_width) {
+              if(ix >= 0 && ix < source_width) {
                 source_ptr[(imap * source_height + iy) * source_width + ix] +=
                   target_ptr[(sample * target_height + oy) * target_width + ox];
               } 
-- 
2.43.0


From 4fed904cb03a7cb2fa2794acba96d654c46c3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 08/99] fix: local response normalization covers the whole
 width of the image

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index efadf67..808d934 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -83,7 +83,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -103,7 +103,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
@@ -135,7 +135,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -163,7 +163,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
-- 
2.43.0


From 6d305d1525546a2e6a43de9329adc2111d9e11eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 09/99] fix: hmax weight gradient follows the chain rule

---
 src/net/HMaxActivationFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 49c2684..aa707f2 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -168,8 +168,8 @@ void HMaxActivationFunction::BackPropagate() {
     datum input_delta = output_delta * a * output_mix; 
     
     // Calculate gradient of the output w.r.t. to weights
-    delta_a += output_mix * input_data;
-    delta_b += output_mix;
+    delta_a += output_delta * output_mix * input_data;
+    delta_b += output_delta * output_mix;
 
     // handle the KL divergence regularization;
     // We need to add the derivative of eq. (4) w.r.t. x here to input_delta
-- 
2.43.0


From 1316d44ad119e4b1a25b9f5defb2aac476ef2f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 10/99] fix: sum and concatenation layers refuse inputs of
 different dimensions

---
 src/net/ConcatenationLayer.cpp | 3 ++-
 src/net/SumLayer.cpp           | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/net/ConcatenationLayer.cpp b/src/net/ConcatenationLayer.cpp
index 25b7609..1e3bb51 100644
--- a/src/net/ConcatenationLayer.cpp
+++ b/src/net/ConcatenationLayer.cpp
@@ -32,8 +32,9 @@ bool ConcatenationLayer::CreateOutputs (const std::vector< CombinedTensor* >& in
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index c599aa1..c80dc12 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -33,8 +33,9 @@ bool SumLayer::CreateOutputs (const std::vector< CombinedTensor* >& inputs,
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
@@ -87,7 +88,7 @@ bool SumLayer::Connect (const std::vector< CombinedTensor* >& inputs,
   }
   
   if((output->data.elements() != input_a->data.elements())
-    && (output_->data.elements() != input_b->data.elements())) {
+    || (output->data.elements() != input_b->data.elements())) {
     LOGERROR << "Wrong output dimensions!";
     return false;
   }
-- 
2.43.0


From d40559ea87bd07faf5769b664d4743449dc33191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 11/99] fix: pooling layers refuse regions and strides that do
 not fit their input

---
 src/net/AdvancedMaxPoolingLayer.cpp | 8 ++++++++
 src/net/InputDownSamplingLayer.cpp  | 5 +++++
 src/net/MaxPoolingLayer.cpp         | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index e40d027..e075fc6 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -59,6 +59,14 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
     return false;
   }
 
+  // Validate dimensions
+  if (region_width_ == 0 || region_height_ == 0 ||
+      stride_width_ == 0 || stride_height_ == 0 ||
+      input->data.width() < region_width_ || input->data.height() < region_height_) {
+    LOGERROR << "Unsupported input dimensions " << input->data;
+    return false;
+  }
+
   const int output_width = ((int)input->data.width() - (int)region_width_ ) / (int)stride_width_ + 1;
   const int output_height = ((int)input->data.height() - (int)region_height_) / (int)stride_height_ + 1;
 
diff --git a/src/net/InputDownSamplingLayer.cpp b/src/net/InputDownSamplingLayer.cpp
index b2adf29..4c1d17f 100644
--- a/src/net/InputDownSamplingLayer.cpp
+++ b/src/net/InputDownSamplingLayer.cpp
@@ -39,6 +39,11 @@ bool InputDownSamplingLayer::CreateOutputs (
   }
 
   // Validate dimensions
+  if ( region_width_ == 0 || region_height_ == 0 ) {
+    LOGERROR << "Region cannot have zero dimensions!";
+    return false;
+  }
+
   if ( (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 997e6e4..841dca2 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -52,6 +52,11 @@ bool MaxPoolingLayer::CreateOutputs (
   }
 
   // Validate dimensions
+  if ( region_width_ == 0 || region_height_ == 0 ) {
+    LOGERROR << "Region cannot have zero dimensions!";
+    return false;
+  }
+
   if ( (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
-- 
2.43.0


From 80cbf294b13ce5174f9db2388e8f16ff1cfafcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 12/99] fix: convolution layers validate their configuration
 string

---
 src/net/ConvolutionLayer.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 0b6e45c..9565877 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -53,7 +53,7 @@ ConvolutionLayer::ConvolutionLayer (const unsigned int kwidth,
     FATAL("Stride needs to be at least 1!");
   }
   
-  if((output_maps_ % group) != 0) {
+  if(group == 0 || (output_maps_ % group) != 0) {
     FATAL("Output maps need to divide group count");
   }
   
@@ -92,7 +92,18 @@ ConvolutionLayer::ConvolutionLayer(std::string configuration) :
   ParseDatumParamIfPossible (configuration, "llr", local_lr);
   ParseCountIfPossible(configuration, "seed", seed);
   
-  // TODO Validation like in large constructor
+  // Validate like in large constructor
+  if (kernel_width_ == 0 || kernel_height_ == 0) {
+    FATAL ("Kernels cannot have zero dimensions");
+  }
+    
+  if(stride_width_ == 0 || stride_height_ == 0) {
+    FATAL("Stride needs to be at least 1!");
+  }
+  
+  if(group_ == 0 || (output_maps_ % group_) != 0) {
+    FATAL("Output maps need to divide group count");
+  }
   
   SetLocalLearningRate(local_lr);
 }
-- 
2.43.0


From d99195524cd376338839576af0aec972a51ed3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 13/99] fix: networks with connections to foreign nodes are not
 complete

---
 src/net/NetGraph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index c7471a4..cefe265 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -85,8 +85,9 @@ bool NetGraph::IsComplete() const {
 			if (node->layer != nullptr) {
 				for (NetGraphConnection connection : node->input_connections) {
 					if (connection.node != nullptr) {
-						if (std::find(nodes_.begin(), nodes_.end(), node) == nodes_.end()) {
+						if (std::find(nodes_.begin(), nodes_.end(), connection.node) == nodes_.end()) {
 							LOGWARN << "Node has out-of-network connection: " << node->layer->GetLayerDescription();
+							node_okay = false;
 						}
 						else {
 							if (connection.buffer >= connection.node->output_buffers.size()) {
-- 
2.43.0


From 84ea829d07d9ccc9ce7cdd9f20ce1b1d0b109b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 14/99] fix: dataset size takes all testing images into account

---
 src/util/TensorStreamDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 14109dd..c9cfe73 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -87,7 +87,7 @@ TensorStreamDataset::TensorStreamDataset (
       max_height_ = training_stream_->GetHeight(2*t);
   }
 
-  for (unsigned int t = (tensor_count_training_ / 2) ; t < tensors_; t++) {
+  for (unsigned int t = 0; t < (tensor_count_testing_ / 2); t++) {
     if(testing_stream_->GetWidth(2*t) > max_width_)
       max_width_ = testing_stream_->GetWidth(2*t);
     
-- 
2.43.0


From 0296ce6a029e80a10236a2d9c22aeb59c2b5b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 15/99] fix: spatial prior of images that are one pixel wide or
 high is not NaN

---
 src/util/TensorStreamDataset.cpp | 8 ++++----
 tools/classifyImage.cpp          | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index c9cfe73..f969732 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -205,8 +205,8 @@ bool TensorStreamDataset::GetTrainingSample (Tensor& data_tensor, Tensor& label_
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = (data_width > 1) ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = (data_height > 1) ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
@@ -251,8 +251,8 @@ bool TensorStreamDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_t
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = (data_width > 1) ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = (data_height > 1) ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index cc05e4a..f8dd704 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -92,8 +92,8 @@ int main (int argc, char* argv[]) {
   // Write spatial prior data to helper tensor
   for (unsigned int y = 0; y < original_height; y++) {
     for (unsigned int x = 0; x < original_width; x++) {
-      *helper_tensor.data_ptr(x, y, 0, 0) = ((Conv::datum)x) / ((Conv::datum)original_width - 1);
-      *helper_tensor.data_ptr(x, y, 1, 0) = ((Conv::datum)y) / ((Conv::datum)original_height - 1);
+      *helper_tensor.data_ptr(x, y, 0, 0) = (original_width > 1) ? ((Conv::datum)x) / ((Conv::datum)original_width - 1) : 0;
+      *helper_tensor.data_ptr(x, y, 1, 0) = (original_height > 1) ? ((Conv::datum)y) / ((Conv::datum)original_height - 1) : 0;
     }
     for (unsigned int x = original_width; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
-- 
2.43.0


From 564235d285426a751f02d431e660a47b64648b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 16/99] fix: patch dataset testing samples come from the
 testing images

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 00dc53b..53ab65a 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -269,7 +269,7 @@ bool TensorStreamPatchDataset::GetTrainingSample (Tensor& data_tensor, Tensor& l
 
 bool TensorStreamPatchDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_tensor, Tensor& helper_tensor, Tensor& weight_tensor, unsigned int sample, unsigned int index) {
   if (index < sample_count_testing_) {
-		index += sample_count_testing_;
+		index += sample_count_training_;
     bool success = true;
 
     // Find patch
-- 
2.43.0


From ae8ba3b762675827a65aa77d574f0def0f55116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 17/99] fix: patch dataset maps the testing file for testing
 samples

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 53ab65a..155cac0 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -442,7 +442,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     }
 #ifdef BUILD_POSIX
     if(!no_mmap)
-      testing_fd = open(training_file.c_str(), O_RDONLY);
+      testing_fd = open(testing_file.c_str(), O_RDONLY);
     if(testing_fd < 0) {
       FATAL("Failed to load " << testing_file << "!");
     }
-- 
2.43.0


From 6edee5e13a810a1b2c465dc1c745b70a91204585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 18/99] fix: Colorize picks the maximum class when all outputs
 are negative

---
 src/util/Colorize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Colorize.cpp b/src/util/Colorize.cpp
index 758df1f..b28d423 100644
--- a/src/util/Colorize.cpp
+++ b/src/util/Colorize.cpp
@@ -49,7 +49,7 @@ void Dataset::Colorize(Tensor& net_output_tensor, Tensor& target_tensor) {
        for(unsigned int y = 0; y < net_output_tensor.height(); y++) {
 	for(unsigned int x = 0; x < net_output_tensor.width(); x++) {
 	  unsigned int maxclass = 0;
-	  datum maxvalue = std::numeric_limits<datum>::min();
+	  datum maxvalue = std::numeric_limits<datum>::lowest();
 	  for(unsigned int c = 0; c < GetClasses(); c++) {
 	    const datum value = *net_output_tensor.data_ptr_const(x,y,c,sample);
 	    if(value > maxvalue) {
-- 
2.43.0


From f784304f138e31faab9c9f830872b0facdee937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 19/99] fix: classifyImage clears the padded rows over the
 image width

---
 tools/classifyImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index f8dd704..56a8503 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -101,7 +101,7 @@ int main (int argc, char* argv[]) {
     }
   }
   for (unsigned int y = original_height; y < height; y++) {
-    for (unsigned int x = 0; x < height; x++) {
+    for (unsigned int x = 0; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
       *helper_tensor.data_ptr(x, y, 1, 0) = 0;
     }
-- 
2.43.0


From 4ecb76ff4eb7ba9d1888888a8bd5c7df3d076456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 20/99] fix: images smaller than a patch do not contribute
 patch samples

---
 src/util/TensorStreamPatchDataset.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 155cac0..b840952 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -122,8 +122,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = 0; t < (tensor_count_training_ / 2); t++) {
 		data_[t].Deserialize(training_stream, false, true, training_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		// Images that are smaller than a patch don't contain any samples
+		unsigned int inner_width = (data_[t].width() >= patchsize_x_) ? data_[t].width() - (patchsize_x_ - 1) : 0;
+		unsigned int inner_height = (data_[t].height() >= patchsize_y_) ? data_[t].height() - (patchsize_y_ - 1) : 0;
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
@@ -140,8 +141,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = (tensor_count_training_ / 2); t < tensors_; t++) {
 		data_[t].Deserialize(testing_stream, false, true, testing_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		// Images that are smaller than a patch don't contain any samples
+		unsigned int inner_width = (data_[t].width() >= patchsize_x_) ? data_[t].width() - (patchsize_x_ - 1) : 0;
+		unsigned int inner_height = (data_[t].height() >= patchsize_y_) ? data_[t].height() - (patchsize_y_ - 1) : 0;
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
-- 
2.43.0


From f9fafbff3010cf80e7dbd086439d748a8ab89ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 21/99] fix: list streams report whether a sample was copied

---
 src/util/ListTensorStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 0832b12..a990ef5 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -155,11 +155,15 @@ namespace Conv {
 						}
 					}
 				} // end if
-				Tensor::CopySample(label_tensor, source_sample, target, target_sample);
+				delete[] cr;
+				delete[] cg;
+				delete[] cb;
+
+				return Tensor::CopySample(label_tensor, source_sample, target, target_sample);
 				
 			} else {
 				// Tensor has an image in it, no transform needed
-				Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
 			}
 		} else {
 			return false;
-- 
2.43.0


From 9c4f30b1c88c987dfdea177f2248dcf4645336d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 22/99] fix: list streams accept an empty directory

---
 src/util/ListTensorStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index a990ef5..6014239 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -173,10 +173,10 @@ namespace Conv {
 	unsigned int ListTensorStream::LoadFiles(std::string image_list_fname, std::string image_directory, std::string label_list_fname, std::string label_directory) {
 		unsigned int number_of_classes = class_colors_.size();
 		
-		if(image_directory.back() != '/')
+		if(!image_directory.empty() && image_directory.back() != '/')
 			image_directory += "/";
 
-		if(label_directory.back() != '/')
+		if(!label_directory.empty() && label_directory.back() != '/')
     label_directory += "/";
 
 		// Open file lists
-- 
2.43.0


From 97460b2fe979b677cb3a4114449315d58d288ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 23/99] fix: training on a dataset without training samples is
 an error

---
 src/net/DatasetInputLayer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index d3f4d70..7c315d4 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -160,6 +160,10 @@ void DatasetInputLayer::FeedForward() {
       }
 
     } else {
+      if (perm_.empty()) {
+        FATAL ("Dataset has no training samples!");
+      }
+
       // Select samples until one from the right subset is hit
       // Select a sample from the permutation
       selected_element = perm_[current_element_];
-- 
2.43.0


From 255a5988d8dcd9e269008141d36ab196e8ef3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 24/99] fix: CSV sink does not write to a file it could not
 open

---
 src/util/CSVStatSink.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 4f7ac90..2d387bb 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -50,7 +50,7 @@ void CSVStatSink::Process(Conv::HardcodedStats &hardcoded_stats, std::vector<Sta
 }
   
 bool isnalnum(char c) {
-  return !std::isalnum((int)c);
+  return !std::isalnum((unsigned char)c);
 }
   
 void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
@@ -58,6 +58,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
   if(csv_stream_ != nullptr) {
     csv_stream_->close();
     delete csv_stream_;
+    csv_stream_ = nullptr;
   }
   
   // Generate filename
@@ -73,6 +74,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
     LOGERROR << "Cannot open " << csv_filename << " for writing!";
     delete csv_stream_;
     csv_stream_ = nullptr;
+    return;
   }
   // Write header for hardcoded stats
   (*csv_stream_) << "IsTraining,Epoch,Iterations,SecondsElapsed,";
-- 
2.43.0


From cd8b159da3c776cad3c8261aed75ba176e6e6ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 25/99] fix: hmax statistics descriptors outlive the layer that
 registers them

---
 include/cn24/net/HMaxActivationFunction.h | 2 --
 src/net/HMaxActivationFunction.cpp        | 6 ++++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cn24/net/HMaxActivationFunction.h b/include/cn24/net/HMaxActivationFunction.h
index 6e0973f..cafea89 100644
--- a/include/cn24/net/HMaxActivationFunction.h
+++ b/include/cn24/net/HMaxActivationFunction.h
@@ -58,8 +58,6 @@ public:
   datum sum_of_activations_ = 0;
   datum total_activations_ = 0;
   
-  StatDescriptor desc_a, desc_b;
-  
   static int stat_id_a;
   static int stat_id_b;
 };
diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index aa707f2..3789c6c 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -21,8 +21,10 @@ HMaxActivationFunction::HMaxActivationFunction(const datum mu, const datum loss_
   : SimpleLayer(""), mu_(mu), loss_weight_(loss_weight) {
     if(stat_id_a >= 0)
       return;
-  // Prepare stats
-    
+  // Prepare stats, the descriptors need to live as long as the aggregator
+    StatDescriptor& desc_a = *(new StatDescriptor);
+    StatDescriptor& desc_b = *(new StatDescriptor);
+
     desc_a.nullable = true;
     desc_a.description = "HMaxA";
     desc_a.unit = "1";
-- 
2.43.0


From ec73e4e371b91be9b63828e555d82fb14c8b48f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 26/99] fix: F1 value is zero, not NaN, when there are no true
 positives

---
 src/net/BinaryStatLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 19a1877..6e5e62e 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -117,7 +117,7 @@ void BinaryStatLayer::UpdateAll() {
                ( true_positives_[t] + false_negatives_[t] );
 
     if ( precision >= 0 && recall >= 0 ) {
-      f1 = 2 * precision * recall / ( precision + recall );
+      f1 = ( precision + recall > 0 ) ? 2 * precision * recall / ( precision + recall ) : 0;
     }
 
     if ( f1 > fmax ) {
@@ -150,7 +150,7 @@ void BinaryStatLayer::UpdateAll() {
           ( true_positives_[tfmax] + false_negatives_[tfmax] );
 
   if ( precision >= 0 && recall >= 0 )
-    f1 = 2 * precision * recall / ( precision + recall );
+    f1 = ( precision + recall > 0 ) ? 2 * precision * recall / ( precision + recall ) : 0;
   
   acc = ( true_positives_[tfmax] + true_negatives_[tfmax] ) /
           ( true_positives_[tfmax] + true_negatives_[tfmax] +
-- 
2.43.0


From 7d11ed481262a5ebaefc8b0a81be978a7d5d1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 27/99] fix: binary statistics refuse weights of another size

---
 src/net/BinaryStatLayer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 6e5e62e..cb17fa7 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -194,7 +194,8 @@ bool BinaryStatLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inpu
     return false;
   }
 
-  if ( first->data.samples() != third->data.samples() ) {
+  if ( first->data.samples() != third->data.samples() ||
+       first->data.elements() != third->data.elements() ) {
     LOGERROR << "Inputs need the same number of samples!";
     return false;
   }
@@ -218,6 +219,7 @@ bool BinaryStatLayer::Connect ( const std::vector< CombinedTensor* >& inputs, co
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
+               first->data.elements() == third->data.elements() &&
                outputs.size() == 0;
 
   if ( valid ) {
-- 
2.43.0


From e5c9633099b7ff5b051d8276fa4deec452beb56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 28/99] fix: binary statistics counters do not saturate at 2^24
 pixels

---
 include/cn24/net/BinaryStatLayer.h | 8 ++++----
 src/net/BinaryStatLayer.cpp        | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cn24/net/BinaryStatLayer.h b/include/cn24/net/BinaryStatLayer.h
index 1343acc..5936c44 100644
--- a/include/cn24/net/BinaryStatLayer.h
+++ b/include/cn24/net/BinaryStatLayer.h
@@ -77,10 +77,10 @@ protected:
   unsigned int thresholds_ = 0;
   
   datum* threshold_values_ = nullptr;
-  datum* true_positives_ = nullptr;
-  datum* true_negatives_ = nullptr;
-  datum* false_positives_ = nullptr;
-  datum* false_negatives_ = nullptr;
+  double* true_positives_ = nullptr;
+  double* true_negatives_ = nullptr;
+  double* false_positives_ = nullptr;
+  double* false_negatives_ = nullptr;
   
   bool disabled_ = false;
 
diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index cb17fa7..1548bb8 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -22,10 +22,10 @@ BinaryStatLayer::BinaryStatLayer ( const unsigned int thresholds,
   LOGDEBUG << "Instance created. Using " << thresholds_ << " thresholds from " <<
            min_t << " to " << max_t;
   threshold_values_ = new datum[thresholds_];
-  true_positives_ = new datum[thresholds_];
-  false_positives_ = new datum[thresholds_];
-  true_negatives_ = new datum[thresholds_];
-  false_negatives_ = new datum[thresholds_];
+  true_positives_ = new double[thresholds_];
+  false_positives_ = new double[thresholds_];
+  true_negatives_ = new double[thresholds_];
+  false_negatives_ = new double[thresholds_];
 
   if ( thresholds_ == 1 ) {
     threshold_values_[0] = ( min_t + max_t ) / 2.0;
-- 
2.43.0


From 515bd35026073b5bf9322e9755d3a3601263b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 29/99] fix: resetting statistics before the confusion matrix
 layer is connected

---
 src/net/ConfusionMatrixLayer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 623e8e0..df99c41 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -209,6 +209,10 @@ void ConfusionMatrixLayer::BackPropagate() {
 
 
 void ConfusionMatrixLayer::Reset() {
+  // There is nothing to reset until the layer is connected
+  if ( matrix_ == nullptr )
+    return;
+
   for ( unsigned int c = 0; c < ( classes_ * classes_ ); c++ ) {
     matrix_[c] = 0;
   }
-- 
2.43.0


From e82edba037908ac6a3b910e6ae349e866c5fceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 30/99] fix: confusion matrix refuses inputs it cannot count

---
 src/net/ConfusionMatrixLayer.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index df99c41..77ab3b8 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -145,6 +145,19 @@ bool ConfusionMatrixLayer::CreateOutputs (
     return false;
   }
 
+  if ( first->data.width() != second->data.width() ||
+       first->data.height() != second->data.height() ||
+       first->data.width() != third->data.width() ||
+       first->data.height() != third->data.height() ) {
+    LOGERROR << "Inputs need the same width and height!";
+    return false;
+  }
+
+  if ( first->data.maps() > classes_ || second->data.maps() > classes_ ) {
+    LOGERROR << "Inputs have more maps than there are classes!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
-- 
2.43.0


From 0f7bbd990dc4869c034f6abb0916c1fb7a3ae120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 31/99] fix: statistics registered after initialization have
 storage

---
 src/util/StatAggregator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index e2aed6e..ca6fd03 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -22,6 +22,14 @@ unsigned int StatAggregator::RegisterStat(StatDescriptor* stat_descriptor)
 {
   stat_descriptors_.push_back(stat_descriptor);
   stat_descriptor->stat_id = stat_descriptor_count_;
+
+  // Stats that are registered after initialization need a value, too
+  if(state_ != INIT) {
+    Stat stat;
+    stat_descriptor->init_function(stat);
+    stats_.push_back(stat);
+  }
+
   return stat_descriptor_count_++;
 }
 
-- 
2.43.0


From 50abc03fca07cc50b7e4912e0b1ea33092a9d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 32/99] fix: patches that are larger than the image reflect
 until they are inside

---
 src/util/Segmentation.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/util/Segmentation.cpp b/src/util/Segmentation.cpp
index 866de3a..c31833a 100644
--- a/src/util/Segmentation.cpp
+++ b/src/util/Segmentation.cpp
@@ -38,17 +38,21 @@ void Segmentation::ExtractPatches (const int patchsize_x,
       unsigned int element =  image_width * py + px;
       for (int ipy = 0; ipy < patchsize_y; ipy++) {
         int image_y = py + ipy - offsety;
-        if (image_y < 0)
-          image_y = -image_y;
-        if (image_y >= image_height)
-          image_y = -1 + image_height + image_height - image_y;
+        while (image_y < 0 || image_y >= image_height) {
+          if (image_y < 0)
+            image_y = -image_y;
+          if (image_y >= image_height)
+            image_y = -1 + image_height + image_height - image_y;
+        }
 
         for (int ipx = 0; ipx < patchsize_x; ipx++) {
           int image_x = px + ipx - offsetx;
-          if (image_x < 0)
-            image_x = -image_x;
-          if (image_x >= image_width)
-            image_x = -1 + image_width + image_width - image_x;
+          while (image_x < 0 || image_x >= image_width) {
+            if (image_x < 0)
+              image_x = -image_x;
+            if (image_x >= image_width)
+              image_x = -1 + image_width + image_width - image_x;
+          }
 
           // Copy pixel
           for (unsigned int map = 0; map < image_maps; map++) {
-- 
2.43.0


From 78183dd7cb4eeada26e66c5ec7c1c4c512506a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 33/99] fix: statistics carry the name of the current
 experiment

---
 src/util/StatAggregator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index ca6fd03..b61bf59 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -152,6 +152,8 @@ void StatAggregator::SetCurrentExperiment(std::string current_experiment) {
   if(state_!=STOPPED)
     return;
   
+  hardcoded_stats_.current_experiment = current_experiment;
+
   // Call all StatSinks' SetCurrentExperiment method
   for(unsigned int s = 0; s < stat_sink_count_; s++) {
     stat_sinks_[s]->SetCurrentExperiment(current_experiment);
-- 
2.43.0


From f71b7b93474254ef3a286615b755376f720fe02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 34/99] fix: receptive field of layers without a size uses the
 default size

---
 src/factory/ConfigurableFactory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 089101d..adeb0a5 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -82,7 +82,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       line = line.substr (1);
 
       if (StartsWithIdentifier (line, "convolutional")) {
-        unsigned int kx, ky, stridex = 1, stridey = 1, padx = 0, pady = 0;
+        unsigned int kx = 1, ky = 1, stridex = 1, stridey = 1, padx = 0, pady = 0;
         
         ParseKernelSizeIfPossible (line, "stride", stridex, stridey);
         ParseKernelSizeIfPossible (line, "pad", padx, pady);
@@ -100,7 +100,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "maxpooling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding maxpooling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -108,7 +108,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
 
       if (StartsWithIdentifier (line, "downsampling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding down-sampling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -116,7 +116,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "amaxpooling")) {
-        unsigned int kx, ky, sx, sy;
+        unsigned int kx = 1, ky = 1, sx, sy;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         sx = kx; sy = ky;
         ParseKernelSizeIfPossible (line, "stride", sx, sy);
-- 
2.43.0


From ebf1a356aa3f5cd516ebc924289b5f221414029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 35/99] fix: network configurations cannot over- or underflow
 the stacks

---
 src/factory/ConfigurableFactory.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index adeb0a5..53035f5 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -221,6 +221,16 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
     /*
      * STACK OPERATIONS
      */
+    if ((line.compare(0, 5, "pusha") == 0 && stack_a_pos >= 63) ||
+        (line.compare(0, 5, "pushb") == 0 && stack_b_pos >= 63)) {
+      FATAL("Stack overflow in network configuration!");
+    }
+
+    if ((line.compare(0, 4, "popa") == 0 && stack_a_pos < 0) ||
+        (line.compare(0, 4, "popb") == 0 && stack_b_pos < 0)) {
+      FATAL("Stack is empty in network configuration!");
+    }
+
     if (line.compare(0, 5, "pusha") == 0) {
       stack_a[++stack_a_pos] = last_connection;
     }
-- 
2.43.0


From c9d3bb2d7d845f42ee45b787b24ea927d9a87ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 36/99] fix: generating statistics before initialization does
 not read missing values

---
 src/util/StatAggregator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index b61bf59..023174d 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -59,6 +59,10 @@ void StatAggregator::Initialize()
 
 void StatAggregator::Generate()
 {
+  // Ignore this call if there are no values yet
+  if(state_ == INIT)
+    return;
+
   std::vector<Stat*> output_stats;
   
   for(unsigned int s = 0; s < stat_descriptor_count_; s++) {
-- 
2.43.0


From b03dce2a0938e34834a0f0929e6f00212782268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 37/99] fix: fully convolutional networks with a
 one-dimensional receptive field keep the image size

---
 src/factory/ConfigurableFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 53035f5..a234672 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -164,7 +164,8 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
 
 	bool already_upscaled = (factorx == 1) && (factory == 1);
 
-  if (method_ == FCN && (receptive_field_x_ > 0) && (receptive_field_y_ > 0)) {
+  if (method_ == FCN && (receptive_field_x_ >= 0) && (receptive_field_y_ >= 0) &&
+      (receptive_field_x_ > 0 || receptive_field_y_ > 0)) {
 		ResizeLayer* rl = new ResizeLayer(receptive_field_x_, receptive_field_y_);
 		NetGraphNode* node = new NetGraphNode(rl, last_connection);
 		net.AddNode(node);
-- 
2.43.0


From 19bef05a561b31f50936c0e3932c066452e8fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 38/99] fix: initializing the weights resets all parameters of
 a network

---
 include/cn24/net/HMaxActivationFunction.h | 2 ++
 src/net/ConvolutionLayer.cpp              | 2 ++
 src/net/HMaxActivationFunction.cpp        | 6 ++++++
 3 files changed, 10 insertions(+)

diff --git a/include/cn24/net/HMaxActivationFunction.h b/include/cn24/net/HMaxActivationFunction.h
index cafea89..3c7c8cf 100644
--- a/include/cn24/net/HMaxActivationFunction.h
+++ b/include/cn24/net/HMaxActivationFunction.h
@@ -36,6 +36,8 @@ public:
   void FeedForward();
   void BackPropagate();
   
+  void OnLayerConnect (const std::vector<Layer*> next_layers);
+  
   // Implementations for LossFunctionLayer
   datum CalculateLossFunction();
   
diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 9565877..de8e045 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -354,6 +354,8 @@ void ConvolutionLayer::OnLayerConnect (const std::vector<Layer*> next_layers) {
     weights_->data[i] = dist_weights (rand_);
   }
 
+  bias_->data.Clear();
+
   LOGDEBUG << "Updating weights: " << this_layer_gain << " -> "
            << next_layer_gain;
 }
diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 3789c6c..e5204aa 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -195,6 +195,12 @@ void HMaxActivationFunction::BackPropagate() {
   // LOGDEBUG << "delta a: " << delta_a << ", delta b:" << delta_b;
 }
   
+void HMaxActivationFunction::OnLayerConnect (const std::vector<Layer*> next_layers) {
+  Layer::OnLayerConnect (next_layers);
+  
+  weights_->data.Clear (1.0);
+}
+  
 datum HMaxActivationFunction::CalculateLossFunction() {
   //datum total_loss = logf(mu_) + (sum_of_activations_/(total_activations_ * mu_)); // - H(y)
   //return total_loss * loss_weight_;
-- 
2.43.0


From fb015dca6e02d4bf7c75c037384b26cc82b6450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 39/99] fix: CompressedTensor refuses damaged data instead of
 reading or writing out of bounds

---
 include/cn24/util/CompressedTensor.h |  2 +-
 src/util/CompressedTensor.cpp        | 43 ++++++++++++++++++++--------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/include/cn24/util/CompressedTensor.h b/include/cn24/util/CompressedTensor.h
index 45ff78b..a811dff 100644
--- a/include/cn24/util/CompressedTensor.h
+++ b/include/cn24/util/CompressedTensor.h
@@ -112,7 +112,7 @@ private:
   std::size_t compressed_length_ = 0;
   
   static void CompressData(void* uncompressed, const std::size_t& uncompressed_elements, void* compressed, std::size_t& compressed_length);
-  static void DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length);
+  static bool DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length);
   
 public:
   
diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 175a4e1..2b2719d 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -61,15 +61,16 @@ void CompressedTensor::Compress(Tensor& tensor)
 void CompressedTensor::Decompress(Tensor& tensor, datum* preallocated_buffer)
 {
   std::size_t compressed_length = compressed_length_;
-  std::size_t uncompressed_elements = 0;
+  // DecompressData will not write more than this
+  std::size_t uncompressed_elements = elements_;
   datum* uncompressed_buffer = preallocated_buffer;
   if(uncompressed_buffer == nullptr)
     uncompressed_buffer = new datum[elements_];
   
-  CompressedTensor::DecompressData(uncompressed_buffer, uncompressed_elements, compressed_data_ptr_, compressed_length);
-  
-  if(uncompressed_elements != elements_) {
-    FATAL("Decompressed size mismatch!");
+  if(!CompressedTensor::DecompressData(uncompressed_buffer, uncompressed_elements, compressed_data_ptr_, compressed_length) || uncompressed_elements != elements_) {
+    if(preallocated_buffer == nullptr)
+      delete[] uncompressed_buffer;
+    FATAL("Decompressed size mismatch or incorrect encoding!");
   }
     
   tensor.Resize(samples_, width_, height_, maps_, uncompressed_buffer, false);
@@ -298,22 +299,31 @@ void CompressedTensor::CompressData(void* uncompressed, const std::size_t& uncom
   compressed_length = bytes_out;
 }
 
-void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length)
+bool CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length)
 {
-  unsigned int bytes_out = 0;
+  const std::size_t max_bytes_out = uncompressed_elements * chars_per_datum;
+  std::size_t bytes_out = 0;
   unsigned char* output_ptr = (unsigned char*)uncompressed;
   const unsigned char* input_ptr = (const unsigned char*)compressed;
   
-  for(unsigned int pos = 0; pos < compressed_length; pos++) {
+  for(std::size_t pos = 0; pos < compressed_length; pos++) {
     unsigned char current_symbol = input_ptr[pos];
     if(current_symbol == rl_marker) {
+      // The marker needs at least one more byte
+      if(compressed_length - pos < 2)
+        return false;
       pos++; current_symbol = input_ptr[pos];
       if(current_symbol == rl_doublemarker) {
         // Emit single marker
+        if(bytes_out >= max_bytes_out)
+          return false;
         *output_ptr = rl_marker;
         output_ptr++; bytes_out++;
       } else if(current_symbol == rl_rle) {
-        unsigned int running_length = 0;
+        // The running length and the symbol have to be there
+        if(compressed_length - pos < 1 + rl_bytes + chars_per_datum)
+          return false;
+        std::size_t running_length = 0;
         
         // Running length input
         for(unsigned int b = 0; b < rl_bytes; b++) {
@@ -323,7 +333,11 @@ void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompres
             running_length <<= 8;
         }
         
-        for(unsigned int r = 0; r < running_length; r++) {
+        // ...and the output has to fit
+        if(running_length * chars_per_datum > max_bytes_out - bytes_out)
+          return false;
+        
+        for(std::size_t r = 0; r < running_length; r++) {
           for(unsigned int b = 0; b < chars_per_datum; b++) {
             pos++; current_symbol = input_ptr[pos];
             *output_ptr = current_symbol;
@@ -333,18 +347,23 @@ void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompres
         }
         pos += chars_per_datum;
       } else {
-        FATAL("Incorrect encoding!");
+        LOGERROR << "Incorrect encoding!";
+        return false;
       }
     } else {
       // Emit directly
+      if(bytes_out >= max_bytes_out)
+        return false;
       *output_ptr = current_symbol;
       output_ptr++; bytes_out++;
     }
   }
   if(bytes_out % chars_per_datum != 0) {
-    FATAL("Compressed length wrong!");
+    LOGERROR << "Compressed length wrong!";
+    return false;
   }
   uncompressed_elements = bytes_out / chars_per_datum;
+  return true;
 }
 
 
-- 
2.43.0


From 8324b82322476dea8f2c6cff2c8e7869952a55a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 40/99] fix: CompressedTensorStream keeps its buffer when a
 sample cannot be decompressed

---
 src/util/CompressedTensorStream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 56a2cd1..f617767 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -84,7 +84,13 @@ bool CompressedTensorStream::CopySample(const unsigned int source, const std::si
       datum* old_data_ptr = temp_tensor_.data_ptr();
       datum* direct_ptr = target.data_ptr(0, 0, 0, target_sample);
       temp_tensor_.Resize(1, max_elements_, 1, 1, direct_ptr, false, true);
-      ctensor->Decompress(temp_tensor_, temp_tensor_.data_ptr());
+      try {
+        ctensor->Decompress(temp_tensor_, temp_tensor_.data_ptr());
+      } catch(...) {
+        // The temporary tensor must not keep the target's memory
+        temp_tensor_.Resize(1, max_elements_, 1, 1, old_data_ptr, false, true);
+        throw;
+      }
       
       temp_tensor_.Resize(1, max_elements_, 1, 1, old_data_ptr, false, true);
       return true;
-- 
2.43.0


From 5bd915c1549feaaaca8fc2077518443eca82a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 41/99] fix: reading a truncated or oversized tensor reports an
 error instead of serving missing data

---
 src/util/CompressedTensor.cpp | 23 ++++++++++++++++++++++-
 src/util/Tensor.cpp           | 23 ++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 2b2719d..ad8d32d 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -18,6 +18,8 @@
 #include <sys/mman.h>
 #include <errno.h>
 #include <unistd.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 #endif
 
 #include "PNGUtil.h"
@@ -136,6 +138,16 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &compressed_length, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  // The number of uncompressed bytes has to be representable
+  uint64_t max_elements = std::numeric_limits<std::size_t>::max() / sizeof ( datum );
+  const uint64_t dimensions[] = { samples, width, height, maps };
+  for ( const uint64_t dimension : dimensions ) {
+    if ( dimension > 0 )
+      max_elements /= dimension;
+  }
+  if ( max_elements == 0 )
+    FATAL ( "Tensor in stream is too large!" );
+
 #ifdef BUILD_POSIX
   if(!try_mmap || fd == 0)
 #endif
@@ -148,6 +160,11 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       long int page_size = sysconf(_SC_PAGESIZE);
       long int current_position = input.tellg();
       long int offset_in_page = current_position % page_size;
+      struct stat file_status;
+      if(current_position < 0 || fstat(fd, &file_status) != 0 || file_status.st_size < current_position ||
+        compressed_length > (std::size_t)(file_status.st_size - current_position)) {
+        FATAL("Compressed tensor in file is truncated!");
+      }
 #ifdef BUILD_LINUX
       void* target_mmap = mmap64(NULL, compressed_length + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #elif defined(BUILD_OSX)
@@ -155,7 +172,7 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       void* target_mmap = mmap(NULL, compressed_length + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #endif
       if(target_mmap == MAP_FAILED) {
-        LOGERROR << "Memory map failed: " << errno;
+        FATAL("Memory map failed: " << errno);
       }
       void* mmap_base = target_mmap;
       
@@ -165,7 +182,11 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       input.seekg(compressed_length, std::ios::cur);
     } else
 #endif
+    {
       input.read ( ( char* ) compressed_data_ptr_, compressed_length);
+      if ( !input )
+        FATAL ( "Compressed tensor in stream is truncated!" );
+    }
   }
   else if(head_only)
     input.seekg(compressed_length, std::ios::cur);
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d2c38b8..99b9f3d 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -18,6 +18,8 @@
 #include <sys/mman.h>
 #include <errno.h>
 #include <unistd.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 #endif
 
 #include "PNGUtil.h"
@@ -293,6 +295,16 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
   input.read ( ( char* ) &height, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  // The number of bytes has to be representable
+  uint64_t max_elements = std::numeric_limits<std::size_t>::max() / sizeof ( datum );
+  const uint64_t dimensions[] = { samples, width, height, maps };
+  for ( const uint64_t dimension : dimensions ) {
+    if ( dimension > 0 )
+      max_elements /= dimension;
+  }
+  if ( max_elements == 0 )
+    FATAL ( "Tensor in stream is too large!" );
+
 #ifdef BUILD_POSIX
   if(!try_mmap || fd == 0)
 #endif
@@ -307,6 +319,11 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       long int page_size = sysconf(_SC_PAGESIZE);
       long int current_position = input.tellg();
       long int offset_in_page = current_position % page_size;
+      struct stat file_status;
+      if(current_position < 0 || fstat(fd, &file_status) != 0 || file_status.st_size < current_position ||
+        (elements * sizeof(datum)) / sizeof(char) > (std::size_t)(file_status.st_size - current_position)) {
+        FATAL("Tensor in file is truncated!");
+      }
 #ifdef BUILD_LINUX
       void* target_mmap = mmap64(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #elif defined(BUILD_OSX)
@@ -314,7 +331,7 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       void* target_mmap = mmap(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #endif
       if(target_mmap == MAP_FAILED) {
-        LOGERROR << "Memory map failed: " << errno;
+        FATAL("Memory map failed: " << errno);
       }
       void* mmap_base = target_mmap;
       
@@ -324,8 +341,12 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       input.seekg(( elements * sizeof ( datum ) ) / sizeof ( char ) , std::ios::cur);
     } else
 #endif
+    {
       input.read ( ( char* ) data_ptr_, ( elements * sizeof ( datum ) )
                   / sizeof ( char ) );
+      if ( !input )
+        FATAL ( "Tensor in stream is truncated!" );
+    }
   }
   else if(head_only)
     input.seekg(( elements * sizeof ( datum ) ) / sizeof ( char ) , std::ios::cur);
-- 
2.43.0


From 4cee5b1ddb918ffff019c9c5c3c9874b0582631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 42/99] fix: damaged PNG files are refused instead of aborting
 or overflowing the image buffer

---
 src/util/PNGUtil.cpp | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index c0559e1..382809d 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -81,6 +81,23 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
   // libpng cannot read streams, so we have to provide our own function
   png_set_read_fn ( png_handle, ( png_voidp ) &stream, PNGReadFromStream );
 
+  // Buffers that have to be released when libpng reports an error
+  png_bytepp volatile pending_rows_8 = nullptr;
+  png_bytep volatile pending_data_8 = nullptr;
+  png_uint_16pp volatile pending_rows_16 = nullptr;
+  png_uint_16p volatile pending_data_16 = nullptr;
+
+  // libpng reports errors by jumping back here
+  if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+    LOGERROR << "libpng could not read the image";
+    delete[] pending_rows_8;
+    delete[] pending_data_8;
+    delete[] pending_rows_16;
+    delete[] pending_data_16;
+    png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
+    return false;
+  }
+
   // Read image information
   png_read_info ( png_handle, png_info_handle );
 
@@ -109,16 +126,18 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     png_bytep* row_pointers = new png_bytep[image_height];
 
     // Allocate memory for image
-    png_byte* image_data = new png_byte[image_height * image_width *
+    png_byte* image_data = new png_byte[(std::size_t) image_height * image_width *
                                         image_channels];
 
     // Set row pointers
-    const png_uint_32 row_stride = image_width * image_channels;
+    const std::size_t row_stride = (std::size_t) image_width * image_channels;
 
     for ( png_uint_32 row = 0; row < image_height; row++ ) {
       row_pointers[row] = &image_data[row * row_stride];
     }
 
+    pending_rows_8 = row_pointers;
+    pending_data_8 = image_data;
     png_read_image ( png_handle, row_pointers );
 
     delete[] row_pointers;
@@ -135,7 +154,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
         std::size_t rc_offset = tensor.Offset ( 0, y, channel, 0 );
 
         for ( std::size_t x = 0; x < image_width; x++ ) {
-          png_byte pixel = image_data[ ( image_width * image_channels * y ) +
+          png_byte pixel = image_data[ ( row_stride * y ) +
                                        ( image_channels * x ) + channel];
           const datum v = DATUM_FROM_UCHAR ( pixel );
           target[rc_offset + x] = v;
@@ -151,16 +170,18 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     png_uint_16pp row_pointers = new png_uint_16*[image_height];
 
     // Allocate memory for image
-    png_uint_16* image_data = new png_uint_16[image_height * image_width *
+    png_uint_16* image_data = new png_uint_16[(std::size_t) image_height * image_width *
                                         image_channels];
 
     // Set row pointers
-    const png_uint_32 row_stride = image_width * image_channels;
+    const std::size_t row_stride = (std::size_t) image_width * image_channels;
 
     for ( png_uint_32 row = 0; row < image_height; row++ ) {
       row_pointers[row] = &image_data[row * row_stride];
     }
 
+    pending_rows_16 = row_pointers;
+    pending_data_16 = image_data;
     png_read_image ( png_handle, (png_bytepp)row_pointers );
 
     delete[] row_pointers;
@@ -177,7 +198,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
         std::size_t rc_offset = tensor.Offset ( 0, y, channel, 0 );
 
         for ( std::size_t x = 0; x < image_width; x++ ) {
-          png_uint_16 pixel = image_data[ ( image_width * image_channels * y ) +
+          png_uint_16 pixel = image_data[ ( row_stride * y ) +
                                        ( image_channels * x ) + channel];
           pixel = (pixel >> 8) | (pixel << 8);
           const datum v = DATUM_FROM_USHORT ( pixel );
@@ -301,8 +322,11 @@ void PNGReadFromStream ( png_structp png_handle, png_bytep data,
   // We need our stream back
   png_voidp stream_ptr = png_get_io_ptr ( png_handle );
 
-  // Error checking is useless here :(
   ( ( std::istream* ) stream_ptr ) -> read ( ( char* ) data, length );
+
+  // The stream may end before the image does
+  if ( ! ( ( std::istream* ) stream_ptr ) -> good() )
+    png_error ( png_handle, "Unexpected end of stream" );
 }
 
 void PNGWriteToStream ( png_structp png_handle, png_bytep data,
-- 
2.43.0


From 75edd9708e9805d3233d4b439916a000df014621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 43/99] fix: PNG structures and buffers are released after
 writing and after refusing an image

---
 src/util/PNGUtil.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index 382809d..759c61d 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -117,6 +117,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
 
   if ( image_colors & PNG_COLOR_MASK_PALETTE ) {
     LOGERROR << "Unsupported color type: " << image_colors;
+    png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
     return false;
   }
 
@@ -254,6 +255,19 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
   // libpng cannot write streams, so we have to provide our own function
   png_set_write_fn ( png_handle, ( png_voidp ) &stream, PNGWriteToStream, NULL );
 
+  // Buffers that have to be released when libpng reports an error
+  png_bytep volatile pending_pixels = nullptr;
+  png_bytepp volatile pending_rows = nullptr;
+
+  // libpng reports errors by jumping back here
+  if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+    LOGERROR << "libpng could not write the image";
+    delete[] pending_pixels;
+    delete[] pending_rows;
+    png_destroy_write_struct ( &png_handle, &png_info_handle );
+    return false;
+  }
+
   // Set and write information
   png_set_IHDR (
     png_handle,
@@ -286,10 +300,16 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
   for ( unsigned int y = 0; y < tensor.height(); y++ )
     row_pointers[y] = &pixels[3*tensor.width() * y];
   
+  pending_pixels = pixels;
+  pending_rows = row_pointers;
   png_write_image(png_handle, row_pointers);
 
   png_write_end ( png_handle, NULL );
-  return true;
+
+  delete[] pixels;
+  delete[] row_pointers;
+  png_destroy_write_struct ( &png_handle, &png_info_handle );
+  return stream.good();
 #endif
 }
 
-- 
2.43.0


From 36906cb5026c47ba175aff48b9f66a30486a686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 44/99] fix: damaged JPG files are refused instead of ending
 the process, and buffers are released

---
 src/util/JPGUtil.cpp | 69 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 9 deletions(-)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 9c4cd99..c8cbccf 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -10,6 +10,7 @@
 #include <cstdio>
 
 #ifdef BUILD_JPG
+#include <csetjmp>
 #include <jpeglib.h>
 #endif
 
@@ -20,21 +21,45 @@
 
 namespace Conv {
 
+#ifdef BUILD_JPG
+/**
+ * @brief Error manager that returns to the caller instead of ending the process.
+ */
+struct JPGErrorManager {
+  jpeg_error_mgr base;
+  jmp_buf jump_target;
+};
+
+static void JPGErrorExit ( j_common_ptr cinfo ) {
+  ( *cinfo->err->output_message ) ( cinfo );
+  longjmp ( ( ( JPGErrorManager* ) cinfo->err )->jump_target, 1 );
+}
+#endif
+
 bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
 #ifndef BUILD_JPG
   LOGERROR << "JPG is not supported by this build!";
   return false;
 #else
   
+  FILE* in_file = fopen(file.c_str(), "rb");
+  if(in_file == NULL) {
+    LOGERROR << "Cannot open " << file;
+    return false;
+  }
+  
   // Create decompression object
   jpeg_decompress_struct cinfo;
-  jpeg_error_mgr jerr;
-  cinfo.err = jpeg_std_error(&jerr);
+  JPGErrorManager jerr;
+  cinfo.err = jpeg_std_error(&jerr.base);
+  jerr.base.error_exit = JPGErrorExit;
   jpeg_create_decompress(&cinfo);
   
-  FILE* in_file = fopen(file.c_str(), "rb");
-  if(in_file == NULL) {
-    LOGERROR << "Cannot open " << file;
+  // libjpeg reports errors by jumping back here
+  if(setjmp(jerr.jump_target)) {
+    LOGERROR << "Cannot decode " << file;
+    jpeg_destroy_decompress(&cinfo);
+    fclose(in_file);
     return false;
   }
   
@@ -79,6 +104,16 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   LOGERROR << "JPG is not supported by this build!";
   return false;
 #else
+  if(tensor.samples() != 1) {
+    LOGERROR << "Cannot write JPGs with more than 1 sample!";
+    return false;
+  }
+  
+  if(tensor.maps() != 3) {
+    LOGERROR << "Cannot write JPGs with channels != 3";
+    return false;
+  }
+  
   FILE* out_file = fopen(file.c_str(), "wb");
   if(out_file == NULL) {
     LOGERROR << "Cannot open " << file;
@@ -86,10 +121,24 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_compress_struct cinfo;
-  jpeg_error_mgr jerr;
+  JPGErrorManager jerr;
   
-  cinfo.err = jpeg_std_error(&jerr);
+  // This buffer has to be released when libjpeg reports an error
+  JSAMPLE* volatile pending_row = nullptr;
+  
+  cinfo.err = jpeg_std_error(&jerr.base);
+  jerr.base.error_exit = JPGErrorExit;
   jpeg_create_compress(&cinfo);
+  
+  // libjpeg reports errors by jumping back here
+  if(setjmp(jerr.jump_target)) {
+    LOGERROR << "Cannot encode " << file;
+    jpeg_destroy_compress(&cinfo);
+    delete[] pending_row;
+    fclose(out_file);
+    return false;
+  }
+  
   jpeg_stdio_dest(&cinfo, out_file);
   
   cinfo.image_width = tensor.width();
@@ -103,6 +152,7 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   
   
   JSAMPROW row_pointer = new JSAMPLE[3*tensor.width()];
+  pending_row = row_pointer;
   // Write scanlines
   while(cinfo.next_scanline < tensor.height()) {
     // Copy scanline
@@ -115,8 +165,9 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_finish_compress(&cinfo);
-  fclose(out_file);
-  return true;
+  jpeg_destroy_compress(&cinfo);
+  delete[] row_pointer;
+  return fclose(out_file) == 0;
 #endif
 }
 
-- 
2.43.0


From 2fd0dcf9135249bc3546567a3f9f98824eb6c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 45/99] fix: an image that cannot be read or written is an
 error, not an unchanged tensor or an empty file

---
 src/util/Tensor.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 99b9f3d..0594695 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -626,7 +626,9 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
     if ( !input_image_file.good() )
       FATAL ( "Cannot load " << filename );
 
-    Conv::PNGUtil::LoadFromStream ( input_image_file, *this );
+    if ( !Conv::PNGUtil::LoadFromStream ( input_image_file, *this ) )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
@@ -638,7 +640,9 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
        || HasSuffix ( filename, "JPG" )
        || HasSuffix ( filename, "JPEG" )
      ) {
-    Conv::JPGUtil::LoadFromFile ( filename, *this );
+    if ( !Conv::JPGUtil::LoadFromFile ( filename, *this ) )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
@@ -669,7 +673,9 @@ void Tensor::WriteToFile ( const std::string& filename ) {
       FATAL ( "Cannot write " << filename );
 
     // Write png
-    Conv::PNGUtil::WriteToStream ( output_image_file, *this );
+    if ( !Conv::PNGUtil::WriteToStream ( output_image_file, *this ) )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
@@ -681,7 +687,9 @@ void Tensor::WriteToFile ( const std::string& filename ) {
        || HasSuffix ( filename, "JPG" )
        || HasSuffix ( filename, "JPEG" )
      ) {
-    Conv::JPGUtil::WriteToFile ( filename, *this );
+    if ( !Conv::JPGUtil::WriteToFile ( filename, *this ) )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
-- 
2.43.0


From 8432350c5a22363774872cf6ea352bd55d9af3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 46/99] fix: refuse parameters that do not fit the network's
 layers

---
 src/net/NetGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index cefe265..e01e591 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -414,7 +414,7 @@ void NetGraph::DeserializeParameters(std::istream& input, unsigned int last_laye
       unsigned int elements_after = layer->parameters() [p]->data.elements();
       LOGINFO << "Loaded parameters for layer " << l << " parameter set " << p << ": " << layer->parameters()[p]->data;
       if(elements_before != elements_after) {
-        LOGERROR << "Deserialization changed layer parameter count!";
+        FATAL("Deserialization changed layer parameter count!");
       }
       input.peek();
     }
-- 
2.43.0


From 1146cc4795e2214909b2da6cdeea8f4b71938240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 47/99] fix: tensor streams can be deleted through their base
 class

---
 include/cn24/util/TensorStream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cn24/util/TensorStream.h b/include/cn24/util/TensorStream.h
index 67971a8..4bdb0a7 100644
--- a/include/cn24/util/TensorStream.h
+++ b/include/cn24/util/TensorStream.h
@@ -22,6 +22,7 @@ namespace Conv {
 
 class TensorStream {
 public:
+  virtual ~TensorStream() {};
   virtual std::size_t GetWidth(unsigned int index) = 0;
   virtual std::size_t GetHeight(unsigned int index) = 0;
   virtual std::size_t GetMaps(unsigned int index) = 0;
-- 
2.43.0


From f787f1f0af64dc0ffc41c6ddc17966a66dd7226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 48/99] fix: tensorTool ends when its input ends instead of
 looping forever

---
 tools/tensorTool.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index 742bade..9e8dfc9 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -70,7 +70,10 @@ int main ( int argc, char* argv[] ) {
 
 bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
   std::string entry;
-  std::cin >> entry;
+
+  // The end of the input ends the program, too
+  if ( ! ( std::cin >> entry ) )
+    return false;
 
   if ( entry.compare ( "q" ) == 0 || entry.compare ( "quit" ) == 0 )
     return false;
-- 
2.43.0


From b3801ccdaca2918bab8237591a92d5c23f71ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 49/99] fix: trainNetwork ends when its input ends instead of
 looping forever

---
 tools/trainNetwork.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 0f55e60..063f8a1 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -257,7 +257,10 @@ int main (int argc, char* argv[]) {
       while (true) {
         std::cout << "\n > " << std::flush;
         std::string command;
-        std::getline (std::cin, command);
+
+        // The end of the input ends the program, too
+        if (!std::getline (std::cin, command))
+          break;
 
         if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command))
           break;
-- 
2.43.0


From cabf9a567aef974b381d351214884e980beb2b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 50/99] fix: the gradient check does not accept undefined (NaN)
 gradients

---
 src/util/GradientTester.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/util/GradientTester.cpp b/src/util/GradientTester.cpp
index 9ffed2b..bc14e91 100644
--- a/src/util/GradientTester.cpp
+++ b/src/util/GradientTester.cpp
@@ -66,9 +66,10 @@ graph.FeedForward();
 	const double delta = param->delta[e];
 	const double actual_delta = (plus_loss - minus_loss) / (2.0 * epsilon);
 	
-	const double ratio = actual_delta / delta;
-	if(ratio > 1.02 || ratio < 0.98) {
-	  if(ratio > 1.2 || ratio < 0.8) {
+	// Undefined ratios are failures, unless both deltas are zero
+	const double ratio = (actual_delta == 0.0 && delta == 0.0) ? 1.0 : actual_delta / delta;
+	if(!(ratio <= 1.02 && ratio >= 0.98)) {
+	  if(!(ratio <= 1.2 && ratio >= 0.8)) {
       if(passed) {
 	      LOGWARN << "delta analytic: " << delta << ", numeric: " << actual_delta << ", ratio: " << ratio;
       }
@@ -156,8 +157,9 @@ graph.FeedForward();
 #endif
     data.data_ptr()[w] = weight;
 
-    const Conv::datum ratio = fd_gradient / gradient;
-    if(ratio > 1.2 || ratio < 0.8) {
+    // Undefined ratios are failures, unless both gradients are zero
+    const Conv::datum ratio = (fd_gradient == 0 && gradient == 0) ? 1 : fd_gradient / gradient;
+    if(!(ratio <= 1.2 && ratio >= 0.8)) {
       LOGDEBUG << "BP Grad : " << gradient;
       LOGDEBUG << "FD Grad : " << fd_gradient;
       LOGDEBUG << "Ratio   : " << ratio;
-- 
2.43.0


From 0894804c24392ca46a64c187feabc7da998a1a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 51/99] fix: error layer refuses inputs of different dimensions
 instead of reading past them

---
 src/net/ErrorLayer.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/net/ErrorLayer.cpp b/src/net/ErrorLayer.cpp
index cbd0450..fbdb6a0 100644
--- a/src/net/ErrorLayer.cpp
+++ b/src/net/ErrorLayer.cpp
@@ -55,6 +55,14 @@ bool ErrorLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inputs,
     return false;
   }
 
+  if ( first->data.width() != second->data.width() ||
+       first->data.height() != second->data.height() ||
+       first->data.width() != third->data.width() ||
+       first->data.height() != third->data.height() ) {
+    LOGERROR << "Inputs need the same dimensions!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
@@ -68,14 +76,18 @@ bool ErrorLayer::Connect ( const std::vector< CombinedTensor* >& inputs,
     return false;
 
   // Also, the two inputs have to have the same number of samples and elements!
-  // We ignore the shape for now...
+  // They also need the same shape because they are accessed by coordinates.
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
+               first->data.width() == second->data.width() &&
+               first->data.height() == second->data.height() &&
+               first->data.width() == third->data.width() &&
+               first->data.height() == third->data.height() &&
                outputs.size() == 0;
 
   if ( valid ) {
-- 
2.43.0


From e0a482510504633174e7458941e1e92e355e970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 52/99] fix: gradient accumulation refuses missing inputs and
 outputs of the wrong size

---
 src/net/GradientAccumulationLayer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/net/GradientAccumulationLayer.cpp b/src/net/GradientAccumulationLayer.cpp
index 70fa9e5..5322553 100644
--- a/src/net/GradientAccumulationLayer.cpp
+++ b/src/net/GradientAccumulationLayer.cpp
@@ -34,6 +34,12 @@ bool GradientAccumulationLayer::CreateOutputs (const std::vector< CombinedTensor
   }
   
   CombinedTensor* input = inputs[0];
+  
+  if(input == nullptr) {
+    LOGERROR << "Null pointer supplied";
+    return false;
+  }
+  
   for(unsigned int i = 0; i < output_count_; i++) {
     CombinedTensor* output = new CombinedTensor(input->data.samples(),
                                                 input->data.width(),
@@ -78,6 +84,7 @@ bool GradientAccumulationLayer::Connect (const std::vector< CombinedTensor* >& i
     }
     if(input->data.elements() != outputs[i]->data.elements()) {
       LOGERROR << "Wrong output dimensions!";
+      return false;
     }
     outputs_.push_back(outputs[i]);
   }
-- 
2.43.0


From eebeed4ec658488714bb74fa2fdd863940318132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 53/99] fix: memory-mapped tensors can be written without
 crashing (private mapping)

---
 src/util/Tensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 0594695..95cc7b6 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -325,10 +325,10 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
         FATAL("Tensor in file is truncated!");
       }
 #ifdef BUILD_LINUX
-      void* target_mmap = mmap64(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
+      void* target_mmap = mmap64(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ | PROT_WRITE, MAP_PRIVATE, fd, current_position - offset_in_page);
 #elif defined(BUILD_OSX)
       // OS X is 64-bit by default
-      void* target_mmap = mmap(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
+      void* target_mmap = mmap(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ | PROT_WRITE, MAP_PRIVATE, fd, current_position - offset_in_page);
 #endif
       if(target_mmap == MAP_FAILED) {
         FATAL("Memory map failed: " << errno);
-- 
2.43.0


From dee63d373059276779fe9be9ea70a1b41153f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 54/99] fix: refused tensor streams release their file and
 memory

---
 src/util/CompressedTensorStream.cpp | 16 ++++++++++++++--
 src/util/FloatTensorStream.cpp      | 13 +++++++++++--
 src/util/TensorStream.cpp           | 13 +++++++------
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index f617767..07c64d7 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -36,6 +36,9 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
   input_stream.read((char*)&magic, sizeof(uint64_t)/sizeof(char));
   
   if(magic != CN24_CTS_MAGIC) {
+#ifdef BUILD_POSIX
+    close(input_fd);
+#endif
     FATAL("Wrong magic at start of stream!");
   }
 
@@ -44,11 +47,20 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
   
   while (!input_stream.eof()) {
     CompressedTensor* tensor = new CompressedTensor();
+    try {
 #ifdef BUILD_POSIX
-    tensor->Deserialize (input_stream, false, true, input_fd);
+      tensor->Deserialize (input_stream, false, true, input_fd);
 #else
-    tensor->Deserialize (input_stream, false);
+      tensor->Deserialize (input_stream, false);
+#endif
+    } catch(...) {
+      // A refused file must not stay open
+      delete tensor;
+#ifdef BUILD_POSIX
+      close(input_fd);
 #endif
+      throw;
+    }
 
     if (tensor->elements() == 0) {
       delete tensor;
diff --git a/src/util/FloatTensorStream.cpp b/src/util/FloatTensorStream.cpp
index 6ac6937..52edcab 100644
--- a/src/util/FloatTensorStream.cpp
+++ b/src/util/FloatTensorStream.cpp
@@ -37,11 +37,20 @@ unsigned int FloatTensorStream::LoadFile(std::string path)
   
   while (!input_stream.eof()) {
     Tensor* tensor = new Tensor();
+    try {
 #ifdef BUILD_POSIX
-    tensor->Deserialize (input_stream, false, true, input_fd);
+      tensor->Deserialize (input_stream, false, true, input_fd);
 #else
-    tensor->Deserialize (input_stream, false);
+      tensor->Deserialize (input_stream, false);
 #endif
+    } catch(...) {
+      // A refused file must not stay open
+      delete tensor;
+#ifdef BUILD_POSIX
+      close(input_fd);
+#endif
+      throw;
+    }
 
     if (tensor->elements() == 0) {
       delete tensor;
diff --git a/src/util/TensorStream.cpp b/src/util/TensorStream.cpp
index 038c8ec..8af03cc 100644
--- a/src/util/TensorStream.cpp
+++ b/src/util/TensorStream.cpp
@@ -7,6 +7,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <memory>
 #include <string>
 
 #ifdef BUILD_POSIX
@@ -37,9 +38,9 @@ TensorStream* TensorStream::FromFile(std::string path, std::vector<unsigned int>
 #endif
   if(is_listtensor) {
     LOGDEBUG << "Is list tensor, loading...";
-    ListTensorStream* lts = new ListTensorStream(class_colors);
+    std::unique_ptr<TensorStream> lts(new ListTensorStream(class_colors));
     lts->LoadFile(path);
-    return lts;
+    return lts.release();
   }
   std::ifstream input_stream(path, std::ios::in | std::ios::binary);
   if(!input_stream.good()) {
@@ -52,14 +53,14 @@ TensorStream* TensorStream::FromFile(std::string path, std::vector<unsigned int>
   
   if(magic == CN24_CTS_MAGIC) {
     LOGDEBUG << "Is compressed tensor, loading...";
-    CompressedTensorStream* cts = new CompressedTensorStream();
+    std::unique_ptr<TensorStream> cts(new CompressedTensorStream());
     cts->LoadFile(path);
-    return cts;
+    return cts.release();
   } else {
     LOGDEBUG << "Is float tensor, loading...";
-    FloatTensorStream* fts = new FloatTensorStream();
+    std::unique_ptr<TensorStream> fts(new FloatTensorStream());
     fts->LoadFile(path);
-    return fts;
+    return fts.release();
   }
 }
 
-- 
2.43.0


From 525e12e9ea3a0c90118b98c779884e03836d7c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 55/99] fix: empty compressed tensors and refused label images
 leave no memory behind

---
 src/util/CompressedTensor.cpp | 14 +++++++++++++-
 src/util/ListTensorStream.cpp | 10 ++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index ad8d32d..0336458 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -54,6 +54,12 @@ void CompressedTensor::Compress(Tensor& tensor)
   tensor.MoveToCPU();
 #endif
   
+  if(uncompressed_elements == 0) {
+    // Nothing to keep a buffer for
+    Resize(0, 0, 0, 0, 0);
+    return;
+  }
+
   void* compressed_buffer = new char[2 * tensor.elements() * chars_per_datum + 2];
   CompressedTensor::CompressData((void*)tensor.data_ptr(), uncompressed_elements, compressed_buffer, compressed_length);
   
@@ -74,7 +80,13 @@ void CompressedTensor::Decompress(Tensor& tensor, datum* preallocated_buffer)
       delete[] uncompressed_buffer;
     FATAL("Decompressed size mismatch or incorrect encoding!");
   }
-    
+
+  // Empty tensors do not own memory
+  if(elements_ == 0 && preallocated_buffer == nullptr) {
+    delete[] uncompressed_buffer;
+    uncompressed_buffer = nullptr;
+  }
+
   tensor.Resize(samples_, width_, height_, maps_, uncompressed_buffer, false);
 }
 
diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 6014239..5652f26 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <fstream>
 #include <cmath>
+#include <vector>
 
 #include "ListTensorStream.h"
 
@@ -85,9 +86,9 @@ namespace Conv {
 				unsigned int number_of_classes = class_colors_.size();
 				
 				// arrays to store class colors in an easy to index way
-				Conv::datum* cr = new Conv::datum[number_of_classes];
-				Conv::datum* cg = new Conv::datum[number_of_classes];
-				Conv::datum* cb = new Conv::datum[number_of_classes];
+				std::vector<Conv::datum> cr(number_of_classes);
+				std::vector<Conv::datum> cg(number_of_classes);
+				std::vector<Conv::datum> cb(number_of_classes);
 
 				for ( unsigned int c = 0; c < number_of_classes; c++ ) {
 					const unsigned int class_color = class_colors_[c];
@@ -155,9 +156,6 @@ namespace Conv {
 						}
 					}
 				} // end if
-				delete[] cr;
-				delete[] cg;
-				delete[] cb;
 
 				return Tensor::CopySample(label_tensor, source_sample, target, target_sample);
 				
-- 
2.43.0


From 526b40f52149642afb08040afbe879543397b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 56/99] fix: the H-Max activation layer releases its parameters

---
 include/cn24/net/HMaxActivationFunction.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cn24/net/HMaxActivationFunction.h b/include/cn24/net/HMaxActivationFunction.h
index 3c7c8cf..572e8a8 100644
--- a/include/cn24/net/HMaxActivationFunction.h
+++ b/include/cn24/net/HMaxActivationFunction.h
@@ -28,6 +28,7 @@ class HMaxActivationFunction : public SimpleLayer, public LossFunctionLayer {
 public:
   HMaxActivationFunction(const datum mu, const datum loss_weight);
   explicit HMaxActivationFunction(std::string configuration);
+  ~HMaxActivationFunction() { delete weights_; }
   
   // Implementations for SimpleLayer
   bool CreateOutputs (const std::vector< CombinedTensor* >& inputs,
@@ -53,7 +54,7 @@ public:
   }
   
   
-  CombinedTensor* weights_;
+  CombinedTensor* weights_ = nullptr;
   datum mu_ = 1;
   datum loss_weight_ = 0;
   
-- 
2.43.0


From a9a7394a5e4b0d4de6e546e5f4da42411350044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 57/99] fix: statistics layers refuse a missing weight input
 instead of dereferencing it

---
 src/net/BinaryStatLayer.cpp      | 2 +-
 src/net/ConfusionMatrixLayer.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 1548bb8..4c34274 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -215,7 +215,7 @@ bool BinaryStatLayer::Connect ( const std::vector< CombinedTensor* >& inputs, co
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 77ab3b8..5680fdc 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -176,7 +176,7 @@ bool ConfusionMatrixLayer::Connect
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.samples() == third->data.samples() &&
                outputs.size() == 0;
-- 
2.43.0


From b1d8f63b702dbc14b9c3c74729291792bc509a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 58/99] fix: dataset input layers refuse missing outputs
 instead of dereferencing them

---
 src/net/DatasetInputLayer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index 7c315d4..1754d5b 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -117,6 +117,9 @@ bool DatasetInputLayer::Connect (const std::vector< CombinedTensor* >& inputs,
                                  const std::vector< CombinedTensor* >& outputs,
                                  const NetStatus* net) {
   UNREFERENCED_PARAMETER(net);
+  if (inputs.size() != 0 || outputs.size() != 4)
+    return false;
+
   // TODO validate
   CombinedTensor* data_output = outputs[0];
   CombinedTensor* label_output = outputs[1];
@@ -124,7 +127,7 @@ bool DatasetInputLayer::Connect (const std::vector< CombinedTensor* >& inputs,
   CombinedTensor* localized_error_output = outputs[3];
 
   if (data_output == nullptr || label_output == nullptr ||
-      localized_error_output == nullptr)
+      helper_output == nullptr || localized_error_output == nullptr)
     return false;
 
   bool valid = inputs.size() == 0 && outputs.size() == 4;
-- 
2.43.0


From e639ebd1b7ac4e4ebeef481f9655ee90d2a02e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 59/99] fix: tensorTool and tensorStreamTool refuse files and
 tensors that are not there

---
 tools/tensorStreamTool.cpp | 3 +++
 tools/tensorTool.cpp       | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index 1e1a685..8e63289 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -25,6 +25,9 @@ int main(int argc, char* argv[]) {
   // Open tensor stream
   std::ifstream file_in(std::string(argv[1]), std::ios::in | std::ios::binary);
 
+  if (!file_in.good())
+    FATAL("Cannot open " << argv[1]);
+
   // Seek until eof to count tensors
   Conv::Tensor tensor;
   unsigned int tensors_in_file = 0;
diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index 9e8dfc9..dbc27f9 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -44,11 +44,17 @@ int main ( int argc, char* argv[] ) {
   // Open tensor stream
   std::ifstream file ( std::string ( argv[1] ), std::ios::in | std::ios::binary );
 
+  if ( !file.good() )
+    FATAL ( "Cannot open " << argv[1] );
+
   // Seek until id is hit
   Conv::Tensor tensor;
 
   for ( unsigned int t = 0; t < ( tid + 1 ); t++ ) {
     tensor.Deserialize ( file );
+
+    if ( !file )
+      FATAL ( "There is no tensor " << tid << " in " << argv[1] );
   }
 
   file.close();
-- 
2.43.0


From f1adca998ab82459eb92bbfa669f9f6154d04c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 60/99] fix: tensorStreamStats applies the class weights once,
 and only where it says so

---
 tools/tensorStreamStats.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/tensorStreamStats.cpp b/tools/tensorStreamStats.cpp
index b19f515..5ba1778 100644
--- a/tools/tensorStreamStats.cpp
+++ b/tools/tensorStreamStats.cpp
@@ -54,8 +54,10 @@ int main(int argc, char* argv[]) {
         unsigned int pixel_class = label_tensor.PixelMaximum(x,y,0);
         Conv::datum weight = *weight_tensor.data_ptr_const(x,y);
         
-        pixel_counts[pixel_class] += (long double)weight;
-        pixel_counts_weighted[pixel_class] += (long double)(weight * class_weights[pixel_class]);
+        // The weight of a pixel already contains the weight of its class
+        if(class_weights[pixel_class] > 0)
+          pixel_counts[pixel_class] += (long double)(weight / class_weights[pixel_class]);
+        pixel_counts_weighted[pixel_class] += (long double)weight;
       }
     }
   }
-- 
2.43.0


From dd931ec018f709e9e68378c2921ac42360311d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 61/99] fix: gradients are accumulated per output buffer, and
 for outputs of accumulation layers too

---
 src/net/NetGraph.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index e01e591..2c9eb66 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -212,33 +212,42 @@ void NetGraph::Initialize() {
     no_multiple_connections = true;
 		std::vector<NetGraphNode*> nodes(nodes_);
     for (NetGraphNode* node : nodes) {
-      if(node->backprop_connections.size() > 1 && dynamic_cast<GradientAccumulationLayer*>(node->layer) == NULL) {
+      // Find an output buffer with multiple backprop connections
+      unsigned int buffer = 0, connections = 0;
+      for(unsigned int i = 0; i < node->output_buffers.size() && connections < 2; i++) {
+        buffer = i;
+        connections = 0;
+        for(const NetGraphBackpropConnection& backprop_connection : node->backprop_connections)
+          if(backprop_connection.buffer == buffer)
+            connections++;
+      }
+
+      if(connections > 1) {
         no_multiple_connections = false;
         LOGINFO << "Node has multiple backprop connections: " << node->layer->GetLayerDescription();
         
         // Insert gradient accumulation layer
-        GradientAccumulationLayer* ga = new GradientAccumulationLayer(node->backprop_connections.size());
-        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node));
+        GradientAccumulationLayer* ga = new GradientAccumulationLayer(connections);
+        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node, buffer));
         AddNode(ga_node);
         
         // Redirect input connections using backprop connections
         int b = 0;
         for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections) {
-          if(backprop_connection.node != ga_node) {
+          if(backprop_connection.node != ga_node && backprop_connection.buffer == buffer) {
             for(NetGraphConnection& target_connection : backprop_connection.node->input_connections) {
               if(target_connection.node == node && target_connection.buffer == backprop_connection.buffer && target_connection.backprop) {
                 target_connection.node = ga_node;
-                backprop_connection.buffer = b;
+                ga_node->backprop_connections.push_back(NetGraphBackpropConnection(backprop_connection.node, b));
                 target_connection.buffer = b++;
               }
             }
-            ga_node->backprop_connections.push_back(backprop_connection);
           }
         }
         
         // Remove backprop connections from node
         auto predicate = 
-          [&](NetGraphBackpropConnection backprop_connection){ return backprop_connection.node != ga_node; };
+          [&](NetGraphBackpropConnection backprop_connection){ return backprop_connection.node != ga_node && backprop_connection.buffer == buffer; };
         node->backprop_connections.erase(std::remove_if(node->backprop_connections.begin(), node->backprop_connections.end(),
         predicate), node->backprop_connections.end());
       }
-- 
2.43.0


From 1208e04501e931f44a1c461caf8da69deb14ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 62/99] fix: outputs that no gradient reaches have none instead
 of uninitialized memory

---
 src/net/NetGraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 2c9eb66..81202d6 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -287,6 +287,10 @@ void NetGraph::InitializeNode(NetGraphNode* node) {
 		// Update node output buffer info
 		for (unsigned int b = 0; b < output_tensors.size(); b++) {
 			node->output_buffers[b].combined_tensor = output_tensors[b];
+
+			// No gradient reaches a buffer that nobody propagates to
+			if (output_tensors[b] != nullptr)
+				output_tensors[b]->delta.Clear();
 		}
 
 		// Connect layer
-- 
2.43.0


From 39b2ca57fb317353aaa700fe195335863cd03eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 63/99] fix: connections without backpropagation leave the
 gradients of their source alone

---
 src/net/GradientAccumulationLayer.cpp |  3 +++
 src/net/NetGraph.cpp                  | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/net/GradientAccumulationLayer.cpp b/src/net/GradientAccumulationLayer.cpp
index 5322553..88aef96 100644
--- a/src/net/GradientAccumulationLayer.cpp
+++ b/src/net/GradientAccumulationLayer.cpp
@@ -101,6 +101,9 @@ void GradientAccumulationLayer::FeedForward() {
 }
 
 void GradientAccumulationLayer::BackPropagate() {
+  if(!backprop_enabled_)
+    return;
+
   input_->delta.Clear();
 #pragma omp parallel for default(shared)
   for(unsigned int s = 0; s < samples_; s++) {
diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 81202d6..2dc62ce 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -206,6 +206,22 @@ void NetGraph::PrintGraph(std::ostream& graph_output) {
 }
 
 void NetGraph::Initialize() {
+	// Layers may write gradients to any of their inputs. Connections without
+	// backpropagation get a node of their own, which does not pass them on
+	std::vector<NetGraphNode*> target_nodes(nodes_);
+	for (NetGraphNode* node : target_nodes) {
+		if (node->initialized || dynamic_cast<StatLayer*>(node->layer) != NULL)
+			continue;
+		for (NetGraphConnection& connection : node->input_connections) {
+			if (!connection.backprop && !connection.node->is_input) {
+				NetGraphNode* ga_node = new NetGraphNode(new GradientAccumulationLayer(1), connection);
+				AddNode(ga_node);
+				connection.node = ga_node;
+				connection.buffer = 0;
+			}
+		}
+	}
+
 	// check for nodes with multiple backprop connections
   bool no_multiple_connections = true;
   do {
-- 
2.43.0


From e62e21d480f8cbf42a0a34c58582bab08a53a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 64/99] fix: images and tensors that cannot be written
 completely are an error

---
 src/util/PNGUtil.cpp | 3 +++
 src/util/Tensor.cpp  | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index 759c61d..0fe64b5 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -309,6 +309,9 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
   delete[] pixels;
   delete[] row_pointers;
   png_destroy_write_struct ( &png_handle, &png_info_handle );
+
+  // Buffered data may still not fit
+  stream.flush();
   return stream.good();
 #endif
 }
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 95cc7b6..46d8c03 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -702,6 +702,11 @@ void Tensor::WriteToFile ( const std::string& filename ) {
       FATAL ( "Cannot write " << filename );
 
     Serialize ( output_image_file );
+    output_image_file.close();
+
+    if ( !output_image_file.good() )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
-- 
2.43.0


From 6229c0334448bf7348dccfb5302ca802b9ca66e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 65/99] fix: compressTensorStream reports output that cannot be
 written

---
 tools/compressTensorStream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/compressTensorStream.cpp b/tools/compressTensorStream.cpp
index fc02079..d0e7f97 100644
--- a/tools/compressTensorStream.cpp
+++ b/tools/compressTensorStream.cpp
@@ -65,6 +65,11 @@ int main(int argc, char** argv) {
     
     input_tensor_stream.peek();
   }
+  output_tensor_stream.close();
+
+  if(!output_tensor_stream.good())
+    FATAL("Cannot write " << output_file_name);
+
   LOGINFO << "Overall ratio: " << 100.0 * (double)compressed_total / (double)uncompressed_total << "%";
   LOGINFO << "Uncompressed: " << uncompressed_total;
   LOGINFO << "Compressed  : " << compressed_total;
-- 
2.43.0


From b38a7be6529ad4b16f1e4906543f84398c6d926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 66/99] fix: tensorStreamTool reports output that cannot be
 written

---
 tools/tensorStreamTool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index 8e63289..2b81f90 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -68,6 +68,9 @@ int main(int argc, char* argv[]) {
 
     file_out.close();
 
+    if (!file_out.good())
+      FATAL("Cannot write " << argv[1]);
+
     LOGINFO << "DONE!";
   }
 
-- 
2.43.0


From 138212ec236788b723007572132b289bab50cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 67/99] fix: the tensor stream converters report output that
 cannot be written

---
 tools/makeCompressedTensorStream.cpp | 6 ++++++
 tools/makeTensorStream.cpp           | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index 1f9d597..ce8d46f 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -191,5 +191,11 @@ int main ( int argc, char** argv ) {
     compressed_label_tensor.Serialize ( output_file );
   }
 
+  output_file.close();
+
+  if ( !output_file.good() ) {
+    FATAL ( "Cannot write output file!" );
+  }
+
   LOGEND;
 }
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index 2449178..a74954c 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -182,5 +182,11 @@ int main ( int argc, char** argv ) {
     label_tensor.Serialize ( output_file );
   }
 
+  output_file.close();
+
+  if ( !output_file.good() ) {
+    FATAL ( "Cannot write output file!" );
+  }
+
   LOGEND;
 }
-- 
2.43.0


From 8bd1f5b6766bb10c9c48686f78a559bdeb4a92c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 68/99] fix: tensorTool reports output that cannot be written

---
 tools/tensorTool.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index dbc27f9..c02d4ae 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -126,6 +126,9 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
     std::ofstream o ( filename, std::ios::out | std::ios::binary );
     tensor.Serialize ( o );
     o.close();
+
+    if ( !o.good() )
+      LOGERROR << "Cannot write " << filename;
   }
 
   else if ( entry.compare ( "bin" ) == 0 ) {
@@ -138,6 +141,9 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
 
     tensor.Serialize ( o, true );
     o.close();
+
+    if ( !o.good() )
+      LOGERROR << "Cannot write binoutput.data";
   }
 
 #ifdef BUILD_GUI
-- 
2.43.0


From 8ef528dd5d11ef6026ec909115d8e0be4a7f8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 69/99] fix: trainNetwork reports parameters and graphs that
 cannot be written

---
 tools/trainNetwork.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 063f8a1..3b83bae 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -376,12 +376,16 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
 
       if (param_file.good()) {
         graph.SerializeParameters (param_file);
-        LOGINFO << "Written parameters to " << param_file_name;
+        param_file.close();
+
+        if (param_file.good()) {
+          LOGINFO << "Written parameters to " << param_file_name;
+        } else {
+          LOGERROR << "Cannot write " << param_file_name;
+        }
       } else {
         LOGERROR << "Cannot open " << param_file_name;
       }
-
-      param_file.close();
     }
   } else if (command.compare (0, 14, "set experiment") == 0) {
     std::string experiment_name = "";
@@ -436,6 +440,9 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
 			}
 			graph_output << "}";
 			graph_output.close();
+
+			if (!graph_output.good())
+				LOGERROR << "Cannot write " << param_file_name;
 		}
 	}
 	else if (command.compare(0, 5, "wstat") == 0) {
-- 
2.43.0


From 82e479c68fb24a6f9453fc2f9945866e4a025f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 70/99] fix: statistics that cannot be written to their file
 are reported

---
 src/util/CSVStatSink.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 2d387bb..3855a81 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -47,6 +47,12 @@ void CSVStatSink::Process(Conv::HardcodedStats &hardcoded_stats, std::vector<Sta
   (*csv_stream_) << "\n";
   (*csv_stream_) << std::flush;
   
+  // Test if the values arrived
+  if(!csv_stream_->good()) {
+    LOGERROR << "Cannot write statistics, closing the file!";
+    delete csv_stream_;
+    csv_stream_ = nullptr;
+  }
 }
   
 bool isnalnum(char c) {
@@ -91,6 +97,12 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
   }
   (*csv_stream_) << "\n";
   (*csv_stream_) << std::flush;
+  
+  if(!csv_stream_->good()) {
+    LOGERROR << "Cannot write " << csv_filename << ", closing the file!";
+    delete csv_stream_;
+    csv_stream_ = nullptr;
+  }
 }
   
 }
\ No newline at end of file
-- 
2.43.0


From 8f820e52d96e8177afe22213fd8a3f1921776cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 71/99] fix: a tensor whose header cannot be read completely is
 an error, not the end of the stream

---
 src/util/CompressedTensor.cpp | 5 +++++
 src/util/Tensor.cpp           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 0336458..d9f7f0a 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -145,11 +145,16 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
     LOGERROR << "Cannot deserialize from this stream!";
 
   input.read ( ( char* ) &samples, sizeof ( uint64_t ) / sizeof ( char ) );
+  const bool at_end = input.eof() && input.gcount() == 0;
   input.read ( ( char* ) &width, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &height, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &compressed_length, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  // Only the end of the stream leaves the tensor empty
+  if ( input.bad() || ( input.eof() && !at_end ) )
+    FATAL ( "Compressed tensor header in stream cannot be read!" );
+
   // The number of uncompressed bytes has to be representable
   uint64_t max_elements = std::numeric_limits<std::size_t>::max() / sizeof ( datum );
   const uint64_t dimensions[] = { samples, width, height, maps };
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 46d8c03..92dd5bb 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -291,10 +291,15 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
     LOGERROR << "Cannot deserialize from this stream!";
 
   input.read ( ( char* ) &samples, sizeof ( uint64_t ) / sizeof ( char ) );
+  const bool at_end = input.eof() && input.gcount() == 0;
   input.read ( ( char* ) &width, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &height, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  // Only the end of the stream leaves the tensor empty
+  if ( input.bad() || ( input.eof() && !at_end ) )
+    FATAL ( "Tensor header in stream cannot be read!" );
+
   // The number of bytes has to be representable
   uint64_t max_elements = std::numeric_limits<std::size_t>::max() / sizeof ( datum );
   const uint64_t dimensions[] = { samples, width, height, maps };
-- 
2.43.0


From f1ce422f22db443308407b408c5439ae80e28960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 72/99] fix: a tensor stream that cannot be read ends in an
 error instead of an endless loop

---
 src/util/CompressedTensorStream.cpp   |  5 ++++-
 src/util/FloatTensorStream.cpp        |  6 +++++-
 src/util/TensorStreamPatchDataset.cpp | 12 ++++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 07c64d7..65d0652 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -45,7 +45,7 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
   // Go through file
   std::cout << std::endl << std::flush;
   
-  while (!input_stream.eof()) {
+  while (input_stream.good()) {
     CompressedTensor* tensor = new CompressedTensor();
     try {
 #ifdef BUILD_POSIX
@@ -78,6 +78,9 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
   // The memory maps stay valid without the descriptor
   close(input_fd);
 #endif
+
+  if(input_stream.bad())
+    FATAL("Cannot read file: " << path);
   
   temp_tensor_.Resize(1,max_elements_);
   return 0;
diff --git a/src/util/FloatTensorStream.cpp b/src/util/FloatTensorStream.cpp
index 52edcab..b514069 100644
--- a/src/util/FloatTensorStream.cpp
+++ b/src/util/FloatTensorStream.cpp
@@ -35,7 +35,7 @@ unsigned int FloatTensorStream::LoadFile(std::string path)
   // Go through file
   std::cout << std::endl << std::flush;
   
-  while (!input_stream.eof()) {
+  while (input_stream.good()) {
     Tensor* tensor = new Tensor();
     try {
 #ifdef BUILD_POSIX
@@ -65,6 +65,10 @@ unsigned int FloatTensorStream::LoadFile(std::string path)
   // The memory maps stay valid without the descriptor
   close(input_fd);
 #endif
+
+  if(input_stream.bad())
+    FATAL("Cannot read file: " << path);
+
   return 0;
 }
 
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index b840952..abe86f8 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -57,7 +57,7 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	// Count tensors
 	Tensor tensor;
 
-	while (!training_stream.eof()) {
+	while (training_stream.good()) {
 		tensor.Deserialize(training_stream, true);
 
 		if (tensor.elements() == 0)
@@ -69,6 +69,10 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 		training_stream.peek();
 	}
 
+	if (training_stream.bad()) {
+		FATAL("Cannot read training tensor stream!");
+	}
+
 	LOGDEBUG << tensor_count_training_ / 2 << " training tensors";
 
 	// We need alternating label and image tensors, so we need an even count
@@ -76,7 +80,7 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 		FATAL("Odd training tensor count!");
 	}
 
-	while (!testing_stream.eof()) {
+	while (testing_stream.good()) {
 		tensor.Deserialize(testing_stream, true);
 
 		if (tensor.elements() == 0)
@@ -88,6 +92,10 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 		testing_stream.peek();
 	}
 
+	if (testing_stream.bad()) {
+		FATAL("Cannot read testing tensor stream!");
+	}
+
 	LOGDEBUG << tensor_count_testing_ / 2 << " testing tensors";
 
 	if (tensor_count_testing_ & 1) {
-- 
2.43.0


From 100d35419bb85aa371b23cb0d37d085b19b3bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 73/99] fix: a dataset configuration that cannot be read is an
 error instead of an endless loop

---
 src/util/TensorStreamDataset.cpp      | 6 +++++-
 src/util/TensorStreamPatchDataset.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index f969732..d4183a5 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -300,7 +300,7 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
   file.clear();
   file.seekg (0, std::ios::beg);
 
-  while (! file.eof()) {
+  while (file.good()) {
     std::string line;
     std::getline (file, line);
     
@@ -364,6 +364,10 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
     ParseStringIfPossible (line, "testing", testing_file);
   }
 
+  if (!file.eof()) {
+    FATAL("Cannot read dataset configuration!");
+  }
+
   LOGDEBUG << "Loading dataset with " << classes << " classes";
   LOGDEBUG << "Training tensor: " << training_file;
   LOGDEBUG << "Testing tensor: " << testing_file;
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index abe86f8..671ea19 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -353,7 +353,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
   file.clear();
   file.seekg (0, std::ios::beg);
 
-  while (! file.eof()) {
+  while (file.good()) {
     std::string line;
     std::getline (file, line);
     
@@ -422,6 +422,10 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     ParseStringIfPossible (line, "testing", testing_file);
   }
 
+  if (!file.eof()) {
+    FATAL("Cannot read dataset configuration!");
+  }
+
   LOGDEBUG << "Loading dataset with " << classes << " classes";
   LOGDEBUG << "Training tensor: " << training_file;
   LOGDEBUG << "Testing tensor: " << testing_file;
-- 
2.43.0


From 8cc256ffabb092693c7b7424f0e1d63535cf2154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 74/99] fix: a dataset configuration that announces more
 classes than it lists is refused without collecting them

---
 src/util/TensorStreamDataset.cpp      | 6 +++---
 src/util/TensorStreamPatchDataset.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index d4183a5..ef22c82 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -308,7 +308,7 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
       ParseCountIfPossible (line, "classes", classes);
 
       if (classes != 0) {
-        for (int c = 0; c < classes; c++) {
+        for (unsigned int c = 0; c < classes && file.good(); c++) {
           std::string class_name;
           std::getline (file, class_name);
           class_names.push_back (class_name);
@@ -318,7 +318,7 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
 
     if (StartsWithIdentifier (line, "colors")) {
       if (classes != 0) {
-        for (int c = 0; c < classes; c++) {
+        for (unsigned int c = 0; c < classes && file.good(); c++) {
           std::string color;
           std::getline (file, color);
           unsigned long color_val_l = std::strtoul (color.c_str(), nullptr, 16);
@@ -334,7 +334,7 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
 
 		if (StartsWithIdentifier(line, "weights")) {
 			if (classes != 0) {
-				for (int c = 0; c < classes; c++) {
+				for (unsigned int c = 0; c < classes && file.good(); c++) {
 					std::string weight;
 					datum dweight;
 					std::getline(file, weight);
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 671ea19..77e89f2 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -366,7 +366,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
       ParseCountIfPossible (line, "classes", classes);
 
       if (classes != 0) {
-        for (int c = 0; c < classes; c++) {
+        for (unsigned int c = 0; c < classes && file.good(); c++) {
           std::string class_name;
           std::getline (file, class_name);
           class_names.push_back (class_name);
@@ -376,7 +376,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
 
     if (StartsWithIdentifier (line, "colors")) {
       if (classes != 0) {
-        for (int c = 0; c < classes; c++) {
+        for (unsigned int c = 0; c < classes && file.good(); c++) {
           std::string color;
           std::getline (file, color);
           unsigned long color_val_l = std::strtoul (color.c_str(), nullptr, 16);
@@ -392,7 +392,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
 
 		if (StartsWithIdentifier(line, "weights")) {
 			if (classes != 0) {
-				for (int c = 0; c < classes; c++) {
+				for (unsigned int c = 0; c < classes && file.good(); c++) {
 					std::string weight;
 					datum dweight;
 					std::getline(file, weight);
-- 
2.43.0


From 2e2b4304038d2b9daad8150f1a4c1fb7cf9f28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 75/99] fix: a network configuration that cannot be read is an
 error instead of an endless loop

---
 src/factory/ConfigurableFactory.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index a234672..b4a40dd 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -45,7 +45,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
   bool ignore_layers = false;
 
   // Calculate patch size / receptive field size
-  while (! file_.eof()) {
+  while (file_.good()) {
     std::string line;
     std::getline (file_, line);
     if (line.compare (0, 1, "#") == 0) {
@@ -128,6 +128,10 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
     }
   }
+
+  if (!file_.eof()) {
+    FATAL ("Cannot read network configuration!");
+  }
   
   LOGDEBUG << "To achieve this receptive field size manually, start net config with manual rfx=" << receptive_field_x_
     << " rfy=" << receptive_field_y_ << " factorx=" << factorx << " factory=" << factory;
@@ -175,7 +179,7 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
 		last_connection.backprop = false;
   }
 
-  while (! file_.eof()) {
+  while (file_.good()) {
     std::string line;
     std::getline (file_, line);
     if (line.compare (0, 1, "#") == 0) {
@@ -509,6 +513,10 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
 
   }
 
+  if (!file_.eof()) {
+    FATAL ("Cannot read network configuration!");
+  }
+
 	return net.IsComplete();
 }
 
@@ -516,7 +524,7 @@ void ConfigurableFactory::InitOptimalSettings() {
   file_.clear();
   file_.seekg (0, std::ios::beg);
 
-  while (!file_.eof()) {
+  while (file_.good()) {
     std::string line;
     std::getline (file_, line);
     if (line.compare (0, 1, "#") == 0) {
@@ -543,6 +551,10 @@ void ConfigurableFactory::InitOptimalSettings() {
       optimal_settings_.optimization_method = QUICKPROP;
     }
   }
+
+  if (!file_.eof()) {
+    FATAL ("Cannot read network configuration!");
+  }
 }
 
 void ConfigurableFactory::WriteNode(std::ostream& graph_output, Layer* layer, int source_id, int source_port, int node_id, int outputs) {
-- 
2.43.0


From 5365b71d8ef55fcf2db72c3bd48ad2f3117341c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 76/99] fix: a system configuration file that cannot be read
 does not stop the initialization forever

---
 src/util/Init.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Init.cpp b/src/util/Init.cpp
index 9042fd4..3a7d108 100644
--- a/src/util/Init.cpp
+++ b/src/util/Init.cpp
@@ -110,7 +110,7 @@ void System::Init(int requested_log_level) {
   if(config_file.good()) {
     LOGINFO << "Loading config file: " << config_path;
     
-    while (!config_file.eof()) {
+    while (config_file.good()) {
       std::string line;
       std::getline (config_file, line);
       
-- 
2.43.0


From 3b761d9f2445adc2e1902afa5b47a07d5fde4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 77/99] fix: image and label lists that cannot be read are an
 error

---
 src/util/ListTensorStream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 5652f26..d882819 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -193,7 +193,7 @@ namespace Conv {
 		unsigned int tensor_count = 0;
 		
 		// Iterate through lists of images and labels
-		while ( !image_list_file.eof() ) {
+		while ( image_list_file.good() ) {
 			std::string image_fname;
 			std::string label_fname;
 			std::getline ( image_list_file, image_fname );
@@ -222,6 +222,10 @@ namespace Conv {
 			
 			tensor_count += 2;
 		}
+
+		if ( image_list_file.bad() || label_list_file.bad() ) {
+			FATAL ( "Cannot read image and label lists!" );
+		}
 		
 		return tensor_count;
 	}
-- 
2.43.0


From 4f8fdbc173a218f35f6dc999f4fba17a8665a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 78/99] fix: tools report input that cannot be read instead of
 running forever

---
 tools/compressTensorStream.cpp       | 6 +++++-
 tools/makeCompressedTensorStream.cpp | 6 +++++-
 tools/makeTensorStream.cpp           | 6 +++++-
 tools/tensorStreamTool.cpp           | 5 ++++-
 tools/trainNetwork.cpp               | 6 +++++-
 5 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/tools/compressTensorStream.cpp b/tools/compressTensorStream.cpp
index d0e7f97..0fe254a 100644
--- a/tools/compressTensorStream.cpp
+++ b/tools/compressTensorStream.cpp
@@ -37,7 +37,7 @@ int main(int argc, char** argv) {
   uint64_t magic = CN24_CTS_MAGIC;
   output_tensor_stream.write((char*)&magic, sizeof(uint64_t)/sizeof(char));
   
-  while(!input_tensor_stream.eof()) {
+  while(input_tensor_stream.good()) {
     tensor.Deserialize(input_tensor_stream);
     
     LOGDEBUG << "Input tensor: " << tensor;
@@ -65,6 +65,10 @@ int main(int argc, char** argv) {
     
     input_tensor_stream.peek();
   }
+
+  if(input_tensor_stream.bad())
+    FATAL("Cannot read " << input_file_name);
+
   output_tensor_stream.close();
 
   if(!output_tensor_stream.good())
diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index ce8d46f..a30ee32 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -89,7 +89,7 @@ int main ( int argc, char** argv ) {
   output_file.write((char*)&magic, sizeof(uint64_t)/sizeof(char));
 
   // Iterate through lists of images and labels
-  while ( !image_list_file.eof() ) {
+  while ( image_list_file.good() ) {
     std::string image_fname;
     std::string label_fname;
     std::getline ( image_list_file, image_fname );
@@ -191,6 +191,10 @@ int main ( int argc, char** argv ) {
     compressed_label_tensor.Serialize ( output_file );
   }
 
+  if ( image_list_file.bad() || label_list_file.bad() ) {
+    FATAL ( "Cannot read image and label lists!" );
+  }
+
   output_file.close();
 
   if ( !output_file.good() ) {
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index a74954c..f965d19 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -85,7 +85,7 @@ int main ( int argc, char** argv ) {
   }
 
   // Iterate through lists of images and labels
-  while ( !image_list_file.eof() ) {
+  while ( image_list_file.good() ) {
     std::string image_fname;
     std::string label_fname;
     std::getline ( image_list_file, image_fname );
@@ -182,6 +182,10 @@ int main ( int argc, char** argv ) {
     label_tensor.Serialize ( output_file );
   }
 
+  if ( image_list_file.bad() || label_list_file.bad() ) {
+    FATAL ( "Cannot read image and label lists!" );
+  }
+
   output_file.close();
 
   if ( !output_file.good() ) {
diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index 2b81f90..6af79e8 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -31,12 +31,15 @@ int main(int argc, char* argv[]) {
   // Seek until eof to count tensors
   Conv::Tensor tensor;
   unsigned int tensors_in_file = 0;
-  for (; !file_in.eof(); tensors_in_file++) {
+  for (; file_in.good(); tensors_in_file++) {
     tensor.Deserialize(file_in);
     file_in.peek();
     LOGINFO << "Tensor loaded: " << tensor;
   }
 
+  if (file_in.bad())
+    FATAL("Cannot read " << argv[1]);
+
   // Compare the number of tensors in the stream to the specified output number
   if (tensors_in_file < t_count) {
     LOGERROR << "There are less than " << t_count << " Tensors in the specified file!";
diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 3b83bae..fd66c63 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -248,9 +248,13 @@ int main (int argc, char* argv[]) {
         std::string command;
         std::getline (script_file, command);
 
-        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command) || script_file.eof())
+        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command) || !script_file.good())
           break;
       }
+
+      if (script_file.bad()) {
+        FATAL ("Cannot read " << script_fname);
+      }
     } else {
       LOGINFO << "Enter \"help\" for information on how to use this program";
 
-- 
2.43.0


From cae4541f56d4d13a0dfad6bef4c3ce7eb2dc486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 79/99] fix: parameters that cannot be read are an error

---
 src/net/NetGraph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 2dc62ce..fa04684 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -446,6 +446,9 @@ void NetGraph::DeserializeParameters(std::istream& input, unsigned int last_laye
         FATAL("Deserialization changed layer parameter count!");
       }
       input.peek();
+      if (input.bad()) {
+        FATAL("Cannot read parameters!");
+      }
     }
   }
 }
-- 
2.43.0


From 5cc23f61542b2640885a46714d1e81870adaae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 80/99] fix: an error while reading a JPG file is reported
 instead of filling in gray pixels

---
 src/util/JPGUtil.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index c8cbccf..5146d0b 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -93,7 +93,15 @@ bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
   
   jpeg_finish_decompress(&cinfo);
   jpeg_destroy_decompress(&cinfo);
+
+  // libjpeg replaces what cannot be read
+  const bool read_error = ferror(in_file) != 0;
   fclose(in_file);
+
+  if(read_error) {
+    LOGERROR << "Cannot read " << file;
+    return false;
+  }
  
   return true;
 #endif
-- 
2.43.0


From eb5c4df1abc7da79f9a67ff2538f82aefb8988dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 81/99] fix: OpenCL kernels do not use image access qualifiers
 on buffers

---
 kernels/biasedConvolution.cl | 10 +++++-----
 kernels/crossCorrelation.cl  |  6 +++---
 kernels/foldWeights.cl       |  4 ++--
 kernels/fullConvolution.cl   |  6 +++---
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/kernels/biasedConvolution.cl b/kernels/biasedConvolution.cl
index 0a68eb4..e9d2733 100644
--- a/kernels/biasedConvolution.cl
+++ b/kernels/biasedConvolution.cl
@@ -20,11 +20,11 @@
  *  2: Output Y coordinate
  *  3: Kernel number + sample number * total kernels
  */
-__kernel void BIASED_CONVOLUTION ( __global __read_only float* X,
-                                   __global __read_only float* W,
-                                   __global __read_only float* b,
-                                   __global __write_only float* Y,
-                                   __global __read_only float* D,
+__kernel void BIASED_CONVOLUTION ( __global float* X,
+                                   __global float* W,
+                                   __global float* b,
+                                   __global float* Y,
+                                   __global float* D,
                                    uint input_width,
                                    uint input_height,
                                    uint input_maps,
diff --git a/kernels/crossCorrelation.cl b/kernels/crossCorrelation.cl
index 799dae4..cb5ecf2 100644
--- a/kernels/crossCorrelation.cl
+++ b/kernels/crossCorrelation.cl
@@ -21,9 +21,9 @@
  *  3: Kernel input map + (input maps * output map) + (input maps * output maps * sample)
  */
 
-__kernel void CROSS_CORRELATION ( __read_only __global float* X,
-                                  __read_only __global float* dY,
-                                  __write_only __global float* dWps,
+__kernel void CROSS_CORRELATION ( __global float* X,
+                                  __global float* dY,
+                                  __global float* dWps,
                                   uint input_height,
                                   uint input_width,
                                   uint input_maps,
diff --git a/kernels/foldWeights.cl b/kernels/foldWeights.cl
index ae9e293..8da4fa7 100644
--- a/kernels/foldWeights.cl
+++ b/kernels/foldWeights.cl
@@ -21,8 +21,8 @@
  *  3: Kernel input map + (input maps * output map)
  */
 
-__kernel void FOLD_WEIGHTS ( __read_only __global float* dWps,
-                                  __write_only __global float* dW,
+__kernel void FOLD_WEIGHTS ( __global float* dWps,
+                                  __global float* dW,
                                   uint input_maps,
                                   uint output_maps,
                                   uint kernel_width,
diff --git a/kernels/fullConvolution.cl b/kernels/fullConvolution.cl
index c680213..bba45bf 100644
--- a/kernels/fullConvolution.cl
+++ b/kernels/fullConvolution.cl
@@ -20,9 +20,9 @@
  *  2: Input Y coordinate
  *  3: Kernel input map number + sample number * total input maps
  */
-__kernel void FULL_CONVOLUTION ( __read_only __global float* dY,
-                                 __read_only __global float* W,
-                                 __write_only __global float* dX,
+__kernel void FULL_CONVOLUTION ( __global float* dY,
+                                 __global float* W,
+                                 __global float* dX,
                                  uint input_width,
                                  uint input_height,
                                  uint input_maps,
-- 
2.43.0


From 91c2753e9c4dc106ad106142f035634b89830587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 82/99] fix: OpenCL upscaling stays inside the source when the
 target is larger

---
 src/math/TensorMath.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 767a1af..c741f69 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -527,11 +527,12 @@ void TensorMath::UP(const Tensor& source, Tensor& target, const int region_width
 #ifdef BUILD_OPENCL
   if(source.cl_gpu_ || target.cl_gpu_) {
     ((Tensor&)source).MoveToGPU();
-    target.MoveToGPU(true);
     const int target_width = target.width();
     const int target_height = target.height();
     const int source_width = source.width();
     const int source_height = source.height();
+    // Elements outside of the scaled source are kept
+    target.MoveToGPU(target_width == source_width * region_width && target_height == source_height * region_height);
     cl_uint error = 0;
 
     error |= clSetKernelArg (CLHelper::k_up, 0, sizeof (cl_mem), &(((Tensor&)source).cl_data_ptr_));
@@ -548,7 +549,7 @@ void TensorMath::UP(const Tensor& source, Tensor& target, const int region_width
       FATAL("Error setting kernel args: " << (signed int) error);
     }
 
-    size_t global_work_size[] = {(size_t)target.width(), (size_t)target.height(), (size_t)(target.maps() * target.samples())};
+    size_t global_work_size[] = {(size_t)(source_width * region_width), (size_t)(source_height * region_height), (size_t)(target.maps() * target.samples())};
 
     error = clEnqueueNDRangeKernel (CLHelper::queue, CLHelper::k_up, 3, NULL,
         global_work_size, NULL, 0, NULL, NULL);
-- 
2.43.0


From b091db646981a6cfcca6e0cc65a2667802094583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 83/99] fix: setting one sample on the OpenCL device covers
 that sample only

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index c741f69..c7cad97 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -363,7 +363,7 @@ void TensorMath::SETSAMPLE(Tensor& A, const int smA, const datum value)
       FATAL("Error setting kernel args: " << (signed int) error);
     }
 
-    size_t global_work_size[] = {(size_t)(smA == -1 ? A.elements() : A.width() * A.height() * A.samples())};
+    size_t global_work_size[] = {(size_t)(smA == -1 ? A.elements() : A.width() * A.height() * A.maps())};
 
     error = clEnqueueNDRangeKernel (CLHelper::queue, CLHelper::k_setValue, 1, NULL,
         global_work_size, NULL, 0, NULL, NULL);
-- 
2.43.0


From bdcc4c04e1e9b1e5a92faab664f3daf2d8933dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 84/99] fix: OpenCL IM2COL and COL2IM refuse matrices of the
 wrong size like the reference

---
 src/math/TensorMath.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index c7cad97..4286414 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -171,6 +171,12 @@ void TensorMath::IM2COL(const Tensor& source, const int source_width, const int
     const int target_height = (2 * pad_height + source_height - kernel_height) / stride_height + 1;
     const int target_maps = kernel_width * kernel_height * maps;
     
+    const int target_size = samples * target_width * target_height * target_maps;
+    const int actual_target_size = target.samples() * target.width() * target.height() * target.maps();
+    
+    if(target_size != actual_target_size)
+      FATAL("Target size wrong!");
+    
     error |= clSetKernelArg (CLHelper::k_im2col, 0, sizeof (cl_mem), &(((Tensor&)source).cl_data_ptr_));
     error |= clSetKernelArg (CLHelper::k_im2col, 1, sizeof (cl_mem), &(target.cl_data_ptr_));
     error |= clSetKernelArg (CLHelper::k_im2col, 2, sizeof (cl_int), &source_width);
@@ -270,6 +276,12 @@ void TensorMath::COL2IM(Tensor& source, const int source_width, const int source
     const int target_height = (2 * pad_height + source_height - kernel_height) / stride_height + 1;
     const int target_maps = kernel_width * kernel_height * maps;
     
+    const int target_size = samples * target_width * target_height * target_maps;
+    const int actual_target_size = target.samples() * target.width() * target.height() * target.maps();
+    
+    if(target_size != actual_target_size)
+      FATAL("Target size wrong!");
+    
     error |= clSetKernelArg (CLHelper::k_col2im, 0, sizeof (cl_mem), &(((Tensor&)source).cl_data_ptr_));
     error |= clSetKernelArg (CLHelper::k_col2im, 1, sizeof (cl_mem), &(target.cl_data_ptr_));
     error |= clSetKernelArg (CLHelper::k_col2im, 2, sizeof (cl_int), &source_width);
-- 
2.43.0


From 60d970370da54c744967fe4b8deb0b384b4587d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 85/99] fix: tensor math fetches shadowed content from the
 OpenCL device

---
 src/math/TensorMath.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 4286414..1799bc8 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -390,6 +390,7 @@ void TensorMath::SETSAMPLE(Tensor& A, const int smA, const datum value)
     }
 #endif
   } else {
+    A.MoveToCPU(smA == -1);
 #endif
     datum* start = smA == -1 ? A.data_ptr() : A.data_ptr(0, 0, 0, smA);
     datum* end = smA == -1 ? A.data_ptr(0, 0, 0, A.samples()) : A.data_ptr(0, 0, 0, smA + 1);
@@ -441,6 +442,8 @@ void TensorMath::SMS(const Tensor& source, Tensor& target)
     }
 #endif
   } else {
+    ((Tensor&)source).MoveToCPU();
+    target.MoveToCPU(true);
 #endif
     const int width = target.width();
     const int height = target.height();
@@ -502,6 +505,8 @@ void TensorMath::DOWN(const Tensor& source, Tensor& target, const int region_wid
     }
 #endif
   } else {
+    ((Tensor&)source).MoveToCPU();
+    target.MoveToCPU(true);
 #endif
     const int target_width = target.width();
     const int target_height = target.height();
@@ -576,6 +581,8 @@ void TensorMath::UP(const Tensor& source, Tensor& target, const int region_width
     }
 #endif
   } else {
+    ((Tensor&)source).MoveToCPU();
+    target.MoveToCPU();
 #endif
     const int width = source.width();
     const int height = source.height();
-- 
2.43.0


From 583a1d86d3f553f8b58b8427dd5befb19c5d8c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 86/99] fix: OpenCL buffers are released by the tensor that
 owns them, also after a move

---
 src/util/Tensor.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 92dd5bb..dd8f673 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -449,20 +449,22 @@ void Tensor::DeleteIfPossible() {
 #endif
 #ifdef BUILD_POSIX
       }
-#endif
-#ifdef BUILD_OPENCL
-      if ( cl_data_ptr_ != 0 ) {
-        clReleaseMemObject ( (cl_mem)cl_data_ptr_ );
-        cl_data_ptr_ = 0;
-      }
-      
-      cl_gpu_ = false;
 #endif
     }
 
     data_ptr_ = nullptr;
   }
 
+#ifdef BUILD_OPENCL
+  // A shadow does not own the memory on the GPU
+  if ( cl_data_ptr_ != 0 && !is_shadow_ ) {
+    clReleaseMemObject ( (cl_mem)cl_data_ptr_ );
+  }
+
+  cl_data_ptr_ = 0;
+  cl_gpu_ = false;
+#endif
+
   samples_ = 0;
   width_ = 0;
   height_ = 0;
@@ -475,6 +477,7 @@ void Tensor::DeleteIfPossible() {
 void Tensor::MoveToGPU ( bool no_copy ) {
   if ( is_shadow_ ) {
     shadow_target_->MoveToGPU ( no_copy );
+    cl_data_ptr_ = shadow_target_->cl_data_ptr_;
     return;
   }
 
-- 
2.43.0


From bbc66698cb357a4c8c09bdf261179f950ef07f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 87/99] fix: tensor methods fetch content from the OpenCL
 device before they read it

---
 src/util/Tensor.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index dd8f673..745fb93 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -54,6 +54,10 @@ Tensor::Tensor ( const Tensor& tensor, bool intentional ) {
   // Match size of source Tensor
   Resize ( tensor );
 
+#ifdef BUILD_OPENCL
+  ((Tensor&)tensor).MoveToCPU();
+#endif
+
   // Get pointers
   const datum* source_data = tensor.data_ptr_const();
   datum* target_data = data_ptr();
@@ -215,6 +219,10 @@ void Tensor::Transpose() {
   // This copy _is_ intentional
   Tensor tmp ( *this, true );
 
+#ifdef BUILD_OPENCL
+  MoveToCPU();
+#endif
+
   if ( !Reshape ( samples_, height_, width_, maps_ ) )
     FATAL ( "Didn't reshape!" );
 
@@ -388,6 +396,11 @@ bool Tensor::CopyMap ( const Tensor& source, const std::size_t source_sample,
   if ( source_sample >= source.samples() || target_sample >= target.samples() )
     return false;
 
+#ifdef BUILD_OPENCL
+  ((Tensor&)source).MoveToCPU();
+  target.MoveToCPU();
+#endif
+
   // Check if image dimensions match
   if ( source.width() != target.width() || source.height() != target.height() ) {
     if ( target.width() < source.width() || target.height() < source.height() )
@@ -576,6 +589,9 @@ void Tensor::MoveToCPU ( bool no_copy ) {
 #endif
 
 std::size_t Tensor::Maximum ( std::size_t sample ) {
+#ifdef BUILD_OPENCL
+  MoveToCPU();
+#endif
   datum max_y = std::numeric_limits<datum>::lowest();
   std::size_t max_x = 0;
 
@@ -590,6 +606,9 @@ std::size_t Tensor::Maximum ( std::size_t sample ) {
 }
 
 std::size_t Tensor::AbsMaximum () {
+#ifdef BUILD_OPENCL
+  MoveToCPU();
+#endif
   datum max_y = 0;
   std::size_t max_x = 0;
 
@@ -607,6 +626,9 @@ std::size_t Tensor::AbsMaximum () {
 }
 
 std::size_t Tensor::PixelMaximum ( std::size_t x, std::size_t y, std::size_t sample ) {
+#ifdef BUILD_OPENCL
+  MoveToCPU();
+#endif
   unsigned int maxclass = 0;
   datum maxvalue = std::numeric_limits<datum>::lowest();
 
@@ -670,6 +692,9 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 }
 
 void Tensor::WriteToFile ( const std::string& filename ) {
+#ifdef BUILD_OPENCL
+  MoveToCPU();
+#endif
 #ifdef BUILD_PNG
 
   if ( HasSuffix ( filename, "png" )
-- 
2.43.0


From fe894dd39879e09690cf8ab61f1c4bc371913dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 88/99] fix: loading into a shadow does not discard the content
 of its target on the OpenCL device

---
 src/util/Tensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 745fb93..4c8ddc6 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -288,7 +288,8 @@ void Tensor::Serialize ( std::ostream& output, bool convert ) {
 
 void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap, int fd) {
 #ifdef BUILD_OPENCL
-  MoveToCPU ( true );
+  // The content may belong to another Tensor
+  MoveToCPU();
 #endif
   uint64_t samples = 0;
   uint64_t width = 0;
-- 
2.43.0


From 77f59002ab0260bc9b7b390930a671b06cd77ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 89/99] fix: image readers and writers fetch the content of a
 tensor from the OpenCL device

---
 src/util/JPGUtil.cpp |  6 ++++++
 src/util/PNGUtil.cpp | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 5146d0b..8600084 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -76,6 +76,9 @@ bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
   ((j_common_ptr)&cinfo, JPOOL_IMAGE, image_width * image_channels, 1);
   
   tensor.Resize(1, image_width, image_height, image_channels);
+#ifdef BUILD_OPENCL
+  tensor.MoveToCPU(true);
+#endif
   
   unsigned int current_line = 0;
   while(cinfo.output_scanline < cinfo.output_height) {
@@ -159,6 +162,9 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   jpeg_start_compress(&cinfo, true);
   
   
+#ifdef BUILD_OPENCL
+  tensor.MoveToCPU();
+#endif
   JSAMPROW row_pointer = new JSAMPLE[3*tensor.width()];
   pending_row = row_pointer;
   // Write scanlines
diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index 0fe64b5..0783c9b 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -146,6 +146,9 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
 
     // Read image into Tensor
     tensor.Resize ( 1, image_width, image_height, image_channels );
+#ifdef BUILD_OPENCL
+    tensor.MoveToCPU ( true );
+#endif
     datum* target = tensor.data_ptr();
 
     // We need to realign the color data because our tensor channels are separate
@@ -190,6 +193,9 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
 
     // Read image into Tensor
     tensor.Resize ( 1, image_width, image_height, image_channels );
+#ifdef BUILD_OPENCL
+    tensor.MoveToCPU ( true );
+#endif
     datum* target = tensor.data_ptr();
 
     // We need to realign the color data because our tensor channels are separate
@@ -279,6 +285,10 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
     PNG_FILTER_TYPE_DEFAULT );
   png_write_info ( png_handle, png_info_handle );
 
+#ifdef BUILD_OPENCL
+  tensor.MoveToCPU();
+#endif
+
   // Make rows
   png_byte* pixels = new png_byte[3 * tensor.width() * tensor.height()];
 
-- 
2.43.0


From 20091f91fd0ed940191e9f4390186a8490bd7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 90/99] fix: positions written by the input layer are not
 replaced by those on the OpenCL device

---
 src/net/DatasetInputLayer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index 1754d5b..763789f 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -146,6 +146,7 @@ void DatasetInputLayer::FeedForward() {
 #ifdef BUILD_OPENCL
   data_output_->data.MoveToCPU (true);
   label_output_->data.MoveToCPU (true);
+  helper_output_->data.MoveToCPU (true);
   localized_error_output_->data.MoveToCPU (true);
 #endif
 
-- 
2.43.0


From d5476a46c667d8f9387ecfadc174504d0d08da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 91/99] fix: a configured OpenCL platform or device that does
 not exist is an error

---
 src/util/Init.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/Init.cpp b/src/util/Init.cpp
index 3a7d108..c72c8bb 100644
--- a/src/util/Init.cpp
+++ b/src/util/Init.cpp
@@ -205,6 +205,10 @@ void CLHelper::Init(unsigned int platform_number, unsigned int device_number) {
     FATAL ( "No OpenCL platforms detected!" );
   }
 
+  if ( platform_number >= platform_count ) {
+    FATAL ( "OpenCL platform " << platform_number << " does not exist!" );
+  }
+
   cl_platform_id* platform_ids = new cl_platform_id[platform_count];
   clGetPlatformIDs ( platform_count, platform_ids, NULL );
 
@@ -216,6 +220,10 @@ void CLHelper::Init(unsigned int platform_number, unsigned int device_number) {
     FATAL ( "No OpenCL devices detected!" );
   }
 
+  if ( device_number >= device_count ) {
+    FATAL ( "OpenCL device " << device_number << " does not exist!" );
+  }
+
   cl_device_id* device_ids = new cl_device_id[device_count];
   clGetDeviceIDs ( platform_ids[platform_number], CL_DEVICE_TYPE_ALL,
                    device_count, device_ids, NULL );
-- 
2.43.0


From 1b5b8509694736b1e348f01be3a7c7b1d70c1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 92/99] fix: an empty tensor can be shadowed in an OpenCL build

---
 src/util/Tensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 4c8ddc6..bc4efaf 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -140,8 +140,10 @@ void Tensor::Shadow ( Tensor& tensor ) {
   shadow_target_ = &tensor;
 
 #ifdef BUILD_OPENCL
-  shadow_target_->MoveToGPU();
-  shadow_target_->MoveToCPU();
+  if ( elements_ > 0 ) {
+    shadow_target_->MoveToGPU();
+    shadow_target_->MoveToCPU();
+  }
   cl_data_ptr_ = shadow_target_->cl_data_ptr_;
 #endif
 }
-- 
2.43.0


From d6621699cd6de3817717c4b9e1ce2601fb7ef718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 93/99] fix: a layer without inputs crashed the initialization
 of its network instead of being refused

---
 src/net/NetGraph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index fa04684..b17301f 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -293,6 +293,9 @@ void NetGraph::InitializeNode(NetGraphNode* node) {
 
 		// Verify output buffer creation
 		if (!success_outputs) {
+			if (input_tensors.empty() || input_tensors[0] == nullptr)
+				FATAL("Layer will not create outputs: " << node->layer->GetLayerDescription() << ", no inputs");
+
 			FATAL("Layer will not create outputs: " << node->layer->GetLayerDescription() << ", input0: " << input_tensors[0]->data);
     }
 
-- 
2.43.0


From c633f2b931b222ac2f7a132478a36e2c0519ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 94/99] fix: create the layer of a node that is constructed
 from a descriptor

---
 include/cn24/net/NetGraphNode.h |  4 ++--
 src/net/NetGraphNode.cpp        | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/cn24/net/NetGraphNode.h b/include/cn24/net/NetGraphNode.h
index 98f1828..40e8888 100644
--- a/include/cn24/net/NetGraphNode.h
+++ b/include/cn24/net/NetGraphNode.h
@@ -40,8 +40,8 @@ public:
 		layer->CreateBufferDescriptors(output_buffers);
 	}
   
-  NetGraphNode(std::string configuration, NetGraphConnection first_connection) {
-    
+  NetGraphNode(std::string configuration, NetGraphConnection first_connection) : NetGraphNode(configuration) {
+    input_connections.push_back(first_connection);
   }
 
 	Layer* layer;
diff --git a/src/net/NetGraphNode.cpp b/src/net/NetGraphNode.cpp
index e69de29..a7be4f3 100644
--- a/src/net/NetGraphNode.cpp
+++ b/src/net/NetGraphNode.cpp
@@ -0,0 +1,22 @@
+/*
+ * This file is part of the CN24 semantic segmentation software,
+ * copyright (C) 2015 Clemens-Alexander Brust (ikosa dot de at gmail dot com).
+ *
+ * For licensing information, see the LICENSE file included with this project.
+ */
+
+#include "Log.h"
+#include "LayerFactory.h"
+
+#include "NetGraphNode.h"
+
+namespace Conv {
+
+NetGraphNode::NetGraphNode(std::string configuration) : layer(LayerFactory::ConstructLayer(configuration)) {
+	if (layer == nullptr)
+		FATAL("Cannot construct layer: " << configuration);
+
+	layer->CreateBufferDescriptors(output_buffers);
+}
+
+}
-- 
2.43.0


From d00623f0d08f3df0465a8f914f5fd637b89488c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 95/99] fix: report missing layers and nodes instead of
 dereferencing them

---
 src/net/NetGraph.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index b17301f..09fea6a 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -58,6 +58,9 @@ void NetGraph::AddNode(NetGraphNode* node) {
   
   // Add backprop connection where appropiate
   for(NetGraphConnection& connection : node->input_connections) {
+    // Missing nodes are reported by NetGraph::IsComplete()
+    if (connection.node == nullptr)
+      continue;
     if (connection.backprop && !connection.node->is_input) {
       NetGraphBackpropConnection backprop_connection(node, connection.buffer);
       connection.node->backprop_connections.push_back(backprop_connection);
@@ -128,7 +131,8 @@ bool NetGraph::IsComplete() const {
 			LOGDEBUG << "Node is okay: " << node->layer->GetLayerDescription();
 		}
 		else {
-			LOGWARN << "Node is not okay: " << node->layer->GetLayerDescription();
+			if (node != nullptr && node->layer != nullptr)
+				LOGWARN << "Node is not okay: " << node->layer->GetLayerDescription();
 			is_complete = false;
 		}
 	}
-- 
2.43.0


From 35e1fc64b405802187d2fddf05925ee264eba4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:49 +0000
Subject: [PATCH 96/99] fix: PrintGraph does not crash on a graph that is not
 initialized

---
 src/net/NetGraph.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 09fea6a..458274f 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -179,12 +179,19 @@ void NetGraph::PrintGraph(std::ostream& graph_output) {
 			for (unsigned int i = 0; i < node->output_buffers.size(); i++) {
 				if (i > 0)
 					node_output << "|";
-				node_output << "<o" << i << ">" << node->output_buffers[i].description << " " << node->output_buffers[i].combined_tensor->data;
+				node_output << "<o" << i << ">" << node->output_buffers[i].description;
+
+				// There are no sizes before the graph is initialized
+				if (node->output_buffers[i].combined_tensor != nullptr)
+					node_output << " " << node->output_buffers[i].combined_tensor->data;
 			}
 			node_output << "}";
 		}
 		else if (node->output_buffers.size() == 1) {
-			node_output << "| <o0> " << node->output_buffers[0].description << " " << node->output_buffers[0].combined_tensor->data;
+			node_output << "| <o0> " << node->output_buffers[0].description;
+
+			if (node->output_buffers[0].combined_tensor != nullptr)
+				node_output << " " << node->output_buffers[0].combined_tensor->data;
 		}
 		node_output << "}\"];\n";
 
-- 
2.43.0


From 090ddc00dbf978ae9e9e906a12f41c8f38cd1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 97/99] fix: makeTensorStream reads no missing channels of gray
 label images

---
 tools/makeCompressedTensorStream.cpp | 12 ++++++++++--
 tools/makeTensorStream.cpp           | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index a30ee32..49ee323 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -117,11 +117,19 @@ int main ( int argc, char** argv ) {
 
     if(directRGB == "true") {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
+      if ( label_rgb_tensor.maps() == 2 ) {
+        FATAL ( "Unsupported input channel count!" );
+      }
+
+      // Gray images have the same value in all channels
+      const unsigned int gmap = label_rgb_tensor.maps() == 1 ? 0 : 1;
+      const unsigned int bmap = label_rgb_tensor.maps() == 1 ? 0 : 2;
+
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,gmap,0 );
+          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,bmap,0 );
         }
       }
     } else if(number_of_classes == 1) {
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index f965d19..2eda876 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -113,11 +113,19 @@ int main ( int argc, char** argv ) {
 
     if(directRGB == "true") {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
+      if ( label_rgb_tensor.maps() == 2 ) {
+        FATAL ( "Unsupported input channel count!" );
+      }
+
+      // Gray images have the same value in all channels
+      const unsigned int gmap = label_rgb_tensor.maps() == 1 ? 0 : 1;
+      const unsigned int bmap = label_rgb_tensor.maps() == 1 ? 0 : 2;
+
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,gmap,0 );
+          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,bmap,0 );
         }
       }
     } else if(number_of_classes == 1) {
-- 
2.43.0


From 82be8a75e0540783303d21587450044348da386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 98/99] fix: classes without a configured weight weigh one
 instead of an undefined amount

---
 src/util/TensorStreamDataset.cpp      | 2 +-
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index ef22c82..229a8fa 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -336,7 +336,7 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
 			if (classes != 0) {
 				for (unsigned int c = 0; c < classes && file.good(); c++) {
 					std::string weight;
-					datum dweight;
+					datum dweight = 1.0;
 					std::getline(file, weight);
 					std::stringstream ss;
 					ss << weight;
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 77e89f2..c12b444 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -394,7 +394,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
 			if (classes != 0) {
 				for (unsigned int c = 0; c < classes && file.good(); c++) {
 					std::string weight;
-					datum dweight;
+					datum dweight = 1.0;
 					std::getline(file, weight);
 					std::stringstream ss;
 					ss << weight;
-- 
2.43.0


From 45e7f5e64763479edfcefe096cbe72f2e69af0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 99/99] fix: datasets whose images and labels do not belong
 together are refused

---
 src/util/TensorStreamDataset.cpp      |  4 +++
 src/util/TensorStreamPatchDataset.cpp | 38 +++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 229a8fa..11a7282 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -133,6 +133,10 @@ TensorStreamDataset::TensorStreamDataset (
     label_maps_ = testing_stream_->GetMaps(1);
   }
 
+  if (label_maps_ > classes_) {
+    FATAL ("Label tensors have more maps than there are classes!");
+  }
+
   // Prepare error cache
   error_cache.Resize (1, max_width_, max_height_, 1);
 
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index c12b444..78082d0 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -32,6 +32,41 @@ datum DefaultLocalizedErrorFunction (unsigned int x, unsigned int y, unsigned in
   UNREFERENCED_PARAMETER(h);
   return 1;
 }
+/**
+ * @brief Makes sure that the images and labels of a dataset belong together
+ */
+class TensorPairValidator {
+public:
+	explicit TensorPairValidator(const unsigned int classes) : classes_(classes) {}
+
+	void Validate(const Tensor& tensor, const bool is_label) {
+		std::size_t& maps = is_label ? label_maps_ : image_maps_;
+		if (maps == 0)
+			maps = tensor.maps();
+
+		if (tensor.maps() != maps) {
+			FATAL("Tensors of a dataset need to have the same number of maps!");
+		}
+
+		if (is_label) {
+			if (maps > classes_) {
+				FATAL("Label tensors have more maps than there are classes!");
+			}
+			if (tensor.width() != image_width_ || tensor.height() != image_height_) {
+				FATAL("Image and label sizes don't match!");
+			}
+		} else {
+			image_width_ = tensor.width();
+			image_height_ = tensor.height();
+		}
+	}
+
+private:
+	const unsigned int classes_;
+	std::size_t image_width_ = 0, image_height_ = 0;
+	std::size_t image_maps_ = 0, label_maps_ = 0;
+};
+
 TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream,
 		std::istream& testing_stream,
 		unsigned int classes,
@@ -56,6 +91,7 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 
 	// Count tensors
 	Tensor tensor;
+	TensorPairValidator validator(classes);
 
 	while (training_stream.good()) {
 		tensor.Deserialize(training_stream, true);
@@ -64,6 +100,7 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 			break;
 
 		// LOGDEBUG << "Tensor " << tensor_count_training_ << ": " << tensor;
+		validator.Validate(tensor, (tensor_count_training_ & 1) == 1);
 		tensor_count_training_++;
 
 		training_stream.peek();
@@ -87,6 +124,7 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 			break;
 
 		// LOGDEBUG << "Tensor " << tensor_count_testing_ << ": " << tensor;
+		validator.Validate(tensor, (tensor_count_testing_ & 1) == 1);
 		tensor_count_testing_++;
 
 		testing_stream.peek();
-- 
2.43.0

