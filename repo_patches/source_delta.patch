From d31633d6620c7f63be535c283747ebbe34970f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:31 +0000
Subject: [PATCH 01/47] fix: compute tensor element counts in size_t and reject
 negative dimensions in reshape

---
 src/runtime/tensor.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 3fb2b37..b89b6fa 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -72,8 +72,8 @@ void dw::Tensor::init(const dw::Shape& shape) {
     m_descriptor->strides = calculateStrides(shape);
     m_descriptor->total   = std::accumulate(shape.begin(),
                                             shape.end(),
-                                            1,
-                                            std::multiplies<>());
+                                            static_cast<size_t>(1),
+                                            std::multiplies<size_t>());
 }
 
 void dw::Tensor::copyTo(dw::Tensor& rhs) const {
@@ -95,7 +95,12 @@ void dw::Tensor::allocate(const dw::Shape& shape) {
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
-    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
+    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
+                                         [](int dim) { return dim < 0; });
+    DeepWorks_Assert(!have_negative_dim && "Cannot reshape tensor to dynamic shape.");
+
+    auto shape_total_size = std::accumulate(shape.begin(), shape.end(),
+                                            static_cast<size_t>(1), std::multiplies<size_t>());
     DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
 
     m_descriptor->shape = shape;
-- 
2.43.0


From bf52d101cc1bf9fcdbccbf283d06a29b9fd3dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:31 +0000
Subject: [PATCH 02/47] fix: an empty tensor has nothing to initialize with
 Xavier

---
 src/initializers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/initializers.cpp b/src/initializers.cpp
index 0c0fe59..f25a0c5 100644
--- a/src/initializers.cpp
+++ b/src/initializers.cpp
@@ -18,6 +18,9 @@ void deepworks::initializer::xavierUniform(deepworks::Tensor& tensor) {
     auto& gen = deepworks::utils::generator();
     const auto& shape = tensor.shape();
     DeepWorks_Assert(shape.size() >= 1);
+    if (tensor.empty()) {
+        return;
+    }
     int inp_features = shape.size() == 2 ? shape[0] : tensor.total() / shape[0];
     int out_features = shape.size() == 2 ? shape[1] : shape[0];
     auto a = std::sqrt(6.0) / (inp_features + out_features);
-- 
2.43.0


From 084244b1d83faa4391ee73ee605706205145c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 03/47] fix: pad max pooling with -infinity so that padding
 never wins over negative inputs

---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 99d56d5..811c124 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -220,7 +220,7 @@ void deepworks::CPUMaxPoolingForward(const Tensor& input,
     std::array<int, 2> dilation{1, 1};
     for (size_t i = 0; i < batch * c; i++) {
         Tensor src_plane({1, 1, h_in, w_in}, input.data() + i * input_offset);
-        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::min());
+        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, -std::numeric_limits<float>::infinity());
 
         ConstMatrix col_mat{im2col_buf.data(), rows, cols};
         for (int j = 0; j < cols; j++) {
-- 
2.43.0


From f6e1d3177c763fefba59f263a02bdf0ffdaeb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 04/47] fix: dropout backward applies the forward scale and is
 identity in evaluation mode

---
 src/runtime/cpu/kernels/kernels.cpp   | 2 +-
 src/runtime/cpu/layers/cpudropout.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 811c124..001ebb7 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -360,7 +360,7 @@ void deepworks::CPUDropoutInputGrad(const Tensor& mask,
     ConstVector m_vec(mask.data(), mask.total());
     Vector      gi_vec(grad_input.data(), grad_input.total());
 
-    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f));
+    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f) / (1 - p));
 }
 
 void deepworks::CPUGlobalAvgPoolingForward(const Tensor& input, Tensor& output) {
diff --git a/src/runtime/cpu/layers/cpudropout.cpp b/src/runtime/cpu/layers/cpudropout.cpp
index 6bc9117..520834e 100644
--- a/src/runtime/cpu/layers/cpudropout.cpp
+++ b/src/runtime/cpu/layers/cpudropout.cpp
@@ -37,6 +37,7 @@ void deepworks::cpu::CPUDropout::backward(const std::vector<deepworks::Tensor>&
     const auto& grad_output = grad_outputs.front();
           auto& grad_input  = grad_inputs.front();
 
-    float p = m_info.impl().attrs["p"].get<float>();
+    // NB: In evaluation mode dropout is identity, nothing is dropped.
+    float p = m_info.params().at("mask").is_trainable() ? m_info.impl().attrs["p"].get<float>() : 0.f;
     deepworks::CPUDropoutInputGrad(m_mask, grad_output, grad_input, p);
 }
-- 
2.43.0


From 882eb0ee117898f257f89b77d7d238afa6b5158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 05/47] fix: reallocate BatchNorm2D buffers when the input
 shape changes

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 7ce9272..34baa39 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -49,12 +49,13 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
     int H = in_shape[2];
     int W = in_shape[3];
 
-    if (nhwc_in.empty()) {
+    // NB: Buffers must follow the input if its shape is changed.
+    if (nhwc_in.shape() != deepworks::Shape{N, H, W, C}) {
         nhwc_in  = Tensor({N, H, W, C});
         nhwc_out = Tensor({N, H, W, C});
     }
 
-    if (m_input_centered.empty()) {
+    if (m_input_centered.shape() != deepworks::Shape{N * H * W, C}) {
         m_input_centered = Tensor({N * H * W, C});
     }
 
-- 
2.43.0


From 14dcdf02f99e62733faa8783b123a213f3c7da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 06/47] fix: BatchNorm2D backward accumulates into the input
 gradient

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 34baa39..60c22ef 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -86,8 +86,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
     int C = grad_output_shape[1];
     deepworks::utils::NCHW2NHWC(grad_output, nhwc_out);
 
-    // NB: CPUBatchNorm1DInputGrad expects that input_grad is already initiliazed.
-    deepworks::initializer::zeros(nhwc_in);
+    // NB: CPUBatchNorm1DInputGrad accumulates to input_grad.
+    deepworks::utils::NCHW2NHWC(grad_input, nhwc_in);
     deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), static_cast<int>(grad_output.total()) / C, C},
                                        {m_std.data(),C},
                                        {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
-- 
2.43.0


From 545964ee43e6504b7364906f1aad6aaeb1a516cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:03 +0000
Subject: [PATCH 07/47] fix: count correct predictions in an integer, a float
 counter stops at 2^24

---
 src/metrics.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metrics.cpp b/src/metrics.cpp
index 35d3e91..eb5fe31 100644
--- a/src/metrics.cpp
+++ b/src/metrics.cpp
@@ -20,7 +20,7 @@ float deepworks::metric::accuracy(const deepworks::Tensor& y_pred,
     ConstMatrix y_pred_mat(y_pred.data(), rows, cols);
     ConstVector y_true_vec(y_true.data(), rows);
 
-    float acc = 0;
+    int acc = 0;
     ConstMatrix::Index pred_col;
     // FIXME: Calculate without loop
     for (int i = 0; i < rows; i++) {
@@ -28,7 +28,7 @@ float deepworks::metric::accuracy(const deepworks::Tensor& y_pred,
         auto label = y_true_vec[i];
         acc += pred_col == label;
     }
-    return acc / rows;
+    return static_cast<float>(acc) / rows;
 }
 
 float deepworks::metric::accuracyOneHot(const deepworks::Tensor& y_pred,
@@ -41,7 +41,7 @@ float deepworks::metric::accuracyOneHot(const deepworks::Tensor& y_pred,
 
     ConstMatrix y_pred_mat(y_pred.data(), rows, cols);
     ConstMatrix y_true_mat(y_true.data(), rows, cols);
-    float acc = 0;
+    int acc = 0;
     ConstMatrix::Index pred_col, label_col;
     // FIXME: Calculate without loop
     for (int i = 0; i < rows; i++) {
@@ -49,5 +49,5 @@ float deepworks::metric::accuracyOneHot(const deepworks::Tensor& y_pred,
         y_true_mat.row(i).maxCoeff(&label_col);
         acc += pred_col == label_col;
     }
-    return acc / rows;
+    return static_cast<float>(acc) / rows;
 }
-- 
2.43.0


From 80675db862b2e014759f58713cfa20bab4fd9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:03 +0000
Subject: [PATCH 08/47] fix: image reader threw only after fclose(nullptr) on a
 missing file and read past unterminated paths

---
 src/io/image_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 75474c6..5a4c8cb 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -1,5 +1,7 @@
 #include <stdexcept>
 #include <sstream>
+#include <string>
+#include <string_view>
 
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
@@ -27,10 +29,9 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
     struct jpeg_error_mgr err{};
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
@@ -99,9 +100,8 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-- 
2.43.0


From 169ef21dc2357fb6d260bc5c4ae30bdd082c515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:03 +0000
Subject: [PATCH 09/47] fix: a damaged JPEG throws instead of terminating the
 process

---
 src/io/image_reader.cpp | 125 +++++++++++++++++++++++++---------------
 1 file changed, 80 insertions(+), 45 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 5a4c8cb..a5b0fa4 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -6,6 +6,10 @@
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
 
+#include <csetjmp>
+#include <cstdio>
+#include <vector>
+
 #ifdef HAVE_JPEG
 #include <jpeglib.h>
 #endif
@@ -25,73 +29,104 @@ bool IsJpegFile(std::string_view path) {
     return path.substr(path.find_last_of(".") + 1) == "jpg" || path.substr(path.find_last_of(".") + 1) == "jpeg";
 }
 
-void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
-    struct jpeg_decompress_struct cinfo{};
-    struct jpeg_error_mgr err{};
-    FILE *infile = fopen(std::string(path).c_str(), "rb");
+// NB: The default error handler of libjpeg terminates the process.
+struct JpegErrorManager {
+    jpeg_error_mgr base{};
+    jmp_buf        on_error;
+    char           message[JMSG_LENGTH_MAX]{};
+};
+
+void OnJpegError(j_common_ptr cinfo) {
+    auto* manager = reinterpret_cast<JpegErrorManager*>(cinfo->err);
+    (*cinfo->err->format_message)(cinfo, manager->message);
+    longjmp(manager->on_error, 1);
+}
 
-    if (!infile) {
-        DeepWorks_Throw() << "can't open file: " << path;
+struct JpegReader {
+    explicit JpegReader(FILE* f) : infile(f) {
+        cinfo.err = jpeg_std_error(&err.base);
+        err.base.error_exit = OnJpegError;
     }
 
-    int width         = -1;
-    int height        = -1;
-    int channels      = -1;
-    JSAMPARRAY buffer = nullptr;
-
-    auto destroy = [&]() {
+    ~JpegReader() {
         jpeg_destroy_decompress(&cinfo);
         fclose(infile);
-    };
-
-    auto finish_and_destroy = [&]() {
-        (void) jpeg_finish_decompress(&cinfo);
-        destroy();
-    };
+    }
 
-    try {
-        cinfo.err = jpeg_std_error(&err);
+    // NB: Functions which call setjmp have no locals, so that nothing is lost by longjmp.
+    bool start() {
+        if (setjmp(err.on_error)) {
+            return false;
+        }
         jpeg_create_decompress(&cinfo);
         jpeg_stdio_src(&cinfo, infile);
-
         (void) jpeg_read_header(&cinfo, true);
         (void) jpeg_start_decompress(&cinfo);
+        return true;
+    }
 
-        size_t row_stride = cinfo.output_width * cinfo.output_components;
-        buffer = (*cinfo.mem->alloc_sarray)((j_common_ptr) &cinfo, JPOOL_IMAGE, row_stride, 1);
-
-        width = static_cast<int>(cinfo.output_width);
-        height = static_cast<int>(cinfo.output_height);
-        channels = static_cast<int>(cinfo.output_components);
+    bool readRow(JSAMPROW row) {
+        if (setjmp(err.on_error)) {
+            return false;
+        }
+        (void) jpeg_read_scanlines(&cinfo, &row, 1);
+        return true;
+    }
 
-        if (out_tensor.empty()) {
-            out_tensor.allocate(deepworks::Shape{height, width, channels});
-        } else {
-            DeepWorks_Assert(height * width * channels == out_tensor.total());
+    bool finish() {
+        if (setjmp(err.on_error)) {
+            return false;
         }
-    } catch (...) {
-        // NB: jpeg_finish_decompress cause "Application transferred to few scanlines"
-        destroy();
-        throw;
+        (void) jpeg_finish_decompress(&cinfo);
+        return true;
+    }
+
+    FILE*                  infile;
+    jpeg_decompress_struct cinfo{};
+    JpegErrorManager       err;
+};
+#endif
+
+void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
+#ifdef HAVE_JPEG
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
+
+    if (!infile) {
+        DeepWorks_Throw() << "can't open file: " << path;
+    }
+
+    JpegReader reader(infile);
+    if (!reader.start()) {
+        DeepWorks_Throw() << "can't read JPEG file: " << path << ": " << reader.err.message;
+    }
+
+    const int width    = static_cast<int>(reader.cinfo.output_width);
+    const int height   = static_cast<int>(reader.cinfo.output_height);
+    const int channels = static_cast<int>(reader.cinfo.output_components);
+    const size_t elements_per_h_channel = static_cast<size_t>(width) * channels;
+
+    if (out_tensor.empty()) {
+        out_tensor.allocate(deepworks::Shape{height, width, channels});
+    } else {
+        DeepWorks_Assert(height * elements_per_h_channel == out_tensor.total());
     }
 
     deepworks::Tensor::Type *dst_data = out_tensor.data();
 
-    const size_t elements_per_h_channel = width * channels;
+    std::vector<JSAMPLE> buffer(elements_per_h_channel);
     size_t h = 0;
     // it's works if we have default hwc layout for tensor
-    try {
-        while (cinfo.output_scanline < cinfo.output_height) {
-            (void) jpeg_read_scanlines(&cinfo, buffer, 1);
-            std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
-            ++h;
+    while (reader.cinfo.output_scanline < reader.cinfo.output_height) {
+        if (!reader.readRow(buffer.data())) {
+            DeepWorks_Throw() << "can't read JPEG file: " << path << ": " << reader.err.message;
         }
-    } catch (...) {
-        finish_and_destroy();
-        throw;
+        std::copy_n(buffer.data(), elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
+        ++h;
+    }
+    if (!reader.finish()) {
+        DeepWorks_Throw() << "can't read JPEG file: " << path << ": " << reader.err.message;
     }
-    finish_and_destroy();
 
 #else
     DeepWorks_Assert(false && "Couldn't find LIBJPEG");
-- 
2.43.0


From c8a534384ce726c182bb8c08fa88de0945ad2f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:03 +0000
Subject: [PATCH 10/47] fix: convert PNG rows to 8 bits per channel, other bit
 depths and palettes were misread

---
 src/io/image_reader.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index a5b0fa4..7cc5043 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -162,11 +162,24 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
         png_read_info(png_ptr, info_ptr);
 
+        // NB: Rows are copied below as one byte per channel.
+        const int color_type = png_get_color_type(png_ptr, info_ptr);
+        const int bit_depth  = png_get_bit_depth(png_ptr, info_ptr);
+        if (color_type == PNG_COLOR_TYPE_PALETTE) {
+            png_set_palette_to_rgb(png_ptr);
+        } else if (color_type == PNG_COLOR_TYPE_GRAY && bit_depth < 8) {
+            png_set_expand_gray_1_2_4_to_8(png_ptr);
+        }
+        if (bit_depth == 16) {
+            png_set_strip_16(png_ptr);
+        }
+
+        png_read_update_info(png_ptr, info_ptr);
+
         int width = static_cast<int>(png_get_image_width(png_ptr, info_ptr));
         int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
         int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
 
-        png_read_update_info(png_ptr, info_ptr);
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
         } else {
-- 
2.43.0


From 9ea33721ee8c386dbdf83e19ba3a1b3a5c772f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:03 +0000
Subject: [PATCH 11/47] fix: a damaged PNG leaked its rows and used locals
 clobbered by longjmp

---
 src/io/image_reader.cpp | 130 ++++++++++++++++++++++------------------
 1 file changed, 73 insertions(+), 57 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 7cc5043..ba1f01b 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -133,85 +133,101 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #endif
 }
 
-void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
-    FILE *infile = fopen(std::string(path).c_str(), "rb");
-    if (!infile) {
-        DeepWorks_Throw() << "can't open file: " << path;
+struct PngReader {
+    explicit PngReader(FILE* f) : infile(f) {}
+
+    ~PngReader() {
+        png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+        fclose(infile);
     }
 
-    png_bytep*  row_pointers = nullptr;
-    png_structp png_ptr{};
-    png_infop   info_ptr{};
-    try {
-        char header[8];
-        // FIXME: Handle that properly.
-        size_t sz = fread(header, 1, 8, infile);
-        (void)sz;
-        if (png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
-            DeepWorks_Throw() << "File is not a PNG file: " << path;
+    // NB: Functions which call setjmp have no locals, so that nothing is lost by longjmp.
+    bool readInfo() {
+        if (setjmp(png_jmpbuf(png_ptr))) {
+            return false;
         }
-        png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
-
-        info_ptr = png_create_info_struct(png_ptr);
-
-        DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during init_io");
-
         png_init_io(png_ptr, infile);
         png_set_sig_bytes(png_ptr, 8);
 
         png_read_info(png_ptr, info_ptr);
 
         // NB: Rows are copied below as one byte per channel.
-        const int color_type = png_get_color_type(png_ptr, info_ptr);
-        const int bit_depth  = png_get_bit_depth(png_ptr, info_ptr);
-        if (color_type == PNG_COLOR_TYPE_PALETTE) {
+        if (png_get_color_type(png_ptr, info_ptr) == PNG_COLOR_TYPE_PALETTE) {
             png_set_palette_to_rgb(png_ptr);
-        } else if (color_type == PNG_COLOR_TYPE_GRAY && bit_depth < 8) {
+        } else if (png_get_color_type(png_ptr, info_ptr) == PNG_COLOR_TYPE_GRAY &&
+                   png_get_bit_depth(png_ptr, info_ptr) < 8) {
             png_set_expand_gray_1_2_4_to_8(png_ptr);
         }
-        if (bit_depth == 16) {
+        if (png_get_bit_depth(png_ptr, info_ptr) == 16) {
             png_set_strip_16(png_ptr);
         }
 
         png_read_update_info(png_ptr, info_ptr);
+        return true;
+    }
 
-        int width = static_cast<int>(png_get_image_width(png_ptr, info_ptr));
-        int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
-        int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
-
-        if (out_tensor.empty()) {
-            out_tensor.allocate(deepworks::Shape{height, width, channels});
-        } else {
-            DeepWorks_Assert(height * width * channels == out_tensor.total());
+    bool readImage(png_bytepp rows) {
+        if (setjmp(png_jmpbuf(png_ptr))) {
+            return false;
         }
+        png_read_image(png_ptr, rows);
+        return true;
+    }
 
-        deepworks::Tensor::Type *dst_data = out_tensor.data();
-        /* read file */
-        DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during read image");
+    FILE*       infile;
+    png_structp png_ptr{};
+    png_infop   info_ptr{};
+};
+#endif
 
-        row_pointers = (png_bytep *) malloc(sizeof(png_bytep) * height);
-        for (int y = 0; y < height; y++) {
-            row_pointers[y] = (png_byte *) malloc(png_get_rowbytes(png_ptr, info_ptr));
-        }
-        png_read_image(png_ptr, row_pointers);
-        // it's works if we have default hwc layout for tensor
-        const size_t elements_per_h_channel = width * channels;
-        for (int h = 0; h < height; ++h) {
-            std::copy_n(row_pointers[h], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
-        }
-        for (int y = 0; y < height; y++) {
-            free(row_pointers[y]);
-        }
-    } catch (...) {
-        free(row_pointers);
-        fclose(infile);
-        png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
-        throw;
+void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
+#ifdef HAVE_PNG
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
+    if (!infile) {
+        DeepWorks_Throw() << "can't open file: " << path;
+    }
+
+    PngReader reader(infile);
+
+    char header[8];
+    if (fread(header, 1, 8, infile) != 8 ||
+        png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
+        DeepWorks_Throw() << "File is not a PNG file: " << path;
+    }
+
+    reader.png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
+    DeepWorks_Assert(reader.png_ptr && "Error during init_io");
+    reader.info_ptr = png_create_info_struct(reader.png_ptr);
+    DeepWorks_Assert(reader.info_ptr && "Error during init_io");
+
+    DeepWorks_Assert(reader.readInfo() && "Error during init_io");
+
+    int width = static_cast<int>(png_get_image_width(reader.png_ptr, reader.info_ptr));
+    int height = static_cast<int>(png_get_image_height(reader.png_ptr, reader.info_ptr));
+    int channels = static_cast<int>(png_get_channels(reader.png_ptr, reader.info_ptr));
+    const size_t elements_per_h_channel = static_cast<size_t>(width) * channels;
+
+    if (out_tensor.empty()) {
+        out_tensor.allocate(deepworks::Shape{height, width, channels});
+    } else {
+        DeepWorks_Assert(height * elements_per_h_channel == out_tensor.total());
+    }
+
+    deepworks::Tensor::Type *dst_data = out_tensor.data();
+
+    const size_t row_bytes = png_get_rowbytes(reader.png_ptr, reader.info_ptr);
+    std::vector<png_byte>  pixels(row_bytes * height);
+    std::vector<png_bytep> row_pointers(height);
+    for (int y = 0; y < height; y++) {
+        row_pointers[y] = pixels.data() + y * row_bytes;
+    }
+    DeepWorks_Assert(reader.readImage(row_pointers.data()) && "Error during read image");
+
+    // it's works if we have default hwc layout for tensor
+    for (int h = 0; h < height; ++h) {
+        std::copy_n(row_pointers[h], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
     }
-    free(row_pointers);
-    fclose(infile);
-    png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
 #else
     DeepWorks_Assert(false && "Couldn't find LIBPNG");
 #endif
-- 
2.43.0


From 8af1a0bc804e2659021f6554d046e9f431ec79e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:48 +0000
Subject: [PATCH 12/47] fix: copying a non-const Attribute recursed until the
 stack overflowed

---
 include/deepworks/layer_info.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/deepworks/layer_info.hpp b/include/deepworks/layer_info.hpp
index 0c21f5c..6f098bd 100644
--- a/include/deepworks/layer_info.hpp
+++ b/include/deepworks/layer_info.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <any>
+#include <type_traits>
 #include <unordered_map>
 #include <memory>
 
@@ -53,7 +54,9 @@ class Attribute {
 public:
     Attribute() = default;
 
-    template <typename T>
+    // NB: Must not hijack the copy of a non-const attribute.
+    template <typename T,
+              typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, Attribute>>>
     Attribute(T&& value)
         : m_value(std::forward<T>(value)),
           m_type (AttrTraits<typename std::decay<T>::type>::type),
-- 
2.43.0


From e2f828dfa18bbf5eb119ab2215861c8da03a35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:10 +0000
Subject: [PATCH 13/47] fix: reject invalid layer arguments instead of building
 layers that crash

---
 include/deepworks/base_op.hpp    |  6 +++++-
 include/deepworks/layer_info.hpp |  5 ++++-
 src/expression/nn.cpp            | 23 ++++++++++++++++++++++-
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/deepworks/base_op.hpp b/include/deepworks/base_op.hpp
index f7f2675..fb4b414 100644
--- a/include/deepworks/base_op.hpp
+++ b/include/deepworks/base_op.hpp
@@ -3,6 +3,7 @@
 #include <deepworks/placeholder.hpp>
 #include <deepworks/call.hpp>
 #include <deepworks/layer_info.hpp>
+#include <deepworks/utils/assert.hpp>
 
 namespace deepworks {
 
@@ -31,15 +32,18 @@ struct BaseOp {
     template <typename... Placeholders>
     Placeholder operator()(Placeholders... ins) {
         auto get_shape = [](Placeholder ph) { return ph.shape(); };
+        // NB: Operation is validated by outShape, it must go before init.
+        auto out_shape = static_cast<D*>(this)->outShape(get_shape(ins)...);
         static_cast<D*>(this)->init(get_shape(ins)...);
 
         Call call{m_info};
         call.pass({ins...});
-        return call.create(static_cast<D*>(this)->outShape(get_shape(ins)...));
+        return call.create(out_shape);
     }
 
     // NB: Generic operator() which works with vector
     Placeholder operator()(const Placeholders& phs) {
+        DeepWorks_Assert(phs.size() == num_in && "Wrong number of inputs for operation");
         return call_impl(phs, std::make_index_sequence<num_in>()); 
     }
 
diff --git a/include/deepworks/layer_info.hpp b/include/deepworks/layer_info.hpp
index 6f098bd..402efa3 100644
--- a/include/deepworks/layer_info.hpp
+++ b/include/deepworks/layer_info.hpp
@@ -9,6 +9,7 @@
 
 #include <deepworks/parameter.hpp>
 #include <deepworks/tensor.hpp>
+#include <deepworks/utils/assert.hpp>
 
 namespace deepworks {
 
@@ -65,7 +66,9 @@ public:
 
     template <typename T>
     const T& get() const {
-        return *std::any_cast<T>(&m_value);
+        const T* value = std::any_cast<T>(&m_value);
+        DeepWorks_Assert(value && "Attribute holds a value of another type");
+        return *value;
     }
 
     AttrType type() const {
diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index d0b9d66..90265e3 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -13,6 +13,20 @@ enum Kernel {KH, KW};
 
 namespace dw = deepworks;
 
+// NB: Sliding window must fit into the padded input.
+static void validateWindow(const dw::Shape&          in_shape,
+                           const std::array<int, 2>& kernel,
+                           const std::array<int, 2>& padding,
+                           const std::array<int, 2>& stride) {
+    for (int i : {Kernel::KH, Kernel::KW}) {
+        DeepWorks_Assert(kernel[i]  >  0 && "Kernel must be positive");
+        DeepWorks_Assert(stride[i]  >  0 && "Stride must be positive");
+        DeepWorks_Assert(padding[i] >= 0 && "Padding can't be negative");
+        DeepWorks_Assert(kernel[i]  <= in_shape[Input::H + i] + 2 * padding[i] &&
+                         "Kernel is bigger than the padded input");
+    }
+}
+
 dw::Linear::Linear(int units, std::string name)
     : BaseOp<dw::Linear>(dw::LayerInfo(std::move(name), "Linear")) {
     m_info.impl().attrs["units"] = units;
@@ -154,8 +168,9 @@ void dw::Linear::init(const Shape& in_shape) {
 }
 
 dw::Shape dw::Linear::outShape(const dw::Shape& in_shape) {
-    DeepWorks_Assert(in_shape.size() != 1u && "Linear layer doesn't work with 1D tensors");
+    DeepWorks_Assert(in_shape.size() > 1u && "Linear layer doesn't work with 1D tensors");
     int units = m_info.impl().attrs["units"].get<int>();
+    DeepWorks_Assert(units > 0 && "Linear layer must have at least one unit");
     return {in_shape[0], units};
 }
 
@@ -190,6 +205,7 @@ void dw::BatchNorm1D::init(const Shape& in_shape) {
 }
 
 dw::Shape dw::BatchNorm1D::outShape(const dw::Shape& in_shape) {
+    DeepWorks_Assert(in_shape.size() == 2u && "BatchNorm1D layer works only with 2D tensors");
     return in_shape;
 }
 
@@ -218,6 +234,8 @@ dw::Shape dw::MaxPooling::outShape(const dw::Shape& in_shape) {
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
 
+    validateWindow(in_shape, kernel, padding, stride);
+
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
     return {in_shape[0], in_shape[1], h_out, w_out};
@@ -255,6 +273,9 @@ dw::Shape dw::Convolution::outShape(const dw::Shape& in_shape) {
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
 
+    DeepWorks_Assert(out_channels > 0 && "Convolution layer must have at least one output channel");
+    validateWindow(in_shape, kernel, padding, stride);
+
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
     return {in_shape[0], out_channels, h_out, w_out};
-- 
2.43.0


From baaa0a5e6968e3f77df3815abebcde8728c27761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:10 +0000
Subject: [PATCH 14/47] fix: reject tensors which don't match the model's
 inputs and outputs

---
 src/runtime/cpu/cpubackend.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index 691455d..a7939a8 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -68,8 +68,10 @@ dwcpu::CPUBackend::CPUBackend(graph::Graph& graph)
 void dwcpu::CPUBackend::bind(const std::vector<deepworks::Tensor>& tensors,
                              const std::vector<ade::NodeHandle>  & handles,
                                    std::vector<deepworks::Tensor>& mem) {
+    DeepWorks_Assert(tensors.size() == handles.size() && "Wrong number of tensors passed to the model");
     for (int i = 0; i < handles.size(); ++i) {
         const auto& d = m_tgraph.metadata(handles[i]).get<graph::Data>();
+        DeepWorks_Assert(tensors[i].shape() == d.ph.shape() && "Tensor shape doesn't match the model");
         mem[d.id] = tensors[i];
     }
 }
-- 
2.43.0


From c9bac3c3edc02b8ea3fbd1fd6cee0a64ffba0582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:10 +0000
Subject: [PATCH 15/47] fix: reject models with undeclared or unconnected
 inputs

---
 src/model/graphbuilder.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index af67597..7178b3b 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stack>
 
 #include <ade/util/zip_range.hpp>   // util::indexed
@@ -7,6 +8,8 @@
 
 #include "model/graphbuilder.hpp"
 
+#include <deepworks/utils/assert.hpp>
+
 namespace graph = deepworks::graph;
 
 deepworks::GraphBuilder::GraphBuilder(graph::Graph& g)
@@ -49,8 +52,19 @@ void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
         m_tgraph.metadata(eh).set(graph::Port{phimpl.port});
     }
 
+    // NB: Everything the outputs depend on must be computed from the inputs passed by user.
+    for (auto&& ph : unrolled.all_data) {
+        auto is_same = [&ph](const Placeholder& in) { return &in.impl() == &ph.impl(); };
+        DeepWorks_Assert((ph.impl().call || std::any_of(ins.begin(), ins.end(), is_same)) &&
+                         "Model output depends on placeholder which isn't model input");
+    }
+
     // Get handles associated with plahceholders
-    auto extract = [this](const Placeholder& ph) { return m_data[&ph.impl()]; };
+    auto extract = [this](const Placeholder& ph) {
+        auto it = m_data.find(&ph.impl());
+        DeepWorks_Assert(it != m_data.end() && "Model input isn't connected with model outputs");
+        return it->second;
+    };
 
     std::vector<ade::NodeHandle> in_handles;
     in_handles.reserve(ins.size());
-- 
2.43.0


From 802824cfb5ec37850bef22d681ce5d5ecaffc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 16/47] fix: a placeholder consumed by several operations was
 added to the graph several times

---
 src/model/graphbuilder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index 7178b3b..58adbaa 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -103,11 +103,14 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
     // Travers over the graph and collect all data & operation nodes.
     while (!stack.empty()) {
         auto data = stack.top();
-        all_data.push_back(data);
-
         stack.pop();
-        // NB: Mark input node as visited.
-        reached_data.insert(&data.impl());
+
+        // NB: Mark node as visited. It can be pushed several times
+        // before the first visit if several operations consume it.
+        if (!reached_data.insert(&data.impl()).second) {
+            continue;
+        }
+        all_data.push_back(data);
 
         auto has_call = data.impl().call;
         // NB: We reached the node without producer, so we found the input node.
-- 
2.43.0


From c6d84f0c1daeb710c12e42216d6df25fdac87dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 17/47] fix: model backward accumulated into the output
 gradients passed by user

---
 src/runtime/cpu/cpubackend.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index a7939a8..1aba619 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -122,6 +122,15 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
     bind(outputs     , info.out_nhs, m_mem);
     bind(grad_outputs, info.out_nhs, m_grad);
 
+    // NB: Layers which consume model output accumulate into its gradient,
+    // tensors passed by user mustn't be changed.
+    for (const auto& nh : info.out_nhs) {
+        auto& grad = m_grad[m_tgraph.metadata(nh).get<graph::Data>().id];
+        deepworks::Tensor copy(grad.shape());
+        grad.copyTo(copy);
+        grad = copy;
+    }
+
     auto extract_mem  = [this](int id) { return m_mem[id];  };
     auto extract_grad = [this](int id) { return m_grad[id]; };
 
-- 
2.43.0


From 0fb45d9100666ebdf6cf7064c1d1c9229512a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 18/47] fix: model config keeps the order of model inputs and
 outputs

---
 src/model/model.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 886d3f5..db39198 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -105,14 +105,15 @@ static void createConfig(TypedGraph& tgraph, dw::Model::Config& cfg) {
         const auto& d = tgraph.metadata(nh).get<Data>();
         deepworks::Model::Config::PlaceholderInfo ph_info{d.ph.shape(), d.id};
         cfg.ph_map.emplace(d.id, std::move(ph_info));
+    }
 
-        if (d.s == Data::Storage::INPUT) {
-            cfg.input_ids.push_back(d.id);
-        }
-
-        if (d.s == Data::Storage::OUTPUT) {
-            cfg.output_ids.push_back(d.id);
-        }
+    // NB: Keep the order in which user passed inputs and outputs.
+    const auto& info = tgraph.metadata().get<Info>();
+    for (auto nh : info.in_nhs) {
+        cfg.input_ids.push_back(tgraph.metadata(nh).get<Data>().id);
+    }
+    for (auto nh : info.out_nhs) {
+        cfg.output_ids.push_back(tgraph.metadata(nh).get<Data>().id);
     }
 
     sorted = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
-- 
2.43.0


From 0c439ebe5def78fa3fecfc677593632a1836be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:50 +0000
Subject: [PATCH 19/47] fix: damaged model files throw instead of being
 accepted or corrupting memory

---
 src/serialization.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 87cbce1..fc0e655 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <fstream>
 
 #include <deepworks/serialization.hpp>
@@ -13,10 +14,16 @@ void write_value(T value, std::ofstream& file) {
     file.write(reinterpret_cast<char*>(&value), sizeof(value));
 }
 
+// NB: File can be truncated or damaged.
+static void read_bytes(void* data, size_t size, std::ifstream& file) {
+    file.read(reinterpret_cast<char*>(data), size);
+    DeepWorks_Assert(file && "Unexpected end of file");
+}
+
 template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
-    file.read(reinterpret_cast<char*>(&value), sizeof(value));
+    read_bytes(&value, sizeof(value), file);
     return value;
 }
 
@@ -31,9 +38,14 @@ template <typename T>
 T read_sequence(std::ifstream& file) {
     T seq{};
     auto size = read_value<size_t>(file);
-    seq.resize(size);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(typename T::value_type));
+    // NB: Don't trust the size, read by chunks until the end of file.
+    constexpr size_t chunk_size = 4096u;
+    while (seq.size() < size) {
+        auto offset = seq.size();
+        auto chunk  = std::min(size - offset, chunk_size);
+        seq.resize(offset + chunk);
+        read_bytes(seq.data() + offset, chunk * sizeof(typename T::value_type), file);
+    }
     return seq;
 }
 
@@ -42,8 +54,8 @@ template <typename T, int S>
 std::array<T, S> read_array(std::ifstream& file) {
     std::array<T, S> seq;
     auto size = read_value<size_t>(file);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(T));
+    DeepWorks_Assert(size == seq.size() && "Wrong size of array");
+    read_bytes(seq.data(), size * sizeof(T), file);
     return seq;
 }
 
@@ -99,8 +111,7 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
                               << "Actual: " << shape;
         }
 
-        file.read(reinterpret_cast<char*>(it->second.data()),
-                  it->second.total() * sizeof(dw::Tensor::Type));
+        read_bytes(it->second.data(), it->second.total() * sizeof(dw::Tensor::Type), file);
     }
 }
 
-- 
2.43.0


From e10479764c56f52433b54232f791251782779b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:50 +0000
Subject: [PATCH 20/47] fix: saving or loading a file which can't be opened or
 written throws

---
 src/serialization.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index fc0e655..56110ee 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -9,6 +9,12 @@
 
 namespace dw = deepworks;
 
+// NB: Make sure that everything is written.
+static void check_written(std::ofstream& file) {
+    file.flush();
+    DeepWorks_Assert(file && "Failed to write the file");
+}
+
 template <typename T>
 void write_value(T value, std::ofstream& file) {
     file.write(reinterpret_cast<char*>(&value), sizeof(value));
@@ -79,6 +85,7 @@ void dw::save_state(const Model::StateDict& state, std::ofstream& file) {
         file.write(reinterpret_cast<char*>(tensor.data()),
                    tensor.total() * sizeof(dw::Tensor::Type));
     }
+    check_written(file);
 }
 
 void dw::load_state(Model::StateDict& state, const std::string& path) {
@@ -157,6 +164,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
     }
 
     file << "}";
+    check_written(file);
 }
 
 void write_attribute(const dw::Attribute& attr, std::ofstream& file) {
@@ -268,10 +276,14 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
         write_sequence(op_info.out_ids, file);
         write_attributes(op_info.attrs, file);
     }
+    check_written(file);
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-    std::ifstream file(path, std::ios::out | std::ios::binary);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
+    if (!file.is_open()) {
+        DeepWorks_Throw() << "Failed to open the file: " << path;
+    }
     return dw::load_cfg(file);
 }
 
@@ -315,6 +327,9 @@ void dw::save(const dw::Model& model, const std::string& path) {
 
 dw::Model dw::load(const std::string& path) {
     std::ifstream file(path, std::ios::in | std::ios::binary);
+    if (!file.is_open()) {
+        DeepWorks_Throw() << "Failed to open the file: " << path;
+    }
     auto model = dw::Model::Build(dw::load_cfg(file));
     dw::load_state(model.state(), file);
     return model;
-- 
2.43.0


From 87d5ef238a7ee1fa41c4dd4a4721461762bc49f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:50 +0000
Subject: [PATCH 21/47] fix: config with an operation without outputs is
 rejected

---
 src/model/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index db39198..877beca 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -280,7 +280,7 @@ deepworks::Model deepworks::Model::Build(const deepworks::Model::Config& cfg) {
             inps.push_back(id2ph.at(id));
         }
 
-        id2ph.emplace(op.out_ids[0],
+        id2ph.emplace(op.out_ids.at(0),
                 dw::make_layer(op.type, op.name, op.attrs, inps));
     }
 
-- 
2.43.0


From 98e0bf7875d63990217c59c73961a13b32ebd5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:51 +0000
Subject: [PATCH 22/47] fix: quote layer names in DOT files

---
 src/serialization.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 56110ee..a22b5b4 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -122,6 +122,18 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
     }
 }
 
+// NB: Layer names are arbitrary strings, in DOT language they must be quoted.
+static std::string dot_escape(const std::string& str) {
+    std::string escaped;
+    for (char c : str) {
+        if (c == '"' || c == '\\') {
+            escaped += '\\';
+        }
+        escaped += c;
+    }
+    return escaped;
+}
+
 void dw::save_dot(const dw::Model::Config& cfg,
                   const std::string& path) {
     std::ofstream file(path, std::ios::out);
@@ -137,7 +149,8 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
     for (const auto& op : cfg.sorted_ops) {
         // FIXME: Dump more info, attributes, parameters, named buffers...
-        file << op.name << " [shape=box, label=\"" << op.name
+        const auto name = dot_escape(op.name);
+        file << '"' << name << "\" [shape=box, label=\"" << name
                         << " (" << op.type << ")" << "\" ]" << std::endl;
     }
 
@@ -148,7 +161,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(in_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << name << " -> \"" << op.name << "\" [ label = \"in_port: "
+            file << name << " -> \"" << dot_escape(op.name) << "\" [ label = \"in_port: "
                << port << "\" ]" << std::endl;
         }
 
@@ -158,7 +171,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(out_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << op.name << " -> " << name << " [ label = \"out_port: "
+            file << '"' << dot_escape(op.name) << "\" -> " << name << " [ label = \"out_port: "
                << port << "\" ];" << std::endl;
         }
     }
-- 
2.43.0


From a2e2f844f63a8932e007cc6ca26a8f1f72eaf0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:20 +0000
Subject: [PATCH 23/47] fix: generated layer names never clash with existing
 ones

---
 src/model/model.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 877beca..93ef407 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -63,6 +63,13 @@ static void initNodeId(TypedGraph& tgraph) {
         tgraph.metadata(nh).get<Data>().id = idx;
     }
 
+    // NB: Generated names mustn't clash with the ones which layers already have.
+    std::unordered_set<std::string> names;
+    sorted  = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
+    for (auto nh : ade::util::filter(sorted, is_op{tgraph})) {
+        names.insert(tgraph.metadata(nh).get<deepworks::graph::Op>().info.impl().name);
+    }
+
     // NB: Setup op in/out ids.
     sorted  = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
     for (auto it : ade::util::indexed(ade::util::filter(sorted, is_op{tgraph}))) {
@@ -74,10 +81,14 @@ static void initNodeId(TypedGraph& tgraph) {
         // NB: If name wasn't set by user let's generate it
         // according to the type and possition in sorted operation list.
         if (op.info.impl().name.empty()) {
-            std::string name;
+            std::string prefix;
             const auto& type = op.info.impl().type;
-            std::transform(type.begin(), type.end(), std::back_inserter(name), ::tolower);
-            name += std::to_string(idx);
+            std::transform(type.begin(), type.end(), std::back_inserter(prefix), ::tolower);
+            auto number = idx;
+            auto name   = prefix + std::to_string(number);
+            while (!names.insert(name).second) {
+                name = prefix + std::to_string(++number);
+            }
             op.info.impl().name = name;
         }
 
-- 
2.43.0


From d838f791b8fa43b1eda84308c1ea070fdc4dca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:14 +0000
Subject: [PATCH 24/47] fix: models with repeated, intermediate or pass-through
 inputs and repeated outputs are rejected

---
 src/model/graphbuilder.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index 58adbaa..6bfeb6a 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -18,6 +18,16 @@ deepworks::GraphBuilder::GraphBuilder(graph::Graph& g)
 
 void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
                                     const deepworks::Placeholders& outs) {
+    // NB: Every tensor passed by user is bound to the only one data node.
+    std::unordered_set<const deepworks::Placeholder::Impl*> unique;
+    for (const auto& in : ins) {
+        DeepWorks_Assert(!in.impl().call && "Model input is produced by operation");
+        DeepWorks_Assert(unique.insert(&in.impl()).second && "Model input is listed twice");
+    }
+    for (const auto& out : outs) {
+        DeepWorks_Assert(unique.insert(&out.impl()).second && "Model output is listed twice or is also model input");
+    }
+
     auto unrolled = unroll(ins, outs);
     // NB: Link data nodes to their inputs (operations).
     for (auto&& call : unrolled.all_ops) {
-- 
2.43.0


From 593a62795c58eae2ffdccaaf20652a6b907624a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:06 +0000
Subject: [PATCH 25/47] fix: iris sample rejects missing files, malformed rows
 and unknown species

---
 samples/iris/utility.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/samples/iris/utility.cpp b/samples/iris/utility.cpp
index 74013b4..10c37f2 100644
--- a/samples/iris/utility.cpp
+++ b/samples/iris/utility.cpp
@@ -1,5 +1,7 @@
 #include "utility.hpp"
 
+#include <stdexcept>
+
 namespace dw = deepworks;
 
 namespace {
@@ -31,6 +33,9 @@ custom::IrisCSVDataset::IrisCSVDataset(const std::string& csv_path) {
 
     std::ifstream iris_dataset;
     iris_dataset.open(csv_path);
+    if (!iris_dataset.is_open()) {
+        throw std::logic_error("Failed to open dataset: " + csv_path + "\n");
+    }
 
     std::string iris;
     // read headers
@@ -38,13 +43,20 @@ custom::IrisCSVDataset::IrisCSVDataset(const std::string& csv_path) {
 
     while (std::getline(iris_dataset, iris)) {
         auto features = SplitLineByComma(iris);
-
-        float sepal_length = std::atof(features[0].c_str());
-        float sepal_width  = std::atof(features[1].c_str());
-        float petal_length = std::atof(features[2].c_str());
-        float petal_width  = std::atof(features[3].c_str());
-
-        int label = m_iris2label[features[4]];
+        if (features.size() != 5u) {
+            throw std::logic_error("Wrong number of columns: " + iris + "\n");
+        }
+
+        float sepal_length = std::stof(features[0]);
+        float sepal_width  = std::stof(features[1]);
+        float petal_length = std::stof(features[2]);
+        float petal_width  = std::stof(features[3]);
+
+        auto res_find = m_iris2label.find(features[4]);
+        if (res_find == m_iris2label.end()) {
+            throw std::logic_error("Unsupported label: " + features[4] + "\n");
+        }
+        int label = res_find->second;
 
         m_info.push_back(IrisInfo{sepal_length, sepal_width, petal_length, petal_width, label});
     }
-- 
2.43.0


From 71134f42f09a357954eda5b66d7dc415bce7caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:06 +0000
Subject: [PATCH 26/47] fix: cifar10 sample rejects directories that are no
 class instead of labelling them as airplane

---
 samples/cifar10/utility.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/samples/cifar10/utility.cpp b/samples/cifar10/utility.cpp
index b41c83a..4c411f5 100644
--- a/samples/cifar10/utility.cpp
+++ b/samples/cifar10/utility.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <filesystem>
+#include <stdexcept>
 
 namespace dw = deepworks;
 namespace fs = std::filesystem;
@@ -26,7 +27,11 @@ void custom::normalize(dw::Tensor& t, float scale) {
 
 custom::CIFAR10Dataset::CIFAR10Dataset(const std::string& root) {
     for (const auto & dir : fs::directory_iterator(root)) {
-        int label = label2digit[dir.path().filename()];
+        auto res_find = label2digit.find(dir.path().filename());
+        if (res_find == label2digit.end()) {
+            throw std::logic_error("Unsupported label: " + dir.path().filename().string() + "\n");
+        }
+        int label = res_find->second;
         for (const auto& filename : fs::directory_iterator(dir.path())) {
             m_info.push_back(custom::CIFAR10Dataset::DataInfo{filename.path(), label});
         }
-- 
2.43.0


From fb8ed7388f12c47e9c1231c6364aab82971b6fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:06 +0000
Subject: [PATCH 27/47] fix: cifar100 sample numbers classes independently of
 the order directories are listed in

---
 samples/cifar100/utility.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/samples/cifar100/utility.cpp b/samples/cifar100/utility.cpp
index fe681c8..c95eaf9 100644
--- a/samples/cifar100/utility.cpp
+++ b/samples/cifar100/utility.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <filesystem>
 #include <iostream>
+#include <vector>
 namespace dw = deepworks;
 namespace fs = std::filesystem;
 
@@ -15,7 +16,12 @@ void custom::normalize(dw::Tensor& t, float scale) {
 }
 
 custom::CIFAR100Dataset::CIFAR100Dataset(const std::string& root) {
-    for (const auto & dir : fs::directory_iterator(root)) {
+    // NB: Order in which file system lists directories is unspecified,
+    // but the same class must have the same label in every run.
+    std::vector<fs::directory_entry> dirs{fs::directory_iterator(root), fs::directory_iterator()};
+    std::sort(dirs.begin(), dirs.end());
+
+    for (const auto & dir : dirs) {
         int label;
         auto res_find = dir2label_.find(dir.path().filename());
         if (res_find != dir2label_.end()) {
-- 
2.43.0


From 55c88409c00c02c4e7dfa88716c47eac39f441ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:36 +0000
Subject: [PATCH 28/47] fix: operation applied again to an input of another
 parameter size is rejected

---
 src/expression/nn.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index 90265e3..e4488a0 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -27,6 +27,18 @@ static void validateWindow(const dw::Shape&          in_shape,
     }
 }
 
+// NB: Operation applied once again shares parameters with its previous applications,
+// so the size of input must be the same.
+static void addParameter(dw::LayerInfo& info, const std::string& name, dw::Tensor&& data) {
+    auto it = info.impl().params.find(name);
+    if (it == info.impl().params.end()) {
+        info.impl().params.emplace(name, std::move(data));
+        return;
+    }
+    DeepWorks_Assert(it->second.data().shape() == data.shape() &&
+                     "Operation was already applied to the input of another size");
+}
+
 dw::Linear::Linear(int units, std::string name)
     : BaseOp<dw::Linear>(dw::LayerInfo(std::move(name), "Linear")) {
     m_info.impl().attrs["units"] = units;
@@ -160,11 +172,10 @@ void dw::Linear::init(const Shape& in_shape) {
     auto second_shape = std::accumulate(in_shape.begin() + 1,
             in_shape.end(), 1, std::multiplies<int>());
     // NB: Init weight.
-    m_info.impl().params.emplace("weight",
-            dw::Tensor::xavierUniform({units, second_shape}));
+    addParameter(m_info, "weight", dw::Tensor::xavierUniform({units, second_shape}));
 
     // NB: Init bias.
-    m_info.impl().params.emplace("bias", dw::Tensor::zeros({units}));
+    addParameter(m_info, "bias", dw::Tensor::zeros({units}));
 }
 
 dw::Shape dw::Linear::outShape(const dw::Shape& in_shape) {
@@ -198,8 +209,8 @@ dw::BatchNorm1D::BatchNorm1D(float eps, float alpha, std::string name)
 
 void dw::BatchNorm1D::init(const Shape& in_shape) {
     // NB: Init trainable parameters and buffers.
-    m_info.impl().params.emplace ("gamma"       , dw::Tensor::constant({in_shape[1]}, 1.0));
-    m_info.impl().params.emplace ("beta"        , dw::Tensor::zeros({in_shape[1]}));
+    addParameter(m_info, "gamma", dw::Tensor::constant({in_shape[1]}, 1.0));
+    addParameter(m_info, "beta", dw::Tensor::zeros({in_shape[1]}));
     m_info.impl().buffers.emplace("running_mean", dw::Tensor::zeros({in_shape[1]}));
     m_info.impl().buffers.emplace("running_var" , dw::Tensor::zeros({in_shape[1]}));
 }
@@ -258,12 +269,12 @@ void dw::Convolution::init(const Shape& in_shape) {
     auto kernel = m_info.impl().attrs["kernel"].get<std::array<int, 2>>();
 
     // NB: Init weight.
-    m_info.impl().params.emplace("weight", dw::Tensor::xavierUniform({out_channels,
-                                                                      in_shape[Input::C],
-                                                                      kernel[Kernel::KH],
-                                                                      kernel[Kernel::KW]}));
+    addParameter(m_info, "weight", dw::Tensor::xavierUniform({out_channels,
+                                                              in_shape[Input::C],
+                                                              kernel[Kernel::KH],
+                                                              kernel[Kernel::KW]}));
     // NB: Init bias.
-    m_info.impl().params.emplace("bias", dw::Tensor::zeros({out_channels}));
+    addParameter(m_info, "bias", dw::Tensor::zeros({out_channels}));
 }
 
 dw::Shape dw::Convolution::outShape(const dw::Shape& in_shape) {
@@ -328,8 +339,8 @@ deepworks::BatchNorm2D::BatchNorm2D(float eps, float alpha, std::string name)
 
 void dw::BatchNorm2D::init(const Shape& in_shape) {
     // NB: Init trainable parameters and buffers.
-    m_info.impl().params.emplace ("gamma"       , dw::Tensor::constant({in_shape[1]}, 1.f));
-    m_info.impl().params.emplace ("beta"        , dw::Tensor::zeros({in_shape[1]}));
+    addParameter(m_info, "gamma", dw::Tensor::constant({in_shape[1]}, 1.f));
+    addParameter(m_info, "beta", dw::Tensor::zeros({in_shape[1]}));
     m_info.impl().buffers.emplace("running_mean", dw::Tensor::zeros({in_shape[1]}));
     m_info.impl().buffers.emplace("running_var" , dw::Tensor::zeros({in_shape[1]}));
 }
-- 
2.43.0


From b013d4e2a3a34b664d63ed7b4b665291fb1dc1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:55 +0000
Subject: [PATCH 29/47] fix: dropout applied to inputs of different shapes
 keeps a mask for each of them

---
 src/runtime/cpu/layers/cpudropout.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/cpu/layers/cpudropout.cpp b/src/runtime/cpu/layers/cpudropout.cpp
index 520834e..099d852 100644
--- a/src/runtime/cpu/layers/cpudropout.cpp
+++ b/src/runtime/cpu/layers/cpudropout.cpp
@@ -22,6 +22,11 @@ void deepworks::cpu::CPUDropout::forward(const std::vector<deepworks::Tensor>& i
     const auto& input  = inputs.front();
           auto& output = outputs.front();
 
+    // NB: Operation might be applied to inputs of different shapes but "mask" fits only the first one.
+    if (m_mask.shape() != input.shape()) {
+        m_mask = deepworks::Tensor::zeros(input.shape());
+    }
+
     if (m_info.params().at("mask").is_trainable()) {
         float p = m_info.impl().attrs["p"].get<float>();
         deepworks::CPUDropoutForward(input, m_mask, output, p);
-- 
2.43.0


From c97c2a1b0617ac98022db5977354500e50ed8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 30/47] fix: batch normalization backward takes time linear in
 the number of features

---
 src/runtime/cpu/kernels/kernels.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 001ebb7..6de7730 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -322,15 +322,18 @@ void deepworks::CPUBatchNorm1DInputGrad(ConstMatrix input_centered, ConstVector
 
     auto grad_x_norm = grad_output.array().rowwise() * gamma.array();
 
-    auto grad_std = (((input_centered.array() * grad_x_norm.array()).array().rowwise() / std.cwiseAbs2().array())
+    // NB: Vectors must be evaluated here, otherwise they would be recomputed for every feature.
+    V var = std.cwiseAbs2();
+
+    V grad_std = (((input_centered.array() * grad_x_norm.array()).array().rowwise() / var.array())
                     .colwise().sum()).array() * (-1.0);
 
-    auto grad_var = grad_std.array() / (std.array() * 2.0).array();
+    V grad_var = grad_std.array() / (std.array() * 2.0).array();
 
     auto grad_x_centered = (grad_x_norm.array().rowwise() / std.array()) +
                            ((input_centered.array().rowwise() * grad_var.array()).array() * (2.0 / batch_size));
 
-    auto grad_mu = grad_x_centered.colwise().sum();
+    V grad_mu = grad_x_centered.colwise().sum();
 
     grad_input += static_cast<M>(grad_x_centered.rowwise() -
             (grad_mu.array() / batch_size).array());
-- 
2.43.0


From bc1148f2384f10773dffea3963fdbe404f8540f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 31/47] fix: cross-entropy loss rejects labels which are out of
 range

---
 src/runtime/cpu/kernels/kernels.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 6de7730..8fa0998 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -1,6 +1,7 @@
 #include "runtime/cpu/kernels/kernels.hpp"
 
 #include <deepworks/initializers.hpp>
+#include <deepworks/utils/assert.hpp>
 #include <deepworks/utils/utils.hpp>
 
 enum Input  {N, C, H, W};
@@ -275,6 +276,7 @@ void deepworks::CPULog(ConstMatrix X, Matrix LogX) {
 std::vector<int> deepworks::MatchTargetTo1dMatrix(ConstVector target, int batch_size, int n_classes) {
     std::vector<int> slice(batch_size);
     for (int i = 0; i < batch_size; ++i) {
+        DeepWorks_Assert(target(0, i) >= 0 && target(0, i) < n_classes && "Label is out of range");
         slice[i] = static_cast<int>(target(0, i)) + n_classes * i;
     }
     return slice;
-- 
2.43.0


From 85d902c078fb972a86881eb5f024cd5fe14fceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 32/47] fix: batch normalization and dropout backward are
 rejected without forward

---
 src/runtime/cpu/layers/cpubatchnorm1d.cpp | 4 ++++
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++++
 src/runtime/cpu/layers/cpudropout.cpp     | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/src/runtime/cpu/layers/cpubatchnorm1d.cpp b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
index 312162f..4f12aad 100644
--- a/src/runtime/cpu/layers/cpubatchnorm1d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
@@ -80,6 +80,8 @@ void deepworks::cpu::CPUBatchNorm1D::backward(const std::vector<deepworks::Tenso
           auto& grad_input            = grad_inputs.front();
           auto& grad_input_shape      = grad_input.shape();
 
+    DeepWorks_Assert(m_input_centered.shape() == grad_output_shape && "Call backward without forward");
+
     deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), input_centered_shape[0], input_centered_shape[1]},
                                        {m_std.data(), std_shape[0]},
                                        {grad_output.data(), grad_output_shape[0], grad_output_shape[1]},
@@ -97,6 +99,8 @@ void deepworks::cpu::CPUBatchNorm1D::updateGradients(const std::vector<Tensor>&
     const auto& grad_output           = grad_outputs.front();
     const auto& grad_output_shape     = grad_output.shape();
 
+    DeepWorks_Assert(m_input_centered.shape() == grad_output_shape && "Call backward without forward");
+
     deepworks::CPUBatchNorm1DParamGrad({m_input_centered.data(), input_centered_shape[0], input_centered_shape[1]},
                                        {m_std.data(), std_shape[0]},
                                        {grad_output.data(), grad_output_shape[0], grad_output_shape[1]},
diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 60c22ef..b27b0a5 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -83,6 +83,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
     const auto& grad_output_shape     = grad_output.shape();
           auto& grad_input            = grad_inputs.front();
 
+    DeepWorks_Assert(m_input_centered.total() == grad_output.total() && "Call backward without forward");
+
     int C = grad_output_shape[1];
     deepworks::utils::NCHW2NHWC(grad_output, nhwc_out);
 
@@ -102,6 +104,8 @@ void deepworks::cpu::CPUBatchNorm2D::updateGradients(const std::vector<Tensor>&
     const auto& input_centered_shape  = m_input_centered.shape();
     const auto& grad_output           = grad_outputs.front();
 
+    DeepWorks_Assert(m_input_centered.total() == grad_output.total() && "Call backward without forward");
+
     int C = grad_output.shape()[1];
     deepworks::utils::NCHW2NHWC(grad_output, nhwc_out);
 
diff --git a/src/runtime/cpu/layers/cpudropout.cpp b/src/runtime/cpu/layers/cpudropout.cpp
index 099d852..63990fa 100644
--- a/src/runtime/cpu/layers/cpudropout.cpp
+++ b/src/runtime/cpu/layers/cpudropout.cpp
@@ -42,6 +42,8 @@ void deepworks::cpu::CPUDropout::backward(const std::vector<deepworks::Tensor>&
     const auto& grad_output = grad_outputs.front();
           auto& grad_input  = grad_inputs.front();
 
+    DeepWorks_Assert(m_mask.shape() == grad_output.shape() && "Call backward without forward");
+
     // NB: In evaluation mode dropout is identity, nothing is dropped.
     float p = m_info.params().at("mask").is_trainable() ? m_info.impl().attrs["p"].get<float>() : 0.f;
     deepworks::CPUDropoutInputGrad(m_mask, grad_output, grad_input, p);
-- 
2.43.0


From be46bd437bc518f178b7a37ec5256b85e457ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 33/47] fix: data loader rejects empty dataset pointer and
 non-positive batch size

---
 src/dataloader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dataloader.cpp b/src/dataloader.cpp
index 87bd40c..f0a8494 100644
--- a/src/dataloader.cpp
+++ b/src/dataloader.cpp
@@ -37,6 +37,8 @@ deepworks::DataLoader::DataLoader(deepworks::IDataset::Ptr dataset,
     : m_dataset(dataset),
       m_batch_size(batch_size),
       m_shuffle(shuffle) {
+    DeepWorks_Assert(m_dataset && "Dataset must be specified");
+    DeepWorks_Assert(m_batch_size > 0 && "Batch size must be positive");
 }
 
 bool deepworks::DataLoader::pull(deepworks::Tensor& X, deepworks::Tensor& y) {
-- 
2.43.0


From fdc7ca39d6220bb56300c16c2e43455c331fc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 34/47] fix: dropout rejects probability which isn't in range
 [0, 1)

---
 src/expression/nn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index e4488a0..36d37fd 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -311,6 +311,7 @@ deepworks::Shape deepworks::Sigmoid::outShape(const deepworks::Shape& in_shape)
 
 deepworks::Dropout::Dropout(float p, std::string name)
     : BaseOp<deepworks::Dropout>(deepworks::LayerInfo(std::move(name), "Dropout")) {
+    DeepWorks_Assert(p >= 0.f && p < 1.f && "Dropout probability must be in range [0, 1)");
     m_info.impl().attrs["p"] = p;
 }
 
-- 
2.43.0


From 4edf953d32f498e085f15297c8d7dba67d88d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 35/47] fix: optimizers reject a parameter whose shape differs
 from their state

---
 src/optimizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimizer.cpp b/src/optimizer.cpp
index 49fda62..22850fc 100644
--- a/src/optimizer.cpp
+++ b/src/optimizer.cpp
@@ -51,6 +51,7 @@ void SGDMomentum::step() {
             const auto grad   = param.grad();
 
             DeepWorks_Assert(grad.shape() == weight.shape());
+            DeepWorks_Assert(m_velocities.at(name).shape() == weight.shape());
 
             const size_t size = grad.total();
 
@@ -92,6 +93,7 @@ void Adam::step() {
             const auto grad   = param.grad();
 
             DeepWorks_Assert(grad.shape() == weight.shape());
+            DeepWorks_Assert(m_moving_mean.at(name).shape() == weight.shape());
 
             const size_t size = grad.total();
 
-- 
2.43.0


From 66bf92133bf1d016204b2693b07017231692ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 36/47] fix: using an empty placeholder throws

---
 src/expression/placeholder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression/placeholder.cpp b/src/expression/placeholder.cpp
index b661bf7..85ccf27 100644
--- a/src/expression/placeholder.cpp
+++ b/src/expression/placeholder.cpp
@@ -1,5 +1,6 @@
 #include <deepworks/placeholder.hpp>
 #include <deepworks/call.hpp>
+#include <deepworks/utils/assert.hpp>
 
 #include "placeholder_impl.hpp"
 
@@ -14,13 +15,16 @@ deepworks::Placeholder::Placeholder(const deepworks::Shape& shape)
 }
 
 const deepworks::Shape& deepworks::Placeholder::shape() const {
+    DeepWorks_Assert(m_impl && "Placeholder is empty");
     return m_impl->shape;
 }
 
 const deepworks::Placeholder::Impl& deepworks::Placeholder::impl() const {
+    DeepWorks_Assert(m_impl && "Placeholder is empty");
     return *m_impl;
 }
 
 deepworks::Placeholder::Impl& deepworks::Placeholder::impl() {
+    DeepWorks_Assert(m_impl && "Placeholder is empty");
     return *m_impl;
 }
-- 
2.43.0


From 010921c4d3b62e27964811e2bf386c6b94819069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 37/47] fix: using an empty model throws

---
 src/model/model.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 93ef407..edfacad 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -150,28 +150,34 @@ deepworks::Model::Model(deepworks::Placeholders ins, deepworks::Placeholders out
 }
 
 const deepworks::Placeholders& deepworks::Model::inputs() const {
+    DeepWorks_Assert(m_impl && "Model is empty");
     return m_impl->m_inputs;
 }
 
 const deepworks::Placeholders& deepworks::Model::outputs() const {
+    DeepWorks_Assert(m_impl && "Model is empty");
     return m_impl->m_outputs;
 }
 
 const deepworks::Layers& deepworks::Model::layers() const {
+    DeepWorks_Assert(m_impl && "Model is empty");
     return m_impl->m_layers;
 }
 
 deepworks::Layers& deepworks::Model::layers() {
+    DeepWorks_Assert(m_impl && "Model is empty");
     return m_impl->m_layers;
 }
 
 deepworks::Layer deepworks::Model::getLayer(const std::string& name) {
+    DeepWorks_Assert(m_impl && "Model is empty");
     auto it = m_impl->m_layers_map.find(name);
     DeepWorks_Assert(it != m_impl->m_layers_map.end() && "Layer with that name not found");
     return it->second;
 }
 
 deepworks::ParamMap& deepworks::Model::params() {
+    DeepWorks_Assert(m_impl && "Model is empty");
     return m_impl->m_params;
 }
 
@@ -234,18 +240,22 @@ deepworks::Model::Impl::Impl(deepworks::Placeholders ins,
 }
 
 const deepworks::Model::Config& deepworks::Model::cfg() const {
+    DeepWorks_Assert(m_impl && "Model is empty");
     return m_impl->m_cfg;
 }
 
 const deepworks::Model::StateDict& deepworks::Model::state() const {
+    DeepWorks_Assert(m_impl && "Model is empty");
     return m_impl->m_state;
 }
 
 deepworks::Model::StateDict& deepworks::Model::state() {
+    DeepWorks_Assert(m_impl && "Model is empty");
     return m_impl->m_state;
 }
 
 void deepworks::Model::compile() {
+    DeepWorks_Assert(m_impl && "Model is empty");
     m_impl->m_backend = std::make_shared<deepworks::cpu::CPUBackend>(m_impl->m_graph);
 }
 
@@ -265,14 +275,14 @@ void deepworks::Model::backward(const deepworks::Tensor& input,
 
 void deepworks::Model::forward(const std::vector<deepworks::Tensor>& inputs,
                                      std::vector<deepworks::Tensor>& outputs) {
-    DeepWorks_Assert(m_impl->m_backend && "Model wasn't compiled !")
+    DeepWorks_Assert(m_impl && m_impl->m_backend && "Model wasn't compiled !")
         m_impl->m_backend->forward(inputs, outputs);
 }
 
 void deepworks::Model::backward(const std::vector<deepworks::Tensor>& inputs,
                                 const std::vector<deepworks::Tensor>& outputs,
                                 const std::vector<deepworks::Tensor>& grad_outputs) {
-    DeepWorks_Assert(m_impl->m_backend && "Model wasn't compiled !")
+    DeepWorks_Assert(m_impl && m_impl->m_backend && "Model wasn't compiled !")
         m_impl->m_backend->backward(inputs, outputs, grad_outputs);
 }
 
-- 
2.43.0


From 7df1e44de2b8b3f33fa1a5b0914e4c2d38c3d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:43 +0000
Subject: [PATCH 38/47] fix: random numbers can be drawn from several threads

---
 src/utils/generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/generator.hpp b/src/utils/generator.hpp
index 7e87543..af14c4a 100644
--- a/src/utils/generator.hpp
+++ b/src/utils/generator.hpp
@@ -6,7 +6,8 @@ namespace deepworks {
 namespace utils {
 
 inline std::mt19937& generator() {
-    static std::mt19937 gen{std::random_device{}()};
+    // NB: Every thread draws from its own generator, a shared one would be a data race.
+    thread_local std::mt19937 gen{std::random_device{}()};
     return gen;
 }
 
-- 
2.43.0


From 0fea08db6c9e637705da86ee064b7ac0c55d8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:38 +0000
Subject: [PATCH 39/47] fix: tensor stays as it was if there isn't enough
 memory to allocate or reshape it

---
 src/runtime/tensor.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index b89b6fa..19d5b1e 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -87,11 +87,16 @@ void dw::Tensor::copyTo(dw::Tensor& rhs) const {
 }
 
 void dw::Tensor::allocate(const dw::Shape& shape) {
-    init(shape);
+    // NB: If there isn't enough memory, tensor must stay as it was.
+    Tensor allocated;
+    allocated.init(shape);
+
+    auto& descriptor = *allocated.m_descriptor;
+    descriptor.memory.reset(new Type[descriptor.total],
+                            [](float* p){ delete[] p; });
+    descriptor.data = descriptor.memory.get();
 
-    m_descriptor->memory.reset(new Type[m_descriptor->total],
-                               [](float* p){ delete[] p; });
-    m_descriptor->data = m_descriptor->memory.get();
+    *m_descriptor = std::move(descriptor);
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
@@ -103,8 +108,9 @@ void dw::Tensor::reshape(const dw::Shape& shape) {
                                             static_cast<size_t>(1), std::multiplies<size_t>());
     DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
 
+    auto strides = calculateStrides(shape);
     m_descriptor->shape = shape;
-    m_descriptor->strides = calculateStrides(shape);
+    m_descriptor->strides = std::move(strides);
 }
 
 dw::Tensor::Type* dw::Tensor::data() const {
-- 
2.43.0


From 3252ccbffe8d2b2b106d26f79fa7edb0a956a635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:38 +0000
Subject: [PATCH 40/47] fix: buffers of MaxPooling and BatchNorm2D fit each
 other after running out of memory

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 11 +++++------
 src/runtime/cpu/layers/cpumaxpooling.cpp  | 10 ++++------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index b27b0a5..1e85746 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -50,13 +50,12 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
     int W = in_shape[3];
 
     // NB: Buffers must follow the input if its shape is changed.
+    // Either all of them are changed or none.
     if (nhwc_in.shape() != deepworks::Shape{N, H, W, C}) {
-        nhwc_in  = Tensor({N, H, W, C});
-        nhwc_out = Tensor({N, H, W, C});
-    }
-
-    if (m_input_centered.shape() != deepworks::Shape{N * H * W, C}) {
-        m_input_centered = Tensor({N * H * W, C});
+        Tensor in({N, H, W, C}), out({N, H, W, C}), centered({N * H * W, C});
+        nhwc_in          = std::move(in);
+        nhwc_out         = std::move(out);
+        m_input_centered = std::move(centered);
     }
 
     deepworks::utils::NCHW2NHWC(input, nhwc_in);
diff --git a/src/runtime/cpu/layers/cpumaxpooling.cpp b/src/runtime/cpu/layers/cpumaxpooling.cpp
index 7777e18..37e7ade 100644
--- a/src/runtime/cpu/layers/cpumaxpooling.cpp
+++ b/src/runtime/cpu/layers/cpumaxpooling.cpp
@@ -23,11 +23,6 @@ void deepworks::cpu::CPUMaxPooling::forward(const std::vector<deepworks::Tensor>
     const auto& padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     const auto& stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
 
-    // FIXME: Move it to init method
-    if (max_indices.shape() != output.shape()) {
-        max_indices.allocate(output.shape());
-    }
-
     int h_out = output.shape()[2];
     int w_out = output.shape()[3];
 
@@ -35,8 +30,11 @@ void deepworks::cpu::CPUMaxPooling::forward(const std::vector<deepworks::Tensor>
     int cols = h_out * w_out;
 
     // FIXME: Move it to init method
-    if (im2col_buf.total() != rows * cols) {
+    // NB: Either both buffers are changed or none of them.
+    if (max_indices.shape() != output.shape() || im2col_buf.total() != rows * cols) {
+        Tensor indices(output.shape());
         im2col_buf.allocate({rows * cols});
+        max_indices = std::move(indices);
     }
 
     CPUMaxPoolingForward(input, max_indices, im2col_buf, output, kernel, padding, stride);
-- 
2.43.0


From 9843102bd4a8769ae60565a72809d469c73d89e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:38 +0000
Subject: [PATCH 41/47] fix: running out of memory in Convolution is reported
 instead of terminating

---
 src/runtime/cpu/kernels/kernels.cpp | 30 +++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 8fa0998..2f3c665 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -4,12 +4,32 @@
 #include <deepworks/utils/assert.hpp>
 #include <deepworks/utils/utils.hpp>
 
+#include <exception>
+
 enum Input  {N, C, H, W};
 enum Kernel {KH, KW};
 
 using V = Eigen::Matrix<float, 1, Eigen::Dynamic, Eigen::RowMajor>;
 using M = Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
 
+// NB: Exception mustn't leave the parallel region, so it's rethrown after the loop.
+template <typename F>
+static void parallelFor(size_t size, F&& body) {
+    std::exception_ptr error;
+    #pragma omp parallel for
+    for (size_t i = 0; i < size; i++) {
+        try {
+            body(i);
+        } catch (...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
+    }
+    if (error) {
+        std::rethrow_exception(error);
+    }
+}
+
 void deepworks::CPULinearForward(ConstMatrix X, ConstMatrix W, Matrix result) {
     result = X * W.transpose();
 }
@@ -104,8 +124,7 @@ void deepworks::CPUConvolutionalForward(const Tensor& input,
 
     ConstMatrix W{weights.data(), c_out, rows};
     ConstColVector bias_vec{bias.data(), c_out};
-    #pragma omp parallel for
-    for (size_t b = 0; b < batch; b++) {
+    parallelFor(batch, [&](size_t b) {
         Tensor src_tensor({1, c_in, h_in, w_in}, input.data() + b * input_offset);
         Tensor col_plane({rows, cols}, im2col_buf.data() + (b * rows * cols));
         im2col(src_tensor, col_plane, kernel, padding, stride);
@@ -114,7 +133,7 @@ void deepworks::CPUConvolutionalForward(const Tensor& input,
         Matrix result{output.data() + b * output_offset, c_out, cols};
         result = W * X;
         result = result.colwise() + bias_vec;
-    }
+    });
 }
 
 void deepworks::CPUConvolutionalInputGrad(const Tensor& grad_output,
@@ -139,8 +158,7 @@ void deepworks::CPUConvolutionalInputGrad(const Tensor& grad_output,
     int cols = h_out * w_out;
     int output_offset = c_out * h_out * w_out;
 
-    #pragma omp parallel for
-    for (size_t b = 0; b < batch; b++) {
+    parallelFor(batch, [&](size_t b) {
         ConstMatrix weights_mat{weights.data(), c_out, rows};
         Tensor grad_im2col_buf({rows, cols});
         ConstMatrix grad_output_mat{grad_output.data() + b * output_offset, c_out, cols};
@@ -150,7 +168,7 @@ void deepworks::CPUConvolutionalInputGrad(const Tensor& grad_output,
 
         Tensor grad_input_plane({1, c_in, h_in, w_in}, grad_input.data() + b * c_in * h_in * w_in);
         col2im(grad_im2col_buf, grad_input_plane, kernel, padding, stride);
-    }
+    });
 }
 
 void deepworks::CPUConvolutionalWeightsGrad(const Tensor& grad_output,
-- 
2.43.0


From 9f6224fe99265de47e7d94380a41ae8732212851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:38 +0000
Subject: [PATCH 42/47] fix: misuse can be reported if there isn't enough
 memory to describe it

---
 include/deepworks/utils/assert.hpp |  2 +-
 src/utils/assert.cpp               | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/deepworks/utils/assert.hpp b/include/deepworks/utils/assert.hpp
index 597cab1..a3e6796 100644
--- a/include/deepworks/utils/assert.hpp
+++ b/include/deepworks/utils/assert.hpp
@@ -9,7 +9,7 @@ namespace utils {
 
 class DeepWorksException : public std::exception {
 public:
-    DeepWorksException(int line, const std::string& filename, const std::string& func) noexcept;
+    DeepWorksException(int line, const std::string& filename, const std::string& func);
     DeepWorksException(const DeepWorksException& that) noexcept = default;
 
     const char* what() const noexcept override;
diff --git a/src/utils/assert.cpp b/src/utils/assert.cpp
index 2deeb8d..cd56e11 100644
--- a/src/utils/assert.cpp
+++ b/src/utils/assert.cpp
@@ -1,8 +1,10 @@
 #include <deepworks/utils/assert.hpp>
 
+#include <new>
+
 deepworks::utils::DeepWorksException::DeepWorksException(int line,
                                                          const std::string& filename,
-                                                         const std::string& func) noexcept
+                                                         const std::string& func)
     : m_impl(new deepworks::utils::DeepWorksException::Impl()) {
     m_impl->line     = line;
     m_impl->filename = filename;
@@ -13,6 +15,10 @@ deepworks::utils::DeepWorksException::DeepWorksException(int line,
 }
 
 const char* deepworks::utils::DeepWorksException::what() const noexcept {
-    m_impl->message = m_impl->stream.str();
-    return m_impl->message.c_str();
+    try {
+        m_impl->message = m_impl->stream.str();
+        return m_impl->message.c_str();
+    } catch (const std::bad_alloc&) {
+        return "Not enough memory to describe the error";
+    }
 }
-- 
2.43.0


From 46e0656bbc5621cf5ae95cf2d3bd4674bc620c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 43/47] fix: Convolution backward with gradient of another
 shape than forward produced throws

---
 src/runtime/cpu/layers/cpuconvolution.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/runtime/cpu/layers/cpuconvolution.cpp b/src/runtime/cpu/layers/cpuconvolution.cpp
index de2a358..bb02038 100644
--- a/src/runtime/cpu/layers/cpuconvolution.cpp
+++ b/src/runtime/cpu/layers/cpuconvolution.cpp
@@ -1,6 +1,12 @@
 #include "runtime/cpu/layers/cpuconvolution.hpp"
 #include "runtime/cpu/kernels/kernels.hpp"
 
+// NB: Number of elements in im2col buffer after forward which produced output of the same shape as grad_output.
+static size_t im2colSize(const deepworks::Tensor& grad_output, const deepworks::Tensor& weights) {
+    size_t c_out = weights.shape()[0];
+    return (weights.total() / c_out) * (grad_output.total() / c_out);
+}
+
 deepworks::cpu::CPUConvolution::CPUConvolution(deepworks::LayerInfo&& info)
     : deepworks::cpu::ICPULayer(std::move(info)),
       grad_weights(m_info.params().at("weight").grad()),
@@ -58,12 +64,13 @@ void deepworks::cpu::CPUConvolution::backward(const std::vector<deepworks::Tenso
                                               const std::vector<deepworks::Tensor>& /* outputs */,
                                               const std::vector<deepworks::Tensor>& grad_outputs,
                                                     std::vector<deepworks::Tensor>& grad_inputs) {
-    DeepWorks_Assert(!im2col_buf.empty() && "Call backward without forward");
-
     const auto& grad_output = grad_outputs.front();
     const auto& weights     = m_info.params().at("weight").data();
           auto& grad_input  = grad_inputs.front();
 
+    DeepWorks_Assert(im2col_buf.total() == im2colSize(grad_output, weights) &&
+                     "Call backward without forward");
+
     const auto& kernel  = m_info.impl().attrs["kernel"].get<std::array<int, 2>>();
     const auto& padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     const auto& stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
@@ -79,9 +86,11 @@ void deepworks::cpu::CPUConvolution::backward(const std::vector<deepworks::Tenso
 
 void deepworks::cpu::CPUConvolution::updateGradients(const std::vector<Tensor>& inputs,
                                                      const std::vector<Tensor>& grad_outputs) {
-    DeepWorks_Assert(!im2col_buf.empty() && "Call backward without forward");
-
     const auto& grad_output  = grad_outputs.front();
+
+    DeepWorks_Assert(im2col_buf.total() == im2colSize(grad_output, grad_weights) &&
+                     "Call backward without forward");
+
     deepworks::CPUConvolutionalWeightsGrad(grad_output, im2col_buf, grad_weights);
     deepworks::CPUConvolutionalBiasGrad(grad_output, grad_bias);
 }
-- 
2.43.0


From d8102d89ba895cc365924c39946a92d6cba6b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 44/47] fix: MaxPooling backward after failed forward doesn't
 write out of bounds

---
 src/runtime/cpu/layers/cpumaxpooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/layers/cpumaxpooling.cpp b/src/runtime/cpu/layers/cpumaxpooling.cpp
index 37e7ade..2112747 100644
--- a/src/runtime/cpu/layers/cpumaxpooling.cpp
+++ b/src/runtime/cpu/layers/cpumaxpooling.cpp
@@ -32,7 +32,7 @@ void deepworks::cpu::CPUMaxPooling::forward(const std::vector<deepworks::Tensor>
     // FIXME: Move it to init method
     // NB: Either both buffers are changed or none of them.
     if (max_indices.shape() != output.shape() || im2col_buf.total() != rows * cols) {
-        Tensor indices(output.shape());
+        Tensor indices = Tensor::zeros(output.shape());
         im2col_buf.allocate({rows * cols});
         max_indices = std::move(indices);
     }
-- 
2.43.0


From 6f4174d0b2a327ad7b1d416a596f6dd323260d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 45/47] fix: size of im2col buffer doesn't overflow

---
 src/runtime/cpu/kernels/kernels.cpp       | 2 +-
 src/runtime/cpu/layers/cpuconvolution.cpp | 4 ++--
 src/runtime/cpu/layers/cpumaxpooling.cpp  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 2f3c665..b44ac9e 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -278,7 +278,7 @@ void deepworks::CPUMaxPoolingInputGrad(const Tensor& grad_output,
     for (size_t i = 0; i < batch * c; i++) {
         initializer::zeros(im2col_buf);
         for (int j = 0; j < cols; j++) {
-            int row = indices_ptr[i * cols + j];
+            size_t row = indices_ptr[i * cols + j];
             im2col_ptr[row * cols + j] = out_grad_ptr[i * cols + j];
         }
 
diff --git a/src/runtime/cpu/layers/cpuconvolution.cpp b/src/runtime/cpu/layers/cpuconvolution.cpp
index bb02038..8a6a9e3 100644
--- a/src/runtime/cpu/layers/cpuconvolution.cpp
+++ b/src/runtime/cpu/layers/cpuconvolution.cpp
@@ -46,8 +46,8 @@ void deepworks::cpu::CPUConvolution::forward(const std::vector<deepworks::Tensor
     int cols = h_out * w_out;
 
     // FIXME: Move it to init method
-    if (im2col_buf.total() != batch * rows * cols) {
-        im2col_buf.allocate({batch * rows * cols});
+    if (im2col_buf.total() != static_cast<size_t>(batch) * rows * cols) {
+        im2col_buf.allocate({batch, rows, cols});
     }
 
     deepworks::CPUConvolutionalForward(input,
diff --git a/src/runtime/cpu/layers/cpumaxpooling.cpp b/src/runtime/cpu/layers/cpumaxpooling.cpp
index 2112747..586aa6b 100644
--- a/src/runtime/cpu/layers/cpumaxpooling.cpp
+++ b/src/runtime/cpu/layers/cpumaxpooling.cpp
@@ -31,9 +31,9 @@ void deepworks::cpu::CPUMaxPooling::forward(const std::vector<deepworks::Tensor>
 
     // FIXME: Move it to init method
     // NB: Either both buffers are changed or none of them.
-    if (max_indices.shape() != output.shape() || im2col_buf.total() != rows * cols) {
+    if (max_indices.shape() != output.shape() || im2col_buf.total() != static_cast<size_t>(rows) * cols) {
         Tensor indices = Tensor::zeros(output.shape());
-        im2col_buf.allocate({rows * cols});
+        im2col_buf.allocate({rows, cols});
         max_indices = std::move(indices);
     }
 
-- 
2.43.0


From 9f6c92df09dca195e08302e8e534f7a392426473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 46/47] fix: backward of batch normalization in evaluation mode

In evaluation mode the running statistics are constants, so that the
gradient with respect to the input is grad * gamma / std. The training
formula was used with the running statistics instead.
---
 src/runtime/cpu/kernels/kernels.cpp       | 8 +++++++-
 src/runtime/cpu/kernels/kernels.hpp       | 2 +-
 src/runtime/cpu/layers/cpubatchnorm1d.cpp | 4 +++-
 src/runtime/cpu/layers/cpubatchnorm1d.hpp | 2 ++
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 +++-
 src/runtime/cpu/layers/cpubatchnorm2d.hpp | 2 ++
 6 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index b44ac9e..1135fdb 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -337,11 +337,17 @@ void deepworks::CPUBatchNorm1DForward(ConstMatrix input, Matrix output,
 
 void deepworks::CPUBatchNorm1DInputGrad(ConstMatrix input_centered, ConstVector std,
                                         ConstMatrix grad_output, Matrix grad_input,
-                                        ConstVector gamma) {
+                                        ConstVector gamma, bool is_training) {
     auto batch_size = input_centered.outerSize();
 
     auto grad_x_norm = grad_output.array().rowwise() * gamma.array();
 
+    // NB: Running statistics don't depend on the input.
+    if (!is_training) {
+        grad_input += static_cast<M>(grad_x_norm.array().rowwise() / std.array());
+        return;
+    }
+
     // NB: Vectors must be evaluated here, otherwise they would be recomputed for every feature.
     V var = std.cwiseAbs2();
 
diff --git a/src/runtime/cpu/kernels/kernels.hpp b/src/runtime/cpu/kernels/kernels.hpp
index 42db749..8ea3794 100644
--- a/src/runtime/cpu/kernels/kernels.hpp
+++ b/src/runtime/cpu/kernels/kernels.hpp
@@ -313,7 +313,7 @@ void CPUBatchNorm1DForward(ConstMatrix input, Matrix output,
  */
 void CPUBatchNorm1DInputGrad(ConstMatrix input_centered, ConstVector std,
                              ConstMatrix grad_output, Matrix grad_input,
-                             ConstVector gamma);
+                             ConstVector gamma, bool is_training = true);
 
 /*
  * CPUBatchNorm1DParamGrad
diff --git a/src/runtime/cpu/layers/cpubatchnorm1d.cpp b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
index 4f12aad..ab62783 100644
--- a/src/runtime/cpu/layers/cpubatchnorm1d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
@@ -66,6 +66,7 @@ void deepworks::cpu::CPUBatchNorm1D::forward(const std::vector<deepworks::Tensor
                                      is_trainable, eps, alpha,
                                      {m_gamma.data(), gamma_shape[0]},
                                      {m_beta.data(), beta_shape[0]});
+    m_is_training = is_trainable;
 }
 
 void deepworks::cpu::CPUBatchNorm1D::backward(const std::vector<deepworks::Tensor>& /* inputs */,
@@ -86,7 +87,8 @@ void deepworks::cpu::CPUBatchNorm1D::backward(const std::vector<deepworks::Tenso
                                        {m_std.data(), std_shape[0]},
                                        {grad_output.data(), grad_output_shape[0], grad_output_shape[1]},
                                        {grad_input.data(), grad_input_shape[0], grad_input_shape[1]},
-                                       {m_gamma.data(), gamma_shape[0]});
+                                       {m_gamma.data(), gamma_shape[0]},
+                                       m_is_training);
 }
 
 void deepworks::cpu::CPUBatchNorm1D::updateGradients(const std::vector<Tensor>& /* inputs */,
diff --git a/src/runtime/cpu/layers/cpubatchnorm1d.hpp b/src/runtime/cpu/layers/cpubatchnorm1d.hpp
index 1d56152..9efb2db 100644
--- a/src/runtime/cpu/layers/cpubatchnorm1d.hpp
+++ b/src/runtime/cpu/layers/cpubatchnorm1d.hpp
@@ -33,6 +33,8 @@ private:
     deepworks::Tensor m_grad_gamma, m_grad_beta;
     deepworks::Tensor m_std, m_running_mean, m_running_var;
     deepworks::Tensor m_input_centered;
+    // NB: Mode of the last forward pass.
+    bool m_is_training = true;
 };
 
 } // namespace cpu
diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 1e85746..371e44e 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -69,6 +69,7 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
                                      is_trainable, eps, alpha,
                                      {m_gamma.data(), C},
                                      {m_beta.data(), C});
+    m_is_training = is_trainable;
 
     deepworks::utils::NHWC2NCHW(nhwc_out, output);
 }
@@ -93,7 +94,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
                                        {m_std.data(),C},
                                        {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
                                        {nhwc_in.data(), static_cast<int>(nhwc_in.total()) / C, C},
-                                       {m_gamma.data(), C});
+                                       {m_gamma.data(), C},
+                                       m_is_training);
 
     deepworks::utils::NHWC2NCHW(nhwc_in, grad_input);
 }
diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.hpp b/src/runtime/cpu/layers/cpubatchnorm2d.hpp
index a30b227..2a5108a 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.hpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.hpp
@@ -33,6 +33,8 @@ private:
     deepworks::Tensor m_std, m_running_mean, m_running_var;
     deepworks::Tensor m_grad_gamma, m_grad_beta;
     deepworks::Tensor m_input_centered;
+    // NB: Mode of the last forward pass.
+    bool m_is_training = true;
     deepworks::Tensor nhwc_in, nhwc_out;
 };
 
-- 
2.43.0


From c6375cee9473377a46602f3d9ec47b3634b655b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 47/47] fix: backward of Dropout follows the mode of the last
 forward pass

Changing the mode between forward and backward passes gave gradients of
a function which had not been evaluated.
---
 src/runtime/cpu/layers/cpudropout.cpp | 6 +++---
 src/runtime/cpu/layers/cpudropout.hpp | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/runtime/cpu/layers/cpudropout.cpp b/src/runtime/cpu/layers/cpudropout.cpp
index 63990fa..d6fd1fa 100644
--- a/src/runtime/cpu/layers/cpudropout.cpp
+++ b/src/runtime/cpu/layers/cpudropout.cpp
@@ -30,8 +30,10 @@ void deepworks::cpu::CPUDropout::forward(const std::vector<deepworks::Tensor>& i
     if (m_info.params().at("mask").is_trainable()) {
         float p = m_info.impl().attrs["p"].get<float>();
         deepworks::CPUDropoutForward(input, m_mask, output, p);
+        m_p = p;
     } else {
         input.copyTo(output);
+        m_p = 0.f;
     }
 }
 
@@ -44,7 +46,5 @@ void deepworks::cpu::CPUDropout::backward(const std::vector<deepworks::Tensor>&
 
     DeepWorks_Assert(m_mask.shape() == grad_output.shape() && "Call backward without forward");
 
-    // NB: In evaluation mode dropout is identity, nothing is dropped.
-    float p = m_info.params().at("mask").is_trainable() ? m_info.impl().attrs["p"].get<float>() : 0.f;
-    deepworks::CPUDropoutInputGrad(m_mask, grad_output, grad_input, p);
+    deepworks::CPUDropoutInputGrad(m_mask, grad_output, grad_input, m_p);
 }
diff --git a/src/runtime/cpu/layers/cpudropout.hpp b/src/runtime/cpu/layers/cpudropout.hpp
index bf2e6b0..6d144a4 100644
--- a/src/runtime/cpu/layers/cpudropout.hpp
+++ b/src/runtime/cpu/layers/cpudropout.hpp
@@ -27,6 +27,8 @@ private:
                   const std::vector<Tensor>& outputs);
 
     deepworks::Tensor m_mask;
+    // NB: Probability used by the last forward pass, in evaluation mode nothing is dropped.
+    float m_p = 0.f;
 };
 
 } // namespace cpu
-- 
2.43.0

