From c34e365797ab5aa7a7dca368e26fd51fd743f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 01/18] fix: pad max pooling windows with -infinity

numeric_limits<float>::min() is the smallest positive normal number, so a
window with only negative inputs that touches the padding returned ~1e-38
and lost its gradient.
---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 99d56d5..811c124 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -220,7 +220,7 @@ void deepworks::CPUMaxPoolingForward(const Tensor& input,
     std::array<int, 2> dilation{1, 1};
     for (size_t i = 0; i < batch * c; i++) {
         Tensor src_plane({1, 1, h_in, w_in}, input.data() + i * input_offset);
-        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::min());
+        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, -std::numeric_limits<float>::infinity());
 
         ConstMatrix col_mat{im2col_buf.data(), rows, cols};
         for (int j = 0; j < cols; j++) {
-- 
2.43.0


From bd0ea7bb63451d32efd407563c426d1595f461ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 02/18] fix: accumulate the input gradient in BatchNorm2D
 backward

Every other layer adds its contribution to grad_input; BatchNorm2D
overwrote what the other consumers of the same tensor had already added.
---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 7ce9272..300c488 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -85,8 +85,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
     int C = grad_output_shape[1];
     deepworks::utils::NCHW2NHWC(grad_output, nhwc_out);
 
-    // NB: CPUBatchNorm1DInputGrad expects that input_grad is already initiliazed.
-    deepworks::initializer::zeros(nhwc_in);
+    // NB: CPUBatchNorm1DInputGrad accumulates to the already initiliazed input_grad.
+    deepworks::utils::NCHW2NHWC(grad_input, nhwc_in);
     deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), static_cast<int>(grad_output.total()) / C, C},
                                        {m_std.data(),C},
                                        {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
-- 
2.43.0


From 737b308f77f1bca18f4fff9c85cac8cf74814645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:05 +0000
Subject: [PATCH 03/18] fix: reallocate BatchNorm2D scratch when the input
 shape changes

The NHWC buffers were sized by the first batch only, so a later larger
batch was written past their end.
---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 300c488..ead91cf 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -49,12 +49,12 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
     int H = in_shape[2];
     int W = in_shape[3];
 
-    if (nhwc_in.empty()) {
+    if (nhwc_in.shape() != deepworks::Shape{N, H, W, C}) {
         nhwc_in  = Tensor({N, H, W, C});
         nhwc_out = Tensor({N, H, W, C});
     }
 
-    if (m_input_centered.empty()) {
+    if (m_input_centered.shape() != deepworks::Shape{N * H * W, C}) {
         m_input_centered = Tensor({N * H * W, C});
     }
 
-- 
2.43.0


From 6ee124f0082a92275a4e6eb630a2dd549288bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:05 +0000
Subject: [PATCH 04/18] fix: scale the Dropout input gradient by 1/(1-p)

The forward pass divides the kept elements by (1 - p); the gradient did not.
---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 811c124..001ebb7 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -360,7 +360,7 @@ void deepworks::CPUDropoutInputGrad(const Tensor& mask,
     ConstVector m_vec(mask.data(), mask.total());
     Vector      gi_vec(grad_input.data(), grad_input.total());
 
-    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f));
+    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f) / (1 - p));
 }
 
 void deepworks::CPUGlobalAvgPoolingForward(const Tensor& input, Tensor& output) {
-- 
2.43.0


From 2ea0e192a265a8dd23dd3b0ac74e28b65da2d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:20 +0000
Subject: [PATCH 05/18] fix: do not fclose a null stream when an image cannot
 be opened

fclose(nullptr) crashes, so a missing file never reached the exception.
---
 src/io/image_reader.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 75474c6..b44fc44 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -30,7 +30,6 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     FILE *infile = fopen(path.data(), "rb");
 
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
@@ -101,7 +100,6 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
     FILE *infile = fopen(path.data(), "rb");
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-- 
2.43.0


From db9db9a74fb59e48864c794862693fc67ef4ca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:54 +0000
Subject: [PATCH 06/18] fix: refuse negative dimensions in Tensor::reshape

---
 src/runtime/tensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 3fb2b37..07abafa 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -95,6 +95,10 @@ void dw::Tensor::allocate(const dw::Shape& shape) {
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
+    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
+                                         [](int dim) { return dim < 0; });
+    DeepWorks_Assert(!have_negative_dim && "Cannot reshape tensor to dynamic shape.");
+
     auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
     DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
 
-- 
2.43.0


From ce7ecf7350e8573a0db6c51065e8358ca5f30dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:22 +0000
Subject: [PATCH 07/18] fix: check input rank before creating layer parameters

---
 include/deepworks/base_op.hpp | 4 +++-
 src/expression/nn.cpp         | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/deepworks/base_op.hpp b/include/deepworks/base_op.hpp
index f7f2675..8cab33c 100644
--- a/include/deepworks/base_op.hpp
+++ b/include/deepworks/base_op.hpp
@@ -31,11 +31,13 @@ struct BaseOp {
     template <typename... Placeholders>
     Placeholder operator()(Placeholders... ins) {
         auto get_shape = [](Placeholder ph) { return ph.shape(); };
+        // NB: outShape checks input shapes, so it must be called before init
+        auto out_shape = static_cast<D*>(this)->outShape(get_shape(ins)...);
         static_cast<D*>(this)->init(get_shape(ins)...);
 
         Call call{m_info};
         call.pass({ins...});
-        return call.create(static_cast<D*>(this)->outShape(get_shape(ins)...));
+        return call.create(out_shape);
     }
 
     // NB: Generic operator() which works with vector
diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index d0b9d66..90077c8 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -190,6 +190,7 @@ void dw::BatchNorm1D::init(const Shape& in_shape) {
 }
 
 dw::Shape dw::BatchNorm1D::outShape(const dw::Shape& in_shape) {
+    DeepWorks_Assert(in_shape.size() == 2u && "BatchNorm1D layer works only with 2D tensors");
     return in_shape;
 }
 
-- 
2.43.0


From af879bba6b8827858289bd88d56829d6ea1094e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:22 +0000
Subject: [PATCH 08/18] fix: refuse convolution and pooling windows larger than
 the padded input

---
 src/expression/nn.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index 90077c8..51c9976 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -219,6 +219,10 @@ dw::Shape dw::MaxPooling::outShape(const dw::Shape& in_shape) {
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
 
+    DeepWorks_Assert(in_shape[Input::H] + 2 * padding[Kernel::KH] >= kernel[Kernel::KH] &&
+                     in_shape[Input::W] + 2 * padding[Kernel::KW] >= kernel[Kernel::KW] &&
+                     "MaxPooling kernel must not exceed padded input");
+
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
     return {in_shape[0], in_shape[1], h_out, w_out};
@@ -256,6 +260,10 @@ dw::Shape dw::Convolution::outShape(const dw::Shape& in_shape) {
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
 
+    DeepWorks_Assert(in_shape[Input::H] + 2 * padding[Kernel::KH] >= kernel[Kernel::KH] &&
+                     in_shape[Input::W] + 2 * padding[Kernel::KW] >= kernel[Kernel::KW] &&
+                     "Convolution kernel must not exceed padded input");
+
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
     return {in_shape[0], out_channels, h_out, w_out};
-- 
2.43.0


From fa1727e6062bbaeceefaa83bc6624d8a5e65db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:28 +0000
Subject: [PATCH 09/18] fix: open exactly the image path given, not past the
 end of the view

---
 src/io/image_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index b44fc44..c0862a0 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -1,5 +1,6 @@
 #include <stdexcept>
 #include <sstream>
+#include <string>
 
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
@@ -27,7 +28,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
     struct jpeg_error_mgr err{};
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
@@ -98,7 +99,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
-- 
2.43.0


From 876694ef65d9784a36e15bb662eed3713ce99633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:28 +0000
Subject: [PATCH 10/18] fix: refuse PNG files whose samples are not 8 bits wide

---
 src/io/image_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index c0862a0..7bff6fc 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -125,6 +125,7 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         png_set_sig_bytes(png_ptr, 8);
 
         png_read_info(png_ptr, info_ptr);
+        DeepWorks_Assert(png_get_bit_depth(png_ptr, info_ptr) == 8 && "Only 8 bit depth is supported");
 
         int width = static_cast<int>(png_get_image_width(png_ptr, info_ptr));
         int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
-- 
2.43.0


From 8d8745f2760b92cb024c6a59644837d000251cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:25 +0000
Subject: [PATCH 11/18] fix: report a broken JPEG file with an exception
 instead of ending the process

---
 src/io/image_reader.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 7bff6fc..4fa2b42 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -6,6 +6,8 @@
 #include <deepworks/utils/assert.hpp>
 
 #ifdef HAVE_JPEG
+#include <cstdio>    // NB: jpeglib.h needs FILE.
+#include <csetjmp>
 #include <jpeglib.h>
 #endif
 
@@ -24,10 +26,22 @@ bool IsJpegFile(std::string_view path) {
     return path.substr(path.find_last_of(".") + 1) == "jpg" || path.substr(path.find_last_of(".") + 1) == "jpeg";
 }
 
+#ifdef HAVE_JPEG
+struct JpegErrorManager {
+    struct jpeg_error_mgr base; // NB: Must be the first.
+    jmp_buf               env;
+};
+
+// NB: Default handler terminates the process.
+void JpegErrorExit(j_common_ptr cinfo) {
+    longjmp(reinterpret_cast<JpegErrorManager*>(cinfo->err)->env, 1);
+}
+#endif
+
 void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
-    struct jpeg_error_mgr err{};
+    JpegErrorManager err{};
     FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
@@ -44,13 +58,11 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
         fclose(infile);
     };
 
-    auto finish_and_destroy = [&]() {
-        (void) jpeg_finish_decompress(&cinfo);
-        destroy();
-    };
-
     try {
-        cinfo.err = jpeg_std_error(&err);
+        cinfo.err = jpeg_std_error(&err.base);
+        err.base.error_exit = JpegErrorExit;
+        DeepWorks_Assert(!setjmp(err.env) && "Error during read header");
+
         jpeg_create_decompress(&cinfo);
         jpeg_stdio_src(&cinfo, infile);
 
@@ -81,16 +93,19 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     size_t h = 0;
     // it's works if we have default hwc layout for tensor
     try {
+        DeepWorks_Assert(!setjmp(err.env) && "Error during read image");
+
         while (cinfo.output_scanline < cinfo.output_height) {
             (void) jpeg_read_scanlines(&cinfo, buffer, 1);
             std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
             ++h;
         }
+        (void) jpeg_finish_decompress(&cinfo);
     } catch (...) {
-        finish_and_destroy();
+        destroy();
         throw;
     }
-    finish_and_destroy();
+    destroy();
 
 #else
     DeepWorks_Assert(false && "Couldn't find LIBJPEG");
-- 
2.43.0


From 51d0cd9ff2317f5eb538dd57e56ab015007e53f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:35 +0000
Subject: [PATCH 12/18] fix: visit a data node once when a graph is unrolled

A placeholder that was pushed twice before it was visited, e.g. x in
Add(x, f(x)), had its producer linked twice: the operation reported its
inputs twice and a saved configuration could not be built again.
---
 src/model/graphbuilder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index af67597..d956750 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -89,11 +89,13 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
     // Travers over the graph and collect all data & operation nodes.
     while (!stack.empty()) {
         auto data = stack.top();
-        all_data.push_back(data);
-
         stack.pop();
-        // NB: Mark input node as visited.
-        reached_data.insert(&data.impl());
+        // NB: Mark node as visited. It might be pushed several times
+        // before it's visited, e.g Add(x, f(x)).
+        if (!reached_data.insert(&data.impl()).second) {
+            continue;
+        }
+        all_data.push_back(data);
 
         auto has_call = data.impl().call;
         // NB: We reached the node without producer, so we found the input node.
-- 
2.43.0


From e62c1f436bdcce63479efaa35b5104088aa954cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 13/18] fix: keep the order of inputs and outputs in the
 configuration

The ids were listed in the order of the topological sort, so a model
rebuilt from its configuration took its inputs and returned its outputs
in another order than the saved one.
---
 src/model/model.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 886d3f5..0db6747 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -105,14 +105,15 @@ static void createConfig(TypedGraph& tgraph, dw::Model::Config& cfg) {
         const auto& d = tgraph.metadata(nh).get<Data>();
         deepworks::Model::Config::PlaceholderInfo ph_info{d.ph.shape(), d.id};
         cfg.ph_map.emplace(d.id, std::move(ph_info));
+    }
 
-        if (d.s == Data::Storage::INPUT) {
-            cfg.input_ids.push_back(d.id);
-        }
-
-        if (d.s == Data::Storage::OUTPUT) {
-            cfg.output_ids.push_back(d.id);
-        }
+    // NB: Keep inputs/outputs in the order user passed them to the model.
+    const auto& info = tgraph.metadata().get<Info>();
+    for (auto nh : info.in_nhs) {
+        cfg.input_ids.push_back(tgraph.metadata(nh).get<Data>().id);
+    }
+    for (auto nh : info.out_nhs) {
+        cfg.output_ids.push_back(tgraph.metadata(nh).get<Data>().id);
     }
 
     sorted = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
-- 
2.43.0


From 650bd93685af8bee53c7c0dcca7229ebb9d4191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 14/18] fix: refuse a truncated state or configuration file

Reads past the end of the file were ignored, so the rest of the model
silently kept its old values or got zeros.
---
 src/serialization.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 87cbce1..55074f2 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -8,6 +8,13 @@
 
 namespace dw = deepworks;
 
+static void read_bytes(char* data, size_t size, std::ifstream& file) {
+    file.read(data, size);
+    if (!file) {
+        DeepWorks_Throw() << "Failed to read from the file";
+    }
+}
+
 template <typename T>
 void write_value(T value, std::ofstream& file) {
     file.write(reinterpret_cast<char*>(&value), sizeof(value));
@@ -16,7 +23,7 @@ void write_value(T value, std::ofstream& file) {
 template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
-    file.read(reinterpret_cast<char*>(&value), sizeof(value));
+    read_bytes(reinterpret_cast<char*>(&value), sizeof(value), file);
     return value;
 }
 
@@ -32,8 +39,8 @@ T read_sequence(std::ifstream& file) {
     T seq{};
     auto size = read_value<size_t>(file);
     seq.resize(size);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(typename T::value_type));
+    read_bytes(reinterpret_cast<char*>(seq.data()),
+               size * sizeof(typename T::value_type), file);
     return seq;
 }
 
@@ -42,8 +49,8 @@ template <typename T, int S>
 std::array<T, S> read_array(std::ifstream& file) {
     std::array<T, S> seq;
     auto size = read_value<size_t>(file);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(T));
+    read_bytes(reinterpret_cast<char*>(seq.data()),
+               size * sizeof(T), file);
     return seq;
 }
 
@@ -99,8 +106,8 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
                               << "Actual: " << shape;
         }
 
-        file.read(reinterpret_cast<char*>(it->second.data()),
-                  it->second.total() * sizeof(dw::Tensor::Type));
+        read_bytes(reinterpret_cast<char*>(it->second.data()),
+                   it->second.total() * sizeof(dw::Tensor::Type), file);
     }
 }
 
-- 
2.43.0


From 296f8a145b088555c8ef8836c6c7887b998f4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 15/18] fix: refuse a state file that lacks some entries of the
 state

The entries the file did not mention silently kept their old values.
---
 src/serialization.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 55074f2..759cceb 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -91,7 +91,11 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
     }
 
     auto size = read_value<size_t>(file);
-    
+    if (size != state.size()) {
+        DeepWorks_Throw() << "File contains " << size << " entries, but state dict has "
+                          << state.size();
+    }
+
     for (int i = 0; i < size; ++i) {
         auto name = read_sequence<std::string>(file);
         auto it = state.find(name);
-- 
2.43.0


From 8081e85d3c0b11688c12c0022c71972e0fe5aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 16/18] fix: open a configuration for reading only

The file was opened for reading and writing, so a configuration the user
may read but not write could not be loaded.
---
 src/serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 759cceb..bb1d51e 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -271,7 +271,7 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-    std::ifstream file(path, std::ios::out | std::ios::binary);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
     return dw::load_cfg(file);
 }
 
-- 
2.43.0


From 713995febac771574cf9916632bf90f469cf7a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:09 +0000
Subject: [PATCH 17/18] fix: check the length of an array attribute before
 reading it

A damaged configuration could write past the end of the array.
---
 src/serialization.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index bb1d51e..3aec7a0 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -49,6 +49,9 @@ template <typename T, int S>
 std::array<T, S> read_array(std::ifstream& file) {
     std::array<T, S> seq;
     auto size = read_value<size_t>(file);
+    if (size != seq.size()) {
+        DeepWorks_Throw() << "Array has " << size << " elements, expected " << seq.size();
+    }
     read_bytes(reinterpret_cast<char*>(seq.data()),
                size * sizeof(T), file);
     return seq;
-- 
2.43.0


From b7f53d905798c36d538abf07c893dec97657beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:09 +0000
Subject: [PATCH 18/18] fix: report a file that cannot be opened for saving

The state or configuration was silently lost.
---
 src/serialization.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 3aec7a0..7e6918f 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -64,6 +64,9 @@ enum class SerializationKind : int {
 
 void dw::save_state(const Model::StateDict& state, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
+    if (!file.is_open()) {
+        DeepWorks_Throw() << "Failed to open the file: " << path;
+    }
     dw::save_state(state, file);
 }
 
@@ -245,6 +248,9 @@ dw::Attributes read_attributes(std::ifstream& file) {
 
 void dw::save_cfg(const Model::Config& cfg, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
+    if (!file.is_open()) {
+        DeepWorks_Throw() << "Failed to open the file: " << path;
+    }
     dw::save_cfg(cfg, file);
 }
 
@@ -312,6 +318,9 @@ dw::Model::Config dw::load_cfg(std::ifstream& file) {
 
 void dw::save(const dw::Model& model, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
+    if (!file.is_open()) {
+        DeepWorks_Throw() << "Failed to open the file: " << path;
+    }
     dw::save_cfg(model.cfg()  , file);
     dw::save_state(model.state(), file);
 }
-- 
2.43.0

