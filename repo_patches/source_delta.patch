From 87178996a03b96a4c529e6cd0ce0e7c6287f9aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 01/23] fix: give every thread its own random engine

The process-wide std::mt19937 was used without synchronization by
initializers, Dropout and shuffling DataLoaders, so independent objects
used from different threads raced on (and could corrupt) its state.
---
 src/utils/generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/generator.hpp b/src/utils/generator.hpp
index 7e87543..6757c31 100644
--- a/src/utils/generator.hpp
+++ b/src/utils/generator.hpp
@@ -6,7 +6,8 @@ namespace deepworks {
 namespace utils {
 
 inline std::mt19937& generator() {
-    static std::mt19937 gen{std::random_device{}()};
+    // NB: One engine per thread, std::mt19937 is not safe to share.
+    thread_local std::mt19937 gen{std::random_device{}()};
     return gen;
 }
 
-- 
2.43.0


From e8c5f90cff92e57dbbaaa82d5af16aa45c2f227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 02/23] fix: pad MaxPooling with negative infinity

numeric_limits<float>::min() is the smallest positive value, so a window
touching the padding with only negative inputs returned 1.17e-38 and lost
its gradient.
---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 99d56d5..811c124 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -220,7 +220,7 @@ void deepworks::CPUMaxPoolingForward(const Tensor& input,
     std::array<int, 2> dilation{1, 1};
     for (size_t i = 0; i < batch * c; i++) {
         Tensor src_plane({1, 1, h_in, w_in}, input.data() + i * input_offset);
-        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::min());
+        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, -std::numeric_limits<float>::infinity());
 
         ConstMatrix col_mat{im2col_buf.data(), rows, cols};
         for (int j = 0; j < cols; j++) {
-- 
2.43.0


From 6eea2a4ba3e8f29b5e38d3bea497ef7568144cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 03/23] fix: visit every placeholder once while unrolling the
 graph

A placeholder consumed by several operations could be pushed on the DFS
stack more than once before it was marked as reached, which duplicated
its producer operation and edges and made valid DAGs fail to compile or
run.
---
 src/model/graphbuilder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index af67597..0c1ee32 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -89,11 +89,14 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
     // Travers over the graph and collect all data & operation nodes.
     while (!stack.empty()) {
         auto data = stack.top();
-        all_data.push_back(data);
-
         stack.pop();
-        // NB: Mark input node as visited.
-        reached_data.insert(&data.impl());
+
+        // NB: Mark node as visited. The same node may be on the stack
+        // several times if it's used by several operations.
+        if (!reached_data.insert(&data.impl()).second) {
+            continue;
+        }
+        all_data.push_back(data);
 
         auto has_call = data.impl().call;
         // NB: We reached the node without producer, so we found the input node.
-- 
2.43.0


From f476df178ab292d77cbd726ddb5f83edeeb2800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:42 +0000
Subject: [PATCH 04/23] fix: resize BatchNorm2D scratch tensors when the input
 shape changes

They were only created by the first forward, so a later, bigger input
overran them.
---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 7ce9272..87a377c 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -49,13 +49,18 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
     int H = in_shape[2];
     int W = in_shape[3];
 
-    if (nhwc_in.empty()) {
-        nhwc_in  = Tensor({N, H, W, C});
-        nhwc_out = Tensor({N, H, W, C});
+    // If change input shape need to create new intermediate tensors
+    const Shape nhwc_shape{N, H, W, C};
+    if (nhwc_in.shape() != nhwc_shape) {
+        nhwc_in = Tensor(nhwc_shape);
+    }
+    if (nhwc_out.shape() != nhwc_shape) {
+        nhwc_out = Tensor(nhwc_shape);
     }
 
-    if (m_input_centered.empty()) {
-        m_input_centered = Tensor({N * H * W, C});
+    const Shape centered_shape{N * H * W, C};
+    if (m_input_centered.shape() != centered_shape) {
+        m_input_centered = Tensor(centered_shape);
     }
 
     deepworks::utils::NCHW2NHWC(input, nhwc_in);
-- 
2.43.0


From c286040a6574ead338bf2a3c554da77accd7129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:42 +0000
Subject: [PATCH 05/23] fix: accumulate the input gradient in BatchNorm2D

All the other layers add to grad_input, BatchNorm2D overwrote it, so the
contribution of the other consumers of its input was lost.
---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 87a377c..65c6726 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -90,8 +90,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
     int C = grad_output_shape[1];
     deepworks::utils::NCHW2NHWC(grad_output, nhwc_out);
 
-    // NB: CPUBatchNorm1DInputGrad expects that input_grad is already initiliazed.
-    deepworks::initializer::zeros(nhwc_in);
+    // NB: CPUBatchNorm1DInputGrad accumulates to the already initiliazed input_grad.
+    deepworks::utils::NCHW2NHWC(grad_input, nhwc_in);
     deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), static_cast<int>(grad_output.total()) / C, C},
                                        {m_std.data(),C},
                                        {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
-- 
2.43.0


From 32b9c02ea756bd423f41676cc313b70972bc0105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:42 +0000
Subject: [PATCH 06/23] fix: BatchNorm input gradient after a forward with
 running statistics

Frozen batch norm normalizes with constants, but backward still
differentiated through the batch mean and variance.
---
 src/runtime/cpu/kernels/kernels.cpp       |  5 +++++
 src/runtime/cpu/kernels/kernels.hpp       | 12 ++++++++++++
 src/runtime/cpu/layers/cpubatchnorm1d.cpp |  9 +++++++++
 src/runtime/cpu/layers/cpubatchnorm1d.hpp |  1 +
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 19 ++++++++++++++-----
 src/runtime/cpu/layers/cpubatchnorm2d.hpp |  1 +
 6 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 811c124..eddeac6 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -336,6 +336,11 @@ void deepworks::CPUBatchNorm1DInputGrad(ConstMatrix input_centered, ConstVector
             (grad_mu.array() / batch_size).array());
 }
 
+void deepworks::CPUBatchNorm1DEvalInputGrad(ConstVector std, ConstMatrix grad_output,
+                                            Matrix grad_input, ConstVector gamma) {
+    grad_input += static_cast<M>(grad_output.array().rowwise() * (gamma.array() / std.array()));
+}
+
 void deepworks::CPUBatchNorm1DParamGrad(ConstMatrix input_centered, ConstVector std, ConstMatrix grad_output,
                                         Vector gamma_grad, Vector beta_grad) {
 
diff --git a/src/runtime/cpu/kernels/kernels.hpp b/src/runtime/cpu/kernels/kernels.hpp
index 42db749..a35e514 100644
--- a/src/runtime/cpu/kernels/kernels.hpp
+++ b/src/runtime/cpu/kernels/kernels.hpp
@@ -315,6 +315,18 @@ void CPUBatchNorm1DInputGrad(ConstMatrix input_centered, ConstVector std,
                              ConstMatrix grad_output, Matrix grad_input,
                              ConstVector gamma);
 
+/*
+ * CPUBatchNorm1DEvalInputGrad
+ * Implements Batch Normalization backward pass for input
+ * in case forward used the running statistics (they don't depend on input)
+ * std have size [1, in_features]
+ * grad_output have size [batch_size, in_features]
+ * grad_input have size [batch_size, in_features]
+ * gamma have size [1, in_features]
+ */
+void CPUBatchNorm1DEvalInputGrad(ConstVector std, ConstMatrix grad_output,
+                                 Matrix grad_input, ConstVector gamma);
+
 /*
  * CPUBatchNorm1DParamGrad
  * Implements Batch Normalization backward pass for params
diff --git a/src/runtime/cpu/layers/cpubatchnorm1d.cpp b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
index 312162f..45ad5eb 100644
--- a/src/runtime/cpu/layers/cpubatchnorm1d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
@@ -66,6 +66,7 @@ void deepworks::cpu::CPUBatchNorm1D::forward(const std::vector<deepworks::Tensor
                                      is_trainable, eps, alpha,
                                      {m_gamma.data(), gamma_shape[0]},
                                      {m_beta.data(), beta_shape[0]});
+    m_use_batch_stats = is_trainable;
 }
 
 void deepworks::cpu::CPUBatchNorm1D::backward(const std::vector<deepworks::Tensor>& /* inputs */,
@@ -80,6 +81,14 @@ void deepworks::cpu::CPUBatchNorm1D::backward(const std::vector<deepworks::Tenso
           auto& grad_input            = grad_inputs.front();
           auto& grad_input_shape      = grad_input.shape();
 
+    if (!m_use_batch_stats) {
+        deepworks::CPUBatchNorm1DEvalInputGrad({m_std.data(), std_shape[0]},
+                                               {grad_output.data(), grad_output_shape[0], grad_output_shape[1]},
+                                               {grad_input.data(), grad_input_shape[0], grad_input_shape[1]},
+                                               {m_gamma.data(), gamma_shape[0]});
+        return;
+    }
+
     deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), input_centered_shape[0], input_centered_shape[1]},
                                        {m_std.data(), std_shape[0]},
                                        {grad_output.data(), grad_output_shape[0], grad_output_shape[1]},
diff --git a/src/runtime/cpu/layers/cpubatchnorm1d.hpp b/src/runtime/cpu/layers/cpubatchnorm1d.hpp
index 1d56152..a701a45 100644
--- a/src/runtime/cpu/layers/cpubatchnorm1d.hpp
+++ b/src/runtime/cpu/layers/cpubatchnorm1d.hpp
@@ -33,6 +33,7 @@ private:
     deepworks::Tensor m_grad_gamma, m_grad_beta;
     deepworks::Tensor m_std, m_running_mean, m_running_var;
     deepworks::Tensor m_input_centered;
+    bool              m_use_batch_stats = true; // mode of the last forward
 };
 
 } // namespace cpu
diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 65c6726..554d1b1 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -75,6 +75,8 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
                                      {m_gamma.data(), C},
                                      {m_beta.data(), C});
 
+    m_use_batch_stats = is_trainable;
+
     deepworks::utils::NHWC2NCHW(nhwc_out, output);
 }
 
@@ -92,11 +94,18 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
 
     // NB: CPUBatchNorm1DInputGrad accumulates to the already initiliazed input_grad.
     deepworks::utils::NCHW2NHWC(grad_input, nhwc_in);
-    deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), static_cast<int>(grad_output.total()) / C, C},
-                                       {m_std.data(),C},
-                                       {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
-                                       {nhwc_in.data(), static_cast<int>(nhwc_in.total()) / C, C},
-                                       {m_gamma.data(), C});
+    if (m_use_batch_stats) {
+        deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), static_cast<int>(grad_output.total()) / C, C},
+                                           {m_std.data(),C},
+                                           {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
+                                           {nhwc_in.data(), static_cast<int>(nhwc_in.total()) / C, C},
+                                           {m_gamma.data(), C});
+    } else {
+        deepworks::CPUBatchNorm1DEvalInputGrad({m_std.data(), C},
+                                               {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
+                                               {nhwc_in.data(), static_cast<int>(nhwc_in.total()) / C, C},
+                                               {m_gamma.data(), C});
+    }
 
     deepworks::utils::NHWC2NCHW(nhwc_in, grad_input);
 }
diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.hpp b/src/runtime/cpu/layers/cpubatchnorm2d.hpp
index a30b227..63ecc5e 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.hpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.hpp
@@ -33,6 +33,7 @@ private:
     deepworks::Tensor m_std, m_running_mean, m_running_var;
     deepworks::Tensor m_grad_gamma, m_grad_beta;
     deepworks::Tensor m_input_centered;
+    bool              m_use_batch_stats = true; // mode of the last forward
     deepworks::Tensor nhwc_in, nhwc_out;
 };
 
-- 
2.43.0


From cb3f3927079d2876fe540a2deeabfb53b9530c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:42 +0000
Subject: [PATCH 07/23] fix: scale the Dropout input gradient by 1 / (1 - p)

Forward scales the kept values, so must do its derivative.
---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index eddeac6..363c639 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -365,7 +365,7 @@ void deepworks::CPUDropoutInputGrad(const Tensor& mask,
     ConstVector m_vec(mask.data(), mask.total());
     Vector      gi_vec(grad_input.data(), grad_input.total());
 
-    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f));
+    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f) / (1 - p));
 }
 
 void deepworks::CPUGlobalAvgPoolingForward(const Tensor& input, Tensor& output) {
-- 
2.43.0


From ebfa9f0910732996650145d7440f861a4d9f1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:42 +0000
Subject: [PATCH 08/23] fix: Dropout backward after a forward in eval mode

Forward is the identity then, backward still applied the stale mask.
---
 src/runtime/cpu/layers/cpudropout.cpp | 6 ++++--
 src/runtime/cpu/layers/cpudropout.hpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpudropout.cpp b/src/runtime/cpu/layers/cpudropout.cpp
index 6bc9117..a6c1247 100644
--- a/src/runtime/cpu/layers/cpudropout.cpp
+++ b/src/runtime/cpu/layers/cpudropout.cpp
@@ -22,7 +22,8 @@ void deepworks::cpu::CPUDropout::forward(const std::vector<deepworks::Tensor>& i
     const auto& input  = inputs.front();
           auto& output = outputs.front();
 
-    if (m_info.params().at("mask").is_trainable()) {
+    m_use_mask = m_info.params().at("mask").is_trainable();
+    if (m_use_mask) {
         float p = m_info.impl().attrs["p"].get<float>();
         deepworks::CPUDropoutForward(input, m_mask, output, p);
     } else {
@@ -37,6 +38,7 @@ void deepworks::cpu::CPUDropout::backward(const std::vector<deepworks::Tensor>&
     const auto& grad_output = grad_outputs.front();
           auto& grad_input  = grad_inputs.front();
 
-    float p = m_info.impl().attrs["p"].get<float>();
+    // NB: If the last forward was identity nothing was dropped.
+    float p = m_use_mask ? m_info.impl().attrs["p"].get<float>() : 0.f;
     deepworks::CPUDropoutInputGrad(m_mask, grad_output, grad_input, p);
 }
diff --git a/src/runtime/cpu/layers/cpudropout.hpp b/src/runtime/cpu/layers/cpudropout.hpp
index bf2e6b0..e5c3b0c 100644
--- a/src/runtime/cpu/layers/cpudropout.hpp
+++ b/src/runtime/cpu/layers/cpudropout.hpp
@@ -27,6 +27,7 @@ private:
                   const std::vector<Tensor>& outputs);
 
     deepworks::Tensor m_mask;
+    bool              m_use_mask = true; // mode of the last forward
 };
 
 } // namespace cpu
-- 
2.43.0


From f8fb387c6ed9567aed92862f4d883b00d3c39c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:42 +0000
Subject: [PATCH 09/23] fix: keep the order of model inputs and outputs in the
 config

input_ids and output_ids were collected in topological order, so a model
with several inputs or outputs came back from Build/load with them
permuted.
---
 src/model/model.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 886d3f5..3d1132a 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -105,14 +105,15 @@ static void createConfig(TypedGraph& tgraph, dw::Model::Config& cfg) {
         const auto& d = tgraph.metadata(nh).get<Data>();
         deepworks::Model::Config::PlaceholderInfo ph_info{d.ph.shape(), d.id};
         cfg.ph_map.emplace(d.id, std::move(ph_info));
+    }
 
-        if (d.s == Data::Storage::INPUT) {
-            cfg.input_ids.push_back(d.id);
-        }
-
-        if (d.s == Data::Storage::OUTPUT) {
-            cfg.output_ids.push_back(d.id);
-        }
+    // NB: Keep the order in which user passed inputs and outputs.
+    const auto& info = tgraph.metadata().get<Info>();
+    for (const auto& nh : info.in_nhs) {
+        cfg.input_ids.push_back(tgraph.metadata(nh).get<Data>().id);
+    }
+    for (const auto& nh : info.out_nhs) {
+        cfg.output_ids.push_back(tgraph.metadata(nh).get<Data>().id);
     }
 
     sorted = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
-- 
2.43.0


From 3b107575dc63d683228dd4e105d8bcc704455453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:42 +0000
Subject: [PATCH 10/23] fix: throw when a model, state or config can't be saved

Failures to open, write, flush or close the file were ignored, so a save
to a full disk looked successful.
---
 src/serialization.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 87cbce1..0f0c0dc 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -13,6 +13,21 @@ void write_value(T value, std::ofstream& file) {
     file.write(reinterpret_cast<char*>(&value), sizeof(value));
 }
 
+// NB: Everything has to be on the disk or user has to know about it.
+static void finish_writing(std::ofstream& file) {
+    file.flush();
+    if (!file) {
+        DeepWorks_Throw() << "Failed to write the file";
+    }
+}
+
+static void close_file(std::ofstream& file, const std::string& path) {
+    file.close();
+    if (!file) {
+        DeepWorks_Throw() << "Failed to write the file: " << path;
+    }
+}
+
 template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
@@ -55,6 +70,7 @@ enum class SerializationKind : int {
 void dw::save_state(const Model::StateDict& state, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
     dw::save_state(state, file);
+    close_file(file, path);
 }
 
 void dw::save_state(const Model::StateDict& state, std::ofstream& file) {
@@ -67,6 +83,7 @@ void dw::save_state(const Model::StateDict& state, std::ofstream& file) {
         file.write(reinterpret_cast<char*>(tensor.data()),
                    tensor.total() * sizeof(dw::Tensor::Type));
     }
+    finish_writing(file);
 }
 
 void dw::load_state(Model::StateDict& state, const std::string& path) {
@@ -146,6 +163,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
     }
 
     file << "}";
+    close_file(file, path);
 }
 
 void write_attribute(const dw::Attribute& attr, std::ofstream& file) {
@@ -232,6 +250,7 @@ dw::Attributes read_attributes(std::ifstream& file) {
 void dw::save_cfg(const Model::Config& cfg, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
     dw::save_cfg(cfg, file);
+    close_file(file, path);
 }
 
 void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
@@ -257,6 +276,7 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
         write_sequence(op_info.out_ids, file);
         write_attributes(op_info.attrs, file);
     }
+    finish_writing(file);
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
@@ -300,6 +320,7 @@ void dw::save(const dw::Model& model, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
     dw::save_cfg(model.cfg()  , file);
     dw::save_state(model.state(), file);
+    close_file(file, path);
 }
 
 dw::Model dw::load(const std::string& path) {
-- 
2.43.0


From 87bf8510d4bdde7e370c2142607415c3e04d2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:42 +0000
Subject: [PATCH 11/23] fix: throw when a model, state or config can't be read
 completely

Missing, truncated or unreadable files were accepted: the values that
couldn't be read were silently zero or kept what they were before.
---
 src/serialization.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 0f0c0dc..2e3bb58 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -28,10 +28,17 @@ static void close_file(std::ofstream& file, const std::string& path) {
     }
 }
 
+static void check_read(const std::ifstream& file) {
+    if (!file) {
+        DeepWorks_Throw() << "Failed to read the file";
+    }
+}
+
 template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
     file.read(reinterpret_cast<char*>(&value), sizeof(value));
+    check_read(file);
     return value;
 }
 
@@ -49,6 +56,7 @@ T read_sequence(std::ifstream& file) {
     seq.resize(size);
     file.read(reinterpret_cast<char*>(seq.data()),
               size * sizeof(typename T::value_type));
+    check_read(file);
     return seq;
 }
 
@@ -57,8 +65,10 @@ template <typename T, int S>
 std::array<T, S> read_array(std::ifstream& file) {
     std::array<T, S> seq;
     auto size = read_value<size_t>(file);
+    DeepWorks_Assert(size == S && "Unexpected array size");
     file.read(reinterpret_cast<char*>(seq.data()),
               size * sizeof(T));
+    check_read(file);
     return seq;
 }
 
@@ -118,6 +128,7 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
 
         file.read(reinterpret_cast<char*>(it->second.data()),
                   it->second.total() * sizeof(dw::Tensor::Type));
+        check_read(file);
     }
 }
 
@@ -280,7 +291,10 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-    std::ifstream file(path, std::ios::out | std::ios::binary);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
+    if (!file.is_open()) {
+        DeepWorks_Throw() << "Failed to open the file: " << path;
+    }
     return dw::load_cfg(file);
 }
 
@@ -325,6 +339,9 @@ void dw::save(const dw::Model& model, const std::string& path) {
 
 dw::Model dw::load(const std::string& path) {
     std::ifstream file(path, std::ios::in | std::ios::binary);
+    if (!file.is_open()) {
+        DeepWorks_Throw() << "Failed to open the file: " << path;
+    }
     auto model = dw::Model::Build(dw::load_cfg(file));
     dw::load_state(model.state(), file);
     return model;
-- 
2.43.0


From 3759c53c52f3146bc53807d72ce368baef029616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:20 +0000
Subject: [PATCH 12/23] fix: throw when an image file can't be opened

fclose(nullptr) crashed, and a path that isn't null-terminated was opened with the characters behind it.
---
 src/io/image_reader.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 75474c6..c0862a0 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -1,5 +1,6 @@
 #include <stdexcept>
 #include <sstream>
+#include <string>
 
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
@@ -27,10 +28,9 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
     struct jpeg_error_mgr err{};
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
@@ -99,9 +99,8 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-- 
2.43.0


From 95785caca0a07b930d09e82589c6aa260d344239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:04 +0000
Subject: [PATCH 13/23] fix: throw on JPEG decoding errors and on truncated
 JPEG files

libjpeg's default error handler exits the process, and a truncated file was completed with invented pixels.
---
 src/io/image_reader.cpp | 107 ++++++++++++++++++++++++++++++----------
 1 file changed, 80 insertions(+), 27 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index c0862a0..00fd19c 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -6,7 +6,10 @@
 #include <deepworks/utils/assert.hpp>
 
 #ifdef HAVE_JPEG
+#include <csetjmp>
+#include <cstdio>
 #include <jpeglib.h>
+#include <jerror.h>
 #endif
 
 #ifdef HAVE_PNG
@@ -24,10 +27,73 @@ bool IsJpegFile(std::string_view path) {
     return path.substr(path.find_last_of(".") + 1) == "jpg" || path.substr(path.find_last_of(".") + 1) == "jpeg";
 }
 
+#ifdef HAVE_JPEG
+// NB: The default handlers print the message and exit the process.
+struct JpegErrorManager {
+    struct jpeg_error_mgr base;
+    jmp_buf               jump;
+};
+
+void OnJpegError(j_common_ptr cinfo) {
+    longjmp(reinterpret_cast<JpegErrorManager*>(cinfo->err)->jump, 1);
+}
+
+void OnJpegMessage(j_common_ptr cinfo, int msg_level) {
+    if (msg_level >= 0) {
+        return;
+    }
+    if (cinfo->err->num_warnings++ == 0) {
+        cinfo->err->output_message(cinfo);
+    }
+    // NB: libjpeg invents the missing part of a truncated image.
+    if (cinfo->err->msg_code == JWRN_JPEG_EOF) {
+        OnJpegError(cinfo);
+    }
+}
+
+// NB: libjpeg errors end up in setjmp, so these functions must not have objects to destroy.
+bool CreateJpeg(struct jpeg_decompress_struct& cinfo, JpegErrorManager& err) {
+    if (setjmp(err.jump)) {
+        return false;
+    }
+    jpeg_create_decompress(&cinfo);
+    return true;
+}
+
+bool StartJpeg(struct jpeg_decompress_struct& cinfo, JpegErrorManager& err, FILE* infile, JSAMPARRAY* buffer) {
+    if (setjmp(err.jump)) {
+        return false;
+    }
+    jpeg_stdio_src(&cinfo, infile);
+
+    (void) jpeg_read_header(&cinfo, true);
+    (void) jpeg_start_decompress(&cinfo);
+
+    size_t row_stride = cinfo.output_width * cinfo.output_components;
+    *buffer = (*cinfo.mem->alloc_sarray)((j_common_ptr) &cinfo, JPOOL_IMAGE, row_stride, 1);
+    return true;
+}
+
+bool ReadJpegRow(struct jpeg_decompress_struct& cinfo, JpegErrorManager& err, JSAMPARRAY buffer) {
+    if (setjmp(err.jump)) {
+        return false;
+    }
+    return jpeg_read_scanlines(&cinfo, buffer, 1) == 1;
+}
+
+bool FinishJpeg(struct jpeg_decompress_struct& cinfo, JpegErrorManager& err) {
+    if (setjmp(err.jump)) {
+        return false;
+    }
+    (void) jpeg_finish_decompress(&cinfo);
+    return true;
+}
+#endif
+
 void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
-    struct jpeg_error_mgr err{};
+    JpegErrorManager err{};
     FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
@@ -44,21 +110,13 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
         fclose(infile);
     };
 
-    auto finish_and_destroy = [&]() {
-        (void) jpeg_finish_decompress(&cinfo);
-        destroy();
-    };
-
     try {
-        cinfo.err = jpeg_std_error(&err);
-        jpeg_create_decompress(&cinfo);
-        jpeg_stdio_src(&cinfo, infile);
-
-        (void) jpeg_read_header(&cinfo, true);
-        (void) jpeg_start_decompress(&cinfo);
+        cinfo.err = jpeg_std_error(&err.base);
+        err.base.error_exit   = OnJpegError;
+        err.base.emit_message = OnJpegMessage;
 
-        size_t row_stride = cinfo.output_width * cinfo.output_components;
-        buffer = (*cinfo.mem->alloc_sarray)((j_common_ptr) &cinfo, JPOOL_IMAGE, row_stride, 1);
+        DeepWorks_Assert(CreateJpeg(cinfo, err) && "Error during jpeg init");
+        DeepWorks_Assert(StartJpeg(cinfo, err, infile, &buffer) && "Error during jpeg start");
 
         width = static_cast<int>(cinfo.output_width);
         height = static_cast<int>(cinfo.output_height);
@@ -69,28 +127,23 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
         } else {
             DeepWorks_Assert(height * width * channels == out_tensor.total());
         }
-    } catch (...) {
-        // NB: jpeg_finish_decompress cause "Application transferred to few scanlines"
-        destroy();
-        throw;
-    }
 
-    deepworks::Tensor::Type *dst_data = out_tensor.data();
+        deepworks::Tensor::Type *dst_data = out_tensor.data();
 
-    const size_t elements_per_h_channel = width * channels;
-    size_t h = 0;
-    // it's works if we have default hwc layout for tensor
-    try {
+        const size_t elements_per_h_channel = width * channels;
+        size_t h = 0;
+        // it's works if we have default hwc layout for tensor
         while (cinfo.output_scanline < cinfo.output_height) {
-            (void) jpeg_read_scanlines(&cinfo, buffer, 1);
+            DeepWorks_Assert(ReadJpegRow(cinfo, err, buffer) && "Error during read image");
             std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
             ++h;
         }
+        DeepWorks_Assert(FinishJpeg(cinfo, err) && "Error during jpeg finish");
     } catch (...) {
-        finish_and_destroy();
+        destroy();
         throw;
     }
-    finish_and_destroy();
+    destroy();
 
 #else
     DeepWorks_Assert(false && "Couldn't find LIBJPEG");
-- 
2.43.0


From 9d704f08316b239b1d3f08591484165ea9cccee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 14/23] fix: free everything and throw on every PNG read error

The rows leaked when decoding failed, local variables changed after setjmp were used after longjmp, and a file shorter than the signature was compared with uninitialised bytes.
---
 src/io/image_reader.cpp | 56 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 00fd19c..5563241 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -17,6 +17,7 @@
 #endif
 
 #include <algorithm> // std::copy_n
+#include <vector>
 
 namespace {
 bool IsPngFile(std::string_view path) {
@@ -150,6 +151,29 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #endif
 }
 
+#ifdef HAVE_PNG
+// NB: libpng errors end up in setjmp, so these functions must not have objects to destroy.
+bool ReadPngInfo(png_structp png_ptr, png_infop info_ptr, FILE* infile) {
+    if (setjmp(png_jmpbuf(png_ptr))) {
+        return false;
+    }
+    png_init_io(png_ptr, infile);
+    png_set_sig_bytes(png_ptr, 8);
+
+    png_read_info(png_ptr, info_ptr);
+    png_read_update_info(png_ptr, info_ptr);
+    return true;
+}
+
+bool ReadPngRows(png_structp png_ptr, png_bytepp row_pointers) {
+    if (setjmp(png_jmpbuf(png_ptr))) {
+        return false;
+    }
+    png_read_image(png_ptr, row_pointers);
+    return true;
+}
+#endif
+
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
     FILE *infile = fopen(std::string(path).c_str(), "rb");
@@ -157,33 +181,26 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-    png_bytep*  row_pointers = nullptr;
     png_structp png_ptr{};
     png_infop   info_ptr{};
     try {
         char header[8];
-        // FIXME: Handle that properly.
-        size_t sz = fread(header, 1, 8, infile);
-        (void)sz;
-        if (png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
+        if (fread(header, 1, 8, infile) != 8 ||
+            png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
             DeepWorks_Throw() << "File is not a PNG file: " << path;
         }
         png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
+        DeepWorks_Assert(png_ptr && "Can't create png struct");
 
         info_ptr = png_create_info_struct(png_ptr);
+        DeepWorks_Assert(info_ptr && "Can't create png info");
 
-        DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during init_io");
-
-        png_init_io(png_ptr, infile);
-        png_set_sig_bytes(png_ptr, 8);
-
-        png_read_info(png_ptr, info_ptr);
+        DeepWorks_Assert(ReadPngInfo(png_ptr, info_ptr, infile) && "Error during init_io");
 
         int width = static_cast<int>(png_get_image_width(png_ptr, info_ptr));
         int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
         int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
 
-        png_read_update_info(png_ptr, info_ptr);
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
         } else {
@@ -192,28 +209,23 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
         deepworks::Tensor::Type *dst_data = out_tensor.data();
         /* read file */
-        DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during read image");
-
-        row_pointers = (png_bytep *) malloc(sizeof(png_bytep) * height);
+        const size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
+        std::vector<png_byte>  rows(row_bytes * height);
+        std::vector<png_bytep> row_pointers(height);
         for (int y = 0; y < height; y++) {
-            row_pointers[y] = (png_byte *) malloc(png_get_rowbytes(png_ptr, info_ptr));
+            row_pointers[y] = rows.data() + y * row_bytes;
         }
-        png_read_image(png_ptr, row_pointers);
+        DeepWorks_Assert(ReadPngRows(png_ptr, row_pointers.data()) && "Error during read image");
         // it's works if we have default hwc layout for tensor
         const size_t elements_per_h_channel = width * channels;
         for (int h = 0; h < height; ++h) {
             std::copy_n(row_pointers[h], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
         }
-        for (int y = 0; y < height; y++) {
-            free(row_pointers[y]);
-        }
     } catch (...) {
-        free(row_pointers);
         fclose(infile);
         png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
         throw;
     }
-    free(row_pointers);
     fclose(infile);
     png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
 #else
-- 
2.43.0


From bb87a8f6c562d07523b5ef4654db03a6973eb32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:19 +0000
Subject: [PATCH 15/23] fix: deliver 8-bit pixels of palette, low-depth and
 16-bit PNG images

Palette images gave indices, packed samples were read past the end of the row, and 16-bit samples were mixed up.
---
 src/io/image_reader.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 5563241..04e38ff 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -161,6 +161,20 @@ bool ReadPngInfo(png_structp png_ptr, png_infop info_ptr, FILE* infile) {
     png_set_sig_bytes(png_ptr, 8);
 
     png_read_info(png_ptr, info_ptr);
+
+    // NB: One byte per sample, colors instead of palette indices.
+    const auto color_type = png_get_color_type(png_ptr, info_ptr);
+    const auto bit_depth  = png_get_bit_depth(png_ptr, info_ptr);
+    if (color_type == PNG_COLOR_TYPE_PALETTE) {
+        png_set_palette_to_rgb(png_ptr);
+    }
+    if (color_type == PNG_COLOR_TYPE_GRAY && bit_depth < 8) {
+        png_set_expand_gray_1_2_4_to_8(png_ptr);
+    }
+    if (bit_depth == 16) {
+        png_set_strip_16(png_ptr);
+    }
+    (void) png_set_interlace_handling(png_ptr);
     png_read_update_info(png_ptr, info_ptr);
     return true;
 }
-- 
2.43.0


From 04fb5115c0f0b25117a13610f93de538ac785bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:15 +0000
Subject: [PATCH 16/23] fix: keep a tensor valid when its allocation fails

The shape was changed before the memory was obtained, and the number of elements of a large shape overflowed.
---
 src/runtime/tensor.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 3fb2b37..a32e1bd 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -2,6 +2,7 @@
 #include <deepworks/initializers.hpp>
 #include <deepworks/utils/assert.hpp>
 
+#include <limits>
 #include <numeric>
 #include <algorithm>
 #include <ostream>
@@ -51,6 +52,16 @@ dw::Strides calculateStrides(const dw::Shape& shape) {
     return strides;
 }
 
+size_t calculateTotal(const dw::Shape& shape) {
+    size_t total = 1;
+    for (int dim : shape) {
+        bool fits = dim == 0 || total <= std::numeric_limits<size_t>::max() / sizeof(dw::Tensor::Type) / dim;
+        DeepWorks_Assert(fits && "Tensor is too large");
+        total *= dim;
+    }
+    return total;
+}
+
 dw::Tensor::Tensor() : m_descriptor(new Descriptor()) {
 }
 
@@ -70,10 +81,7 @@ void dw::Tensor::init(const dw::Shape& shape) {
 
     m_descriptor->shape   = shape;
     m_descriptor->strides = calculateStrides(shape);
-    m_descriptor->total   = std::accumulate(shape.begin(),
-                                            shape.end(),
-                                            1,
-                                            std::multiplies<>());
+    m_descriptor->total   = calculateTotal(shape);
 }
 
 void dw::Tensor::copyTo(dw::Tensor& rhs) const {
@@ -87,19 +95,25 @@ void dw::Tensor::copyTo(dw::Tensor& rhs) const {
 }
 
 void dw::Tensor::allocate(const dw::Shape& shape) {
-    init(shape);
+    // NB: The tensor must remain valid if there isn't enough memory.
+    dw::Tensor tensor;
+    tensor.init(shape);
+
+    auto& descriptor = *tensor.m_descriptor;
+    descriptor.memory.reset(new Type[descriptor.total],
+                            [](float* p){ delete[] p; });
+    descriptor.data = descriptor.memory.get();
 
-    m_descriptor->memory.reset(new Type[m_descriptor->total],
-                               [](float* p){ delete[] p; });
-    m_descriptor->data = m_descriptor->memory.get();
+    *m_descriptor = std::move(descriptor);
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
     auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
     DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
 
+    auto strides = calculateStrides(shape);
     m_descriptor->shape = shape;
-    m_descriptor->strides = calculateStrides(shape);
+    m_descriptor->strides = std::move(strides);
 }
 
 dw::Tensor::Type* dw::Tensor::data() const {
-- 
2.43.0


From 21939c43e59c8f95e95df15e459ca9fd90af388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:33 +0000
Subject: [PATCH 17/23] fix: let the exception constructor report lack of
 memory

It allocates, so noexcept terminated the process.
---
 include/deepworks/utils/assert.hpp | 2 +-
 src/utils/assert.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/deepworks/utils/assert.hpp b/include/deepworks/utils/assert.hpp
index 597cab1..a3e6796 100644
--- a/include/deepworks/utils/assert.hpp
+++ b/include/deepworks/utils/assert.hpp
@@ -9,7 +9,7 @@ namespace utils {
 
 class DeepWorksException : public std::exception {
 public:
-    DeepWorksException(int line, const std::string& filename, const std::string& func) noexcept;
+    DeepWorksException(int line, const std::string& filename, const std::string& func);
     DeepWorksException(const DeepWorksException& that) noexcept = default;
 
     const char* what() const noexcept override;
diff --git a/src/utils/assert.cpp b/src/utils/assert.cpp
index 2deeb8d..bd54002 100644
--- a/src/utils/assert.cpp
+++ b/src/utils/assert.cpp
@@ -2,7 +2,7 @@
 
 deepworks::utils::DeepWorksException::DeepWorksException(int line,
                                                          const std::string& filename,
-                                                         const std::string& func) noexcept
+                                                         const std::string& func)
     : m_impl(new deepworks::utils::DeepWorksException::Impl()) {
     m_impl->line     = line;
     m_impl->filename = filename;
-- 
2.43.0


From 26d4933889444d79949c08575b884571ff64a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:09 +0000
Subject: [PATCH 18/23] fix: carry exceptions out of the parallel convolution
 loops

An exception that leaves a parallel region terminates the process.
---
 src/runtime/cpu/kernels/kernels.cpp | 56 ++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 363c639..fb88c79 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -3,6 +3,8 @@
 #include <deepworks/initializers.hpp>
 #include <deepworks/utils/utils.hpp>
 
+#include <exception>
+
 enum Input  {N, C, H, W};
 enum Kernel {KH, KW};
 
@@ -103,16 +105,26 @@ void deepworks::CPUConvolutionalForward(const Tensor& input,
 
     ConstMatrix W{weights.data(), c_out, rows};
     ConstColVector bias_vec{bias.data(), c_out};
+    std::exception_ptr error;
     #pragma omp parallel for
     for (size_t b = 0; b < batch; b++) {
-        Tensor src_tensor({1, c_in, h_in, w_in}, input.data() + b * input_offset);
-        Tensor col_plane({rows, cols}, im2col_buf.data() + (b * rows * cols));
-        im2col(src_tensor, col_plane, kernel, padding, stride);
-
-        ConstMatrix X{col_plane.data(), rows, cols};
-        Matrix result{output.data() + b * output_offset, c_out, cols};
-        result = W * X;
-        result = result.colwise() + bias_vec;
+        // NB: An exception must not leave the parallel region.
+        try {
+            Tensor src_tensor({1, c_in, h_in, w_in}, input.data() + b * input_offset);
+            Tensor col_plane({rows, cols}, im2col_buf.data() + (b * rows * cols));
+            im2col(src_tensor, col_plane, kernel, padding, stride);
+
+            ConstMatrix X{col_plane.data(), rows, cols};
+            Matrix result{output.data() + b * output_offset, c_out, cols};
+            result = W * X;
+            result = result.colwise() + bias_vec;
+        } catch (...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
+    }
+    if (error) {
+        std::rethrow_exception(error);
     }
 }
 
@@ -138,17 +150,27 @@ void deepworks::CPUConvolutionalInputGrad(const Tensor& grad_output,
     int cols = h_out * w_out;
     int output_offset = c_out * h_out * w_out;
 
+    std::exception_ptr error;
     #pragma omp parallel for
     for (size_t b = 0; b < batch; b++) {
-        ConstMatrix weights_mat{weights.data(), c_out, rows};
-        Tensor grad_im2col_buf({rows, cols});
-        ConstMatrix grad_output_mat{grad_output.data() + b * output_offset, c_out, cols};
-
-        Matrix grad_col_mat{grad_im2col_buf.data(), rows, cols};
-        grad_col_mat = weights_mat.transpose() * grad_output_mat;
-
-        Tensor grad_input_plane({1, c_in, h_in, w_in}, grad_input.data() + b * c_in * h_in * w_in);
-        col2im(grad_im2col_buf, grad_input_plane, kernel, padding, stride);
+        // NB: An exception must not leave the parallel region.
+        try {
+            ConstMatrix weights_mat{weights.data(), c_out, rows};
+            Tensor grad_im2col_buf({rows, cols});
+            ConstMatrix grad_output_mat{grad_output.data() + b * output_offset, c_out, cols};
+
+            Matrix grad_col_mat{grad_im2col_buf.data(), rows, cols};
+            grad_col_mat = weights_mat.transpose() * grad_output_mat;
+
+            Tensor grad_input_plane({1, c_in, h_in, w_in}, grad_input.data() + b * c_in * h_in * w_in);
+            col2im(grad_im2col_buf, grad_input_plane, kernel, padding, stride);
+        } catch (...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
+    }
+    if (error) {
+        std::rethrow_exception(error);
     }
 }
 
-- 
2.43.0


From 2ea8f92e2f1587fab24ac98e503bf10fa10db4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:39 +0000
Subject: [PATCH 19/23] fix: compare image and tensor sizes without integer
 overflow

---
 src/io/image_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 04e38ff..d877f90 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -126,7 +126,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
         } else {
-            DeepWorks_Assert(height * width * channels == out_tensor.total());
+            DeepWorks_Assert(static_cast<size_t>(height) * width * channels == out_tensor.total());
         }
 
         deepworks::Tensor::Type *dst_data = out_tensor.data();
@@ -218,7 +218,7 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
         } else {
-            DeepWorks_Assert(height * width * channels == out_tensor.total());
+            DeepWorks_Assert(static_cast<size_t>(height) * width * channels == out_tensor.total());
         }
 
         deepworks::Tensor::Type *dst_data = out_tensor.data();
-- 
2.43.0


From 7b966363b582ca37a316d8e9f5a31bcb38325676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 20/23] fix: use the documented bound in xavierUniform

---
 src/initializers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/initializers.cpp b/src/initializers.cpp
index 0c0fe59..baa4595 100644
--- a/src/initializers.cpp
+++ b/src/initializers.cpp
@@ -20,7 +20,7 @@ void deepworks::initializer::xavierUniform(deepworks::Tensor& tensor) {
     DeepWorks_Assert(shape.size() >= 1);
     int inp_features = shape.size() == 2 ? shape[0] : tensor.total() / shape[0];
     int out_features = shape.size() == 2 ? shape[1] : shape[0];
-    auto a = std::sqrt(6.0) / (inp_features + out_features);
+    auto a = std::sqrt(6.0 / (inp_features + out_features));
     std::uniform_real_distribution<float> dist(-a, a);
     std::generate_n(tensor.data(), tensor.total(), [&dist, &gen]() { return dist(gen); });
 }
-- 
2.43.0


From acf724b39dedc42fc0a7eee4f97a6859a2dd3b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 21/23] fix: reject negative and overflowing shapes in
 Tensor::reshape

---
 src/runtime/tensor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index a32e1bd..e2fcf21 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -3,7 +3,6 @@
 #include <deepworks/utils/assert.hpp>
 
 #include <limits>
-#include <numeric>
 #include <algorithm>
 #include <ostream>
 
@@ -108,8 +107,10 @@ void dw::Tensor::allocate(const dw::Shape& shape) {
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
-    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
-    DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
+    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
+                                         [](int dim) { return dim < 0; });
+    DeepWorks_Assert(!have_negative_dim && "Cannot reshape tensor to dynamic shape.");
+    DeepWorks_Assert(calculateTotal(shape) == m_descriptor->total && "Total sizes must be equal");
 
     auto strides = calculateStrides(shape);
     m_descriptor->shape = shape;
-- 
2.43.0


From 8f24fe90af7ffaa8c474b00e15e0adb08f3f02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 22/23] fix: iris sample: report a data set that cannot be
 opened or read to its end

---
 samples/iris/utility.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/samples/iris/utility.cpp b/samples/iris/utility.cpp
index 74013b4..b498a6b 100644
--- a/samples/iris/utility.cpp
+++ b/samples/iris/utility.cpp
@@ -31,6 +31,9 @@ custom::IrisCSVDataset::IrisCSVDataset(const std::string& csv_path) {
 
     std::ifstream iris_dataset;
     iris_dataset.open(csv_path);
+    if (!iris_dataset.is_open()) {
+        throw std::runtime_error("Failed to open: " + csv_path);
+    }
 
     std::string iris;
     // read headers
@@ -48,6 +51,11 @@ custom::IrisCSVDataset::IrisCSVDataset(const std::string& csv_path) {
 
         m_info.push_back(IrisInfo{sepal_length, sepal_width, petal_length, petal_width, label});
     }
+
+    // NB: The loop above also ends when reading fails.
+    if (iris_dataset.bad()) {
+        throw std::runtime_error("Failed to read: " + csv_path);
+    }
 }
 
 size_t custom::IrisCSVDataset::size() {
-- 
2.43.0


From 0d242ef506907996ca45e5da5e86782d65ac06b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 23/23] fix: cifar100 sample: labels do not depend on the order
 in which directories are listed

---
 samples/cifar100/utility.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/samples/cifar100/utility.cpp b/samples/cifar100/utility.cpp
index fe681c8..c7ba7ec 100644
--- a/samples/cifar100/utility.cpp
+++ b/samples/cifar100/utility.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <filesystem>
 #include <iostream>
+#include <vector>
 namespace dw = deepworks;
 namespace fs = std::filesystem;
 
@@ -15,14 +16,22 @@ void custom::normalize(dw::Tensor& t, float scale) {
 }
 
 custom::CIFAR100Dataset::CIFAR100Dataset(const std::string& root) {
+    // NB: Labels are numbered in order of appearance, but the order in which
+    // a directory is listed may differ from one data set or file system to another.
+    std::vector<fs::path> dirs;
     for (const auto & dir : fs::directory_iterator(root)) {
+        dirs.push_back(dir.path());
+    }
+    std::sort(dirs.begin(), dirs.end());
+
+    for (const auto & dir : dirs) {
         int label;
-        auto res_find = dir2label_.find(dir.path().filename());
+        auto res_find = dir2label_.find(dir.filename());
         if (res_find != dir2label_.end()) {
             label = res_find->second;
         } else {
             label = label_counter_;
-            dir2label_[dir.path().filename()] = label_counter_;
+            dir2label_[dir.filename()] = label_counter_;
             label_counter_++;
         }
 
@@ -30,7 +39,7 @@ custom::CIFAR100Dataset::CIFAR100Dataset(const std::string& root) {
             throw std::logic_error("Unsupported label\n");
         }
 
-        for (const auto& filename : fs::directory_iterator(dir.path())) {
+        for (const auto& filename : fs::directory_iterator(dir)) {
             m_info.push_back(custom::CIFAR100Dataset::DataInfo{filename.path(), label});
         }
     }
-- 
2.43.0

