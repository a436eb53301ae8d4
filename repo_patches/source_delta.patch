From 57e6257be0541ab48b724f58c14a879698d4d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 01/21] fix: network records inference mode when switched to
 inference

---
 src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index f8e5557..ccb6a72 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -195,7 +195,7 @@ impl Network {
         }
     }
     pub fn switch_to_inference(&mut self) {
-        self.run_state = NetworkRunState::Training;
+        self.run_state = NetworkRunState::Inference;
         for layer in self.layers.iter_mut() {
             layer.switch_to_inference();
         }
-- 
2.43.0


From f8ed3cdb1455339ba658bcafabb85c15c588c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 02/21] fix: refuse a zero stride or an oversized kernel
 instead of panicking

---
 src/tensor.rs                        | 9 +++++++++
 src/tensor/operations/convolution.rs | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index fa0498a..966ced9 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -449,6 +449,10 @@ impl Tensor {
         kernel_shape: &TensorShape,
         stride: u32,
     ) -> bool {
+        // A zero stride or a kernel larger than the image never fits
+        if stride == 0 || kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+            return false;
+        }
         if (image_shape.di - kernel_shape.di) % stride != 0 {
             return false;
         }
@@ -485,6 +489,11 @@ impl Tensor {
             return false;
         }
 
+        // A zero stride or a mask larger than the image never fits
+        if stride == 0 || mask_shape.di > image_shape.di || mask_shape.dj > image_shape.dj {
+            return false;
+        }
+
         // Check if the mask fitst in the image given the stride
         // We assume that the image is properly padded
         if (image_shape.di - mask_shape.di) % stride != 0 {
diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index b695c8f..df41e06 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -16,6 +16,11 @@ pub fn check_convolution_dimensions(
         return Err("Third dimension of image and shpe don't match");
     }
 
+    // A zero stride or a kernel larger than the image never fits
+    if stride == 0 || kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+        return Err("Kernel does not fit in the image");
+    }
+
     // Check if the kernel fitst in the image given the stride
     // We assume that the image is properly padded
     if (image_shape.di - kernel_shape.di) % stride != 0 {
-- 
2.43.0


From cdc316fcb98093c39bdbd01d1d4d12fad50f8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 03/21] fix: convolution input gradient covers exactly the
 overlapping windows

---
 src/tensor/operations/convolution.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index df41e06..8ca9262 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -220,15 +220,19 @@ pub fn convolution_backprop_outgoing_gradient(
                 for k in 0..incoming_gradient_shape.dk {
                     let kernel = &(kernels[k as usize]);
                     let kernel_shape = kernel.get_shape();
-                    let i_start = (a as i32 - kernel_shape.di as i32) / stride as i32 + 1;
-                    // Now converting to unsigned
-                    let i_start = i_start.max(0) as u32;
+                    // Only the output positions whose kernel window covers (a, b)
+                    let mut i_start = 0;
+                    if a >= kernel_shape.di {
+                        i_start = (a - kernel_shape.di) / stride + 1;
+                    }
                     let mut i_stop = a / stride + 1;
-                    i_stop = i_stop.min(kernel_shape.di);
-                    let j_start = (b as i32 - kernel_shape.dj as i32) / stride as i32 + 1;
-                    let j_start = j_start.max(0) as u32;
+                    i_stop = i_stop.min(incoming_gradient_shape.di);
+                    let mut j_start = 0;
+                    if b >= kernel_shape.dj {
+                        j_start = (b - kernel_shape.dj) / stride + 1;
+                    }
                     let mut j_stop = b / stride + 1;
-                    j_stop = j_stop.min(kernel_shape.dj);
+                    j_stop = j_stop.min(incoming_gradient_shape.dj);
                     for j in j_start..j_stop {
                         for i in i_start..i_stop {
                             let incoming_gradient_id = incoming_gradients
-- 
2.43.0


From 332db74c936206b910841a1cb6cf689732ae2323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 04/21] fix: kernel gradient only uses the output channel of
 that kernel

---
 src/tensor/operations/convolution.rs | 30 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 8ca9262..8fcc735 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -285,21 +285,21 @@ pub fn convolution_backprop_kernel(
             for l in 0..kernel_shape.di {
                 let mut convolution_result: f32 = 0.0;
 
-                // Loop over incoming gradient dimensions and multiply - add
-                for k in 0..result_shape.dk {
-                    for j in 0..result_shape.dj {
-                        for i in 0..result_shape.di {
-                            let incoming_gradient_id = incoming_gradients
-                                .get_data_index(&TensorIndex { i: i, j: j, k: k })
-                                as usize;
-                            let image_id = image.get_data_index(&TensorIndex {
-                                i: l + i * stride,
-                                j: m + j * stride,
-                                k: n,
-                            }) as usize;
-                            convolution_result += image.data[image_id]
-                                * incoming_gradients.data[incoming_gradient_id];
-                        }
+                // Loop over the incoming gradient of this kernel's channel and multiply - add
+                for j in 0..result_shape.dj {
+                    for i in 0..result_shape.di {
+                        let incoming_gradient_id = incoming_gradients.get_data_index(&TensorIndex {
+                            i: i,
+                            j: j,
+                            k: kernel_channel,
+                        }) as usize;
+                        let image_id = image.get_data_index(&TensorIndex {
+                            i: l + i * stride,
+                            j: m + j * stride,
+                            k: n,
+                        }) as usize;
+                        convolution_result +=
+                            image.data[image_id] * incoming_gradients.data[incoming_gradient_id];
                     }
                 }
                 let kernel_gradient_id =
-- 
2.43.0


From bcf297279fe829d786d1e071d1080ff6550ae0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 05/21] fix: kernel gradients accumulate over backward passes
 like the other gradients

---
 src/tensor/operations/convolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 8fcc735..c80a2a8 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -305,7 +305,8 @@ pub fn convolution_backprop_kernel(
                 let kernel_gradient_id =
                     kernel_gradient.get_data_index(&TensorIndex { i: l, j: m, k: n }) as usize;
 
-                kernel_gradient.data[kernel_gradient_id] = convolution_result;
+                // Gradients accumulate until they are cleared
+                kernel_gradient.data[kernel_gradient_id] += convolution_result;
             }
         }
     }
-- 
2.43.0


From b592de7fbbd6c82f26e42859a016bf1107c723b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 06/21] fix: convolutional backward requires training mode and
 applies the relu mask

---
 src/layer/convolutional.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index da6669c..d565502 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -233,6 +233,17 @@ impl Layer for ConvolutionalLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
+        if incoming_gradient.get_shape() != self.output_shape {
+            return Err("Incoming gradient does not match the output of the layer");
+        }
+        if input.get_shape() != self.input_shape
+            || outgoing_gradient.get_shape() != self.input_shape
+        {
+            return Err("Input or outgoing gradient does not match the input of the layer");
+        }
         // Relu backprop
         // This repurposes the relu mask
         tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
@@ -244,7 +255,7 @@ impl Layer for ConvolutionalLayer {
         // kernel gradients
         for i in 0..self.kernels.len() {
             tensor::operations::convolution::convolution_backprop_kernel(
-                incoming_gradient,
+                &self.relu_mask,
                 input,
                 self.stride,
                 i as u32,
@@ -254,7 +265,7 @@ impl Layer for ConvolutionalLayer {
 
         // Outgoing gradient
         tensor::operations::convolution::convolution_backprop_outgoing_gradient(
-            incoming_gradient,
+            &self.relu_mask,
             &self.kernels,
             self.stride,
             outgoing_gradient,
-- 
2.43.0


From 2e787bfa0444c02739f895995c740706fe59f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 07/21] fix: convolutional layer computes and clears its bias
 gradients

---
 src/layer/convolutional.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index d565502..191991f 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -1,5 +1,5 @@
 use super::SerializedLayer;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::{self, Tensor};
 use crate::{layer::Layer, network::NetworkRunState};
 use std::collections::HashMap;
@@ -249,6 +249,18 @@ impl Layer for ConvolutionalLayer {
         tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
 
         // Bias gradient
+        // Every output value of a channel has the bias of that channel added to it
+        for k in 0..self.output_shape.dk {
+            let bias_index = TensorIndex::zero();
+            let bias_gradient = &mut self.bias_gradients[k as usize];
+            let mut running_gradient = bias_gradient.get_item(&bias_index);
+            for j in 0..self.output_shape.dj {
+                for i in 0..self.output_shape.di {
+                    running_gradient += self.relu_mask.get_item(&TensorIndex { i: i, j: j, k: k });
+                }
+            }
+            bias_gradient.set_item(&bias_index, running_gradient);
+        }
 
         // Biases don't affect gradient propagation
 
@@ -293,6 +305,9 @@ impl Layer for ConvolutionalLayer {
         for v in &mut self.kernel_gradients {
             v.fill_with_value(0.0);
         }
+        for v in &mut self.bias_gradients {
+            v.fill_with_value(0.0);
+        }
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From b2432251a259f6b2c5953aa1155ae1c314a982e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 08/21] fix: convolutional layer refuses biases or kernels that
 do not fit the layer

---
 src/layer/convolutional.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 191991f..b22be19 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -113,6 +113,17 @@ impl ConvolutionalLayer {
                 return Err("All kernels in kernel list should have the same shape");
             }
         }
+        if kernel_shape.dk != input_shape.dk {
+            return Err("Third dimension of kernels and input should match");
+        }
+        if biases.len() != kernels.len() {
+            return Err("There should be exactly 1 bias per kernel");
+        }
+        for b in &biases {
+            if b.get_shape() != TensorShape::new_1d(1) {
+                return Err("All biases should be 1x1x1 tensors");
+            }
+        }
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &kernel_shape, stride) {
             return Err("Kernel does not fit in image with given stride");
         }
-- 
2.43.0


From 2c97c15923ab664b55b2e1730620e850f68a2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 09/21] fix: layers refresh their training buffers whenever
 they are refilled or loaded

---
 src/layer/convolutional.rs | 2 ++
 src/layer/max_pool.rs      | 2 ++
 src/layer/softmax.rs       | 7 ++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index b22be19..ea1aa75 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -147,6 +147,8 @@ impl ConvolutionalLayer {
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.stride = stride;
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
         return Ok(());
     }
     fn load_from_serialized_data(
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index d59b72a..ff36c16 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -99,6 +99,8 @@ impl MaxPoolLayer {
         self.mask_shape = mask_shape;
         self.stride = stride;
         self.name = name.clone();
+        // Update the helper vectors
+        self.update_gradient_and_intermediate_tensors();
 
         return Ok(());
     }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 104f436..5f1ec7a 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -91,14 +91,15 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        self.shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape: TensorShape =
+            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        self.name = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
 
-        return Ok(());
+        return self.fill_from_state(shape, &name);
     }
 }
 
-- 
2.43.0


From 4f46b17cffbe78507c984e3e21b62c0f847cec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 10/21] fix: undecodable layer data is reported as an error
 instead of a panic

---
 src/layer/convolutional.rs   | 10 +++++-----
 src/layer/fully_connected.rs |  6 +++---
 src/layer/max_pool.rs        |  8 ++++----
 src/layer/softmax.rs         |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index ea1aa75..fdef30b 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -176,30 +176,30 @@ impl ConvolutionalLayer {
             .get(&ConvolutionalSerialKeys::Kernels)
             .expect("Cannot access kernels data");
         let kernels: Vec<Tensor> =
-            bincode::deserialize(kernels_data).expect("Cannot deserialize kernels data");
+            bincode::deserialize(kernels_data).map_err(|_| "Cannot deserialize kernels data")?;
 
         let biases_data = data
             .get(&ConvolutionalSerialKeys::Biases)
             .expect("Cannot access biases data");
         let biases: Vec<Tensor> =
-            bincode::deserialize(biases_data).expect("Cannot deserialize biases data");
+            bincode::deserialize(biases_data).map_err(|_| "Cannot deserialize biases data")?;
 
         let input_shape_data = data
             .get(&ConvolutionalSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
 
         let stride_data = data
             .get(&ConvolutionalSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&ConvolutionalSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(kernels, biases, input_shape, stride, &name);
     }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 41bf0ed..6aa4372 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -129,17 +129,17 @@ impl FullyConnectedLayer {
             .get(&FullyConnectedSerialKeys::Weights)
             .expect("Cannot access weigths shape data");
         let weights: Tensor =
-            bincode::deserialize(weights_data).expect("Cannot deserialize weights data");
+            bincode::deserialize(weights_data).map_err(|_| "Cannot deserialize weights data")?;
 
         let bias_data = data
             .get(&FullyConnectedSerialKeys::Bias)
             .expect("Cannot access input shape data");
-        let bias: Tensor = bincode::deserialize(bias_data).expect("Cannot deserialize bias data");
+        let bias: Tensor = bincode::deserialize(bias_data).map_err(|_| "Cannot deserialize bias data")?;
 
         let name_data = data
             .get(&FullyConnectedSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(weights, bias, &name);
     }
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index ff36c16..b93facb 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -127,22 +127,22 @@ impl MaxPoolLayer {
             .get(&MaxPoolSerialKeys::MaskShape)
             .expect("Cannot access mask shape data");
         let mask_shape: TensorShape =
-            bincode::deserialize(mask_shape_data).expect("Cannot deserialize mask shape data");
+            bincode::deserialize(mask_shape_data).map_err(|_| "Cannot deserialize mask shape data")?;
         let input_shape_data = data
             .get(&MaxPoolSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
         let stride_data = data
             .get(&MaxPoolSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&MaxPoolSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
         return self.fill_from_state(input_shape, mask_shape, stride, &name);
     }
 }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 5f1ec7a..9d12210 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -92,12 +92,12 @@ impl SoftmaxLayer {
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
         let shape: TensorShape =
-            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+            bincode::deserialize(shape_data).map_err(|_| "Cannot deserialize shape data")?;
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(shape, &name);
     }
-- 
2.43.0


From 55e8b307b43a446625dcc8dca5b0561bd2fc4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 11/21] fix: max pool backward requires training mode and
 matching gradients

---
 src/layer/max_pool.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index b93facb..d09ed11 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -173,6 +173,14 @@ impl Layer for MaxPoolLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
+        if incoming_gradient.get_shape() != self.output_shape
+            || outgoing_gradient.get_shape() != self.input_shape
+        {
+            return Err("Gradient shapes do not match the layer");
+        }
         // Make sure the outgoing gradient is clean
         outgoing_gradient.fill_with_value(0.0);
         // Perform the backprop
-- 
2.43.0


From 0f9221a8fceab484b91bbeb2c398ba9788c9a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 12/21] fix: fully connected input shape follows the depth of
 the weights

---
 src/layer/fully_connected.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 6aa4372..c778717 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -209,7 +209,7 @@ impl Layer for FullyConnectedLayer {
         return TensorShape {
             di: self.weights.get_shape().dj,
             dj: 1,
-            dk: 1,
+            dk: self.weights.get_shape().dk,
         };
     }
 
-- 
2.43.0


From 87897abd3e322b6f46788c9554711d090958f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 13/21] fix: backward refuses tensors that do not match the
 layer

---
 src/layer/fully_connected.rs | 8 ++++++++
 src/layer/softmax.rs         | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index c778717..988bbf8 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -174,6 +174,14 @@ impl Layer for FullyConnectedLayer {
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
         if self.run_state == NetworkRunState::Training {
+            if incoming_gradient.get_shape() != self.get_output_shape() {
+                return Err("Incoming gradient does not match the output of the layer");
+            }
+            if input.get_shape() != self.get_input_shape()
+                || outgoing_gradient.get_shape() != self.get_input_shape()
+            {
+                return Err("Input or outgoing gradient does not match the input of the layer");
+            }
             // Apply the relu backrop
             Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
 
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 9d12210..68d1ac7 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -118,6 +118,12 @@ impl Layer for SoftmaxLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
+        if output.get_shape() != self.shape
+            || incoming_gradient.get_shape() != self.shape
+            || outgoing_gradient.get_shape() != self.shape
+        {
+            return Err("Output or gradient shapes do not match the layer");
+        }
         // softmax Transoped @ incoming gradient -> yields 1x1x1 tensors
         Tensor::matrix_multiply_transpose_first(
             output,
-- 
2.43.0


From 7e70c1e556ab1f44a2f0b83dc86efe5b4e3b5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 14/21] fix: forward refuses tensors that do not match the
 layer

---
 src/layer/convolutional.rs   | 5 +++++
 src/layer/fully_connected.rs | 5 +++++
 src/layer/max_pool.rs        | 5 +++++
 src/layer/softmax.rs         | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index fdef30b..9d90acf 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -207,6 +207,11 @@ impl ConvolutionalLayer {
 
 impl Layer for ConvolutionalLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || output.get_shape() != self.get_output_shape()
+        {
+            return Err("Input or output shape does not match the layer");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Do the fast single function version
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 988bbf8..42653ac 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -147,6 +147,11 @@ impl FullyConnectedLayer {
 
 impl Layer for FullyConnectedLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || output.get_shape() != self.get_output_shape()
+        {
+            return Err("Input or output shape does not match the layer");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Take the faster multiply add relu in 1 go
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index d09ed11..1416fe7 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -149,6 +149,11 @@ impl MaxPoolLayer {
 
 impl Layer for MaxPoolLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || output.get_shape() != self.get_output_shape()
+        {
+            return Err("Input or output shape does not match the layer");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 Tensor::max_pool(input, &self.mask_shape, self.stride, output);
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 68d1ac7..ecf8380 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -105,6 +105,11 @@ impl SoftmaxLayer {
 
 impl Layer for SoftmaxLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || output.get_shape() != self.get_output_shape()
+        {
+            return Err("Input or output shape does not match the layer");
+        }
         Tensor::softmax(input, output);
         return Ok(());
     }
-- 
2.43.0


From 24d8c4d7b8590e209d4c7e34b5b3965db57d2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 15/21] fix: inconsistent tensor data is refused when it is
 deserialized

---
 src/tensor.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index 966ced9..d357d67 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -10,12 +10,44 @@ use std::error::Error;
 use std::fs;
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "SerializedTensor")]
 pub struct Tensor {
     strides: TensorStride,
     shape: TensorShape,
     data: Vec<f32>,
 }
 
+// The stored form of a tensor, before it is known to be consistent
+#[derive(Deserialize)]
+struct SerializedTensor {
+    strides: TensorStride,
+    shape: TensorShape,
+    data: Vec<f32>,
+}
+
+impl TryFrom<SerializedTensor> for Tensor {
+    type Error = &'static str;
+
+    fn try_from(serialized: SerializedTensor) -> Result<Tensor, &'static str> {
+        let (di, dj, dk) = serialized.shape.get();
+        let total_size = match di.checked_mul(dj).and_then(|size| size.checked_mul(dk)) {
+            Some(total_size) => total_size,
+            None => return Err("Tensor shape is too large"),
+        };
+        if serialized.data.len() != total_size as usize {
+            return Err("Tensor data did not contain the correct number of items");
+        }
+        if serialized.strides != TensorStride::new_from_shape(&serialized.shape) {
+            return Err("Tensor strides do not match its shape");
+        }
+        return Ok(Tensor {
+            strides: serialized.strides,
+            shape: serialized.shape,
+            data: serialized.data,
+        });
+    }
+}
+
 impl PartialEq for Tensor {
     fn eq(&self, other: &Self) -> bool {
         if self.shape != other.shape {
-- 
2.43.0


From f99681bff36bb33a9fab419255c446cc9276aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 16/21] fix: softmax no longer overflows for large inputs

---
 src/tensor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index d357d67..1d01469 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -632,9 +632,11 @@ impl Tensor {
 
     pub fn softmax(input: &Tensor, output: &mut Tensor) {
         if input.get_shape() == output.get_shape() {
+            // Subtracting the maximum keeps the exponentials from overflowing
+            let max = input.data.iter().copied().fold(f32::NEG_INFINITY, f32::max);
             let mut sum = 0.0;
             for i in 0..input.data.len() {
-                let exp = input.data[i].exp();
+                let exp = (input.data[i] - max).exp();
                 output.data[i] = exp;
                 sum += exp;
             }
-- 
2.43.0


From 2fa174cc6ba837cf97c200428c726caf053a216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 17/21] fix: a failed load leaves the network as it was

---
 src/network.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index ccb6a72..e628fda 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -95,7 +95,33 @@ impl Network {
     pub fn load_from_file(self: &mut Self, filename: &String) -> Result<(), Box<dyn Error>> {
         let file_content = fs::read(filename)?;
         let sn: SerializedNetwork = bincode::deserialize(&file_content)?;
-        sn.populate_network(self)?;
+        // Only touch this network once everything has been loaded
+        let mut loaded = Network::new(self.run_state);
+        sn.populate_network(&mut loaded)?;
+        self.append(loaded)?;
+        return Ok(());
+    }
+
+    // Append the layers of another network with the same run state
+    fn append(self: &mut Self, other: Network) -> Result<(), &'static str> {
+        if other.layers.len() == 0 {
+            return Ok(());
+        }
+        if self.layers.len() == 0 {
+            *self = other;
+            return Ok(());
+        }
+        if self.output_shape != other.input_shape {
+            return Err("Last output and new input shapes don't match");
+        }
+
+        self.output_shape = other.output_shape;
+        self.layers.extend(other.layers);
+        // The first intermediate tensor of the other network is the last one of this network
+        self.intermediate_states
+            .extend(other.intermediate_states.into_iter().skip(1));
+        self.intermediate_gradients
+            .extend(other.intermediate_gradients.into_iter().skip(1));
         return Ok(());
     }
 
-- 
2.43.0


From f38399d14787bfd299cee8cdde53150541f18066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 18/21] fix: softmax backward covers shapes that are not a
 single column

---
 src/layer/softmax.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index ecf8380..4f784f7 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::layer::Layer;
 use crate::network::NetworkRunState;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::Tensor;
 
 use super::SerializedLayer;
@@ -129,25 +129,24 @@ impl Layer for SoftmaxLayer {
         {
             return Err("Output or gradient shapes do not match the layer");
         }
-        // softmax Transoped @ incoming gradient -> yields 1x1x1 tensors
-        Tensor::matrix_multiply_transpose_first(
-            output,
-            incoming_gradient,
-            &mut self.intermediate1,
-        )?;
+        // Element wise multiplication for diagonal elements
+        Tensor::multiply_elementwise(&output, incoming_gradient, outgoing_gradient);
 
-        // Invert
-        Tensor::scale_self(&mut self.intermediate1, -1.0);
+        // Sum over all elements, the softmax couples every output to every input
+        let mut sum = 0.0;
+        for k in 0..self.shape.dk {
+            for j in 0..self.shape.dj {
+                for i in 0..self.shape.di {
+                    sum += outgoing_gradient.get_item(&TensorIndex { i: i, j: j, k: k });
+                }
+            }
+        }
+        self.intermediate1.fill_with_value(sum);
 
         // Multiply with output
-
-        Tensor::matrix_multiply(output, &self.intermediate1, &mut self.intermediate2);
-
-        // Element wise multiplication for diagonal elements
-        Tensor::multiply_elementwise(&output, incoming_gradient, outgoing_gradient);
+        Tensor::scale(output, -sum, &mut self.intermediate2);
 
         // Adding up both results
-
         Tensor::add_to_self(outgoing_gradient, &self.intermediate2);
 
         return Ok(());
-- 
2.43.0


From f690a81bb994bd01035d66159d8aa7721ccadb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 19/21] fix: refuse a convolution bias that is not 1x1x1

---
 src/tensor/operations/convolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index c80a2a8..449ee80 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -66,7 +66,7 @@ pub fn convolution_bias(
 
     let bias_shape = bias.get_shape();
 
-    if bias_shape.di > 1 || bias_shape.dj > 1 || bias_shape.dk > 1 {
+    if bias_shape.di != 1 || bias_shape.dj != 1 || bias_shape.dk != 1 {
         return Err("bias should be a 1x1x1 tensor");
     }
 
@@ -130,7 +130,7 @@ pub fn convolution_bias_relu(
 
     let bias_shape = bias.get_shape();
 
-    if bias_shape.di > 1 || bias_shape.dj > 1 || bias_shape.dk > 1 {
+    if bias_shape.di != 1 || bias_shape.dj != 1 || bias_shape.dk != 1 {
         return Err("bias should be a 1x1x1 tensor");
     }
 
-- 
2.43.0


From d7a04ba5e0f60b60561085ec30e3a03014ecb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:56 +0000
Subject: [PATCH 20/21] fix: clearing the gradients of a fully connected layer
 keeps its relu mask

The mask belongs to the forward pass. Clearing the gradients between forward
and backward zeroed every gradient of the layer.
---
 src/layer/fully_connected.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 42653ac..b357651 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -252,7 +252,6 @@ impl Layer for FullyConnectedLayer {
         self.weights_gradients_intermediate.fill_with_value(0.0);
         self.weights_gradients.fill_with_value(0.0);
         self.bias_gradients.fill_with_value(0.0);
-        self.relu_mask.fill_with_value(0.0);
     }
 
     fn get_serialized(self: &Self) -> SerializedLayer {
-- 
2.43.0


From ca87742d28204142f0382abcdb9075b27ac3c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:26 +0000
Subject: [PATCH 21/21] fix: clearing the gradients of a max pool layer keeps
 the recorded origins

Clearing the gradients between forward and backward sent every gradient to the
first input item.
---
 src/layer/max_pool.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 1416fe7..85eeeef 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -240,9 +240,8 @@ impl Layer for MaxPoolLayer {
     }
 
     fn clear_gradients(self: &mut Self) {
-        for v in self.max_pool_origin.iter_mut() {
-            *v = 0;
-        }
+        // There are no gradients to clear
+        // The origins belong to the last forward pass and are needed by the backward pass
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0

