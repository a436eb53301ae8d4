# Writes properties.jsonl (run by hand after editing; the file is committed).
import json, os
T, H, CV = "src/tensor.rs", "src/tensor/helper.rs", "src/tensor/operations/convolution.rs"
L, NW = "src/layer.rs", "src/network.rs"
CL, FC, MP, SM = ("src/layer/convolutional.rs", "src/layer/fully_connected.rs",
                  "src/layer/max_pool.rs", "src/layer/softmax.rs")
P = []
def p(i, title, st, over, q, why, files, mech, obs=(), state=()):
    P.append(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q),
        why_tests_cant=why, anchors=dict(files=files,
        mechanism=[dict(name=n, where=w) for n, w in mech],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        observe_at=list(obs), hook_needed=None)))
p("C01", "A tensor always holds exactly the values its shape promises",
  "Every tensor that can be obtained (constructed, filled, used as operand or result of any operation, or decoded from stored bytes) holds exactly di*dj*dk values laid out with i fastest, then j, then k, and freshly constructed tensors are all zero. "
  "No operation changes the shape of an existing tensor, and replacing the values in bulk succeeds exactly when the number of values fits. "
  "Stored bytes whose shape, layout and number of values disagree are refused with an error when they are decoded.",
  ["inputs", "histories"], "all shapes, all sequences of operations on a tensor, all stored byte strings",
  "Tests use a handful of shapes and never decode inconsistent bytes; the claim is about every operation and every decoded value.",
  [T, H], [("constructor", T+": Tensor::new"), ("bulk fill", T+": Tensor::fill_with_vec"), ("decoding", T+": Tensor::try_from, Tensor::from_file")],
  ["Tensor::get_shape", "Tensor::total_items", "Tensor::from_file"],
  [("strides/shape/data", "layout, dimensions and values of a tensor", T+": struct Tensor")])
p("C02", "Element access reads and writes exactly the addressed element",
  "Writing an element at in-range coordinates changes exactly that element and reading it back returns the written value; distinct in-range coordinates have distinct positions and the position of (i,j,k) is i + di*j + di*dj*k. "
  "Reading out of range in any dimension yields 0 and writing out of range changes nothing; neither ever panics. "
  "Shapes built by the normalising constructor have no zero dimension, and filling with one value sets every element to it.",
  ["inputs"], "all shapes and all coordinates, in and out of range",
  "Tests probe a few coordinates of a few shapes; aliasing and boundary mistakes show only at specific coordinates.",
  [T, H], [("range check", H+": TensorShape::fits_index"), ("address", H+": TensorStride * TensorIndex, Tensor::get_data_index")],
  ["Tensor::get_item", "Tensor::set_item", "Tensor::get_data_index", "TensorShape::new"])
p("C03", "Element-wise arithmetic is exact per element and refuses mismatches",
  "Adding, scaling and multiplying tensors element by element (both into a separate result and in place) sets every element of the result to the sum, scaled value or product of the elements at the same coordinates. "
  "When the shapes differ nothing is changed at all, and the operands that are only read are never changed. ",
  ["inputs"], "all shapes (equal or not) and all values",
  "Tests cover single shapes with hand-picked values and no mismatching shapes for most operations.",
  [T], [("element-wise loops", T+": add, add_to_self, scale, scale_self, multiply_elementwise, multiply_elementwise_self")],
  ["Tensor::get_item of the result"])
p("C04", "Matrix products compute the mathematical product per slice",
  "Each matrix product variant (plain, first operand transposed, second operand transposed, and fused product + bias + ReLU) sets every result element (i,j,k) to the sum over the inner dimension of the products of the matching operand elements of slice k (plus bias and clamped at zero for the fused one). "
  "The product happens exactly when inner, outer and slice dimensions agree (and the bias has the result's shape); otherwise the transposed variants report an error and no variant changes anything. "
  "Operands are never changed and the previous contents of the result never influence it.",
  ["inputs"], "all shapes, including non-square and several slices, and all values",
  "Tests use small, mostly square or single-slice matrices; index swaps cancel on those.",
  [T], [("inner loops", T+": matrix_multiply, matrix_multiply_transpose_first/_second, matrix_multiply_add_relu"), ("dimension check", T+": check_matrix_multiply_dimensions")],
  ["Tensor::get_item of the result"])
p("C05", "Transposition, norm and indexed accumulation are exact",
  "Transposing sets output (i,j,k) to input (j,i,k) exactly when the shapes are transposes of each other and otherwise reports an error without change. "
  "The norm is the square root of the sum of the squares of all elements. "
  "Indexed accumulation adds the n-th source value to the target position named by the n-th index, adding up repeated indices and leaving other positions alone; a too long index list or an index outside the target is an error, never a panic.",
  ["inputs"], "all shapes, values and index lists",
  "Tests use one or two shapes and one index list each.",
  [T], [("transposition", T+": transpose_ij"), ("norm", T+": get_norm"), ("scatter-add", T+": add_from_index_list")],
  ["Tensor::get_item", "Tensor::get_norm"])
p("C06", "ReLU keeps positive values and its mask marks exactly those",
  "Applying ReLU in place leaves every positive element as it was and sets every other element to zero, and the stored mask is 1 exactly at the elements that were positive and 0 everywhere else, whatever the mask contained before. "
  "When the mask has a different shape an error is reported and neither tensor is changed.",
  ["inputs"], "all shapes and all values, including zero and negative ones",
  "One test with a few values; the zero boundary and stale mask contents are not sampled.",
  [T], [("mask loop", T+": relu_self_and_store_mask")], ["input and mask tensors after the call"])
p("C07", "Softmax yields a normalised distribution over all elements",
  "The softmax of a tensor sets every output element to the exponential of the input element at the same coordinates divided by the sum of the exponentials of all input elements, whatever the output contained before, and leaves the input unchanged. "
  "Adding one constant to all inputs does not change the result, and no exponential of a positive number is ever taken, so large inputs do not overflow; the largest of the exponents is zero, so the sum cannot vanish either. "
  "When the shapes differ nothing is changed.",
  ["inputs"], "all shapes and all values",
  "One test with three values.",
  [T], [("softmax", T+": Tensor::softmax")], ["output tensor"])
p("C08", "Convolution computes the sliding-window product for its channel",
  "Convolving an image with a kernel sets every element (i,j) of the chosen result channel to the bias plus the sum over the whole kernel of kernel element times image element at (i*stride+ki, j*stride+kj, kk); the fused variant additionally clamps negative results to zero. "
  "All other channels of the result, the image, the kernel and the bias stay unchanged. "
  "A bias that is not 1x1x1 or any shape, stride or channel that does not fit is reported as an error without change.",
  ["inputs"], "all image, kernel and result shapes, strides, channels and values",
  "Tests use a few fixed geometries, mostly stride 1 and square kernels.",
  [CV], [("window loops", CV+": convolution_bias, convolution_bias_relu"), ("checks", CV+": check_convolution_dimensions")],
  ["result tensor"])
p("C09", "Convolution gradients are the exact adjoints of the convolution",
  "The gradient sent back to the image is, for every image element, the sum over all output positions and channels whose window covers it of incoming gradient times the kernel element applied there, replacing any previous content. "
  "The gradient of a kernel is increased, for every kernel element, by the sum over all positions of its output channel of incoming gradient times the image element it was applied to. "
  "Geometry that does not fit, or a number of kernels different from the number of gradient channels, is reported as an error without change.",
  ["inputs"], "all geometries (any stride, non-square kernels and images), numbers of kernels and values",
  "Tests compare a few fixed geometries; window boundary and channel mistakes show only at particular sizes and strides.",
  [CV], [("input gradient", CV+": convolution_backprop_outgoing_gradient"), ("kernel gradient", CV+": convolution_backprop_kernel")],
  ["outgoing gradient tensor", "kernel gradient tensor"])
p("C10", "Max pooling takes the window maximum and records where it came from",
  "Max pooling sets every result element to the largest image element of its window, in the same channel, at stride-spaced positions; the tracking variant gives the same values and records for every result element the position of an image element inside its window that attains the maximum. "
  "Shapes that do not fit change nothing (and are an error for the tracking variant, as is an origin list of the wrong length). "
  "The image is never changed.",
  ["inputs"], "all image and mask shapes, strides and values, including all-negative windows",
  "Tests use a few images; negative values, ties and non-square windows are hardly sampled.",
  [T], [("pooling loops", T+": max_pool, max_pool_track_origin"), ("checks", T+": check_max_pooling_dimensions")],
  ["result tensor", "origin list"])
p("C11", "Sliding-window geometry is accepted exactly when it tiles the image",
  "A window (kernel or mask) with a stride fits an image exactly when the stride is positive, the window is no larger than the image in either direction, and the remaining distance is a multiple of the stride in both; the number of positions is that distance divided by the stride plus one. "
  "Convolution and pooling accept a result exactly when its two dimensions equal these numbers and the depths agree (for convolution: kernel depth equals image depth and the channel exists; for pooling: result depth equals image depth). "
  "The checks never panic, whatever the shapes and the stride.",
  ["inputs"], "all shapes, strides and channels",
  "Tests sample a few fitting and non-fitting shapes; zero strides and oversized windows were not tested at all.",
  [T, CV], [("fit check", T+": does_kernel_stride_fit_image, get_convolution_dim_fit, check_max_pooling_dimensions"), ("convolution check", CV+": check_convolution_dimensions")],
  ["return values of the checks"])
p("C12", "Tensor operations never panic or touch memory outside a tensor",
  "No tensor operation called with consistent tensors panics, whatever the shapes, strides, channels, lists and values of its arguments: mismatches are reported as an error or change nothing. "
  "Every element access that is executed lies inside the tensor it addresses, and no division by zero or unsigned underflow is executed.",
  ["inputs"], "all argument shapes and values of every public tensor operation (sizes below the 32-bit limit)",
  "Panics depend on particular shape combinations which a handful of tests cannot enumerate.",
  [T, H, CV], [("shape checks ahead of the loops", T+", "+CV)], ["absence of panics"])
p("C13", "A layer's forward pass is the same function in both modes",
  "The forward pass of each layer computes the layer's function of its input and parameters: fully connected = ReLU(weights x input + bias), convolutional = for every output channel ReLU(convolution with that channel's kernel + that channel's bias), max pooling = window maxima, softmax = softmax of the input. "
  "The computed output is identical in training and inference mode, depends on nothing else (no earlier outputs), and changes none of the parameters, the mode or the name. "
  "Input or output tensors whose shape differs from the layer's input or output shape are refused with an error and left alone.",
  ["inputs", "histories", "configurations"], "all layer configurations, parameters, inputs and both modes",
  "Tests run single small configurations, mostly one mode, and never compare the two code paths.",
  [CL, FC, MP, SM], [("two code paths per layer", "forward of each layer")], ["output tensor of forward"])
p("C14", "A layer's backward pass yields the gradients of its forward pass",
  "In training mode, after a forward pass, the backward pass sets the outgoing gradient to the transposed derivative of the layer's function applied to the incoming gradient: through the ReLU mask and transposed weights or kernels, to the recorded maxima of max pooling, or through the softmax derivative. "
  "The gradients of weights, kernels and biases are increased by exactly this pass's contribution, so they add up over passes until they are cleared, and clearing them between the two passes changes none of this; parameters and inputs are unchanged. "
  "Tensors whose shape does not fit the layer are refused with an error before anything is changed.",
  ["inputs", "histories"], "all layer configurations, parameters, inputs, incoming gradients and numbers of passes",
  "Tests use one small case per layer and a single pass.",
  [CL, FC, MP, SM, CV, T], [("gradient code", "backward of each layer")], ["outgoing gradient", "accumulated gradients"])
p("C15", "The run mode is honoured by every layer and by the network",
  "After switching a layer or a network to a mode it reports that mode, every layer of the network is in that mode, and a layer added later is put into the network's mode. "
  "Backward passes are refused with an error, without any change, in inference mode by every layer and by the network, and are possible in training mode. "
  "Layers start in inference mode, a network in the mode it was created with, and only switching (or being added to a network) changes the mode.",
  ["histories"], "all sequences of mode switches, additions, fills, loads and passes",
  "Tests check one or two transitions; the claim is about every history.",
  [L, CL, FC, MP, SM, NW], [("run_state", "switch_to_training, switch_to_inference, backward guards, Network::add_layer")],
  ["get_run_mode", "get_run_state", "backward results"])
p("C16", "Training buffers always fit the layer's current state",
  "Whenever a layer is in training mode, all its gradient and helper buffers have the sizes its current parameters and shapes require and are zero right after a switch to training or a (re)fill, so that a backward pass right after a forward pass cannot fail for well-shaped tensors. "
  "In inference mode these buffers are released. "
  "The same holds for the network's gradient tensors: in training mode there is one per intermediate state with the same shape, in inference mode none.",
  ["histories"], "all sequences of construction, filling, loading, mode switches, additions and passes",
  "Stale buffer sizes only show up after particular sequences (for example refilling while training).",
  [CL, FC, MP, SM, NW], [("buffer refresh", "update_gradient_and_intermediate_tensors of each layer, Network::switch_to_*, Network::add_layer")],
  ["success of forward and backward after any history"])
p("C17", "Clearing gradients zeroes every accumulated gradient and nothing else",
  "After gradients are cleared, every gradient value that a layer accumulates is zero while sizes, parameters, shapes, name, mode and what the last forward pass left for the backward pass are unchanged. ",
  ["histories"], "all layer states",
  "Tests check a single layer state.",
  [CL, FC, MP, SM], [("clear_gradients", "clear_gradients of each layer")], ["gradients after clearing"])
p("C18", "Layers accept exactly consistent parameters and reject atomically",
  "Filling or constructing a layer succeeds exactly when the parameters fit together: at least one kernel, all kernels of one shape whose depth is the input depth, one 1x1x1 bias per kernel and a window that tiles the input (convolution); a bias that is a column of the weights' height and depth (fully connected); a mask that tiles the input (max pooling). "
  "On success the layer reports the given name, input shape and the output shape implied by the parameters and uses exactly the given parameters; constructors produce zero parameters of the requested sizes. "
  "On failure an error is reported and the layer is unchanged.",
  ["inputs", "histories"], "all parameter combinations",
  "Tests try a few rejected combinations; acceptance of inconsistent combinations is unbounded.",
  [CL, FC, MP, SM], [("validation", "fill_from_state and new of each layer")], ["results of new and fill_from_state, get_input_shape, get_output_shape, get_name"])
p("C19", "A network only ever contains layers whose shapes chain",
  "Adding a layer succeeds exactly when the network is empty or the layer's input shape equals the current output shape; the layer is then appended last, in the network's mode. "
  "The network's input shape is the first layer's input shape, its output shape is the last layer's output shape, and it keeps one intermediate tensor per boundary between layers, of the shape of that boundary. "
  "A refused layer leaves the network unchanged.",
  ["inputs", "histories"], "all sequences of additions",
  "One test adds three layers.",
  [NW], [("add_layer", NW+": Network::add_layer, Network::append")], ["get_input_shape", "get_output_shape", "get_layers", "get_intermediate_state"])
p("C20", "Inference feeds every layer, in order, with its predecessor's output",
  "A forward pass of the network hands the given input to the first layer and then every layer the output of the layer before it, in order and exactly once, and the network's output is what the last layer produced. "
  "A wrong input shape or a network without layers is an error before any layer runs, and an error of a layer stops the pass and is reported. ",
  ["inputs", "histories"], "all networks and inputs",
  "Tests use two or three layers with one input.",
  [NW], [("infer", NW+": Network::infer"), ("get_output", NW+": Network::get_output")], ["layer calls", "get_output"])
p("C21", "Backpropagation visits the layers in reverse with matching tensors",
  "A backward pass hands the given loss gradient to the last layer and every other layer the gradient its successor produced, in reverse order and exactly once, together with the input and output that layer had in the forward pass. "
  "A wrong gradient shape, an empty network or inference mode is an error before any layer runs and without change, and an error of a layer stops the pass and is reported. ",
  ["inputs", "histories"], "all networks and gradients",
  "Tests use two layers with one gradient.",
  [NW], [("backward", NW+": Network::backward")], ["layer calls"])
p("C22", "No error is swallowed",
  "Whenever an operation used internally reports an error (shape checks, layer passes, decoding, reading or writing files, adding layers), the calling operation reports an error as well instead of success. ",
  ["inputs", "fault_sequences"], "all call sites that can fail and all ways they can fail",
  "Tests rarely provoke failures of inner operations.",
  [T, CV, L, CL, FC, MP, SM, NW], [("? and explicit checks", "every caller of a fallible operation")], ["returned results"])
p("C23", "Saving and loading reproduces the network and its tensors",
  "A network (or tensor) that is saved and loaded again has the same layers in the same order with the same kind, name, shapes, stride and parameters, hence computes the same outputs. "
  "What is written for every layer covers everything that is needed to rebuild it, and each stored item is read back into the field it was written from; saving changes nothing. "
  "Loading into a network keeps that network's mode.",
  ["inputs", "configurations"], "all networks and parameters",
  "Tests save and load one small network.",
  [L, CL, FC, MP, SM, NW, T], [("serialisation", "get_serialized, load_from_serialized, SerializedLayer::add_to_network, Network::save_to_file/load_from_file, Tensor::save_to_file/from_file")],
  ["the loaded network or tensor"])
p("C24", "Damaged or foreign stored data is an error, never a panic",
  "Loading a network, layer or tensor from bytes that cannot be decoded, lack an item, belong to another layer kind or describe inconsistent parameters reports an error; it never panics and never yields a layer or tensor that violates its consistency rules. ",
  ["inputs", "fault_sequences"], "all stored byte strings and maps of stored items",
  "The space of damaged files is unbounded; the tests have a few missing keys at most.",
  [L, CL, FC, MP, SM, NW, T], [("decoding and validation", "load_from_serialized of each layer, Network::load_from_file, Tensor::from_file")],
  ["results of the loading functions"])
p("C25", "A failed load leaves its target as it was",
  "When loading a network or a layer from stored data fails for any reason, the network or layer it was loaded into is unchanged. "
  "When it succeeds, the loaded layers follow the layers that were there before and every shape chains. ",
  ["fault_sequences", "inputs"], "all points at which a load can fail",
  "No test loads a file that fails half way.",
  [NW, L, CL, FC, MP, SM], [("load into a scratch network", NW+": Network::load_from_file, Network::append"), ("validate before assignment", "fill_from_state of each layer")],
  ["the target after a failed load"])
p("C26", "Results depend only on inputs: no hidden state, randomness or I/O",
  "Apart from the two random fills, no operation consults randomness, time, the environment or global state, so equal inputs and states always give equal results; only saving writes files and only loading reads them, exactly the named file. "
  "The library has no mutable global state and uses no unchecked memory access.",
  ["schedules", "histories"], "all operations and call histories",
  "Absence of hidden inputs cannot be observed by running tests.",
  [T, H, CV, L, CL, FC, MP, SM, NW], [("effect discipline", "call graph of the crate")], ["call graph"])
p("C27", "Random fills draw every element from the requested distribution",
  "The uniform fill replaces every element by its own draw from the closed interval between the requested minimum and maximum, and the Gaussian fill by its own draw from the normal distribution with the requested mean and standard deviation; the shape is unchanged. ",
  ["inputs"], "all shapes and distribution parameters",
  "Tests can only look at samples.",
  [T], [("fills", T+": fill_with_uniform, fill_with_gaussian")], ["tensor after the fill"])
p("C28", "Numerical results stay within rounding error of the real-number result",
  "For inputs of moderate size, the single-precision results of all operations differ from the exact real-number results only by accumulated rounding error, and finite inputs never yield NaN. ",
  ["inputs"], "all floating-point inputs",
  "Rounding error accumulates differently for every input.",
  [T, CV], [("f32 arithmetic", T+", "+CV)], ["result tensors"])
p("C29", "Training with the produced gradients reduces the loss",
  "Repeatedly running forward and backward passes and moving the parameters against the accumulated gradients by a small step reduces the loss. ",
  ["histories", "inputs"], "all networks, data sets and step sizes below a network-specific bound",
  "Convergence is a property of whole training histories.",
  [NW, L], [("apply_gradients (default: does nothing)", L+": Layer::apply_gradients")], ["loss over time"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        x["statement"] = x["statement"].strip()
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
