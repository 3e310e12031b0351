"""Single source of properties.jsonl and MANIFEST.json (run `python3 -m vlib.gen`)."""
P = {}


def prop(pid, title, statement, over, text, why, files, mech, technique, note, rule, observe=None):
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, rule=rule, observe=observe or [])


SAN = "Address and undefined-behaviour sanitizers (fatal, heap pre-filled with NaN bytes) watch every execution; "

prop("C01", "Tensors round-trip bit for bit through streams, files and memory maps",
     "A tensor written to a stream or a file is read back with the same dimensions and bit-identical elements, in the on-disk layout of four "
     "little-endian 64-bit dimensions (samples, width, height, maps) followed by float32 data, whether it is read from a stream, loaded by file name, "
     "memory-mapped at any offset of the file, or served by a tensor stream. Reading or skipping one tensor consumes exactly its bytes, so tensors can be "
     "written one after another and read in any order, and copies, moved objects and maps stay valid when others are released, without leaving the file "
     "open or mapped. Files that cannot be opened are reported as errors, and the 8-bit export writes every element scaled to a byte (interleaved for three maps, planar otherwise).",
     ["inputs", "histories"], "every tensor shape and float bit pattern, every sequence of writes, full reads, header-only reads, maps, copies, moves and releases",
     "The tests write and read one small tensor with ordinary values; they never map at unaligned offsets, skip tensors, reuse objects, or use NaN payloads, denormals and negative zero.",
     ["src/util/Tensor.cpp", "src/util/TensorStream.cpp", "src/util/FloatTensorStream.cpp", "include/cn24/util/Tensor.h"],
     [("Tensor::Serialize / Deserialize", "src/util/Tensor.cpp"), ("FloatTensorStream::LoadFile", "src/util/FloatTensorStream.cpp"), ("memory map bookkeeping", "src/util/Tensor.cpp")],
     "ASan/UBSan runs with an independent encoder and bitwise comparison monitor",
     SAN + "an independent encoder/decoder of the layout and /proc/self/maps and descriptor counts are the oracle. Held on the executions generated; little-endian 64-bit host assumed.",
     "seeded random sequences of 1-6 tensors (boundary-biased shapes, special bit patterns), seven access styles per round; a case is non-trivial when its (style, count, shape) tuple is new")

prop("C02", "Compression is lossless and compressed streams behave like uncompressed ones",
     "Compressing any tensor and decompressing it, directly or through a file, a memory map or reused objects, yields the same dimensions and equal elements (NaN payloads included; "
     "only the sign of zero may differ), the input is not modified, and the compressed file declares its exact payload length. "
     "Any valid encoding of a tensor, not only the one this library emits, decodes to that tensor. A compressed tensor stream answers every sequence of dimension queries and sample copies with the "
     "same verdicts and the same data as the uncompressed stream of the same tensors, including the refusal of samples that do not exist or do not fit and the zero padding of larger targets.",
     ["inputs", "histories"], "every tensor content (runs of any length, escape bytes in any position) and every history of stream requests",
     "The tests compress a handful of fixed patterns; run lengths at the counter limits, escape-like bytes, mixed literal/run encodings and histories of requests over shared caches are not reached.",
     ["src/util/CompressedTensor.cpp", "src/util/CompressedTensorStream.cpp", "src/util/FloatTensorStream.cpp", "src/util/TensorStream.cpp"],
     [("run-length coder", "src/util/CompressedTensor.cpp"), ("CompressedTensorStream::CopySample", "src/util/CompressedTensorStream.cpp")],
     "ASan/UBSan runs with reference codec and differential stream monitor",
     SAN + "an independent run-length encoder/decoder and the data itself are the oracle for codec and stream histories.",
     "seeded tensors from six content styles (run lengths around the counter limits, escape-byte floods, incompressible bits) in four scenarios; non-trivial when (scenario, shapes, first bits) is new")

prop("C03", "Tensor operations keep contents, dimensions and ownership exact over any history",
     "After any history of resizing, reshaping, clearing, transposing, copying samples or maps, writing elements, shadowing, deep copying, moving, loading, memory-mapping and releasing tensors, every live tensor has exactly the dimensions "
     "and contents the operations define, and element (x, y, map, sample) lives at ((sample*maps+map)*height+y)*width+x. Two tensors share memory exactly when one shadows the other; copies are independent, moves carry ownership, and writing to a tensor never changes the file it was loaded or mapped from. "
     "Operations that cannot apply (different element count, missing sample, target too small, other map count) report failure and change nothing, and maximum queries return the position of a maximum.",
     ["histories", "inputs"], "every operation history over a population of owning, shadowing, copied and moved tensors of any shape",
     "The tests exercise single operations on fixed shapes; ownership bugs need particular histories (move of a shadow, resize after reshape, copy of an empty tensor).",
     ["src/util/Tensor.cpp", "include/cn24/util/Tensor.h"],
     [("Resize / Shadow / DeleteIfPossible / move constructor", "src/util/Tensor.cpp"), ("CopySample / CopyMap", "src/util/Tensor.cpp"), ("Offset", "include/cn24/util/Tensor.h")],
     "ASan/UBSan runs of random operation histories against an executable model",
     SAN + "a shared-buffer model is compared with every live tensor after every step (dimensions, bits, aliasing).",
     "random histories of 12-60 operations over five tensor objects; non-trivial when the operation trace is new")

prop("C04", "Tensor math kernels compute their definition and touch nothing else",
     "Matrix-matrix and matrix-vector products (with transposes, scaling, accumulation, leading dimensions and sample offsets), image-to-column and column-to-image rearrangement (any kernel, stride, padding and grouping of samples), "
     "two-dimensional pooling selection, summation-downsampling and nearest-neighbour upsampling, and element-wise operations give the result of their textbook definition in both math back ends, up to float rounding. "
     "A result whose previous content is to be ignored does not depend on it, inputs are not modified, and no memory outside the result is read or written.",
     ["inputs", "configurations"], "every shape, stride, padding, scale, transposition and sample offset, in the reference and ATLAS builds",
     "The tests compare a few fixed sizes; asymmetric kernels, strides, paddings, leading dimensions and in-place offsets are not covered.",
     ["src/math/TensorMath.cpp", "include/cn24/math/TensorMath.h"],
     [("TensorMath::GEMM/GEMV", "src/math/TensorMath.cpp"), ("TensorMath::IM2COL/COL2IM", "src/math/TensorMath.cpp"), ("SMS, DOWN, UP, ADD, SETSAMPLE", "src/math/TensorMath.cpp")],
     "ASan/UBSan runs in two math back ends with double-precision reference monitor",
     SAN + "naive double-precision definitions are the oracle, with poisoned surroundings. The OpenCL kernels are decided by C30.",
     "random operands for every kernel, boundary-biased sizes, poisoned memory around operands; non-trivial when the full parameter tuple is new")

prop("C05", "Every layer's forward pass computes its definition, on every pass",
     "For every input size, batch size and configuration, each layer type (convolution with stride, padding and groups; both pooling layers; tanh, sigmoid, ReLU, hmax; resize, upscale, input downsampling; sum, concatenation, gradient accumulation; "
     "spatial prior; local response normalization; softmax; squared-error loss) writes exactly the values of its definition to outputs of the defined dimensions, whether created by constructor or by configuration string, and repeats this on every pass of a history of passes. "
     "It does not modify its inputs or parameters and does not depend on what its outputs held before. Inputs or configurations that do not fit together are refused instead of computed.",
     ["inputs", "configurations", "histories"], "all layer configurations, tensor shapes, values and histories of forward and backward passes",
     "The layer tests run a numerical gradient check on single configurations and compare few forward values; asymmetric kernels, strides, groups, padding and repeated passes are not decided.",
     ["src/net/ConvolutionLayer.cpp", "src/net/MaxPoolingLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp", "src/net/NonLinearityLayer.cpp", "src/net/HMaxActivationFunction.cpp", "src/net/LocalResponseNormalizationLayer.cpp",
      "src/net/ResizeLayer.cpp", "src/net/UpscaleLayer.cpp", "src/net/InputDownSamplingLayer.cpp", "src/net/SumLayer.cpp", "src/net/ConcatenationLayer.cpp", "src/net/SpatialPriorLayer.cpp", "src/net/GradientAccumulationLayer.cpp", "src/net/ErrorLayer.cpp"],
     [("Layer::CreateOutputs/Connect/FeedForward", "src/net/*.cpp"), ("LayerFactory::ConstructLayer", "src/util/../factory/LayerFactory.cpp")],
     "ASan/UBSan runs of every layer against double-precision definitions",
     SAN + "naive double-precision forward definitions are the oracle; outputs are pre-filled with NaN.",
     "random layer, configuration, shape and 2-4 passes; every 12th case is a loss layer, every 12th an incompatible configuration; non-trivial when the description is new")

prop("C06", "Back-propagation yields the exact gradient of the forward pass",
     "For every differentiable layer, configuration and input, a backward pass writes to every input and parameter gradient the exact vector-Jacobian product of the layer's forward function with the incoming gradient, summed over the batch for parameters. "
     "The result does not depend on what the gradient buffers held before or on how often the pass is repeated, and data, parameters and incoming gradients are left unchanged. "
     "Max pooling routes each output's gradient, whole, to one of the maxima of its region.",
     ["inputs", "configurations", "histories"], "all layer configurations, shapes, values, incoming gradients and histories of passes",
     "The tests use a tolerant finite-difference check on one configuration per layer; scale errors in rarely used paths, stale-buffer dependence and batch summation slip through.",
     ["src/net/ConvolutionLayer.cpp", "src/net/MaxPoolingLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp", "src/net/NonLinearityLayer.cpp", "src/net/HMaxActivationFunction.cpp", "src/net/LocalResponseNormalizationLayer.cpp", "src/net/ErrorLayer.cpp"],
     [("Layer::BackPropagate", "src/net/*.cpp")],
     "ASan/UBSan runs of every layer against closed-form gradients",
     SAN + "closed-form double-precision gradients, themselves checked against numeric derivatives in the same run, are the oracle.",
     "random differentiable layer, configuration, shape, 1-4 passes with junk-filled gradient buffers; non-trivial when the description is new")

prop("C07", "Samples of a batch do not influence one another",
     "For every layer, each sample's outputs and input gradients equal those it gets when processed alone, move with it when the batch is permuted, and stay the same when the other samples are replaced by anything, NaN included. "
     "Parameter gradients of a batch equal the sum of the gradients of its samples.",
     ["inputs", "configurations"], "all layers, shapes, batch sizes, permutations and sample contents",
     "The tests compare against numeric gradients of whole batches, so a layer mixing samples consistently is not detected.",
     ["src/net/ConvolutionLayer.cpp", "src/net/LocalResponseNormalizationLayer.cpp", "src/net/SoftmaxLayer.cpp", "src/math/TensorMath.cpp"],
     [("per-sample loops in FeedForward/BackPropagate", "src/net/*.cpp"), ("sample offsets in TensorMath", "src/math/TensorMath.cpp")],
     "ASan/UBSan runs with metamorphic (alone, permuted, poisoned) monitors",
     SAN + "the layer alone, permuted and with poisoned neighbours is the oracle.",
     "random layers and batches of 2-5 samples; non-trivial when the description is new")

prop("C08", "Running a network graph evaluates the dataflow graph it describes",
     "A forward pass over a network graph runs every layer exactly once, after everything it depends on, a backward pass runs every layer exactly once in the opposite order, and both compute what the dataflow graph defines, on every pass. "
     "Where one output feeds several layers, the gradients that reach it are summed, connections without back-propagation (labels, weights, observers, stopped branches) contribute nothing, and the total loss is the sum over loss layers. "
     "Graphs with missing, foreign or out-of-range connections, without input or output nodes, with a node that is both, or with a node that has no layer or no name, are reported as incomplete.",
     ["programs", "inputs", "histories"], "all acyclic graphs of layers, fan-outs, connection flags, inputs and numbers of passes",
     "The tests build a few linear networks; arbitrary fan-out, multiple losses, non-topological insertion order and repeated passes are not covered.",
     ["src/net/NetGraph.cpp", "src/net/NetGraphNode.cpp", "src/net/GradientAccumulationLayer.cpp", "include/cn24/net/NetGraph.h"],
     [("NetGraph::FeedForward/BackPropagate", "src/net/NetGraph.cpp"), ("gradient accumulation insertion", "src/net/NetGraph.cpp"), ("NetGraph::IsComplete", "src/net/NetGraph.cpp")],
     "ASan/UBSan runs of random graphs with event-order and dataflow-value monitors",
     SAN + "each layer is wrapped by a spy that logs its passes; an independent dataflow interpreter gives values and gradients.",
     "random DAGs of up to 9 (thorough 14) layers; non-trivial with fan-out or more than five nodes and a new description")

prop("C09", "Saving and loading parameters reproduces the network exactly",
     "Saving a network's parameters and loading them into another instance of the same architecture makes both networks identical bit for bit: same parameters, same outputs, same loss, and the same bytes when saved again. "
     "Loading up to a given node restores exactly the nodes up to it and leaves all others as they were, and a file holding fewer parameter sets restores exactly those it holds. Saving changes nothing, and the file is the concatenation of the parameter tensors in network order.",
     ["programs", "inputs", "fault_sequences"], "all architectures, parameter bit patterns, partial-load positions and truncation points between tensors",
     "No test saves and loads parameters of a whole network.",
     ["src/net/NetGraph.cpp", "src/util/Tensor.cpp"],
     [("NetGraph::SerializeParameters/DeserializeParameters", "src/net/NetGraph.cpp")],
     "ASan/UBSan runs with bitwise round-trip monitor over random networks",
     SAN + "bitwise snapshots and an independent encoder of the file are the oracle.",
     "random graphs, random bit patterns as parameters, four load modes; non-trivial when parameters exist and (graph, mode) is new")

prop("C10", "Training changes parameters exactly as the update rule says",
     "Every training iteration changes every parameter exactly by the documented update rule for the chosen optimizer (gradient descent with momentum, or quickprop), learning-rate schedule, L1/L2 regularization, per-layer learning rates and weight-update flags, "
     "with gradients averaged over the batches of the iteration, for any number of iterations, epochs and epoch changes. Testing and evaluation change no parameter, and the reported mean loss, throughput and quickprop case rates are those of the data that was processed. "
     "Each layer is told the right training or testing state.",
     ["histories", "configurations", "inputs"], "all hyperparameter settings, batch layouts and histories of training, testing and epoch changes",
     "No test runs the trainer; the update arithmetic depends on history (momentum, previous gradients, iteration count) that only multi-step runs reveal.",
     ["src/net/Trainer.cpp", "include/cn24/net/Trainer.h", "include/cn24/net/TrainerSettings.h"],
     [("Trainer::Train/Epoch/Test", "src/net/Trainer.cpp"), ("Trainer::ApplyGradients", "src/net/Trainer.cpp"), ("CalculateLR", "src/net/Trainer.cpp")],
     "ASan/UBSan runs of random training histories against a reference optimizer",
     SAN + "an independent double-precision optimizer fed with the gradients observed at each layer is the oracle.",
     "random small networks, hyperparameters and histories of Train/Epoch/Test/SetEpoch; non-trivial when the configuration is new")

prop("C11", "The dataset input layer delivers every sample faithfully and exactly once",
     "In testing, the input layer delivers every testing sample exactly once and in order, with its data, label, helper and weights belonging together, and fills the rest of the last batch with blanks whose weights are zero. "
     "In training it draws each training sample exactly once per pass in an order reshuffled for every pass and reproducible from the seed, never a testing sample, and loss sampling only ever zeroes whole 12x12 blocks of a whole-image sample's error weights, keeping each with the configured probability and never touching them in testing or at probability one. "
     "A dataset that cannot deliver a sample, or has none to train on, is an error.",
     ["histories", "inputs", "configurations"], "all dataset sizes, batch sizes, sampling probabilities, seeds and histories of training and testing passes",
     "No test drives the input layer; the order and completeness of sampling only show over whole histories.",
     ["src/net/DatasetInputLayer.cpp", "include/cn24/net/DatasetInputLayer.h", "src/net/InputLayer.cpp"],
     [("DatasetInputLayer::SelectAndLoadSamples", "src/net/DatasetInputLayer.cpp"), ("SetActiveTestingDataset / permutation", "src/net/DatasetInputLayer.cpp")],
     "ASan/UBSan runs with exactly-once monitor over uniquely tagged samples",
     SAN + "every sample of the stub datasets carries a unique tag; delivered tags are checked for exactly-once, pairing and order.",
     "random datasets, batch sizes and histories; non-trivial when the configuration is new")

prop("C12", "Datasets serve each sample's data, label, helper and weights correctly",
     "A dataset built from tensor streams and a configuration reports the class names, colors and weights, map counts, sizes and sample counts the configuration and files define, and every training or testing sample it serves holds the stored image and label, "
     "zero padding outside the image, the spatial-prior helper, and error weights that are zero on padding and elsewhere the weight of the pixel's class times the configured localized weight. "
     "A patch dataset serves, for every sample index, the patch of the image and pixel that index stands for, with that pixel's label, from training or testing images as requested. Requests outside the range, and files that end with an image without label, are refused.",
     ["inputs", "configurations"], "all image sizes, class configurations, stream layouts, patch sizes and sample indices",
     "No test builds a dataset; index arithmetic over several images of different sizes and patch borders is not sampled by any.",
     ["src/util/TensorStreamDataset.cpp", "src/util/TensorStreamPatchDataset.cpp", "src/util/Dataset.cpp"],
     [("TensorStreamDataset::GetTrainingSample/GetTestingSample", "src/util/TensorStreamDataset.cpp"), ("TensorStreamPatchDataset index arithmetic", "src/util/TensorStreamPatchDataset.cpp"), ("Dataset configuration", "src/util/Dataset.cpp")],
     "ASan/UBSan runs with per-sample reference monitor over generated datasets",
     SAN + "generated images and labels and an independent computation of index, patch, helper and weights are the oracle.",
     "random sets of images, class configurations and patch sizes, all or random sample indices; non-trivial when the configuration is new")

prop("C13", "Accuracy statistics count exactly what was predicted, once per pixel",
     "The confusion matrix and binary statistics layers count every pixel of every sample between two resets exactly once with its weight, and the rates they report (overall and average recognition rate, mean intersection over union; precision, recall, false positive and negative rates, accuracy and F1 at a threshold of best F1) "
     "are those of the counts, however large the counts grow. The predicted class is the highest-scoring one, thresholds are spread evenly over the configured range, and rates that are undefined are reported as missing. "
     "A disabled layer counts nothing, a reset starts over, and inputs whose shapes do not match are refused.",
     ["inputs", "histories"], "all scores, labels, weights, thresholds, class counts and histories of batches, resets and enabling",
     "No test evaluates the statistics layers; their errors show up only in particular class distributions, score signs and long histories.",
     ["src/net/ConfusionMatrixLayer.cpp", "src/net/BinaryStatLayer.cpp"],
     [("ConfusionMatrixLayer::FeedForward/Print", "src/net/ConfusionMatrixLayer.cpp"), ("BinaryStatLayer::FeedForward/UpdateAll", "src/net/BinaryStatLayer.cpp")],
     "ASan/UBSan runs with independent counting monitor over random histories",
     SAN + "an independent double-precision counter replays the same batches and computes the rates.",
     "random class counts, thresholds and histories of batches, resets and disabling; non-trivial when the history is new")

prop("C14", "Statistics reports reach every sink exactly once and contain what was recorded",
     "Only what is recorded between starting and stopping the recording counts, a report hands every registered statistic (including ones registered late) with its value or as missing exactly once to every registered sink, together with the experiment name, training flag and elapsed recording time, "
     "and a snapshot is exactly stop, report, reset and restart. Requests that the current state does not allow (resetting while recording, renaming the experiment while recording) change nothing. "
     "The file sink writes one header and one line per report into the file of the experiment, with missing values as empty fields and values to 16 digits.",
     ["histories", "fault_sequences"], "all histories of state changes, updates, reports, registrations and experiment names, and unwritable output",
     "No test drives the aggregator; lost or duplicated reports depend on the order of state changes.",
     ["src/util/StatAggregator.cpp", "src/util/CSVStatSink.cpp", "src/util/ConsoleStatSink.cpp", "include/cn24/util/StatAggregator.h"],
     [("StatAggregator::Generate/Snapshot/StartRecording", "src/util/StatAggregator.cpp"), ("CSVStatSink::Process", "src/util/CSVStatSink.cpp")],
     "ASan/UBSan runs with online state-machine monitor and offline report checker",
     SAN + "a state-machine model predicts every report received by recording sinks and every line of the CSV files.",
     "random histories of aggregator operations and sinks; non-trivial when the operation trace is new")

prop("C15", "A network description becomes exactly the network it describes",
     "The network built from a description file has one output of the size of the labels for every image whose size fits the description, computes exactly what the listed layers define in their order (with stacks, concatenation, sums, spatial prior and upscaling), "
     "and carries the described loss weight, per-layer learning rates and gradients. In every position the fully convolutional network predicts what the patch-wise network of the same description predicts for the patch around that position, and the reported patch size is that field of view. "
     "Comments and other lines do not change the network, the same description and seed give the same initial weights, and no two layers start as copies of each other.",
     ["programs", "inputs", "configurations"], "all network descriptions over the supported layer lines, image sizes, seeds and parameters",
     "No test builds a network from a description; receptive field, stack and upscaling bookkeeping only goes wrong for particular combinations of lines.",
     ["src/factory/ConfigurableFactory.cpp", "include/cn24/factory/ConfigurableFactory.h"],
     [("ConfigurableFactory constructor (receptive field)", "src/factory/ConfigurableFactory.cpp"), ("ConfigurableFactory::AddLayers", "src/factory/ConfigurableFactory.cpp")],
     "ASan/UBSan runs of generated descriptions against an independent interpreter",
     SAN + "an independent double-precision interpreter of the generated description, directional derivatives and patch/full-image comparison are the oracle. Over-padded descriptions (negative receptive field) are not generated.",
     "random descriptions of up to about 25 lines, images of up to 4x4 cells; non-trivial when the description is new")

prop("C16", "Textual layer descriptors are accepted, split and built exactly as written",
     "A layer descriptor is accepted exactly if it follows the documented form (type name, optional list of name=value options in parentheses), is split into exactly its type and options, and yields the layer of that type with those options in any order; "
     "malformed descriptors, unknown types and unsatisfiable options yield no layer, without corrupting memory, and a network node made from a descriptor holds exactly that layer and its connection or is refused. Injecting a seed sets or replaces the seed option and nothing else, and the same descriptor always yields the same initial weights.",
     ["inputs"], "all descriptor strings",
     "The tests list about a dozen descriptors; single-character deviations and option orders are not covered.",
     ["src/net/LayerFactory.cpp", "src/util/ConfigParsing.cpp"],
     [("LayerFactory::IsValidDescriptor / ExtractConfiguration / InjectSeed", "src/net/LayerFactory.cpp"), ("layer constructors from a configuration", "src/net/ConvolutionLayer.cpp")],
     "ASan/UBSan grammar-fuzzing runs with hand-written recognizer as monitor",
     SAN + "a hand-written recognizer and double-precision layer definitions are the oracle. Known finding: the seed option of a convolution is ignored (repairing it makes an existing test fail).",
     "grammar-generated and mutated strings, random layer options; non-trivial when the string is new")

prop("C17", "Training settings and options are read exactly as written",
     "Every hyperparameter written in a network description takes exactly the written value (the last one wins), everything not written keeps its default, and comments, layer lines and unknown lines change nothing. "
     "An option of a layer line or command is found wherever it stands in the line and has exactly the written text, number or size; absent options leave their default untouched.",
     ["inputs", "configurations"], "all sequences of settings lines and all option lines",
     "No test reads settings from a file.",
     ["src/factory/ConfigurableFactory.cpp", "src/util/ConfigParsing.cpp"],
     [("ConfigurableFactory::InitOptimalSettings", "src/factory/ConfigurableFactory.cpp"), ("ParseKernelSizeIfPossible and siblings", "src/util/ConfigParsing.cpp")],
     "ASan/UBSan runs with reference reader as monitor over generated text",
     SAN + "the generator knows every written value. Option names containing another option's name are not generated.",
     "random settings files (0-14 lines) and option lines (0-5 options); non-trivial when the text is new")

prop("C18", "Initializing weights gives a fresh, scaled, reproducible start state",
     "Initializing (or resetting) the weights of any network draws every convolution weight independently of its former value, uniformly from the interval given by the fan-in of the layer and of its consumers (+-sqrt(6/(own + consumers))), and puts every other parameter at its start value. "
     "The result depends on the seeds and the number of earlier initializations only.",
     ["programs", "histories"], "all network graphs, seeds and parameter values before a reset",
     "No test looks at initial weights or resets a trained network.",
     ["src/net/ConvolutionLayer.cpp", "src/net/NetGraph.cpp", "include/cn24/net/Layer.h"],
     [("ConvolutionLayer::OnLayerConnect", "src/net/ConvolutionLayer.cpp"), ("NetGraph::InitializeWeights", "src/net/NetGraph.cpp"), ("Layer::Gain", "include/cn24/net/Layer.h")],
     "ASan/UBSan runs over random graphs with interval, distribution and reset monitors",
     SAN + "an independent fan-in computation over the described graph gives the interval; distribution checked by extreme value, mean and distinctness where at least 300 (20) weights exist.",
     "random DAGs of 2-9 layers with losses on all ends; non-trivial when the graph is new")

prop("C19", "Images keep their pixels when they are loaded and written",
     "Loading an 8- or 16-bit gray, gray-alpha, RGB or RGBA PNG, or a JPG, gives a tensor of the image's size with one map per channel whose elements are the file's sample values divided by the largest sample value, in any interlacing, filter or access style. "
     "A three-map tensor with values in [0,1] written as PNG has every value within one step of 255, comes back unchanged if it held byte values, and written as JPG comes back within coding loss. "
     "Palette images, fewer than 8 bits per channel, unknown file formats, missing files and tensors that are no RGB image are refused, and no file stays open.",
     ["inputs", "configurations"], "all image sizes, sample depths, channel counts, encodings and pixel values",
     "No test reads or writes an image file.",
     ["src/util/PNGUtil.cpp", "src/util/JPGUtil.cpp", "src/util/Tensor.cpp", "include/cn24/util/Config.h"],
     [("PNGUtil::LoadFromStream/WriteToStream", "src/util/PNGUtil.cpp"), ("JPGUtil::LoadFromFile/WriteToFile", "src/util/JPGUtil.cpp"), ("Tensor::LoadFromFile/WriteToFile", "src/util/Tensor.cpp")],
     "ASan/UBSan runs with independent image encoder/decoder as monitor",
     SAN + "images are encoded and decoded by independent code on libpng/libjpeg; JPG loss bound 9/255 on gray, flat and smooth images.",
     "random images (four pixel styles, sizes to 300) in every supported and unsupported format; non-trivial when (format, depth, channels, size) is new")

prop("C20", "Damaged and hostile files are refused without memory errors",
     "Opening a file whose bytes are arbitrary (tensor, tensor stream, compressed tensor or stream, PNG or JPG image, network parameters) never reads or writes outside a buffer, invokes undefined behaviour, ends the process or changes other data: it gives exactly what the file completely holds or reports an error. "
     "Tensors announced but not fully present, sizes that cannot be represented, invalid encodings and parameters that do not fit the network are errors; what the damage did not touch is still served unchanged. "
     "Refused images leave no file open.",
     ["inputs", "fault_sequences"], "all byte contents of data files, reached by structured damage to valid files",
     "The tests open no damaged file.",
     ["src/util/Tensor.cpp", "src/util/CompressedTensor.cpp", "src/util/FloatTensorStream.cpp", "src/util/CompressedTensorStream.cpp", "src/util/PNGUtil.cpp", "src/util/JPGUtil.cpp", "src/net/NetGraph.cpp"],
     [("Tensor::Deserialize", "src/util/Tensor.cpp"), ("CompressedTensor::DecompressData", "src/util/CompressedTensor.cpp"), ("TensorStream::FromFile", "src/util/TensorStream.cpp"), ("PNGUtil::LoadFromStream", "src/util/PNGUtil.cpp"), ("NetGraph::DeserializeParameters", "src/net/NetGraph.cpp")],
     "ASan/UBSan over damaged files with independent file walkers as monitors",
     SAN + "independent walkers and decoders of the same bytes say what the file holds (tensor headers, run-length data, PNG/JPG by libpng/libjpeg); allocations above 300 MB are refused by the allocator to inject out-of-memory.",
     "valid files of every kind damaged by 1-4 operations (truncation, header words, all dimensions, single bytes and bits, insertion, deletion, appended bytes, PNG header with valid checksum); non-trivial when the damage is new")

prop("C21", "Image lists become labelled samples and predictions become images",
     "For lists of image and label image files (8-bit RGB or gray labels) the list stream, the datasets on it and the tensor stream conversion tools yield, in list order and skipping pairs of different size, every image unchanged and every label image as class labels: one map per class that is one exactly where the pixel has the class colour, or, for a single class, one minus twice the relative colour distance. "
     "Reading a sample fills exactly the target sample (zero padded) or, if it does not exist or fit, nothing. "
     "Colouring a prediction gives every pixel the colour of its highest class (or the class colour scaled by the score), so that the written image read as a label is the prediction again.",
     ["inputs", "configurations"], "all lists, image formats and sizes, class colours and predictions",
     "No test reads an image list, converts images or colours a prediction.",
     ["src/util/ListTensorStream.cpp", "src/util/Colorize.cpp", "tools/makeTensorStream.cpp", "tools/makeCompressedTensorStream.cpp", "src/util/TensorStreamDataset.cpp"],
     [("ListTensorStream::LoadFiles/CopySample", "src/util/ListTensorStream.cpp"), ("Dataset::Colorize", "src/util/Colorize.cpp"), ("main", "tools/makeTensorStream.cpp")],
     "ASan/UBSan runs (library and tools) with independent label/colour oracle",
     SAN + "the generator knows every pixel it encoded; conversion tools run as instrumented processes on the same lists; colouring is also checked by reading the written image back as a label.",
     "random class colours (grays, one-bit neighbours, black, white), PNG/JPG/tensor images, gray and RGB labels with near-miss colours, mismatched pairs, list endings; non-trivial when the (pairs, classes, maps, size) is new")

prop("C22", "The command line tools do to files exactly what they say",
     "classifyImage writes an image of the input's size in which every pixel has the colour of the class (or, for one class, the scaled class colour) that the described network with the loaded parameters predicts for it. "
     "tensorStreamTool keeps exactly the first N tensors of a file, compressTensorStream writes the same tensors compressed, and tensorTool writes exactly the tensor that its transpose, reshape and patch commands describe. "
     "tensorStreamStats reports how many pixels of the training images every class has, without and with the class weights. "
     "Missing, damaged or unfitting inputs end a program with an error status and without writing or changing a file, and the end of the command input ends the program.",
     ["inputs", "programs", "configurations"], "all network descriptions, parameters, images, tensor files and command sequences",
     "The tests never run a program.",
     ["tools/classifyImage.cpp", "tools/tensorStreamTool.cpp", "tools/compressTensorStream.cpp", "tools/tensorTool.cpp", "tools/tensorStreamStats.cpp"],
     [("main", "tools/classifyImage.cpp"), ("main", "tools/tensorStreamTool.cpp"), ("main", "tools/compressTensorStream.cpp"), ("parseCommand", "tools/tensorTool.cpp")],
     "ASan/UBSan-instrumented tool processes with independent interpreters of files and networks as monitors",
     SAN + "an interpreter of the network description in double precision predicts every pixel (score differences below 2e-3 are not called); independent encoders and decoders predict the bytes of tensor files.",
     "random descriptions, parameters and images (sizes off the factor-8 padding, every image format), damaged inputs, tensor files and command sessions; non-trivial when the (description, size) or session is new")

prop("C23", "The training program does what its commands say and saves what it trained",
     "For every network description, dataset and sequence of commands, training with trainNetwork gives bit for bit the parameters that the same training steps give through the library, in fully convolutional and in patchwise mode. "
     "Testing, printing statistics, saving and unknown commands change nothing, saved files reload to the same network, reported test results are those of an independent evaluation, every report is shown on the console as it is in the file of the experiment, and equal runs give equal files. "
     "Its gradient check judges every parameter value once, as the difference quotient of the loss says. "
     "Nothing is done after quit, and the end of the input ends the program.",
     ["programs", "histories", "inputs"], "all descriptions, datasets, seeds and command sequences",
     "The tests never run the training program or compare a trained network with anything.",
     ["tools/trainNetwork.cpp", "src/net/Trainer.cpp", "src/net/DatasetInputLayer.cpp", "src/net/NetGraph.cpp", "src/net/ConfusionMatrixLayer.cpp", "src/net/BinaryStatLayer.cpp"],
     [("parseCommand", "tools/trainNetwork.cpp"), ("Trainer::Train/Epoch/Test", "src/net/Trainer.cpp"), ("NetGraph::Initialize", "src/net/NetGraph.cpp")],
     "ASan/UBSan-instrumented training sessions monitored by lock-step library training and independent evaluation",
     SAN + "each session's saved parameters are compared bitwise with a second, in-process training; test statistics with a double-precision interpreter of the saved network (bounds where scores are too close to call).",
     "random descriptions, small datasets and 1-8 commands in both modes; non-trivial when the session is new")

prop("C24", "Patch extraction gives every pixel its own, mirrored neighbourhood",
     "Extracting patches from any sample of an image tensor gives one patch per pixel, in row order, whose elements are the image's elements around that pixel, mirrored at the borders however far the patch reaches, in every map. "
     "With mean subtraction every patch has its own mean removed and is otherwise the same; the helper holds the patch's clamped normalized position. "
     "The image is not changed and former contents of the targets do not matter.",
     ["inputs", "configurations"], "all image and patch sizes (odd, even, larger than the image), samples and maps",
     "No test extracts a patch.",
     ["src/util/Segmentation.cpp"],
     [("Segmentation::ExtractPatches", "src/util/Segmentation.cpp")],
     "ASan/UBSan runs with element-wise reference monitor",
     SAN + "the mirrored neighbourhood is recomputed for every element. The mirror rule is the one the code documents by behaviour: -v below zero, 2n-1-v at or above n.",
     "random images (to 14x14, several samples and maps) and patch sizes to 31; non-trivial when the configuration is new")

prop("C25", "Multi-threaded builds compute the same without data races",
     "In a build with OpenMP every layer pass, dataset access, statistic and training session is free of data races, and its results are bit for bit those of one thread, whatever the number of threads and however iterations are scheduled.",
     ["schedules", "inputs", "configurations"], "all team sizes, iteration assignments and interleavings of every parallel region",
     "The tests run without OpenMP; a race needs a particular interleaving and shows as a rare wrong number.",
     ["src/math/TensorMath.cpp", "src/net/MaxPoolingLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp", "src/net/ActivationFunctions.cpp", "src/net/LocalResponseNormalizationLayer.cpp", "src/net/BinaryStatLayer.cpp", "src/util/TensorStreamDataset.cpp"],
     [("omp parallel for", "src/net/*.cpp"), ("omp parallel for", "src/math/TensorMath.cpp"), ("omp parallel for", "src/util/TensorStreamDataset.cpp")],
     "ThreadSanitizer on an instrumented OpenMP runtime, plus bitwise comparison across team sizes",
     "ThreadSanitizer (fatal) sees every access; the OpenMP runtime is replaced by a shim on std::thread compiled with the same instrumentation, so fork, join, barrier and critical sections are the only ordering. Other drivers' oracles run under it too.",
     "random layers, math kernels, datasets, statistics and training sessions with teams of 2-13, permuted thread numbers and start delays; distinct (region, team, assignment) combinations are counted")

prop("C26", "The gradient check finds wrong gradients and leaves the network unchanged",
     "Checking a network's gradients judges exactly every (skip+1)-th element of every parameter of every layer that can be checked: an element counts as okay, tolerable or failed as its reported gradient is within 2%, within 20% or further from the difference quotient of the loss, and missing or undefined gradients fail. "
     "The fatal variant fails exactly if an element failed; the single-layer variant accepts exactly if more than 85% pass. "
     "Afterwards all parameters are bit for bit what they were.",
     ["programs", "inputs"], "all networks, gradient errors at any element, skip values",
     "The tests only check networks whose gradients are right, so a check that accepts everything passes them.",
     ["src/util/GradientTester.cpp", "include/cn24/util/GradientTester.h"],
     [("GradientTester::TestGradient", "src/util/GradientTester.cpp"), ("GradientTester::DoGradientTest", "src/util/GradientTester.cpp")],
     "ASan/UBSan runs on networks with planted gradient errors; verdict and count monitor",
     SAN + "layers with an exactly known loss report gradients with chosen errors (off by factors, missing, infinite, NaN), kept away from the class limits; real networks are compared bitwise before and after.",
     "random networks of scripted layers (0-3 parameters each, 1-40 elements, skip 0-60) and generated real networks; non-trivial when the configuration is new")

prop("C27", "Repeated work accumulates no memory, descriptors or mappings",
     "Doing the same work again does not make a program grow: tensors, tensor streams, compressed tensors, images, image lists, patches and layers leave nothing behind when they are released, "
     "and reading samples, passes through a network, training, testing, resetting, gradient checks, statistics and reports can be repeated without keeping memory, open files or file mappings. "
     "The same holds for inputs and configurations that are refused: damaged or missing files, images, parameters and wiring errors. "
     "(Networks, datasets, trainers and registered statistics live as long as the process.)",
     ["histories", "inputs"], "any number of repetitions of any operation on any input, accepted or refused",
     "No test repeats anything or looks at what is left; a training run repeats every operation millions of times.",
     ["src/util/Tensor.cpp", "src/util/CompressedTensor.cpp", "src/util/TensorStream.cpp", "src/util/PNGUtil.cpp", "src/util/JPGUtil.cpp", "src/net/Trainer.cpp", "src/net/NetGraph.cpp"],
     [("DeleteIfPossible", "src/util/Tensor.cpp"), ("FromFile", "src/util/TensorStream.cpp"), ("LoadFromStream", "src/util/PNGUtil.cpp"), ("LoadFromFile", "src/util/JPGUtil.cpp"), ("Train / Test", "src/net/Trainer.cpp")],
     "ASan/UBSan runs of repeated operations; the allocator's live bytes, the descriptor table and the mappings are read between repetitions",
     SAN + "an operation that leaves more live bytes behind in each of three successive repetitions, or more descriptors or mappings after them, has a leak; caches that fill once are not called.",
     "random tensor histories, streams, images (valid and damaged), image lists, layers, networks, datasets, training and statistics; non-trivial when the configuration is new")

prop("C28", "Output that cannot be written completely is reported, never lost silently",
     "Whenever storage stops accepting data, at whatever byte of an output (or the output cannot be opened at all), the operation that writes it reports the failure: writing an image or tensor file through the library throws, "
     "streams that tensors, compressed tensors or network parameters are written to are left in a failed state, the command line programs end with an error status, the training program and the tensor editor answer the command with an error and stay usable, "
     "and the statistics file sink reports an error for the line that did not fit. What is being written (tensors, parameters) and the input files are not changed by a failed write, the part that was accepted is the beginning of the complete output, "
     "and with exactly enough room the same operation succeeds and the file is complete.",
     ["fault_sequences", "inputs"], "any output of any program or library writer, any byte at which the storage stops accepting data",
     "No test writes a file, let alone to a storage that is full; the fault has to be placed at each byte, and the losses hide in buffers that are only written when a file is closed.",
     ["src/util/Tensor.cpp", "src/util/PNGUtil.cpp", "src/util/JPGUtil.cpp", "src/util/CSVStatSink.cpp", "src/util/CompressedTensor.cpp", "tools/trainNetwork.cpp", "tools/compressTensorStream.cpp", "tools/tensorStreamTool.cpp", "tools/tensorTool.cpp", "tools/makeTensorStream.cpp", "tools/makeCompressedTensorStream.cpp", "tools/classifyImage.cpp"],
     [("WriteToFile", "src/util/Tensor.cpp"), ("WriteToStream", "src/util/PNGUtil.cpp"), ("Process", "src/util/CSVStatSink.cpp"), ("save command", "tools/trainNetwork.cpp")],
     "ASan/UBSan runs of the library and of the programs with the size of files limited (RLIMIT_FSIZE, /dev/full, impossible paths); what they report is compared with what is in the file",
     SAN + "every output is first written completely; then the same operation runs with room for a chosen smaller number of bytes (none, all but one, around buffer sizes, any) and with exactly enough.",
     "random tensors, images, parameter sets, statistics and program runs; non-trivial when the kind, size and position of the fault are new")

prop("C29", "Input that cannot be read is an error, never a hang or silently shortened data",
     "Whenever reading an input stops working - the device reports an error at whatever byte, a file cannot be opened or mapped into memory, a path is a folder or missing, or a tensor, tensor stream or parameter file ends inside a tensor (in its header as well as in its values) - "
     "the operation that reads it ends and reports the failure: library loaders (images, tensors, streams, image lists, datasets, network descriptions, parameters) throw, the command line programs end with an error status, and commands of an interactive session are answered with an error or end it with an error status. "
     "It never goes on as if the part that was read were everything, never runs forever and never changes its input. Once the fault is gone the same operation gives the usual result, and a fault that is not reached changes nothing.",
     ["fault_sequences", "inputs"], "any input file of any loader or program, any byte, open or memory map that fails",
     "No test opens a file that cannot be read; loops that only look for the end of a file never end, and lost data shows up only where the fault hits between two tensors or lines.",
     ["src/util/Tensor.cpp", "src/util/CompressedTensor.cpp", "src/util/FloatTensorStream.cpp", "src/util/CompressedTensorStream.cpp", "src/util/ListTensorStream.cpp", "src/util/TensorStreamDataset.cpp", "src/util/TensorStreamPatchDataset.cpp", "src/util/JPGUtil.cpp", "src/util/PNGUtil.cpp", "src/factory/ConfigurableFactory.cpp", "src/net/NetGraph.cpp", "tools/trainNetwork.cpp", "tools/compressTensorStream.cpp", "tools/tensorStreamTool.cpp", "tools/makeTensorStream.cpp", "tools/classifyImage.cpp"],
     [("Tensor::Deserialize", "src/util/Tensor.cpp"), ("LoadFile", "src/util/FloatTensorStream.cpp"), ("CreateFromConfiguration", "src/util/TensorStreamDataset.cpp"), ("AddLayers", "src/factory/ConfigurableFactory.cpp"), ("main", "tools/compressTensorStream.cpp")],
     "ASan/UBSan runs of the library and of the programs with interposed read/fread/open/mmap that fail for one chosen file at a chosen point; the outcome is compared with the undisturbed run and with whether the fault was hit",
     SAN + "the fault injector counts the errors it delivered: delivered and unreported, or undelivered and another outcome, is a violation; a watchdog catches endless loops, file size and memory limits contain them.",
     "random tensors, streams (float, compressed, mapped or not), lists, images, datasets, descriptions, parameters and program runs; fault positions at boundaries, headers, ends and anywhere; non-trivial when file, kind and position of the fault are new")

prop("C30", "A build for OpenCL devices computes the same, and reports a device that fails",
     "In a build with OpenCL support the kernels compile, stay inside their buffers and do not depend on the order in which work items run, and everything the other properties say about tensors, tensor math, compression, files, images, layers, networks, parameters, training and input layers "
     "holds there too, wherever the content of each tensor happens to be (in the computer's memory or the device's) when an operation starts, and at whatever moment the device executes its commands. "
     "Device buffers are released exactly once and not used afterwards. When any call to the device fails (once or from then on), the operation reports it or its result is still right, nothing stays behind on the device, and later operations work. "
     "Start-up uses the configured platform and device and the kernels beside the program or one folder above, or reports that they do not exist.",
     ["inputs", "schedules", "fault_sequences", "configurations"], "any operation of an OpenCL build, any placement of its tensors, any order of work items and delay of commands, any failing device call",
     "The OpenCL code is only compiled by the build: no test runs it (there is no device), and placement, order and failures are not under a test's control on a device either.",
     ["kernels/", "src/math/TensorMath.cpp", "src/util/Tensor.cpp", "src/util/Init.cpp", "src/net/MaxPoolingLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp", "src/net/ActivationFunctions.cpp", "src/net/ConvolutionLayer.cpp", "src/net/NetGraph.cpp", "src/net/DatasetInputLayer.cpp"],
     [("MoveToGPU / MoveToCPU / Shadow", "src/util/Tensor.cpp"), ("IM2COL / COL2IM / SETSAMPLE / SMS / DOWN / UP", "src/math/TensorMath.cpp"), ("CLHelper::Init", "src/util/Init.cpp"), ("PrepareNode", "src/net/NetGraph.cpp"), ("SET_VALUE", "kernels/setValue.cl")],
     "ASan/UBSan runs of the OpenCL build on a monitored stand-in for a device that executes the repository's kernels on the CPU, with the drivers and oracles of C01-C11, C19, C22, C23, C26 and C27, randomly placed tensors and injected device errors",
     SAN + "the stand-in keeps device buffers in separate guarded memory filled with NaN, delays commands, runs work items in random orders (often twice, comparing the results), and reports released, missing or null buffers, wrong argument sizes and unreleased buffers; before operations tensors are moved to the device and the copy left behind is destroyed; programs are repeated with chosen device calls failing.",
     "the generators of the named drivers plus random tensor, layer and network programs with errors in each device call, and starts with different platforms, devices, configurations and kernel locations; non-trivial when the configuration or program is new")

prop("C31", "A layer accepts exactly the inputs it can process",
     "For every layer type and configuration, and every number and shape of input tensors offered: inputs the layer is defined for are accepted, its outputs get the promised shape, every element of the outputs and of the input gradients is computed, and no memory outside the tensors is touched. "
     "All other inputs - a kernel or region larger than the (padded) image or empty, a size that is not a multiple of the region, maps that cannot be divided into the groups, tensors of different samples, sizes or maps where they must agree, too few, too many or missing tensors - are refused by the answer or an exception before anything is computed, "
     "directly and when a network with such a layer is initialized. Outputs the layer has not created are refused where it compares them. Input layers take exactly the tensors with equal sample counts and hand each of them, unchanged, to its own output.",
     ["inputs", "configurations"], "any layer, any configuration, any tuple of input shapes, in and outside a network",
     "Tests connect each layer to a few fitting shapes; a bound that is off by one, a swapped dimension or a comparison that is missing shows only for particular misfits, and then as garbage or memory corruption far away.",
     ["src/net/ConvolutionLayer.cpp", "src/net/MaxPoolingLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp", "src/net/InputDownSamplingLayer.cpp", "src/net/NonLinearityLayer.cpp", "src/net/HMaxActivationFunction.cpp", "src/net/LocalResponseNormalizationLayer.cpp", "src/net/ResizeLayer.cpp", "src/net/UpscaleLayer.cpp", "src/net/SpatialPriorLayer.cpp", "src/net/SumLayer.cpp", "src/net/ConcatenationLayer.cpp", "src/net/GradientAccumulationLayer.cpp", "src/net/ErrorLayer.cpp", "src/net/BinaryStatLayer.cpp", "src/net/ConfusionMatrixLayer.cpp", "src/net/InputLayer.cpp", "src/net/SimpleLayer.cpp", "src/net/NetGraph.cpp"],
     [("CreateOutputs / Connect", "src/net/ConvolutionLayer.cpp"), ("CreateOutputs / Connect", "src/net/SumLayer.cpp"), ("Connect", "src/net/SimpleLayer.cpp"), ("InputLayer", "src/net/InputLayer.cpp"), ("InitializeNode", "src/net/NetGraph.cpp")],
     "ASan/UBSan runs that offer random fitting and minimally misfitting inputs to every layer, alone and in a network, against a table of what each layer is defined for",
     SAN + "the answers and exceptions of CreateOutputs, Connect and Initialize are compared with an independent predicate; outputs and gradients of accepted layers are filled with NaN and must be finite after a pass.",
     "random layers and shapes around their bounds, one or two misfits (a dimension one off, doubled or swapped, a tensor missing, removed or repeated); non-trivial when layer, configuration and shapes are new")

prop("C32", "What is shown of networks and tensors is true, and looking changes nothing",
     "Drawing a network (PrintGraph, the training program's `graph` command) shows every node exactly once, with its name, its layer and that layer's configuration, its role as input or output, and each of its outputs with its real dimensions, "
     "and every connection exactly once, between the right nodes and outputs and marked when it carries no gradient; a network that is not initialized is drawn without dimensions. For a network built from a description the layers drawn are those of the text; `graph ... test` shows the network used for testing. "
     "Reported statistics (PrintStats, `wstat`, `dstat`) are the minimum, maximum, mean, L2 norm and variance of the current weights, gradients, outputs and output gradients of the node asked for. Tensors and settings are shown with their real dimensions and values, and the epoch, "
     "iterations, batch size, learning rate and losses announced during training are those of the training. Drawing, reporting and viewing repeat with the same result, change no parameter, gradient, output or later training result, and information is shown only when the log level asks for it.",
     ["inputs", "programs", "histories"], "any network (built by hand or from a description, initialized or not, trained or not), any tensor content, any session with inspections in between",
     "No test looks at what is printed; a wrong connection, a stale size or a statistic of the wrong tensor misleads the user silently, and an inspection that disturbs a network shows only in later results.",
     ["src/net/NetGraph.cpp", "src/util/Tensor.cpp", "src/util/CompressedTensor.cpp", "src/net/Trainer.cpp", "tools/trainNetwork.cpp", "include/cn24/net/Layer.h", "include/cn24/util/Log.h"],
     [("NetGraph::PrintGraph", "src/net/NetGraph.cpp"), ("Tensor::PrintStats", "src/util/Tensor.cpp"), ("graph, wstat and dstat commands", "tools/trainNetwork.cpp"), ("Trainer::Epoch / Test messages, TrainerSettings text", "src/net/Trainer.cpp")],
     "ASan/UBSan runs whose graphviz output, statistics and messages are parsed and compared with the network's real state and a replay of the session",
     SAN + "the drawn graph is compared with nodes, connections and tensors and with the generator's list of layers; statistics are recomputed in double precision from tensors and, for sessions, from a replay in this process without inspections; all tensors are compared bitwise before and after.",
     "random graphs, descriptions, tensors (offsets, huge, tiny, constant, one-sided) and training sessions with graph, wstat and dstat between training, testing and saving; non-trivial when graph, tensor or session is new")

prop("C33", "What is learned from patches is what labels the whole image",
     "A network described with method=patch is trained on patches of the data set and used on whole images. For every data set, one epoch presents every patch of every training image exactly once, with the label and the error weight its centre pixel has in the whole image; "
     "with the parameters of the patch network carried over through a parameter file, the network the same description makes for whole images gives, at the block of pixels a patch stands for, exactly the prediction the patch network gives for that patch; "
     "and when only these pixels are counted, the loss of the image is the sum of the losses of its patches and the gradient of every parameter is the sum of the gradients of the patches. This holds for the networks, trained parameters and photographs shipped with the software as well.",
     ["inputs", "configurations"], "any description without padding and spatial prior, any data set of images at least one patch in size, any parameters, before and after training, any division of an epoch into batches",
     "Hybrid training rests on this equality and no test compares the two networks; an offset of one pixel, a transposed patch or a wrong enlargement of the output still trains and still produces an image.",
     ["src/util/TensorStreamPatchDataset.cpp", "src/util/TensorStreamDataset.cpp", "src/net/DatasetInputLayer.cpp", "src/factory/ConfigurableFactory.cpp", "src/net/NetGraph.cpp", "src/net/UpscaleLayer.cpp", "src/net/ConvolutionLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp"],
     [("TensorStreamPatchDataset::GetTrainingSample", "src/util/TensorStreamPatchDataset.cpp"), ("ConfigurableFactory::AddLayers", "src/factory/ConfigurableFactory.cpp"), ("DatasetInputLayer::FeedForward", "src/net/DatasetInputLayer.cpp"), ("NetGraph::SerializeParameters / DeserializeParameters", "src/net/NetGraph.cpp")],
     "ASan/UBSan runs of both networks of one description on one data set; every observed patch is located in the images by its content and its label, weight, output, loss and gradient compared with the whole image's",
     SAN + "patches are recognised by their content in the input layer's output (images are random or noisy, so a patch occurs once); outputs are compared within 1e-3, labels and weights exactly, sums of gradients within 2e-3 of their terms (a difference must repeat with two other sets of parameters, because rounding may decide a maximum or a rectifier).",
     "random descriptions (strides, pooling, factors up to 4 per axis that divide the padded image, borders up to 47 pixels) and the five shipped ones, 1-2 images up to 9 pixels larger than a patch; gradients for one image, an even border and no dropout; non-trivial when the description is new")

prop("C34", "A data set whose parts do not belong together is refused, not misread",
     "When the tensors a data set configuration names contradict it or each other (labels with more maps than there are classes, a label or image with other maps than the set's first ones, a label of another size than its image, image and label swapped), creating the data set or the samples concerned is refused; "
     "no memory outside the tensors is read, and samples of pairs without contradiction, when they are served, are exactly what the files hold. For patches this includes labels of another size than their image. A class without a configured weight has weight 1, also when the configuration ends within the list of weights, and all colors of up to 32 bits are taken over.",
     ["inputs", "configurations"], "any data set of valid tensor files with contradictions of these kinds, plain or compressed, mapped or not, as patches or whole images",
     "The tests contain no data set; every file is valid by itself, so only the combination shows the mistake, and reading a neighbouring tensor's memory trains without complaint.",
     ["src/util/TensorStreamPatchDataset.cpp", "src/util/TensorStreamDataset.cpp", "src/util/Tensor.cpp", "src/util/FloatTensorStream.cpp", "src/util/CompressedTensorStream.cpp"],
     [("TensorStreamPatchDataset constructor", "src/util/TensorStreamPatchDataset.cpp"), ("TensorStreamDataset::CreateFromConfiguration", "src/util/TensorStreamDataset.cpp"), ("Tensor::CopySample", "src/util/Tensor.cpp")],
     "ASan/UBSan runs over contradictory data sets with a model of which pairs fit; refusals and served samples are judged pair by pair",
     SAN + "the generator knows which pair contradicts what; a sample of such a pair that is served, a sample of another pair that is refused although the data set was created, a set without contradiction that is refused, and any content, weight or color that differs is a violation.",
     "1-4 training and testing pairs, 0-2 contradictions each, patches up to 6x6, weights lists cut at any entry; whole images with a label of another size may be served or refused (only their image is compared); non-trivial when the set is new")

prop("C35", "Objects that share nothing do not influence one another",
     "Any number of networks, trainings, layers, data sets, tensor streams, tensors, images and descriptions can be alive in one process. Whatever is done to one of them, including creating and destroying it, every other one behaves bit for bit as if it were alone: "
     "outputs, losses, gradients, trained and saved parameters, served samples, file contents, reported dimensions, settings and refusals are the same for every order in which their operations are interleaved. "
     "(Shared by design, and outside this property: the statistics collected for the whole process, and the random starting values of networks made from a description, which come from the process's random numbers, see the known finding of C16.)",
     ["histories", "inputs"], "any two or three histories of independent objects, of the same or different kinds (also two of exactly the same content), in any interleaving, with objects destroyed at any point",
     "Tests hold one object at a time and run one thing after the other; a buffer, cache, flag or generator that became common to all objects gives right results in every such test.",
     ["src/net/NetGraph.cpp", "src/net/Trainer.cpp", "src/net/DatasetInputLayer.cpp", "src/net/ConvolutionLayer.cpp", "src/util/CompressedTensorStream.cpp", "src/util/ListTensorStream.cpp", "src/util/TensorStreamDataset.cpp", "src/util/TensorStreamPatchDataset.cpp", "src/util/Colorize.cpp", "src/factory/ConfigurableFactory.cpp", "include/cn24/net/NetStatus.h"],
     [("NetGraph::FeedForward / BackPropagate", "src/net/NetGraph.cpp"), ("Trainer::Epoch / ApplyGradients", "src/net/Trainer.cpp"), ("DatasetInputLayer::FeedForward", "src/net/DatasetInputLayer.cpp"), ("CompressedTensorStream::CopySample", "src/util/CompressedTensorStream.cpp"), ("ListTensorStream::CopySample", "src/util/ListTensorStream.cpp"), ("Dataset::Colorize", "src/util/Colorize.cpp")],
     "ASan/UBSan runs of two or three independent histories, each alone in a fresh process and then interleaved step by step in a long-lived one; every observation recorded in both runs is compared",
     SAN + "an actor is deterministic by its own seed and logs a digest of everything it observes (only memory its operations define); the log of the interleaved run must equal, up to the point where the actor is destroyed, the log of the actor alone, and no memory error may be reported.",
     "8 kinds of actors with 3-20 steps each, 2-3 per history, many of them identical to the first or of its structure with other values; switches between actors are counted; non-trivial when kinds and order of steps are new")
