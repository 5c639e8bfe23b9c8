"""The property catalogue: source of properties.jsonl and MANIFEST.json (tools/gen.py writes them)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


prop(
    "P01", "Image codec: decoded bitstream equals the evaluated model",
    "For every image batch of any supported size and any weights, decompressing what the hyperprior image codec compressed yields an image of the original size with values in [0, 1] that equals the evaluation-mode forward reconstruction of the reflect-padded image, cropped and clamped. "
    "The strings are one pair per image, survive serialisation, decode identically in another model restored from the same state dict, and do not depend on the other images of the batch. "
    "This stays true after any history of forward calls, device-mode switches, table rebuilds, train/eval switches and weight updates followed by a table rebuild; compressing before the coding tables exist raises.",
    ["inputs", "configurations", "histories"], "all image sizes/batches/contents, model widths and weights, call histories",
    "The tests compress one random image with untrained weights (all latents round to the same symbol) and compare shapes only.",
    ["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/_hyperprior_autoencoder.py", "neuralcompression/functional/_pad_image.py"],
    [("padding before encoding, cropping and clamping after decoding", "HiFiCAutoencoder.compress / decompress"), ("hyper latent decoded on both sides before deriving entropy parameters", "HiFiCAutoencoder.compress")],
    "property-based testing: round trip vs evaluated forward pass over generated models, images and call histories",
    "Random search over small-width models (encoder/decoder widths are fixed by the architecture); CPU only; trusts compressai's range coder.",
)
prop(
    "P02", "Image codec: reported likelihoods are the rate that is paid",
    "In evaluation mode the hyperprior image codec is deterministic, its latents are the encoder output rounded to the predicted mean plus an integer, all likelihoods lie in (0, 1], have the latents' shapes, equal the Gaussian mass of the chosen bin, and their information content predicts the length of the emitted strings. "
    "In training mode the reconstruction is decoded from hard-quantised latents the gradient of the reconstruction passing unchanged to the encoder output and not to the hyperprior, the quantised likelihoods carry no gradient, and the noisy ones do. "
    "The likelihoods of an image do not depend on its batch mates.",
    ["inputs", "configurations"], "all weights, images and modes",
    "Tests check output shapes for one configuration; no test relates likelihoods to string lengths or to the quantisation lattice.",
    ["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/_hyperprior_autoencoder.py"],
    [("noisy and quantised likelihoods from the same entropy parameters", "HiFiCAutoencoder.forward"), ("straight-through quantisation around the mean", "_HyperpriorAutoencoderBase._ste_quantize")],
    "property-based testing: differential check of likelihoods against string lengths and closed-form Gaussian masses",
    "Length check applies to symbols inside the coding tables (escape-coded outliers are excluded by a stated rule).",
)
prop(
    "P03", "Image codec: freezing, train/eval and device modes form one state machine",
    "After any sequence of freezing the encoder or bottleneck, switching train/eval, training steps, device-mode switches (valid or invalid), forwards, compressions and table rebuilds, frozen parts stay frozen: they require no gradient, remain in evaluation mode and are not changed by a training step, while unfrozen parts follow the last train/eval call. "
    "Forward raises while the model is set up for compression and works again after switching back; an unknown device mode is rejected without changing anything; coding raises ValueError if any parameter is off the CPU, or, with force_cpu=False, if any hyperprior layer is. "
    "Collecting parameters always splits exactly the trainable parameters into quantile parameters and all others, without overlap or omission.",
    ["histories", "configurations"], "all call histories from every construction option",
    "Tests call each operation once on a fresh model; freezing followed by train() or several interleaved switches are not sampled.",
    ["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/_hyperprior_autoencoder.py"],
    [("train() re-applies freezing", "HiFiCAutoencoder.train"), ("device mode checked on entry", "HiFiCAutoencoder.forward"), ("partition by name with a completeness check", "collect_parameters")],
    "stateful property-based testing against a five-variable reference model",
    "CPU only: torch's meta device stands in for an accelerator in the placement checks.",
)
prop(
    "P04", "Padding to a factor is minimal, content-preserving and reversible",
    "For every 4-D image, factor and padding mode, padding yields the smallest height and width that are multiples of the factor, keeps the image in the top-left corner, fills the rest as the padding mode (reflection by default) prescribes, and reports the original height and width so that cropping restores the image exactly. "
    "An image whose sides already are multiples is returned unchanged, and the input is never modified.",
    ["inputs"], "all image shapes, factors, modes and contents",
    "Tests sample a few shapes with one factor and check divisibility.",
    ["neuralcompression/functional/_pad_image.py"], [("pad amounts modulo factor", "pad_image_to_factor")],
    "property-based testing vs an index-level reference",
    "Random search; shapes up to about 3x the factor per side.",
)
prop(
    "P05", "Video codec: P-frame strings decode to the evaluated prediction",
    "For every pair of equally sized frames (any size the motion pyramid admits, odd sizes included), any composition of sub-networks and any weights, decompressing a compressed P-frame with the same reference frame gives a frame of the same size with values in [0, 1] equal to the evaluated model's clamped prediction; the forward pass is the documented chain of its sub-networks, in every output and in the gradient to every parameter. "
    "Chained over a group of pictures, a second decoder restored from the state dict and given only the pickled strings tracks the encoder's reconstructions frame by frame. "
    "The reported flow and residual probabilities lie in (0, 1] and predict the string lengths, frames passed in are not modified, every sub-module given is the one used (the others are built in the requested width), and in training every sub-network receives gradients.",
    ["inputs", "configurations", "histories"], "all frame sizes/contents, model compositions, weights and frame sequences",
    "Tests compress 32x32 random frames with untrained weights and compare shapes only (sizes not divisible by 16 were never compressed).",
    ["neuralcompression/models/deep_video_compression.py"],
    [("latent sizes recovered from recorded decomposition sizes", "DVC.decompress"), ("encoder reconstructs the decoder's prediction before coding the residual", "DVC.compress")],
    "property-based testing: round trip vs evaluated forward pass, chained decoding histories",
    "Random search over frames up to 70x70; trusts compressai's range coder.",
)
prop(
    "P06", "Video codec: pyramid flow, coder geometry and motion compensation",
    "The optical-flow estimator computes, for any pyramid depth and frame size, the coarse-to-fine recursion over 2x2-averaged frames (upsample the flow bilinearly, warp the first frame, add the level's correction) and returns one warped/target pair per level from coarsest to finest; frames of different sizes are rejected. "
    "For any stride, kernel size and depth the latent encoder records the input size of every strided layer and the decoder reproduces exactly those sizes without consuming the record, rejecting a record of the wrong length. "
    "Motion compensation preserves frame size for any size and kernel, uses all of its inputs, and treats batch items independently.",
    ["inputs", "configurations"], "all depths, kernel sizes, frame sizes, weights",
    "Tests run square power-of-two frames and compare shapes.",
    ["neuralcompression/models/deep_video_compression.py"],
    [("pyramid recursion", "DVCPyramidFlowEstimator.calculate_flow_with_image_pairs"), ("size bookkeeping", "DVCCompressionEncoder / DVCCompressionDecoder")],
    "property-based testing vs an independent recursion and closed forms for constant displacements",
    "Random search, float64, frames up to 40x40.",
)
prop(
    "P07", "Dense image warping samples the image at grid plus flow",
    "For every image and flow field (of its own spatial size), warping returns at each flow position the image interpolated at the normalised grid position plus the flow's (x, y) displacement, with bilinear interpolation and border clamping by default and the requested interpolation, border and corner-alignment modes otherwise. "
    "Images and flows of different dtype, or flows whose last dimension is not two, are rejected; inputs are not modified and the gradient with respect to the image is the adjoint of the warp.",
    ["inputs"], "all shapes, displacements (including far outside the frame) and modes",
    "One test compares against a cached TensorFlow result for a few shapes.",
    ["neuralcompression/functional/_dense_image_warp.py"], [("base grid plus flow, grid_sample", "dense_image_warp")],
    "property-based testing vs a per-pixel numpy resampler",
    "Bicubic interpolation is not compared; nearest-neighbour ties are excluded.",
)
prop(
    "P16", "Normal CDF family and log-CDF/survival functions are accurate everywhere",
    "For every finite real input the standard normal CDF, its logarithm and log(exp(x)-1) agree with the exact values to single precision, with the logarithmic forms finite and accurate arbitrarily far into the tails. "
    "For Normal, Uniform and any other distribution that offers a CDF, the log-CDF, survival function and log-survival function agree with the exact ones to the accuracy of that CDF (to single precision in both tails for Normal). "
    "Unsupported dtypes are rejected.",
    ["inputs", "configurations"], "all finite inputs, dtypes, distribution families and parameters",
    "Tests compare a handful of random central points with scipy; tails, switch points and float64 are not sampled.",
    ["neuralcompression/functional/_ndtr.py", "neuralcompression/functional/_log_ndtr.py", "neuralcompression/functional/_log_cdf.py", "neuralcompression/functional/_survival_function.py", "neuralcompression/functional/_log_survival_function.py", "neuralcompression/functional/_log_expm1.py"],
    [("series / complementary / direct branches by magnitude", "log_ndtr, ndtr"), ("overflow-free branch", "log_expm1")],
    "property-based testing vs double-precision scipy oracles with error-analysis tolerances",
    "Tolerances are single precision; gradients in the far tails are not claimed.",
)
prop(
    "P17", "Uniform-noise distributions: density is unit-bin mass, samples add fresh noise",
    "For a base distribution with additive uniform noise the density at every point equals the base probability of the unit interval centred there, and the log density equals its logarithm accurately into the far tails of a Normal base (above whose mean the density itself keeps its relative accuracy); densities at integer-spaced points sum to one. "
    "Samples have the requested shape and are the base sample plus noise in [-1/2, 1/2] drawn independently for every element and every call. "
    "Batch and event shapes are those of the base, expansion keeps the noise, and the noisy normal equals the generic construction over a Normal.",
    ["inputs", "configurations"], "all base families, parameters, evaluation points, sample and batch shapes",
    "Tests check one scalar base and shapes; per-element independence and tail accuracy are not observable there.",
    ["neuralcompression/distributions/_uniform_noise.py", "neuralcompression/distributions/_noisy_normal.py"],
    [("numerically stable difference of CDFs or survival functions", "UniformNoise.prob / log_prob"), ("additive noise", "UniformNoise.rsample")],
    "property-based testing vs exact interval masses; structural and distributional checks of samples with fixed seeds",
    "The CDF, moments and entropy of the noisy distribution are not claimed (they are delegated to the base by design).",
)
prop(
    "P18", "Tail quantiles enclose the requested mass; offsets align bins with the mean",
    "For a distribution with an inverse CDF the lower and upper tails are its quantiles at half the tail mass from either end; without one they are found by search from the CDF, per batch element, to within a small distance. "
    "The underlying solver terminates and returns a root for every monotone function, for each element of the requested shape and dtype, including when the starting point already is the solution. "
    "The quantization offset is the mean minus its nearest integer (zero when no mean is defined), lies in [-1/2, 1/2], carries no gradient, and makes the mean a bin centre.",
    ["inputs", "configurations"], "all distributions with a CDF, tail masses, monotone functions, means",
    "Tests check one or two scalar distributions.",
    ["neuralcompression/functional/_estimate_tails.py", "neuralcompression/functional/_lower_tail.py", "neuralcompression/functional/_upper_tail.py", "neuralcompression/functional/_quantization_offset.py"],
    [("Adam iteration with a stopping count", "estimate_tails"), ("icdf first, search second", "lower_tail / upper_tail")],
    "property-based testing vs exact quantiles and equation residuals",
    "Search accuracy is judged at 0.12 absolute (the solver's step is 0.01 and it stops 100 steps after crossing); quantiles within about +-8.",
)
prop(
    "P19", "Information content is the negative log probability, reduced as requested",
    "For every tensor of probabilities of any rank and memory layout, the information content equals minus the logarithm in the requested base (two by default), elementwise, summed per batch element, or summed over everything (the default), in the input dtype and with the matching gradient. "
    "Any other reduction name is rejected.",
    ["inputs"], "all tensors of probabilities, bases, reductions, layouts",
    "Tests compare one shape with one base; memory layouts are not varied.",
    ["neuralcompression/functional/_information_content.py"], [("reduction switch", "information_content")],
    "property-based testing vs numpy float64", "Random search; probabilities in [1e-30, 1].",
)
prop(
    "P20", "Soft rounding, its inverse and its conditional mean are mutually consistent",
    "For every input and temperature, soft rounding fixes integers and half-integers, is monotone, commutes with integer shifts, stays within the unit cell, reduces to the identity below the threshold and approaches rounding for large temperatures. "
    "The inverse satisfies soft_round(inverse(y)) = y for every y and inverts soft rounding wherever it is well conditioned, always finite. "
    "The conditional mean equals the midpoint of the inverse images half a unit either side, i.e. the expectation of the input given its noisy soft-rounded value.",
    ["inputs"], "all reals, temperatures and thresholds",
    "Tests compare a few points; negative inputs, cell boundaries, small and large temperatures are not sampled.",
    ["neuralcompression/functional/_soft_round.py", "neuralcompression/functional/_soft_round_inverse.py", "neuralcompression/functional/_soft_round_conditional_mean.py"],
    [("tanh in the unit cell", "soft_round"), ("clamped atanh", "soft_round_inverse")],
    "property-based testing: closed form, round trips and metamorphic shift laws",
    "Temperatures up to 40; tolerances scale with float32 conditioning.",
)
prop(
    "P21", "Lower bound clamps values and applies exactly the chosen gradient rule",
    "For every input and bound (number, scalar tensor or per-element tensor) the result is the elementwise maximum. "
    "Backpropagation passes the gradient unchanged under the identity rule, zero below the bound under the disconnected rule, and below the bound only gradients whose descent step moves the input towards the bound under the default rule; above the bound it is always the identity. "
    "An unknown rule is rejected.",
    ["inputs", "configurations"], "all inputs, bounds, incoming gradients and rules",
    "Tests check the default rule on random values with a tensor bound.",
    ["neuralcompression/functional/_lower_bound.py"], [("custom autograd function", "lower_bound")],
    "property-based testing vs the three documented rules", "Random search; exact comparison.",
)

prop(
    "P10", "Transformer codec bottleneck: lossless around the mean at the stated rate",
    "For every tensor of inputs, means and scales (including inputs far outside the predicted range and means next to rounding boundaries), compressing gives the input rounded around the rounded mean, one string per item independent of its batch mates, and decompressing with the same means and scales - also in another instance - returns exactly that tensor, which is also what the evaluated forward pass returns. "
    "Evaluated likelihoods lie in (0, 1], are the Gaussian mass of the chosen bin at the quantised scale and mean offset, sum to one over all integers, and predict the string length; in training the output is hard rounded with an identity gradient and the rate is differentiable in inputs, means and scales. "
    "The log-scale index map is increasing and invertible, every coding table is a strictly increasing 16-bit distribution leaving out at most half the tail mass on either side, and coding before tables exist raises.",
    ["inputs", "configurations"], "all inputs, means, scales and table geometries",
    "The bottleneck has no tests; the entropy model tests never code a string.",
    ["projects/torch_vct/neural/bottlenecks.py"],
    [("coding of input - round(mean) with table (mean - round(mean), scale)", "GsnConditionalLocScaleShift.compress / decompress"), ("log-scale grid", "Scaler"), ("table construction", "ContinuousIndexedGaussianConditional.update_tables")],
    "property-based testing: round trip, closed-form Gaussian masses and string lengths",
    "Random search; trusts compressai's range coder (which needs at least four symbols per string).",
)
prop(
    "P11", "Transformer codec entropy model: causal, local, decodable and honest",
    "For every latent and every list of one to context-length previous latents, the distribution of a coded token depends only on earlier tokens of its own window and on the previous latents within the encoder window around it, and it does depend on those; batch items do not influence each other; a short history behaves as if its oldest latent were repeated. "
    "Evaluation returns the rounded latent with likelihoods in (0, 1]; compressing transmits exactly that latent, reports exactly the bits of the strings it produced, gives the same features, and a decoder that sees only the strings and the context recovers the latent. "
    "Mismatching channel, batch or context shapes and batched compression are refused; training passes gradients straight through to the latent and to all parameters.",
    ["inputs", "configurations"], "all latents, contexts, window geometries and weights",
    "Tests check shapes of layers with default weights; causality is only assertable at run time by an optional self-check.",
    ["projects/torch_vct/neural/entropy_model.py", "projects/torch_vct/neural/entropy_model_layers.py"],
    [("start symbol shift plus look-ahead mask", "VCTEntropyModel._get_transformer_output"), ("token-by-token coding", "VCTEntropyModel.compress"), ("context padding", "VCTEntropyModel._get_encoded_seqs")],
    "property-based testing: dependency-set (metamorphic) checks and an independent decoder",
    "Small widths and coarse coding tables; mismatches that float ties can cause must persist on other inputs.",
)
prop(
    "P12", "Patching is exact window extraction and unpatching inverts it",
    "For every tensor, stride, patch size at least the stride with even difference and padding mode, patching returns for each stride-grid cell the window centred on it, read from the tensor extended by the padding mode, cells in batch-row-column order and pixels in raster order with channels last, together with the grid size; its gradient is the adjoint. "
    "When patch size equals stride, unpatching (channels first or last) and cropping restores the tensor exactly. "
    "Odd differences, patches smaller than the stride, non-4-D tensors and unpatching of overlapping patches are refused; inputs are not modified.",
    ["inputs", "configurations"], "all shapes, strides, patch sizes and modes",
    "Tests sample a few shapes and mostly compare shapes.",
    ["projects/torch_vct/neural/patcher.py"], [("overlapping extraction by identity kernels", "Patcher.forward"), ("inverse permutation", "Patcher.unpatch")],
    "property-based testing vs an index-level reference",
    "Random search over small shapes.",
)
prop(
    "P13", "Attention and transformer blocks compute exactly the documented function",
    "For every input, head count, mask and weight setting, multi-head attention equals per-head softmax attention followed by the output projection, its returned weights sum to one per query (zero for a fully masked one) and are exactly zero at masked positions, and a transformer stack equals the pre-norm residual composition of self-attention, MLP, cross-attention and MLP; decoder stacks never let a token see later tokens. "
    "In evaluation mode dropout and stochastic depth are inactive and results deterministic; in training stochastic depth keeps whole samples of every residual branch rescaled by the keep probability or zeroes them, and attention and projection drop at their own rates. "
    "The start symbol replaces the first token and shifts the rest by one, positions are added, and inconsistent shapes are refused.",
    ["inputs", "configurations"], "all inputs, weights, masks and dropout rates",
    "Tests use default near-constant weights and compare shapes or a single mask.",
    ["projects/torch_vct/neural/layers_utils.py", "projects/torch_vct/neural/entropy_model_layers.py"],
    [("masked softmax", "WindowMultiHeadAttention.forward"), ("residual blocks", "TransformerBlock.forward"), ("shift by one", "StartSym.forward")],
    "property-based testing: differential check against a float64 per-head reference",
    "Reference reads weights through the state dict.",
)
prop(
    "P14", "Memoisation never changes a result and runs each distinct call once",
    "After any history of calls through any number of caches, a memoised function returns what the plain function returns for these arguments; an identical repeated call through the same cache does not run the function again and counts one hit; different functions and different caches never share entries; keyword order is irrelevant. "
    "A tensor argument is identified by the object: a new tensor never receives the result of another one, even after the first was freed. "
    "Without a cache every call runs, cache objects passed as arguments are not part of the key, and violated hit expectations raise.",
    ["histories", "inputs"], "all call histories, argument structures and object lifetimes",
    "No tests cover the module; stale results need a particular allocation history.",
    ["projects/torch_vct/utils/memoize.py"], [("key construction", "memoize"), ("binding of caches", "bind")],
    "stateful property-based testing against a plain-function model",
    "Arguments that compare equal across types (1 and True, [] and {}) are outside the domain.",
)
prop(
    "P15", "Transformer video codec: compressed clip decodes to the evaluated video",
    "For every clip (any length, size, context length, transform family and chunking), compressing and decompressing yields a clip of the same shape equal to the evaluated forward reconstruction, with one bit count per frame that matches the reported likelihoods; sizes that are not multiples of the down-sampling factor behave as the reflect-padded clip, cropped. "
    "Reconstruction and rate of a frame do not depend on later frames, on frames older than the context, on other clips of the batch or on earlier calls, and they do depend on the previous frame; total rate is the sum of the per-frame rates. "
    "Wrong channel counts, batched compression and (with force_cpu) parameters off the CPU are refused; training reaches every part, leaves evaluation unchanged and is the same after a clip has been compressed.",
    ["inputs", "configurations", "histories"], "all clips, model compositions and call orders",
    "The pipeline has no tests.",
    ["projects/torch_vct/model_pipeline.py", "projects/torch_vct/datamodules/video_data_api.py"],
    [("state of previous latents cut to the context length", "VCTPipeline.decode_Pscene"), ("I-scene with learnt previous latent", "VCTPipeline.encode_Iscene"), ("padding and cropping", "VCTPipeline.forward / compress_video")],
    "property-based testing: differential (compress vs forward) and metamorphic (prefix, batch slice, time order) relations",
    "Small entropy model substituted for the default 768-wide one; CPU only.",
)
prop(
    "P38", "Frame transforms are per-frame, size-consistent and chunk-invariant",
    "For every clip, analysis transforms map each frame independently to a latent of ceil(height/16) x ceil(width/16) with the advertised number of channels, and synthesis transforms map latents back to exactly the requested frame size by cropping the 16-fold enlarged result. "
    "Processing in chunks of frames gives the same result as processing everything at once; inputs are not modified; indivisible chunkings and contradictory channel settings are refused.",
    ["inputs", "configurations"], "all clip shapes, widths and chunk sizes",
    "The transforms have no tests.",
    ["projects/torch_vct/neural/transforms.py"], [("time folded into the batch and back", "ConvGDNAnalysis.forward"), ("chunked evaluation", "ELICAnalysis.forward / ELICSynthesis.forward")],
    "property-based testing: frame-by-frame differential evaluation",
    "Small widths.",
)
prop(
    "P22", "Normalisation and attention layers compute their documented formulas",
    "Simplified GDN maps x to x / (beta + sum_j gamma_ij |x_j|) and its inverse multiplies instead, with gamma projected to be non-negative and beta to be at least its floor before every use, after any training history; channel normalisation subtracts the mean and divides by the root of the unbiased variance plus epsilon over the channels of each position alone, then scales and shifts; cross-covariance attention lets channels attend to channels per head with L2-normalised queries and keys and a per-head temperature. "
    "The latent wrappers normalise each position's vector to unit length, or project into the child bottleneck's channels and back, hand exactly that to the child, and keep every other field of the output. "
    "Inputs are never modified, gradients are those of the formulas, and fewer than two channels are refused by channel normalisation.",
    ["inputs", "configurations", "histories"], "all shapes, inputs, parameters and training histories",
    "Tests compare shapes, or one formula at initial parameters where projections and scales are inactive.",
    ["neuralcompression/layers/_simplified_gdn.py", "neuralcompression/layers/_channel_norm.py", "neuralcompression/layers/_xca.py", "neuralcompression/layers/_normalize_latent.py", "neuralcompression/layers/_project_latent.py"],
    [("parameter projection before use", "SimplifiedGDN.forward"), ("unbiased variance over channels", "ChannelNorm2D.forward"), ("channel-by-channel attention", "XCA.forward"), ("child bottleneck called in between", "ProjectLatent.forward / NormalizeLatent.forward")],
    "property-based testing vs float64 loop formulas, plus locality and permutation relations",
    "Random search over small shapes.",
)
prop(
    "P23", "Vector quantisation picks the nearest code, bills it and counts it",
    "For every latent and codebook, vector quantisation assigns each position's vector the nearest unit-normalised code word, returns that code word as latent, the flat indices, all squared distances, the unmodified input, and floor(vectors * log2(codes) / 8) bytes. "
    "The latent's gradient passes straight through to the encoder, the commitment loss (mean squared error) moves only the encoder and the embedding loss only the codebook; quantising a quantised latent changes nothing. "
    "After any history of passes, summaries and resets, the hit counters equal the number of assignments per code, survive the state dict, and the reported share of used codes, largest count and perplexity follow from them.",
    ["inputs", "configurations", "histories"], "all latents, codebooks and histories",
    "Tests check shapes on one random input.",
    ["neuralcompression/layers/_vq_bottleneck.py", "neuralcompression/layers/_q_bottleneck.py"],
    [("nearest neighbour by expanded squared distance", "QBottleneck.quantize_vectors"), ("hit counters and summaries", "QBottleneck.update_metrics / reset_hits")],
    "property-based testing vs exhaustive float64 nearest neighbour and a counting model",
    "Near-ties within float32 resolution may go either way.",
)
prop(
    "P24", "VQ autoencoder evaluates its network at any size; frozen parts stay frozen",
    "In evaluation mode the XCiT vector-quantised autoencoder maps an image of any size to the reconstruction of the reflect-padded image (sides padded to multiples of 2^(levels-1)) cropped back, where encoder, bottleneck and decoder compute the documented composition of residual, channel-attention and resampling stages for every depth, width, normalisation and attention setting; the bottleneck's fields are passed on. "
    "Frozen encoder or bottleneck parts require no gradient, run in evaluation mode and never change, after any history of train/eval switches, forwards and training steps, while the others follow the mode and train. "
    "The projector is the encoder followed by the bottleneck, returns flat indices, always stays in evaluation mode and never requires gradients, and refuses a model without bottleneck.",
    ["inputs", "configurations", "histories"], "all image sizes, architectures, weights and histories",
    "No test instantiates the model.",
    ["neuralcompression/models/_vqvae_xcit_autoencoder.py", "neuralcompression/models/_vqvae_projector.py"],
    [("padding only in evaluation", "VqVaeXCiTAutoencoder.forward"), ("freezing re-applied at every forward", "VqVaeXCiTAutoencoder.forward"), ("train() ignored", "VqVaeProjector.train")],
    "property-based testing: differential check against an independent float64 evaluation from the state dict; stateful freezing model",
    "Small widths and up to three levels; weights are read through the checkpoint keys.",
)
prop(
    "P25", "MS-SSIM equals its definition and the metric averages over all images",
    "For every pair of image batches, window, constants and scale weights, multi-scale structural similarity equals the definition: per channel Gaussian-windowed SSIM terms without padding, 2x2 averaging with edge replication at odd sizes between scales, contrast-structure terms at all but the last scale and full SSIM at the last, negative means clipped to zero, raised to the scale weights, multiplied, averaged over channels and reduced over the batch as asked. "
    "It is symmetric, at most one, one for identical images, and treats batch items independently; images smaller than the window at any scale, even or non-positive windows and unknown reductions are refused. "
    "The metric returns the mean over all images since the last reset, however they were batched and over however many synchronised processes.",
    ["inputs", "configurations", "histories"], "all image pairs, sizes, parameters and update histories",
    "Tests need TensorFlow reference data or sample a few sizes with default parameters.",
    ["neuralcompression/functional/_multiscale_structural_similarity.py", "neuralcompression/metrics/_msssim.py"],
    [("scale loop", "multiscale_structural_similarity"), ("sum and count states", "MultiscaleStructuralSimilarity.update")],
    "property-based testing vs a sliding-window numpy reference; histories with simulated replicas",
    "Where a term is nearly zero a small exponent amplifies rounding; the tolerance follows that.",
)
prop(
    "P26", "FID and KID compare the features of every image since the last reset",
    "After any history of updates, resets and computations, the Frechet metrics return the Frechet distance between Gaussians fitted to all real and all fake features since the last reset, and the kernel metric the mean and deviation of the unbiased polynomial MMD over subsets with the configured degree, scale and offset, independent of batching, order and distribution over synchronised processes. "
    "The feature network is given the raw 8-bit images, or 8-bit images made from [0, 1] floats (scaled by 255 and truncated) when normalisation is requested; the SwAV variant is given images divided by 255 and, by default, standardised with its channel means and deviations, and its network stays in evaluation mode without classifier. "
    "Invalid feature layers and non-boolean normalisation flags are refused, and images are not modified.",
    ["inputs", "histories", "configurations"], "all update histories, batch sizes, ranks and kernel parameters",
    "Tests run one history and do not compare values.",
    ["neuralcompression/metrics/_fid.py", "neuralcompression/metrics/_fid_swav.py", "neuralcompression/metrics/_kid.py"],
    [("features accumulated per side", "update"), ("concatenation in float64", "compute")],
    "stateful property-based testing vs numpy Frechet / MMD oracles with recording stand-in networks",
    "Feature networks are stand-ins (weights cannot be downloaded); torch-fidelity is trusted only for random subset choice.",
)
prop(
    "P27", "Patch FID feeds every metric the full and the half-shifted patch grid",
    "For every image batch and patch size, patch-based evaluation hands each given metric exactly the non-overlapping patches anchored at the top-left corner and, when both sides are at least one and a half patches, those anchored at half a patch, as 8-bit images rounded from [0, 1], ground truth as real and predictions as fake, and returns their number. "
    "Calling it without any metric or with values outside [0, 1] is refused; images are not modified.",
    ["inputs", "configurations"], "all image sizes, patch sizes, batches and metric combinations",
    "Tests sample one size and check the returned count only.",
    ["neuralcompression/metrics/_update_patch_fid.py"], [("second grid with a patch/2 shift", "update_patch_fid")],
    "property-based testing vs explicit patch enumeration (multisets per metric)",
    "Recording stand-ins replace the metrics.",
)
prop(
    "P28", "PSNR, 8-bit scaling and serialised size are exact",
    "PSNR equals 20 log10(range) - 10 log10(mean squared error) for every pair of floating-point tensors or of arrays of any numeric type including unsigned integers (no wrap-around), is symmetric and infinite for identical images. "
    "Scaling to 255 yields the nearest integers in 0..255 in the requested type, restores any 8-bit image exactly, and refuses any value outside [0, 1]. "
    "The measured size of an object is the length of its pickle; nothing modifies its inputs.",
    ["inputs"], "all images, types, ranges and objects",
    "Tests sample random float images.",
    ["neuralcompression/metrics/_calc_psnr.py", "neuralcompression/functional/_image_to_255_scale.py", "neuralcompression/metrics/_pickle_size.py"],
    [("difference in floating point", "calc_psnr_numpy"), ("range check before rounding", "image_to_255_scale")],
    "property-based testing vs float64 / exact integer formulas",
    "Integer torch tensors are outside the domain (torch refuses their mean).",
)
prop(
    "P29", "Colour conversion and flow visualisation follow the colour model",
    "For every image with hue in [0, 360] and saturation and value in [0, 1], conversion to RGB equals the standard hexcone model per pixel; other ranges, channel counts and dimensions are refused. "
    "Flow visualisation encodes direction (angle of the first component over the second, in degrees) as hue at full saturation and magnitude, shifted to zero and divided by its maximum over the whole batch plus the tolerance, as value; colours always lie in [0, 1] for every finite flow including zero and axis-aligned vectors, and inputs are not modified.",
    ["inputs"], "all pixels and flow vectors, both float precisions",
    "Tests compare with another library on random values that miss boundaries.",
    ["neuralcompression/functional/_hsv_to_rgb.py", "neuralcompression/functional/_optical_flow_to_color.py"],
    [("wrap negative angles", "optical_flow_to_color"), ("sextant formula", "hsv_to_rgb")],
    "property-based testing vs colorsys",
    "Random search with boundary-biased pixels.",
)
prop(
    "P30", "Operation counts are the sum over what a module executes",
    "For every straight-line module, the counted total equals the sum over executed operations of one per multiply-accumulate in linear, (transposed, grouped) convolution and matrix products and one per output element of abs, add, div, mul, neg, rsub, sign and sub including in-place forms; with estimates enabled also of erfc, exp, log, log10, log2, pow, reciprocal, rsqrt, sigmoid, softplus, sqrt, tanh and uniform, which are otherwise reported as unsupported with their call counts like every unknown operation. "
    "The per-operator breakdown adds up to the total, overrides apply to the call they are given to and to no later call, inputs may be a list, and the module's mode and weights are unchanged.",
    ["inputs", "configurations", "histories"], "all operation sequences, shapes, flags and call sequences",
    "Tests count three hand-written modules.",
    ["neuralcompression/functional/_count_flops.py"], [("handler tables copied per call", "count_flops")],
    "property-based testing: generated programs vs closed-form counts",
    "Trusts torch's tracer and fvcore's conv/linear formulas where both agree with the closed form.",
)
prop(
    "P31", "Adversarial and MSE losses equal their formulas and gradients",
    "The binary discriminator loss is half the sum of cross-entropy of the real logits with the target and of the fake logits with zero, the generator loss is the cross-entropy of its logits with the target, a scalar target applies to every element, and any other mismatch of dimensions is refused. "
    "The OASIS losses are the class cross-entropies per location with real classes shifted by one and class zero reserved for fakes, averaged over all locations and halved in the discriminator; non-4-D logits, targets of the wrong size or of a type other than 64-bit integers are refused. "
    "The MSE loss is the scaled mean squared error (255^2 by default); all gradients are those of the formulas and stay exact for saturated logits.",
    ["inputs"], "all logits, targets, shapes and magnitudes",
    "Tests sample random logits of one magnitude, partly re-using the same torch function as oracle.",
    ["neuralcompression/loss_fn/_binary_crossentropy_loss.py", "neuralcompression/loss_fn/_oasis_loss.py", "neuralcompression/loss_fn/_mse_loss.py"],
    [("class shift", "OASISDiscriminatorLoss"), ("scalar target broadcast", "BinaryCrossentropyDiscriminatorLoss")],
    "property-based testing vs per-element log-sum-exp formulas and their gradients",
    "Contiguous logits.",
)
prop(
    "P40", "Perceptual distances equal the published formulas and are safe to train on",
    "The LPIPS function equals, for each backbone, calibration setting, weights version and input range, the sum over layers of the spatially averaged (calibrated) squared differences of unit-normalised features, reduced over the batch as asked, and zero for identical images; unknown networks, versions and reductions are refused. "
    "The loss form puts the zero protection inside the square root, so that value and gradients are finite for every image pair (black, constant, identical), combines with the MSE by its two weights, keeps the network frozen and in evaluation mode whatever mode is requested, and reports per-layer terms that add up. "
    "The DISTS metric returns the sum or mean of per-image scores since the last reset over any batching and any number of synchronised processes; images that are not RGB batches in [0, 1] are refused without affecting the result.",
    ["inputs", "configurations", "histories"], "all image pairs, backbones, options and update histories",
    "The LPIPS tests need downloaded weights and compare the loss with itself; the DISTS test checks that nothing raises.",
    ["neuralcompression/functional/_lpips.py", "neuralcompression/loss_fn/_normfix_lpips.py", "neuralcompression/loss_fn/_mse_lpips_loss.py", "neuralcompression/metrics/_dists.py"],
    [("normalisation with protection inside the root", "NormFixLPIPS.forward"), ("frozen network", "MSELPIPSLoss.__init__"), ("validity check", "DeepImageStructureTextureSimilarity.update")],
    "property-based testing vs the formulas in float64 on the backbone's features; stateful metric histories",
    "Backbones carry random weights (no download possible); calibration weights are the shipped ones.",
)
prop(
    "P33", "Learning-rate schedules equal their closed forms at every step",
    "At every step up to its horizon each schedule gives every parameter group its own base rate times the documented factor: linear ramp from zero (floored at the minimum), then constant, then quarter-cosine decay for the ramp-constant-cosine and ramp-cosine schedules; the base rate for the identity schedule; and for the VCT schedules the minimum of ramp and cosine, ramp then constant, or constant then cosine down to eta_min. "
    "The rate reported as last equals the rate in force, and saving and restoring optimizer and schedule at any step continues the same sequence.",
    ["configurations", "histories"], "all parameters, group counts, steps and checkpoint/resume points",
    "The repository has no test of the rates at phase boundaries, with several groups, or after a resume.",
    ["neuralcompression/optim/_ramp_const_cosine.py", "neuralcompression/optim/_ramp_cosine.py", "neuralcompression/optim/_identity.py", "projects/torch_vct/utils/schedulers.py"],
    [("phase selection by step", "RampConstCosineLRSchedule"), ("closed-form rates", "LinearRampCosineLR.get_lr")],
    "property-based testing: every step of generated runs with resume vs closed forms",
    "Steps beyond the stated horizon and the division by zero at T_max = ramp_len + 1 are outside the domain.",
)
prop(
    "P34", "Datasets return exactly the files of their layout, in order",
    "For every directory tree in the documented layout, each image dataset (CLIC 2020, DIV2K, Kodak, OpenImages V6, Vimeo-90k) has exactly the listed or globbed images of the requested split in sorted or listed order, opened as RGB, passed through the given transform exactly once per access; negative indices count from the end and indices past the end raise. "
    "OpenImages leaves out the known-invalid training images only from the training split, Vimeo returns the first frames_per_group frames of each septuplet as a clip or one by one, and unknown splits, impossible counts and ambiguous sources are refused. "
    "Downloads fetch only the requested split, once, end in the layout that is read without downloading, and Kodak content that does not match its checksum is refused unless checking is switched off; the CLIC video dataset yields, on every pass and after abandoned passes, all clips its sampler plans of every video exactly once with the frames of that clip.",
    ["inputs", "configurations", "histories", "faults"], "all trees, splits, transforms, clip samplers, download sequences and corruptions",
    "Tests build one fixed tree per dataset (most with mocked files) and look at lengths and shapes.",
    ["neuralcompression/data/_clic_2020_image.py", "neuralcompression/data/_clic_2020_video.py", "neuralcompression/data/_div2k_dataset.py", "neuralcompression/data/_kodak.py", "neuralcompression/data/_openimages_v6.py", "neuralcompression/data/_vimeo_90k_septuplet.py"],
    [("per-split globbing and sorting", "CLIC2020Image / DIV2KDataset"), ("checksum over all images", "Kodak"), ("index to (septuplet, frame)", "Vimeo90kSeptuplet.__getitem__")],
    "property-based testing: generated trees on disk vs the files as written; model of the clip plan",
    "Tiny images; the network is a local stand-in; zip checksums are taken as correct.",
)
prop(
    "P35", "U-Net discriminators score every location at the requested resolution",
    "For every list of channel widths, power-of-two output downsampling factor, number of classes and normalisation, the (conditional) U-Net discriminator returns one score map per class at the image size divided by the factor, equal to the residual U-Net of its weights: average-pooled residual blocks down, nearest-upsampled residual blocks up from the deepest level to the requested one, leaky ReLU 0.2, a 1x1 shortcut where widths differ (all convolutions of these blocks spectrally normalised if so requested), and the nearest-resized encoded context appended to the image in the conditional form. "
    "In evaluation mode each image's scores do not depend on its batch mates and neither inputs nor weights change; factors that are not powers of two and unknown normalisations are refused.",
    ["inputs", "configurations"], "all widths, depths, factors, norms, class counts, sizes and contexts",
    "Tests check the output shape of a few default configurations.",
    ["neuralcompression/models/_unet_discriminator.py", "neuralcompression/models/_discriminator.py"],
    [("levels above the output resolution have no up path", "_UnetLevel"), ("context resized and concatenated", "ConditionalUnetDiscriminator.forward")],
    "property-based testing vs a functional re-implementation evaluated on the state dict",
    "Factors below 2^levels; activation in place or not in front of identity norms are both accepted (an existing quirk).",
)
prop(
    "P36", "Every published model name yields its architecture with its own weights",
    "Each name of the model zoo and its torch.hub entry builds the published architecture (the state-dict layout of the published checkpoints) and, when pretrained weights are asked for (hub default: yes, zoo default: no), fetches exactly the one checkpoint published under that name and loads every parameter from it; without pretrained weights nothing is fetched. "
    "A checkpoint with a missing tensor is refused, and all parameters stay trainable.",
    ["configurations", "faults"], "all names, entry points, flags and damaged checkpoints",
    "The tests cannot download; nothing ties names to files.",
    ["neuralcompression/zoo/_msillm.py", "neuralcompression/zoo/_msillm_vqvae.py", "neuralcompression/zoo/_noganms.py", "hubconf.py"],
    [("name to URL table", "neuralcompression.zoo"), ("strict loading", "load_state_dict_from_url")],
    "property-based testing: name table vs recorded fetches and loaded values",
    "Checkpoint contents are stand-ins with the published layout.",
)
prop(
    "P37", "Rate-targeted training optimises and reports exactly its stated loss",
    "Every training step of the ILLM rate-targeted module changes the trainable non-quantile parameters by one clipped optimizer step on lambda times distortion plus the rate loss, the quantile parameters by one step on the bottleneck's quantile loss, and nothing else; the rate loss weights each image's noisy bits per pixel with the high or low lambda according to whether its quantised rate exceeds the target, with target and weights following their step schedules, and mismatched schedule lists are refused. "
    "Training, validation and test report the rates, losses and image metrics of the images they processed: validation on clamped 8-bit-scaled images without changing the model, test on the actually compressed bitstream under the configured dataset name, with patch FID for CLIC and DIV2K, zero FID/KID for Kodak, and all metrics reset between epochs.",
    ["inputs", "configurations", "histories"], "all weights, batches, schedules, clipping and optimizer settings, step histories",
    "No test runs the training modules.",
    ["projects/illm/image_module.py", "projects/illm/target_compression_module.py", "neuralcompression/loss_fn/_target_rate_config.py"],
    [("per-image target comparison and schedules", "TargetRateCompressionModule.rate_loss"), ("two optimizers, manual optimisation", "training_step / configure_optimizers")],
    "property-based testing: histories of steps vs an independent float64 re-implementation",
    "Lightning/hydra/omegaconf are stand-ins with the documented contract; backbone metrics are recorders; near-ties of comparisons are skipped.",
)
prop(
    "P41", "Adversarial fine-tuning alternates generator, discriminator and quantile steps",
    "Each ILLM GAN training step first updates the model with distortion, rate and weighted generator loss against the current discriminator, then updates only the discriminator on real and the already generated fake images (with detached latents as context, or none for unconditional discriminators), then the quantiles if there are any; frozen parameters and the latent projector never change. "
    "Labels come from the latent projector of the corresponding images or are constant one without it; with Monte-Carlo sampling the first half of the batch is compressed and the second half serves as real images with their own latents. "
    "All losses are logged as computed, and validation uses the whole batch and changes nothing.",
    ["inputs", "configurations", "histories"], "all weights, batches, projector/conditioning/splitting options and step histories",
    "No test runs the GAN module.",
    ["projects/illm/gan_compression_module.py"],
    [("order of the three updates", "GANCompressionModule.training_step"), ("batch splitting", "GANCompressionModule.training_step")],
    "property-based testing: histories of steps vs an independent float64 re-implementation",
    "Small stand-in networks; stand-ins for lightning/hydra/omegaconf.",
)
prop(
    "P42", "Staged DVC training updates only its stage and chains P-frames correctly",
    "In each of the five stages a training step codes the I-frame with the frozen pretrained model, then chains the P-frames, each from the previous reconstruction, applying one gradient-clipped step per P-frame on lambda-weighted distortion plus the rates the stage has, then one quantile step on the stage's bottlenecks and one schedule step; parameters outside the stage and the I-frame model never change. "
    "Logged losses and bits per pixel are sums over the group of pictures (bpp including the I-frame) divided by its number of frames, PSNR covers all P-frames seen, validation changes nothing, and rates a stage does not have are not logged. "
    "Recomposing takes the stage's parts and leaves the rest, unknown stages and distortion types are refused, coding the I-frame leaves the caller's batch untouched, and update refreshes the tables of the stage's bottlenecks and says whether any changed.",
    ["inputs", "configurations", "histories"], "all stages, weights, group lengths, batches, learning rates and step histories",
    "No test runs the staged training.",
    ["projects/deep_video_compression/dvc_module.py"],
    [("stage wrappers", "DvcModule.__init__"), ("P-frame chain", "DvcModule.training_step"), ("I-frame coding", "DvcModule.compress_iframe")],
    "property-based testing: histories of steps vs an independent float64 re-implementation",
    "Small stand-in sub-networks; the pretrained I-frame model is a stand-in.",
)
prop(
    "P43", "VCT training loss and reported rates equal their definitions",
    "The VCT training loss is the mean over frames of lambda times 255-scaled mean squared error plus bits per pixel, with every frame but the first weighted ten times, and its gradients are those of that formula; the logged distortion, rate, combined and weighted losses and the float and 8-bit PSNR (mean of per-frame values) equal their definitions in training and validation for any size of error. "
    "The optimizer holds exactly the trainable non-quantile parameters with the configured rate and step-wise schedule. "
    "The test step returns and logs the PSNR of the decoded bitstream and its bits per pixel with and without the first frame, next to the estimated ones only if asked, and refuses batches of more than one clip.",
    ["inputs", "configurations"], "all clip shapes, reconstruction errors, likelihoods and codec configurations",
    "No test runs the module.",
    ["projects/torch_vct/model_lightning.py"],
    [("first-frame weighting", "VCTModule.training_step"), ("bits per pixel", "VCTModule.rate_loss")],
    "property-based testing vs float64 formulas; real small codecs for the test loop",
    "Stand-ins for lightning/hydra/omegaconf; test loop on clips of at least two frames.",
)
prop(
    "P44", "Data modules batch exactly the dataset they document",
    "The OpenImages, Vimeo (DVC and VCT), UVG and Kinetics data modules serve validation and test data completely, in order, deterministically, in batches of the requested size, centre-cropped (OpenImages after a resize of the shorter side), scaled to [0, 1] and normalised as configured, and each training epoch holds every item exactly once at the requested size in a fresh random order, with one augmentation per clip. "
    "UVG samples never mix two videos and its frame count must divide 300; Kinetics opens the split it names with the configured clip sampler and subsamples frames uniformly; missing image size without transforms and impossible frame counts are refused. "
    "Video and scene containers accept exactly tensors of their documented shape and type and report their sizes.",
    ["inputs", "configurations"], "all trees, batch sizes, crops, frame counts, transforms and tensor shapes",
    "No test builds the data modules.",
    ["projects/illm/open_images_datamodule.py", "projects/deep_video_compression/data_module.py", "projects/torch_vct/datamodules/"],
    [("validation loaders without shuffling", "val_dataloader"), ("one transform for the whole clip", "VimeoDataModule"), ("frame count check", "UVGDataModule")],
    "property-based testing: generated trees vs the files as written",
    "Tiny images; no worker processes; Kinetics clips from a stand-in dataset.",
)
prop(
    "P45", "Training scripts never lose checkpoints and train what the config says",
    "Without overwrite or resume_training, the illm, DVC and VCT training scripts refuse to start when the checkpoint directory holds a .ckpt file; otherwise they resume from last.ckpt there unless overwrite is set, and they never alter existing files. "
    "The illm script builds the configured module with the pretrained weights of the path or torch.hub entry it names (refusing incomplete ones) and a frozen latent projector, and its test mode needs a checkpoint and one device and tests every configured dataset under its own name with the checkpoint's weights. "
    "DVC stages run in sorted order on the model of the previous stage with stage options overriding common ones, the VCT loader returns the saved model in evaluation mode, ready to code, or refuses, and after every validation the image callbacks log their fixed batches next to what the model makes of them, clamped to [0, 1], under fixed names.",
    ["inputs", "configurations"], "all checkpoint directories, flags, module configurations, stages and saved models",
    "No test runs a training script.",
    ["projects/illm/train.py", "projects/deep_video_compression/train.py", "projects/torch_vct/model_train.py", "projects/torch_vct/utils/checkpoint_loaders.py"],
    [("refusing to overwrite", "fetch_checkpoint"), ("configuration to module", "build_module"), ("stages in order", "main"), ("loading a checkpoint", "load_model_checkpoint_from_config")],
    "property-based testing: decision table for checkpoints, twin modules built by hand and trained alongside, recorded framework calls",
    "Lightning, hydra, omegaconf and wandb are stand-ins that record calls; in VCT, resume_training wins over overwrite when both are set (not judged).",
)
prop(
    "P08", "Arithmetic coder: lossless at the ideal code length, or refuses",
    "For every batch of messages and every probability model (fixed, adaptive or contextual, including near-impossible symbols), decoding the strings of the JAX arithmetic coder with the matching inverse model returns the messages exactly, trimmed to their lengths. "
    "Each string takes the message's ideal code length plus at most two bits and rounding to a byte, does not depend on the rest of the batch, and inputs are not modified. "
    "A buffer too small for the string is refused with RuntimeError, never silently truncated, and a large enough one is never refused.",
    ["inputs"], "all messages, models, batch and buffer sizes",
    "The project's own tests need JAX and sample a few random messages.",
    ["projects/jax_entropy_coders/jax_arithmetic_coder.py"],
    [("range narrowing and pending bits", "_enqueue"), ("mirror image", "_dequeue"), ("overrun check", "encode")],
    "property-based testing: round trip and code-length oracle over generated models, on a numpy stand-in for JAX",
    "JAX is not installed: a stand-in with JAX's typing, clamping and dropping rules runs the code.",
)
prop(
    "P09", "rANS coder: a lossless stack at the ideal rate, with and without bits back",
    "Messages pushed with craystack's encode come off with decode in reverse order exactly as they went on, in the requested data type, for every shape, lane count (never more lanes than the message below), precision, alphabet and probability table, and removing a message leaves the buffer that was there before it. "
    "A message grows the buffer by its ideal code length up to the coder's rounding and one spacer byte, heads stay in [2^24, 2^32), the codec state is updated once per symbol, and tail capacities smaller than a given buffer are refused. "
    "Bits-back coding is lossless, pays the negative log evidence when the posterior is exact, and puts the stack it borrowed from back.",
    ["inputs", "histories"], "all histories of pushed and popped messages and all latent variable models, with ample tail capacity",
    "The project's own tests need JAX and push at most two messages.",
    ["projects/jax_entropy_coders/craystack/"],
    [("stack pushes and pops", "push_symbols / pop_symbols"), ("buffers as stacks", "encode / decode"), ("bits back", "bitsback_ans_codec")],
    "stateful property-based testing against a model stack, code-length and evidence oracles, on a numpy stand-in for JAX",
    "Too little tail capacity fails silently as documented (out of domain); appending more lanes than below is a known finding.",
)
prop(
    "P39", "Bits-back diffusion coding is lossless, resumable and bills its real size",
    "For every hierarchical model, data range and precision, any history of encode, decode and save/restore of the codec state returns the batches last-in first-out exactly and leaves the message bit-identical to what it was at that depth; batches of another shape or out of range are refused and change nothing. "
    "statistics() reports the bits per dimension of the message as it is (total, grown, borrowed by the first batch, and per step when tracked, where pushes minus pops equal the growth), quantize maps to the nearest level and is exact on levels, which span the model's data range, and the pixel codec spends bits by the Gaussian mass (deviation floored) of its uniform bins with open ends. "
    "encode.py, killed at any point and restarted, ends with exactly the data set decoded and in its checkpoint; compute_vlb.py averages exactly the samples asked for; timestep spacings keep the documented steps and the newest checkpoint of the right kind is picked.",
    ["inputs", "histories", "crash points"], "all models, data, histories of codec operations and crash points of the script",
    "The project's two tests need packages that are not installed and sample one batch.",
    ["projects/bits_back_diffusion/bits_back_diffusion/codec.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py", "projects/bits_back_diffusion/encode.py", "projects/bits_back_diffusion/compute_vlb.py", "projects/bits_back_diffusion/datasets/cifar10.py"],
    [("bits-back codec", "BitsBackCodec"), ("pixel codec", "diag_gaussian_unif_bins"), ("posterior and prior parameters", "DiffusionModel"), ("timesteps", "space_timesteps"), ("checkpoints", "update_checkpoint"), ("encoding script", "encode")],
    "property-based testing: stateful histories against a stack model of batches and message bytes, closed-form bin masses, injected crashes of the script",
    "craystack (rANS in numpy), improved_diffusion, hydra, omegaconf, plotly and wandb are stand-ins written to their documented contracts; crashes fall between, not inside, file writes.",
)
prop(
    "P46", "Folder evaluation reports exact averages over every image of the folder",
    "For every folder, the ILLM evaluation script compresses each PNG directly in it exactly once as an RGB image in [0, 1], with the published model prepared for compression, and ignores everything else. "
    "It reports the mean over images of the bits per pixel of the pickled compressed image, of the PSNR and of the MS-SSIM between the 8-bit roundings of original and clamped decoded image (range 255), whatever the image sizes. "
    "LPIPS sees every decoded/original pair once in the range it is configured for, and FID sees exactly the 256-pixel patches of the plain and half-shifted grids of both.",
    ["inputs", "configurations"], "all folders, image sizes and modes, codecs",
    "No test runs the script: it needs a GPU, downloaded weights and a data set.",
    ["projects/illm/eval_folder_example.py"],
    [("evaluation loop and report", "main")],
    "property-based testing: the script runs on generated folders with a stand-in codec and recording network metrics, against numpy averages",
    "The CUDA device is mapped to the CPU; the hub, LPIPS and FID networks are stand-ins.",
)
prop(
    "P47", "Codec networks compute the published layer sequences at every size",
    "For every configuration, weights, mode and input size, the HiFiC encoder, generator and hyperprior networks, the DVC latent encoders and decoders, and VCT's GDN and ELIC transforms equal the layer sequence of their papers evaluated with the parameters of the state dict: widths, kernel sizes, strides and paddings, biases, (inverse) divisive, channel or batch normalisation, activations, residual and attention blocks. "
    "They never modify their input, the DVC encoder reports the input size of each of its convolutions, the DVC decoder reverses them to exactly these sizes without using up the caller's list, and refuses a list of another length.",
    ["inputs", "configurations"], "all configurations, weights, modes and sizes",
    "The tests compare output shapes of a few sizes.",
    ["neuralcompression/models/_hific_encoder_decoder.py", "neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/deep_video_compression.py", "projects/torch_vct/neural/transforms.py", "projects/torch_vct/neural/layers_utils.py"],
    [("HiFiC networks", "HiFiCEncoder / HiFiCGenerator"), ("hyperprior networks", "HiFiCAutoencoder"), ("latent coders", "DVCCompressionEncoder / DVCCompressionDecoder"), ("frame transforms", "ConvGDNAnalysis / ELICAnalysis and the synthesis networks")],
    "property-based testing: differential check against an independent float64 evaluation from the state dict",
    "HiFiC widths are the published ones with at most two residual blocks; weights are read through the checkpoint keys.",
)

NOT_APPLICABLE = []
