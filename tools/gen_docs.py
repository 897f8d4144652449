#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed files) from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    d = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    import re
    assert len(re.findall(r"(?<!\.)\.\s", statement)) <= 2, (pid, statement.count(". "))
    P.append((d, technique, note))


ORA = "online reference-automaton monitor (every bit compared) over random and short-exhaustive stream histories"

p("C01", "Number sequences of every generator kind, width and dimension",
  "A number generator of width w yields 2^w integers in 0..2^w-1, in the requested number type: rate coding is column d (1-based) of the Sobol sequence scaled by 2^w, temporal coding counts up (race, tc) or down (race10, tc10), the system kind is some permutation, and each of these holds every value exactly once. The shift-register kind visits every nonzero value exactly once in its first 2^w-1 entries, never zero, and then repeats its first entry; equal configurations give equal sequences for the deterministic kinds; the shift-register and system kinds draw from NumPy's and PyTorch's global generators, so seeding those alike repeats their sequence; kind names are accepted in any letter case.",
  ["configurations", "inputs"], "all generator kinds, widths, dimensions and result number types, and all random initial states of the shift register",
  "One width and one dimension are sampled by the tests; the shift register's bad initial state is drawn once in 2^w runs.",
  ["stream/gen.py"], [("RNG", "stream/gen.py:26"), ("get_lfsr_seq", "stream/gen.py:6"), ("get_sysrand_seq", "stream/gen.py:22")],
  "monitor on emitted sequences against independent sequence models", "Every element of every observed sequence is compared; initial states of the shift register are driven exhaustively for small widths.", ["return value of a generator call"])

p("C02", "Sources become bit streams holding exactly the encoded count of ones",
  "Converting a source value v at width w gives the integer nearest to v*2^w (unipolar, v in [0,1]) or (v+1)/2*2^w (bipolar, v in [-1,1]), ties to even. The stream bit at time index t is 1 exactly when that integer exceeds the number-sequence entry at t modulo the sequence length, elementwise, in the configured stream type. So every full period of a full-permutation sequence holds exactly that many ones, whatever the phase at which it starts and in whatever order indices are asked.",
  ["inputs", "configurations", "histories"], "all source values and shapes, polarities, widths, generators, number types and index orders",
  "Tests print the stream's error for one sampled source tensor at 2^8 cycles and assert nothing about each bit.",
  ["stream/gen.py"], [("BinGen", "stream/gen.py:112"), ("BSGen", "stream/gen.py:152")],
  "per-bit stream monitor and period-conservation ledger", "Every bit compared with the integer comparison rule; period counts balanced.", ["return values of both converters"])

p("C03", "Raw data are clipped at the chosen quantiles and scaled into [-1, 1]",
  "For any raw data tensor and quantile q in (0,1], scaling clips to the (1-q)/2 and (1+q)/2 quantiles and divides by the larger magnitude of the two, so all results lie in [-1,1], have the same shape, keep the order of the data, and reach full scale when q is 1. All-zero data stay zero: no input gives a non-finite result. The raw tensor itself is unchanged.",
  ["inputs", "configurations"], "all data distributions (including constant, zero-inflated, one-sided, extreme magnitudes), shapes and quantiles",
  "One random tensor is used, and only printed.",
  ["stream/gen.py"], [("RawScale", "stream/gen.py:79")], "output monitor against a double-precision quantile model", "Tolerance 1e-4 for float32 quantile interpolation.", ["return value"])

p("C04", "Polarity converters preserve value exactly up to a bounded remainder",
  "The bipolar-to-unipolar converter keeps a running excess: each cycle it adds +1 for a 1 and -1 for a 0, limited to +-2^(depth-2), and emits a 1 (taking 1 from the excess) exactly when the excess is at least 1; the unipolar-to-bipolar converter adds the bit plus 1 under the same limits and emits a 1 (taking 2) exactly when it holds at least 2. These rules hold for each element at every cycle of every stream, for every depth and number type. Hence no 1 is lost or invented unless the limit is hit.",
  ["inputs", "histories", "configurations"], "all bit streams of any length, starting after any history, all depths, shapes and number types",
  "Tests run one random source and print the final error; saturation and long imbalanced histories are never reached.",
  ["stream/shuffle.py"], [("Bi2Uni", "stream/shuffle.py:45"), ("Uni2Bi", "stream/shuffle.py:85")], ORA, "All sequences of short length after several prefixes are enumerated; longer ones sampled.", ["output bit each cycle"])

p("C05", "The skewed synchroniser conserves ones and pairs them maximally",
  "The second stream passes through unchanged. A lone 1 of the first stream is held back while fewer than 2^depth - 1 ones are held, and one held 1 is released whenever a lone 1 arrives on the second stream; every other bit of the first stream passes through. So at every cycle the ones in so far equal the ones out plus those held, and the number held always stays between 0 and 2^depth - 1.",
  ["inputs", "histories", "configurations"], "all pairs of bit streams, depths, shapes and number types",
  "A unit test runs a single random pair with a fixed depth and never fills the store.",
  ["stream/shuffle.py"], [("SkewedSync", "stream/shuffle.py:3")], ORA + "; conservation ledger", "All pairs of short sequences enumerated.", ["both output bits each cycle"])

p("C06", "The shift register is an exact first-in first-out window with enable",
  "The register starts with alternating 0,1,0,1,... and at each call returns the bit stored at the requested index (0 is oldest) and the number of ones it held before the shift, then shifts the new bit in for exactly the elements whose enable is 1 (all elements when no enable is given). Elements with enable 0 keep all their bits, whatever the length, enable pattern, index sequence, shape and number type.",
  ["inputs", "histories", "configurations"], "all bit, enable and index histories, lengths, shapes, types",
  "Tests exercise one register without or with a fixed mask.",
  ["kernel/shiftreg.py"], [("ShiftReg", "kernel/shiftreg.py:3")], ORA, "Read bit and ones count compared each cycle.", ["read bit and ones count each cycle"])

p("C07", "The JK flip-flop follows its truth table at every cycle",
  "Starting from 0, each element's output holds for J=K=0, becomes 1 for J=1,K=0, becomes 0 for J=0,K=1 and toggles for J=K=1, independently per element. Outputs already handed out never change later. This holds for every input sequence, shape and number type.",
  ["inputs", "histories"], "all J/K histories, shapes and stream types", "The test feeds one random pair of streams in one number type and prints.",
  ["kernel/jkff.py"], [("JKFF", "kernel/jkff.py:3")], ORA, "All J/K pairs of short sequences enumerated in all number types.", ["output each cycle"])

p("C08", "Unary addition emits exactly the scaled running sum",
  "Per element and cycle, the adder adds the number of ones among its operands (minus (entries - scale)/2 when bipolar) to an accumulator limited to +-2^(depth-2) and emits a 1, taking the scale from it, exactly when it holds at least the scale. The scale defaults to the number of summed entries, which defaults to the size of the summed axis; scale and entries given at the call apply as well as those configured. So without saturation each prefix of the output holds the integer part of (sum of ones - offset)/scale.",
  ["inputs", "histories", "configurations"], "all operand streams, scales, entry counts, axes, depths, polarities and number types",
  "Tests run a fixed shape and seed and look at the final error only; saturation, other axes and per-call parameters are not exercised.",
  ["kernel/add.py"], [("FSUAdd", "kernel/add.py:3")], ORA, "Scales are integers or dyadic so the accumulator is exact.", ["output bit each cycle"])

p("C09", "Multiplication by a fixed operand: every product bit, exact full windows",
  "For a 1 of the stream the product bit is 1 exactly when the encoded operand exceeds the sequence entry indexed by the number of earlier ones of that element; for a 0 it is 0 (unipolar) or the complement of the comparison at the index of earlier zeros (bipolar). So whenever an element has taken in 2^w ones since the start (or since the last such point), exactly the operand's count of them passed. This holds for every width, generator, sequence dimension, broadcastable operand shape and stream.",
  ["inputs", "histories", "configurations"], "all operand values, streams (also highly unbalanced ones), generators, widths, shapes, number types",
  "Tests sample one width with Sobol inputs and print the root mean square error.",
  ["kernel/mul.py"], [("FSUMul static", "kernel/mul.py:5")], ORA, "Random sequences of non-deterministic generators are captured by wrapping the generator's public call.", ["product bit each cycle"])

p("C10", "Stream-by-stream multiplication: every product bit",
  "With two streams, the second one's value is estimated by the number of ones among its last 2^w bits before the current one (starting from an alternating history). The product bit follows the same rule as for a fixed operand, with that count in place of the encoded operand and the index advanced only by ones (or zeros, bipolar) of the first stream. Each element evolves independently.",
  ["inputs", "histories", "configurations"], "all stream pairs, widths, generators, number types, shapes", "One pair of Sobol streams with a printed error.",
  ["kernel/mul.py", "kernel/shiftreg.py"], [("FSUMul in-stream", "kernel/mul.py:5"), ("ShiftReg", "kernel/shiftreg.py:3")], ORA, "Every product bit compared.", ["product bit each cycle"])

p("C11", "Division: correlated quotient with regenerated history, every bit",
  "The division core outputs the dividend bit when the divisor bit is 1 and otherwise the quotient bit from its history at the index its number sequence gives for the current cycle; the history (initially 0,1,0,1,...) records quotient bits only on divisor ones. The full unipolar divider first pairs dividend ones with divisor ones; the bipolar one divides the magnitudes and applies the exclusive-or of both signs. All of it bit-exact for every history, length, generator, depth and number type.",
  ["inputs", "histories", "configurations"], "all dividend and divisor streams, including divisors that stay 0 for long", "Tests print the final error of one grid of quotients.",
  ["kernel/div.py", "stream/shuffle.py", "kernel/signabs.py"], [("CORDIV_kernel", "kernel/div.py:8"), ("FSUDiv", "kernel/div.py:62")], ORA, "All pairs of short sequences enumerated for the core.", ["quotient bit each cycle"])

p("C12", "Full-length computations converge to the exact mathematical result",
  "Run for a full period with rate-coded operands from independent dimensions, multiplication, scaled and non-scaled addition, division, square root, ReLU, absolute value, hard sigmoid, dense and convolutional layers decode to the exact result within a precision that improves with the width. The value decoded by counting ones equals the value the progressive-error metric reports. Both polarities and all documented circuit variants are covered.",
  ["inputs", "configurations"], "whole grids of operand values per operation, polarity and width",
  "Tests print errors of one configuration and never fail on a bad one.",
  ["kernel/mul.py", "kernel/add.py", "kernel/div.py", "kernel/sqrt.py", "kernel/relu.py", "kernel/linear.py", "kernel/conv.py", "metric/metric.py"],
  [("kernels", "kernel/"), ("ProgError", "metric/metric.py:56")], "accuracy monitor over full-period runs (rms and worst-case limits per operation and width)", "Limits about 1.5x the measured error of the unmodified library; coarse by design, the bit-level properties are the sharp ones.", ["decoded output values"])

p("C13", "Square root: every output bit of every feedback variant",
  "The square-root unit realises its three documented feedback circuits bit-exactly: emission (a one-bit running sum of input and feedback, feedback being the output masked by the complement of the output from the register length earlier), JK trace (input or a flip-flop toggled by the output) and division trace (input or a quotient with a self-correlated divisor). In bipolar mode the feedback path works on the output converted to unipolar. Each element evolves independently from the same initial state.",
  ["inputs", "histories", "configurations"], "all input streams, feedback styles, register lengths, polarities, number types", "Tests print errors of one configuration.",
  ["kernel/sqrt.py"], [("FSUSqrt", "kernel/sqrt.py:10")], ORA, "All sequences of short length enumerated for every variant.", ["output bit each cycle"])

p("C14", "ReLU clamps by history, binary ReLU clamps to [0, 1]",
  "The stream ReLU passes a 1 always and turns a 0 into a 1 exactly while its balance counter of output bits (starting at half range, limited to 0..2^depth - 1) is below half. The binary ReLU returns its input limited to the range from 0 to the configured scale. This holds for every stream, depth, shape and number type of streams and counters.",
  ["inputs", "histories", "configurations"], "all input streams and number-type pairs", "Tests use float streams only and print errors.",
  ["kernel/relu.py"], [("FSUReLU", "kernel/relu.py:3"), ("HUBReLU", "kernel/relu.py:43")], ORA, "All sequences of short length after several prefixes.", ["output bit each cycle"])

p("C15", "Sign and magnitude of a bipolar stream, every bit",
  "A balance counter (starting at half range, +1 for a 1, -1 for a 0, limited to 0..2^depth - 1) decides the sign: 1 exactly while it is below half, counted with the current bit. The magnitude bit is the input bit inverted exactly when the sign is 1. This holds at every cycle for each element of every stream, depth and number type.",
  ["inputs", "histories", "configurations"], "all input streams and depths", "Tests print the final error of one source.",
  ["kernel/signabs.py"], [("FSUSignAbs", "kernel/signabs.py:3")], ORA, "All sequences of short length after several prefixes.", ["sign and magnitude bits each cycle"])

p("C16", "Hard sigmoid and hard tanh, stream and binary versions agree with their law",
  "The stream hard sigmoid emits the two-entry scaled addition of its input and a constant 1, the stream hard tanh passes its input unchanged. The binary hard sigmoid is scale*x/6 + 1/2 limited to [0,1], that is (x+1)/2 for the default scale 3, and the binary hard tanh is x limited to [-1,1]. Each holds for every input, shape and number type.",
  ["inputs", "histories", "configurations"], "all input streams and values", "Tests print a few values.",
  ["kernel/sigmoid.py", "kernel/tanh.py"], [("FSUHardsigmoid", "kernel/sigmoid.py:4"), ("HUBHardsigmoid", "kernel/sigmoid.py:47"), ("FSUHardtanh", "kernel/tanh.py:3")], ORA, "Binary versions in float32 to 1e-6.", ["outputs"])

p("C17", "Dense unary layer: parallel count and carry stream, every cycle",
  "For every weight the layer multiplies as the fixed-operand multiplier does, with one index per batch element and input that advances on that input's own ones and zeros (or every cycle, for temporal generators); the parallel count is the sum over inputs plus the bias stream. The output is the accumulator stream of that count with the scale (default: all entries including the bias). This holds for every geometry, batch, polarity, width, scale, depth and weight generator, and the weights given by the caller stay unchanged.",
  ["inputs", "histories", "configurations"], "all layer geometries, weights, input streams, batch sizes, generators, scales", "Tests run one geometry and print the error.",
  ["kernel/linear.py"], [("FSULinear", "kernel/linear.py:8"), ("FSULinearPC", "kernel/linear.py:102")], ORA, "Counts and carries compared each cycle.", ["count and output bit each cycle"])

p("C18", "Unary convolution: parallel count and carry stream, every cycle",
  "A unary 2-D convolution equals the dense unary layer applied to the patches of its (zero-value padded) input: same counts, same carries, in the output layout of a normal convolution. Zero-value padding is the bit 0 in unipolar and the alternating stream 0,1,0,1 (and so on) in bipolar mode. This holds for every kernel size, stride, padding, dilation (numbers or unequal pairs), channel count, image size, batch, polarity and generator.",
  ["inputs", "histories", "configurations"], "all convolution geometries, weights, image streams and batch sizes", "Tests run a few square geometries; per-axis paddings are untested.",
  ["kernel/conv.py"], [("FSUConv2d", "kernel/conv.py:12"), ("FSUConv2dPC", "kernel/conv.py:104")], ORA, "Groups=1 (enforced by the code).", ["count and output bit each cycle"])

p("C19", "Minimal gated unit cells: streaming wiring bit-exact, hybrid cell decoded",
  "The streaming cell computes forget gate = hard sigmoid of the non-scaled dense layer on [hidden, input], candidate = non-scaled dense layer on [gate*hidden, input], new hidden = non-scaled sum of candidate, -gate*candidate and gate*hidden, each by the library's own stream rules, bit-exact every cycle for every weight, input and hidden stream. The hybrid cell on binary values equals running the streaming cell on rate-coded inputs for a full period and decoding, with a missing hidden state taken as zero. Hidden states given by the caller are used and not changed.",
  ["inputs", "histories", "configurations"], "all cell geometries, widths, weights, hidden states and inputs", "Tests print the error of one sampled cell.",
  ["kernel/rnn.py"], [("FSUMGUCell", "kernel/rnn.py:18"), ("HUBMGUCell", "kernel/rnn.py:148")], ORA, "Bipolar mode only (enforced by the code).", ["hidden-state bit each cycle, decoded hidden value"])

p("C20", "Hybrid layers output counted ones of the truncated unary products",
  "A hybrid dense or convolutional layer quantises the magnitudes of input and weight to the configured width with power-of-two scales taken from the data's quantile (rounded as configured), limits them to the cycle budget, multiplies each pair by counting the ones of the weight stream during the input stream's ones, and sums with the signs; the bias is added exactly. At full cycle budget the error against exact real arithmetic stays within the quantisation bound. This holds for all geometries, widths, generator pairs, budgets, roundings and data.",
  ["inputs", "configurations"], "all inputs, weights, geometries, generator pairs, widths and cycle budgets", "Tests print the error of one layer.",
  ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"], [("HUBLinear", "kernel/linear.py:277"), ("HUBLinearFunction", "kernel/linear.py:424"), ("HUBConv2d", "kernel/conv.py:348"), ("rshift_offset", "kernel/utils.py:214")],
  "output monitor against a counted-ones reference", "Data on a power-of-two rounding boundary are redrawn; one known finding (unequal widths).", ["layer output"])

p("C21", "Fixed-point layers equal exact fixed-point arithmetic",
  "A fixed-point dense or convolutional layer rounds input and weight to the nearest multiple of their power-of-two step (from the data's quantile, width and rounding), saturates symmetrically, and returns the exact product sum plus the bias. Against real arithmetic the error stays within half a step per operand. This holds for all geometries, width pairs, quantiles, roundings and data, including all-zero tensors.",
  ["inputs", "configurations"], "all inputs, weights, geometries, widths, quantiles, roundings", "Tests print the error of one layer.",
  ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"], [("FXPLinear", "kernel/linear.py:507"), ("FXPLinearFunction", "kernel/linear.py:567"), ("FXPConv2d", "kernel/conv.py:528"), ("rshift_offset", "kernel/utils.py:214")],
  "output monitor against exact fixed-point arithmetic", "Data on a power-of-two rounding boundary are redrawn.", ["layer output"])

p("C22", "Temporal look-up-table layers equal digit-limited exact arithmetic",
  "A temporal look-up-table dense or convolutional layer splits the temporal operand (input or weight, fixed- or floating-point) into digits of the configured width, limits each digit to the cycle budget, and returns the exact product sum with the other operand plus the bias. With the full budget this equals plain fixed-point or floating-point arithmetic on the truncated operand. It holds for all format pairs, widths, digit widths, budgets, quantiles, roundings, geometries and data, zeros and subnormals included.",
  ["inputs", "configurations"], "all inputs, weights, formats, widths, digit widths and budgets", "Tests print the error of one layer per format.",
  ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"], [("TLUTLinear", "kernel/linear.py:633"), ("TLUTLinear*Function", "kernel/linear.py:767"), ("TLUTConv2d", "kernel/conv.py:619")],
  "output monitor against digit-limited exact arithmetic", "Matrix-product noise of the result type is allowed for.", ["layer output"])

p("C23", "Binary-interface layers train: gradients are those of the exact layer",
  "The hybrid, fixed-point and look-up-table dense and convolutional layers give, for any upstream gradient, exactly the gradients of the plain dense or convolutional layer at the unquantised input, weight and bias (straight-through). Gradients are given for just those tensors that require them and accumulate over several backward passes. No geometry, format, batch size or saturated datum changes that.",
  ["inputs", "configurations", "histories"], "all inputs, weights, upstream gradients, requires-grad subsets, formats and geometries", "Tests compute one backward pass and print.",
  ["kernel/linear.py", "kernel/conv.py"], [("HUBLinearFunction.backward", "kernel/linear.py:484"), ("FXPLinearFunction.backward", "kernel/linear.py:610"), ("TLUT*.backward", "kernel/linear.py:816")],
  "gradient monitor against autograd of the exact layer", "Float32 accumulation noise allowed.", ["gradients after backward"])

p("C24", "Rounding to a fixed-point grid, with identity gradient",
  "Rounding to i integer and f fraction bits returns, for every value, the nearest multiple of 2^-f (ties to even) limited symmetrically to +-(2^i - 2^-f). It is idempotent and monotone, keeps shape and number type, and leaves its input unchanged. Its gradient is the upstream gradient, unchanged.",
  ["inputs", "configurations"], "all values (ties, limits, infinities), widths, number types, shapes", "Tests round a single tensor with one format.",
  ["kernel/utils.py"], [("RoundSTE", "kernel/utils.py:176"), ("Round", "kernel/utils.py:196")], "output and gradient monitor against exact rounding", "Exact comparison.", ["value and gradient"])

p("C25", "Clipped weights lie on the legal grid; truncated normal draws stay inside",
  "After the weight clipper runs on a module, each weight and bias entry is finite, lies in the legal range of its polarity and on the grid of the chosen bit width, and is the nearest grid value of the (normalised, when its schedule says so, else merely limited) parameter; clipping again changes nothing, and modules without weight or bias pass. A constant parameter does not turn into non-finite values. Truncated normal draws lie within two standard deviations of the mean with the right shape and moments.",
  ["inputs", "histories", "configurations"], "all parameter tensors, layer kinds, polarities, widths, call counts", "No test at all covers the clipper.",
  ["kernel/utils.py"], [("NN_SC_Weight_Clipper", "kernel/utils.py:7"), ("truncated_normal", "kernel/utils.py:113")], "parameter-state monitor after every clip in training-like histories", "One grid step tolerated at normalisation ties.", ["module parameters after each call"])

p("C26", "Convolution shape and padding helpers agree with real convolutions",
  "For every geometry (numbers or pairs, even or uneven padding) the shape helpers return the spatial size that a real convolution or transposed convolution produces. The padding helpers return a per-side padding, split evenly with the odd one on the far side, with which that operation yields exactly the wanted output size. A number and a pair of that number mean the same.",
  ["inputs"], "all kernel sizes, strides, dilations, paddings, output paddings and image sizes", "No test covers the helpers.",
  ["kernel/utils.py"], [("conv2d_output_shape", "kernel/utils.py:71"), ("convtransp2d_output_shape", "kernel/utils.py:82"), ("conv2d_get_padding", "kernel/utils.py:93"), ("convtransp2d_get_padding", "kernel/utils.py:103")],
  "differential monitor against framework convolutions on shape-only tensors", "Geometries with at least one output pixel.", ["return values"])

p("C27", "Progressive error reports the decoded stream against its clamped source",
  "After any n >= 1 monitored cycles the metric's value is the share of ones per element (2*share - 1 when bipolar), and its error is that value minus the source divided by the scale and limited to [-1,1]. Reading is free of side effects and may happen at any cycle. The printed report shows the true minimum, maximum, standard deviation, mean, and root mean square of exactly these tensors, with or without the value and relative sections.",
  ["inputs", "histories", "configurations"], "all streams, sources, scales, polarities, read points", "Tests read once at the end.",
  ["metric/metric.py", "kernel/utils.py"], [("ProgError", "metric/metric.py:56"), ("progerror_report", "kernel/utils.py:135")], "metric monitor against counted streams; captured report parsed and checked", "Relative rows judged away from zero.", ["metric outputs, printed report"])

p("C28", "Stability is the share of cycles after the last excursion beyond threshold",
  "After any n monitored cycles, the stability of each element is 1 - k/n, where k is the (1-based) last cycle at which the element's progressive error exceeded the threshold in magnitude, or 1 when there was none. So it always lies in [0,1) and never depends on when or how often it was read. This holds for every stream, source, scale, polarity and threshold.",
  ["inputs", "histories", "configurations"], "all streams, sources, thresholds and read points", "Tests print one value.",
  ["metric/metric.py"], [("Stability", "metric/metric.py:99")], "metric monitor against an offline checker on the recorded stream", "Elements within 2e-6 of the threshold are not judged.", ["metric output"])

p("C29", "Stochastic cross correlation equals its definition at every read",
  "For two monitored streams (or one stream against its previous bit) the metric equals, at every read, the definition on the counts of 11, 10, 01 and 00 so far: (ad - bc) over n*min(a+b, a+c) - (a+b)(a+c) when ad > bc, else over (a+b)(a+c) - n*max(a-d, 0), and 0 when a stream is constant. It lies in [-1,1], is symmetric, 1 for equal non-constant streams and -1 for complementary ones. Single-element and multi-axis streams behave alike.",
  ["inputs", "histories"], "all pairs of streams, lengths, shapes and read points", "Tests print one value.",
  ["metric/metric.py"], [("Correlation", "metric/metric.py:3")], "metric monitor against counts of the recorded streams; all short pairs enumerated", "Streams shorter than 4096 cycles.", ["metric output"])

p("C30", "Elements of a tensor are independent lanes of identical hardware",
  "For every streaming unit and metric, each element's outputs depend only on that element's own operands: permuting, reshaping, subsetting the elements, or running one alone, gives the same bits for it. No shape, size-1 axis or batch layout changes a result.",
  ["inputs", "configurations", "histories"], "all units, shapes, permutations, subsets and streams", "Tests use one shape and see only the mean error.",
  ["stream/shuffle.py", "kernel/add.py", "kernel/mul.py", "kernel/div.py", "kernel/sqrt.py", "kernel/relu.py", "kernel/signabs.py", "kernel/shiftreg.py", "kernel/jkff.py", "metric/metric.py"],
  [("per-element state", "stream/, kernel/, metric/")], "relational monitor: re-execution with rearranged lanes", "Deterministic generators.", ["output bits of both runs"])

p("C31", "Streams are bits, and the result does not depend on the number types",
  "Every streaming unit fed with bits emits only 0 and 1, in the configured stream type. The bit sequence is the same for every supported floating and signed integer stream type and counter type whose range suffices.",
  ["configurations", "inputs", "histories"], "all units, stream types, counter types and streams", "Tests use the default float type throughout.",
  ["stream/gen.py", "stream/shuffle.py", "kernel/"], [("swcfg types", "kernel/, stream/")], "relational monitor: re-execution with every number type, closure check on every bit", "uint8/bool excluded (unsupported arithmetic).", ["output bits of all runs"])

p("C32", "Nothing the caller owns is modified",
  "Constructing and running any unit, layer, cell, metric or helper leaves the caller's configuration dictionaries, weights, sources, and input tensors unchanged. The default configurations shared by all instances of a class stay unchanged as well, so one instance can never alter the next. Reporting helpers change neither their metric nor its source.",
  ["histories", "inputs", "configurations"], "all classes, configurations and inputs", "Tests never look at their arguments again.",
  ["stream/", "kernel/", "metric/"], [("constructors and calls", "stream/, kernel/, metric/")], "shadow-copy monitor on all arguments and default configurations", "In-place option of the binary activations off.", ["arguments before and after each call"])

p("C33", "Runs are reproducible, causal, isolated, and can be copied mid-stream",
  "With deterministic generators, two instances of equal configuration and input give equal outputs, whatever the global random state, the training or evaluation mode and gradient recording. Outputs up to a cycle do not depend on later inputs, and interleaving other instances changes nothing. A deep copy or a serialised and restored copy taken mid-stream continues exactly as the original and does not affect it.",
  ["histories", "schedules", "inputs"], "all units, streams, cut points and interleavings of instances", "Tests run one instance once.",
  ["stream/", "kernel/", "metric/"], [("module state", "stream/, kernel/, metric/")], "relational monitor: re-execution with other futures, interleavings, copies at random cut points", "The unary convolution is copied by serialisation only.", ["output bits of all runs"])

p("C34", "Hard gated recurrent cells follow the gate equations at every step",
  "The hard cell computes f = sigmoid(clip(W_f [h, x] + b_f)), n = tanh(W_n [f*h, x] + b_n), h' = clip(n - f*n + f*h) for every step, with the hard or the smooth activations and clip limiting to [-1,1]; the fixed-point version rounds operands and intermediates to its grid. A missing hidden state is zero. Both hold for every weight, bias, activation kind, width and input history, and the gradients are those of these equations.",
  ["inputs", "histories", "configurations"], "all weights, inputs, hidden states, widths, sequences", "Tests run a single step.",
  ["kernel/rnn.py", "kernel/utils.py"], [("HardMGUCell", "kernel/rnn.py:227"), ("HardMGUCellFXP", "kernel/rnn.py:285")], "per-step monitor against a double-precision / exact fixed-point model", "Half-way values of the rounded sigmoid may go either way.", ["hidden state each step, gradients"])

p("C35", "Invalid configurations are refused, valid spellings accepted",
  "Unknown polarity, generator, rounding, format or temporal names, quantiles outside (0,1], sequence lengths that are not powers of two, missing or wrongly shaped external weights, unsupported groups and padding modes, non-sign-magnitude requests, and wrongly shaped enables or hidden states raise before any result is produced. Every documented spelling, in any letter case, is accepted. No refused value yields a silently wrong result.",
  ["configurations"], "all classes and configuration fields, near-miss values", "Tests only use valid configurations.",
  ["stream/gen.py", "kernel/", "metric/metric.py"], [("assertions in constructors", "stream/, kernel/, metric/")], "refusal monitor over a table of near-miss configurations", "Any exception counts as a refusal.", ["exception or result"])

p("C36", "Every prefix of a rate-coded computation is already a good approximation",
  "With Sobol rate coding, the decoded value of the first n cycles of any stream deviates from the source by at most the low-discrepancy bound (log2(n)/3 + 1)/n, at every n. The products, sums and layer results built on it keep a bound of the same order at every prefix; the scaled sum emits after every cycle exactly the integer part of the ones so far divided by the entries. So stopping early is always sound.",
  ["inputs", "histories", "configurations"], "all prefixes of all streams, values, widths, dimensions", "Tests look at the last cycle only.",
  ["stream/gen.py", "kernel/mul.py", "kernel/add.py", "kernel/linear.py"], [("RNG Sobol", "stream/gen.py:26"), ("FSUMul", "kernel/mul.py:5"), ("FSUAdd", "kernel/add.py:3")], "prefix monitor with analytic discrepancy bound", "All representable sources of each width.", ["decoded prefix values"])

p("C37", "Buffers handed over and results handed out are not shared with the state",
  "A caller may reuse its input buffers, overwrite returned results, and change the configuration dictionaries, sources and streaming-unit weights it constructed with, without changing any later output. No unit keeps a reference to the tensors it was called with or returned. Binary layers follow their external weight by design, but keep no reference to inputs, results or configurations.",
  ["histories", "schedules", "inputs"], "all units, layers and cells; reuse of buffers, results and arguments in any combination", "Tests allocate afresh for every call and discard their arguments.",
  ["stream/", "kernel/"], [("module state", "stream/, kernel/")], "relational monitor: hostile caller overwriting everything it owns, compared with a normal run", "Metrics return their own parameters; only copies are looked at.", ["output values of both runs"])

p("C38", "Streaming runs at constant memory and work per cycle",
  "However many cycles a unit or metric has run, its serialised size, the number and size of live tensors, and the number and size of the tensor operations per cycle stay what they were after the first cycles. Streams carry no automatic-differentiation history. Binary layers keep a bounded amount of state over any number of calls.",
  ["histories"], "all units, layers and metrics; runs of hundreds to thousands of cycles", "Tests run for one short stream and measure nothing.",
  ["stream/", "kernel/", "metric/"], [("module state", "stream/, kernel/, metric/")], "resource monitor: size, live-object and operation probes along long runs", "A warm-up of 40 cycles is allowed.", ["probes at four points of each run"])

p("C39", "Separate instances in concurrent threads do not influence each other",
  "Any number of units, each used by one thread, run concurrently with the same outputs as alone, whatever the interleaving of their construction and calls. No class- or module-level state is shared between instances.",
  ["schedules", "histories"], "all units and binary layers, up to five threads, random interleavings inside the calls", "Tests are single-threaded.",
  ["stream/", "kernel/", "metric/"], [("module state", "stream/, kernel/, metric/")], "concurrency stress with injected yields inside calls and a recorded log of interleavings; outputs compared with solitary runs", "Relies on the interpreter lock for single operations.", ["output values", "log of steps"])

p("C40", "Networks of units compute the composition of the units' laws",
  "A network built from sources, arithmetic units, activations, layers, recurrent cells and feedback wires produces on every wire and at every cycle exactly the stream that the composition of the laws of its units defines. Fan-out, inversion, mixed widths and lengths, and cascades do not change any unit's law. Metrics attached anywhere do not disturb the streams and report the values decoded from them.",
  ["configurations", "histories", "inputs"], "random networks of all units, including perceptrons, convolutional stacks, recurrent cells and feedback", "Tests exercise single units on encoded sources.",
  ["stream/", "kernel/", "metric/"], [("composition of modules", "stream/, kernel/, metric/")], "online reference automaton of the whole network, every wire every cycle", "Layers take float32 streams.", ["every wire at every cycle"])

p("C41", "Left-out arguments take the documented defaults; names and order are stable",
  "Every class and helper behaves, when arguments are left out, exactly as with the documented default values written out, and accepts its arguments by the documented names and in the documented order. Default runs give float32 results.",
  ["configurations", "inputs"], "all classes and helpers, every default value, by name and by position", "Tests always pass their own configurations.",
  ["stream/", "kernel/", "metric/metric.py"], [("signatures", "stream/, kernel/, metric/")], "relational monitor: defaulted, named and positional calls on discriminating workloads", "Defaults are those of the pinned version.", ["results of all call forms"])

p("C42", "Results do not depend on the contents of fresh memory",
  "Constructing and running any unit, layer, cell or helper gives the same outputs, gradients and parameters whatever the memory it allocates contained before. Nothing is read that was not written.",
  ["histories", "inputs", "configurations"], "all units, layers, cells and helpers; zero, not-a-number and random fill of fresh memory", "Tests run in a fresh process where fresh memory is mostly zero.",
  ["stream/", "kernel/", "metric/"], [("allocations", "kernel/conv.py, kernel/linear.py, kernel/rnn.py")], "memory sanitizer by differential poisoning: allocator perturbation and filled uninitialised tensors, with a canary", "Poisons the C heap and tensor/array creation without initial values.", ["results under three fill patterns"])

p("C43", "Binary layers are functions of their current weights and input alone",
  "The result of a binary-interface layer, cell or activation depends on nothing but its configuration, its current weights and the input: not on earlier inputs and batch sizes, training or evaluation mode, gradient recording, other instances, or the global random state. Copies, serialised copies and layers that load its saved state give the same results, weights changed in place take effect in full, and exactly weight and bias are trainable.",
  ["histories", "inputs", "configurations"], "all binary layers, cells and activations; random call sequences, copies, restores and training steps", "Tests call a layer once.",
  ["kernel/linear.py", "kernel/conv.py", "kernel/rnn.py", "kernel/relu.py", "kernel/sigmoid.py", "kernel/tanh.py", "stream/gen.py"], [("forward", "kernel/")], "relational monitor: random histories against fresh instances", "Hard cells are copied by state, since PyTorch refuses to deep-copy their kept gate values.", ["results of every call"])

p("C44", "The register-transfer descriptions compute the simulator's streams",
  "Executed cycle by cycle, the SystemVerilog blocks of hw/ give the bits the simulator's kernels give for the same input streams and parameters: JKFF, Sign, Abs, Uni2Bi and Bi2Uni with one register of delay; SkewedSync, the JK bit-inserting square root, the unary multipliers (first generator period), adders and MACs, and the Sobol generators (first period) in the same cycle. The CORDIV kernel passes the dividend when the divisor bit is one and otherwise the addressed one of its last quotients; the in-stream dividers, the gain dividers and square roots, the bit-inserting square roots and the integer synchroniser follow their published cycle laws; the generators visit every value once per period. The older multipliers, adders, gain and in-stream dividers, counters and registered arithmetic of hw/kernel/old follow their cycle laws too.",
  ["inputs", "histories", "configurations"], "all blocks with a counterpart or a cycle law, parameters 1 to 8 bits deep, random mixes of streams", "No test reads the hardware descriptions.",
  ["hw/kernel", "hw/stream", "kernel/", "stream/"], [("always_ff", "hw/kernel, hw/stream"), ("forward", "kernel/, stream/")], "co-simulation monitor: the RTL runs in an interpreter of our own next to the simulator and to cycle laws, every output every cycle", "Two-state values; accumulators are compared while they stay in the RTL's range. CORDIV_kernel_IS_*, the d multipliers, dADD and the MACs other than the scaled unary ones have no law here.", ["every output at every cycle"])

p("C45", "Every hardware block elaborates, settles and starts afresh at every reset",
  "Every SystemVerilog block of hw/ parses and elaborates with the files it includes or that lie beside it, its combinational logic settles to values that depend on its inputs and registers alone, and after a reset its outputs depend only on what came after: not on the power-up contents of any register, nor on what ran before a reset in the middle of operation. A reset acts without waiting for a clock edge.",
  ["inputs", "histories"], "all blocks of hw/ except test benches and four drafts; random inputs, power-up states and reset times", "No test reads the hardware descriptions.",
  ["hw/kernel", "hw/stream"], [("always_ff @(posedge clk or negedge rst_n)", "hw/")], "relational monitor: two runs from different random power-up states, and one run before and after a reset", "Two-state values, our own interpreter.", ["every output at every cycle"])

p("C46", "The library leaves the process alone, and the process's settings do not matter",
  "Importing, constructing and using the library draws nothing from the global random states (only random initial weights and random sequences are drawn, and nothing is ever reseeded), leaves every setting of PyTorch, numpy and Python as it was, opens no file for writing, starts no process, and prints nothing outside the report helpers. Conversely the results are the same under disabled gradients, inference mode, deterministic algorithms, anomaly detection, other thread counts, print options, warning filters, working directories, hash seeds, and with assertions switched off.",
  ["configurations", "histories", "inputs"], "all units, layers, cells, metrics, helpers and sources; random combinations of 16 settings; fresh processes", "Tests run under one set of settings and look at none.",
  ["stream/", "kernel/", "metric/"], [("forward", "stream/, kernel/, metric/")], "process monitor: audit hook, captured streams and snapshots of random states and settings around every use; relational comparison of the results under other settings", "Other default number types and autocast are left out: PyTorch itself then computes other numbers.", ["random states, settings, audit events, results"])

N = [
     ("N02", "Results on a GPU equal those on the CPU",
      "Every unit gives the same bits when its module and its inputs live on a GPU as on the CPU.",
      ["configurations", "inputs"], "all units and streams", "Tests fall back to the CPU where there is no GPU.", ["kernel", "stream", "metric"],
      "There is no GPU (nor another accelerator backend) in the sandbox, so such a run cannot be observed.")]

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + "\n")
    for pid, title, st, over, text, why, files, _ in N:
        f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": []}}) + "\n")
PY = "/opt/venv/bin/python check.py "
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import torch, numpy\"",
     "checks": [{"property": d["id"], "quick_cmd": PY + d["id"], "thorough_cmd": "VERIF_TIER=thorough " + PY + d["id"] + " --tier thorough",
                 "evidence_file": "evidence/%s.json" % d["id"], "technique": "runtime monitoring: " + t, "level": "exploration",
                 "level_note": n + " Monitors the unmodified code on generated executions; assurance is limited to the executions explored (see evidence)."} for d, t, n in P],
     "not_applicable": [{"property": n[0], "reason": n[-1]} for n in N],
     "notes": "No hooks in /repo: all monitors observe the public API. The code is imported from /repo's working tree at every run (no build output is used)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
