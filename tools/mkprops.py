#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": st,
        "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(obs), "hook_needed": None}})
H, I, C, F, K = "histories", "inputs", "configurations", "fault_sequences", "crash_points"
NOTEST = "No test of the repository includes this header at all; a test could only sample "

p("C01", "The fixed-size deque behaves as a bounded double-ended queue",
  "After any history of pushes and pops at either end and clears that respects the capacity, front, back, size, empty, full and the order in which elements come out again at either end are those of an ideal double-ended queue holding the same history. This holds for every capacity and element type, independently of what the object's memory held before construction. With assertions enabled, pushing into a full deque and popping or peeking an empty one is stopped by an assertion.",
  [H, C], "every operation history, every capacity >= 1, every element type",
  "deque_test draws random operations with a random seed for ten capacities, never calls clear, full or max_size in the loop and never checks the whole content.",
  ["deque.hh"], [("wrap-around of head and tail", "deque.hh push_*/pop_*"), ("count", "deque.hh")],
  [("head, tail, count", "ring buffer cursors", "deque.hh")], ["front/back/size/empty/full/max_size"])
p("C02", "The fixed-size stack behaves as a bounded LIFO with access to its first element",
  "After any history of pushes, pops and clears that respects the capacity, top returns the most recently pushed remaining element, first returns the oldest remaining element, and size, empty, full and max_size agree with an ideal stack. This holds for every capacity and element type. With assertions enabled, overflow and underflow are stopped by an assertion.",
  [H, C], "every operation history, every capacity >= 1, every element type",
  NOTEST + "a few histories.", ["stack.hh"], [("stack pointer", "stack.hh push/pop/clear")],
  [("pos", "index of the top element", "stack.hh")], ["top/first/size/empty/full/max_size"])
p("C03", "Delay line and bip buffer return exactly the last N samples",
  "A delay line of length N returns, for every input, the input given N calls earlier, and its initial value for the first N calls. A bip buffer of length N returns after every input a pointer to N contiguous values that are the last N inputs, oldest first, with zeros before the first input, and asking for that pointer again without input changes nothing. This holds for every N >= 1, element type and stream length.",
  [H, C], "every input stream, every length N, every element type",
  NOTEST + "a few lengths; wrap-around errors show only at particular phases of particular N.",
  ["delay.hh", "bip_buffer.hh"], [("ring index", "delay.hh operator()"), ("double writing at two phases", "bip_buffer.hh operator()")],
  [("pos", "ring index", "delay.hh"), ("pos0,pos1", "write positions NUM apart", "bip_buffer.hh")], ["return values"])
p("C04", "Moving minimum and maximum equal the extremum of the current window",
  "After every input the moving minimum (maximum) of length N returns the minimum (maximum) of the last N inputs, or of all inputs while fewer than N were given. This holds for every N >= 1, every input stream including ones with ties, monotone runs and the extreme values of the type, and for signed, unsigned and floating-point element types.",
  [H, C], "every input stream, every N, every arithmetic element type",
  "movext_test uses uniformly random 32-bit ints, so ties, extreme values and floating-point types never occur.",
  ["movext.hh", "delay.hh", "stack.hh"], [("two monotone stacks refilled when one runs empty", "movext.hh MovExt::operator()")],
  [("dispenser, refill, window", "candidates of old and new half, and the sample leaving", "movext.hh")], ["return value of MovMin/MovMax"])
p("C05", "The sliding window accelerator reduces exactly the last N inputs",
  "After every input the sliding window accelerator returns the reduction, under its associative and commutative operation, of the last N inputs, with the identity element in place of inputs not yet given. Each of the last N inputs contributes exactly once and no older input contributes. This holds for every N >= 1, not only powers of two.",
  [H, C], "every input stream, every N, every associative commutative operation with identity",
  "SWA appears in movext_test only as the reference, with min and max, which hide values counted twice.",
  ["swa.hh"], [("leaf-to-root update of a 2N array tree", "swa.hh operator()")],
  [("tree, leaf", "reduction tree and next leaf", "swa.hh")], ["return value"])
p("C06", "All four simple moving averages give the mean of the last N inputs",
  "After every input each moving average variant returns the mean (or the sum, when normalization is off) of the last N inputs, counting zeros before the first input: exactly for integers, within rounding for floating point. The variants that recompute or use a tree carry no drift, and the sum of the compensated variant is off by no more than two epsilon times the magnitudes of all inputs added and removed so far, independently of the window length. The absolute deviation reported by the first variant is the mean absolute difference between the window's values and their mean.",
  [H, C], "every input stream including high dynamic range ones, every N, integer, real and complex types",
  NOTEST + "a few streams; drift depends on the whole history.",
  ["sma.hh", "delay.hh", "swa.hh", "kahan.hh"], [("running sum", "sma.hh SMA2"), ("compensated running sum", "sma.hh SMA3"), ("tree", "sma.hh SMA4")],
  [("hist_inp/hist_pos/delay/sum/swa", "window history and sums", "sma.hh")], ["return values, abs_dev()"])
p("C07", "Quick sort returns the sorted permutation of its input",
  "Sorting the first n elements of an array leaves exactly the same multiset of elements in non-decreasing order and touches nothing outside those n elements. This holds for every n >= 0 and every content, including many duplicates, already sorted, reversed and structured inputs, and for every element type with a strict order. It always terminates.",
  [I, C], "every array content and length, integer and floating-point elements",
  "quick_sort_test checks order only, never that the elements are those of the input, on random values with few duplicates.",
  ["quick.hh"], [("three-way partition around a median of five", "quick.hh partition/median"), ("insertion sort below 33 elements", "quick.hh insertion")], (), ["array content"])
p("C08", "Quick select returns the k-th smallest and partitions the array around it",
  "Selecting rank k (0 <= k < n) returns the element of that rank in sorted order, leaves it at index k with nothing greater before it and nothing smaller after it, and leaves the array a permutation of its input with nothing outside touched. This holds for every n >= 1, every k and every content including many duplicates and structured inputs. It always terminates.",
  [I, C], "every array content, length and rank, integer and floating-point elements",
  "quick_select_test compares the result with the array it just permuted, so losing or duplicating elements goes unseen; inputs are random.",
  ["quick.hh"], [("partition and narrowing to the side holding k", "quick.hh select")], (), ["return value and array content"])
p("C09", "Theil-Sen and repeated median fits equal their definitions and resist outliers",
  "For every set of points with at least two distinct x values and at most as many points as the estimator's size, the Theil-Sen slope is the (upper) median of all pairwise slopes with distinct x and its intercept the median of the residuals; the repeated median slope is the median over points of the median slope to the other points, with the intercept formed hierarchically in the first variant and from residuals in the second. Exact lines with outliers below the breakdown point (29 % and 50 %) are recovered exactly, the prediction and x-intercept agree with slope and intercept, and results do not depend on earlier computations of the same object; a repeated median given more points than its size uses the first ones, a Theil-Sen fit given too many stays within the range of the pairwise slopes. Before any points all report the zero line.",
  [I, H, C], "every point set with duplicates and ties, every size, every reuse of an estimator",
  NOTEST + "a few data sets.", ["theil_sen.hh", "repeated_median.hh", "quick.hh"],
  [("median through quick select", "theil_sen.hh/repeated_median.hh compute")], [("temp_/inner_/outer_", "scratch arrays reused between calls", "theil_sen.hh, repeated_median.hh")], ["slope/yint/xint/operator()"])
p("C10", "Simple linear regression returns the least squares line",
  "For every set of points with at least two distinct x values the regression's slope and intercept are the least squares solution, its prediction lies on that line, and its x-intercept is where that line crosses zero when the slope is not zero. The constructor for equidistant x values gives the same answer as the general one for every start and step.",
  [I, C], "every point set, every start and step, float and double",
  NOTEST + "a few data sets.", ["regression.hh"], [("two-pass variance and covariance", "regression.hh constructors")], (), ["slope/yint/xint/operator()"])
p("C11", "Splines interpolate their knots with the promised smoothness everywhere",
  "The uniform natural cubic spline passes through every knot, is twice continuously differentiable with zero second derivative at both ends, and outside the knots continues its end segments, for every number of knots, knot values, origin, spacing and stride. The cubic Hermite spline, uniform or not, passes through every knot with finite-difference tangents (one-sided at the ends, mean of both sides inside) and continues its end segments outside. Evaluation at knots, between knots and beyond either end picks the right segment.",
  [I, C], "every knot vector, spacing, stride and evaluation point, real and complex values",
  NOTEST + "a few evaluation points.", ["spline.hh"], [("tridiagonal elimination", "spline.hh UniformNaturalCubicSpline"), ("segment choice", "spline.hh operator()/eval")], (), ["operator(), eval()"])
p("C12", "The FFT computes the discrete Fourier transform for every supported size",
  "For every size whose prime factors are at most 31 and both signs, the transform of every input equals the unnormalized discrete Fourier sum with that sign within rounding, so forward followed by backward returns the input times the size. The input is not modified, nothing outside the output is written, and repeated use gives identical results.",
  [I, C], "every input vector, every supported size, both signs, float and double",
  NOTEST + "a few sizes; every radix has its own hand-expanded kernel.", ["fft.hh", "unit_circle.hh", "complex.hh"],
  [("split into radices", "fft.hh split"), ("hand-expanded butterflies for radix 2..31", "fft.hh Dit")], [("factors", "twiddle table", "fft.hh")], ["output array"])
p("C13", "The real-input transform equals the lower half of the complex transform",
  "For every even size whose half has prime factors of at most 31, the real transform yields the bins 1 to half-1 of the forward discrete Fourier transform of the real input, and bins 0 and half at half their Fourier value with zero imaginary part (the single-sided convention the code uses). Exactly half+1 bins are written and the input is not modified.",
  [I, C], "every real input vector, every supported even size, float and double",
  NOTEST + "a few sizes.", ["fft.hh"], [("packing two reals into one complex and untangling", "fft.hh RealToHalfComplexTransform")], [("factors,A,B", "tables", "fft.hh")], ["output array"])
p("C14", "Frequency-domain zero padding is trigonometric interpolation",
  "For every input size and every larger output size supported by the FFT, zero padding yields the band-limited periodic interpolation of the input, with the Nyquist bin of even inputs split evenly; where output sample positions coincide with input positions the values coincide. The result does not depend on earlier inputs given to the same object.",
  [I, H, C], "every input vector, every pair of sizes (odd, even, close, far), every previous call",
  NOTEST + "one pair of sizes; overlap between source and target bins depends on the ratio.", ["fdzp.hh", "fft.hh"],
  [("moving negative frequencies to the end and clearing the gap", "fdzp.hh operator()")], [("tmp", "spectrum buffer kept between calls", "fdzp.hh")], ["output array"])
p("C15", "Complex arithmetic obeys the definition of complex numbers",
  "Addition, subtraction, multiplication, division (by real and complex), negation, conjugate, norm, abs, arg, polar, equality, assignment from real and the compound assignments agree with the mathematical definition for all operands whose intermediate results neither overflow nor underflow. Compound assignments also work when both operands are the same object.",
  [I, C], "every pair of operands, float and double",
  NOTEST + "a few operands.", ["complex.hh"], [("component formulas", "complex.hh operators")], (), ["return values"])
p("C16", "Unit circle sine and cosine and the constants are correct to the last bits",
  "For every N from 1 up to 2^27 and every n with |n| <= N the sine and cosine of 2*Pi*n/N are within two epsilon of the true value for float and double, and the angle is 2*Pi*n/N. The symmetries between octants hold to the same accuracy. All constants equal their mathematical value rounded to the type.",
  [I, C], "every (n, N) in the domain, float and double",
  "unit_circle_test stops at N = 5000; integer overflow or octant selection can go wrong beyond.", ["unit_circle.hh", "const.hh"],
  [("octant selection in integers and minimax kernels", "unit_circle.hh cos/sin")], (), ["return values"])
p("C17", "atan and atan2 are accurate in all quadrants for all magnitudes",
  "For every finite x the arctangent is within 4 epsilon of the true value (relative for small results) and odd. For every pair of finite coordinates, not both zero, the two-argument arctangent is within 10 epsilon of the true angle in (-Pi, Pi], with the sign of y, also on the axes and when the quotient overflows or underflows.",
  [I, C], "every float, every pair of magnitudes and signs, float and double",
  "atan2_test only uses points on the unit circle with |n| < N/2, never the axes' negative zero, extreme ratios or |x|,|y| far from one.", ["atan2.hh", "const.hh"],
  [("range reduction at 0.66 and tan(3*Pi/8)", "atan2.hh atan_approx"), ("quadrant selection", "atan2.hh atan2")], (), ["return values"])
p("C18", "The CORDIC atan2 is accurate to two LSB at full scale and bounded elsewhere",
  "The CORDIC angle deviates from the true angle (modulo a full turn) by at most one LSB plus one input step seen from the origin for 8-bit coordinates, and by at most 1.25 LSB plus 2.8 input steps for 16-bit coordinates, so by no more than about one and two LSB at full scale, and the error grows only in proportion to the inverse magnitude. Every pair of coordinates, including the most negative ones, yields a result without undefined behaviour.",
  [I, C], "every pair of 8-bit and of 16-bit coordinates",
  "cordic_test only visits points on the full-scale circle.", ["cordic.hh"], [("table of arctangents and shift-add rotation", "cordic.hh atan2")], (), ["return value"])
p("C19", "Powers of ten and decibel conversions are accurate over their whole range",
  "For every argument whose result is a normal number (except in the topmost half octave of the type), ten-to-the-power and the inverse decibel conversion are accurate to a relative error of a few epsilon times (1 + |argument|), for float and double. The decibel conversion of every positive normal number is within 2e-3 dB (float) or 2e-11 dB (double, plus the truncation of its series that reaches 5e-5 dB at the ends of the range), grows monotonically within that error, and the two conversions are inverse to each other within it.",
  [I, C], "every argument, float and double",
  NOTEST + "a few arguments.", ["exp.hh", "decibel.hh"], [("reduction by powers of two", "exp.hh exp10/ldexp"), ("ten square roots and a series", "decibel.hh decibel")], (), ["return values"])
p("C20", "WAV files written read back as written",
  "Whatever sequence of writes, strided writes and silences is made, the closed file is a well-formed WAV file whose header and frame count match and whose samples are the given ones: floats bit-exact, 8-bit and 16-bit samples rounded to the nearest code and clipped to the code range. Reading it back with any sequence of reads, strided reads and skips (forwards or backwards) delivers exactly those samples in order, reports rate, channels, bits and frames as written, touches only the addressed buffer elements, and turns not good only when reading past the end. Requests for other bit depths produce 32-bit float files. A reader class that defines no frame count reports it as unknown (-1).",
  [H, I, C], "every sequence of write/silence and read/skip calls, all sample values, channels, bit depths, strides",
  NOTEST + "one short file.", ["wav.hh", "pcm.hh"], [("little-endian codec, scaling and clipping", "wav.hh write/read"), ("header patched in the destructor", "wav.hh ~WriteWAV")],
  [("os position, offset, factor, min, max", "writer state", "wav.hh")], ["file bytes, read() results, accessors"])
p("C21", "A WAV recording interrupted at any point stays readable",
  "If the writer stops at any moment after its header reached the file, including in the middle of finalizing, a reader opening the file accepts it, reports the correct format, and either reports the number of frames as unknown (-1) or reports the exact number, and delivers every complete frame that reached the file unchanged. Before the header is complete the reader reports not good.",
  [K, H, C], "every prefix, at byte granularity, of the sequence of file modifications the writer makes",
  NOTEST + "the completed file; no crash is ever simulated.", ["wav.hh"], [("data size -1 until finalized, patched last", "wav.hh WriteWAV constructor/destructor"), ("sizes <= 0 mean unknown", "wav.hh ReadWAV constructor")],
  [("header sizes on disk", "unknown until closed", "wav.hh")], ["reader on every truncated file image"])
p("C22", "The WAV reader rejects malformed files without undefined behaviour",
  "A file that is truncated within its header, or whose signature, format code, bit depth, block size, byte rate, channel count or chunk sizes are inconsistent or unsupported, makes the reader report not good; opening, querying and reading it never crashes, hangs or returns uninitialized values. Every file the reader reports as good has a consistent header: supported bit depth, at least one channel and a frame count that is unknown (-1) or consistent with its sizes. A missing file is reported as not good.",
  [F, I], "every truncation and every single-byte (and selected double) corruption of valid headers",
  NOTEST + "valid files.", ["wav.hh"], [("header checks", "wav.hh ReadWAV constructor")], [("valid", "header accepted", "wav.hh")], ["good() and accessors"])
p("C23", "Netpbm images written read back as written",
  "Whatever way the pixels are written (in one call or several, any stride), the file is a well-formed binary PGM or PPM with the given size and maximum value, each sample being the sRGB encoding of the clipped linear value, big-endian in two bytes when the maximum exceeds 255. Every sample code 0 to maximum decodes to the linear value of the sRGB curve and encodes back to the same code, codes grow with linear values, and reading with any stride delivers all pixels in order touching only the addressed elements.",
  [H, I, C], "every sample code and maximum value, every split into calls, strides, mono and color",
  NOTEST + "one image.", ["netpbm.hh", "pel.hh"], [("sRGB transfer functions", "netpbm.hh linear/srgb")], (), ["file bytes, read() results, accessors"])
p("C24", "The Netpbm reader parses valid headers and rejects malformed ones",
  "Every header of the form magic, width, height, maximum, separated by blanks, tabs or line ends with optional comment lines directly after a line end, is parsed to exactly these numbers and leaves the reader at the first pixel. A wrong magic number, a missing or non-numeric field, or a file ending within the header makes the reader report not good without crash, hang or uninitialized results. A missing file is reported as not good.",
  [F, I], "every header text over a small token alphabet, every truncation and single-byte corruption",
  NOTEST + "one header.", ["netpbm.hh"], [("header state machine", "netpbm.hh ReadPNM constructor")], [("valid_", "header accepted", "netpbm.hh")], ["good() and accessors"])
p("C25", "Window functions have their defined shape for every length",
  "For every length N >= 2 and every index the rectangular, Hann, Hamming, Lanczos, Blackman (exact, classic and custom coefficients), Gaussian and Kaiser windows equal their textbook formula within rounding (Kaiser for shape parameters up to 3). They are symmetric, do not exceed one, and reach their maximum in the centre. The rectangular window is zero outside its range.",
  [I, C], "every length and index, every shape parameter in range, float and double",
  NOTEST + "a few lengths.", ["window.hh", "unit_circle.hh", "kahan.hh"], [("closed formulas", "window.hh"), ("Bessel series", "window.hh Kaiser::i0")], (), ["return values"])
p("C26", "FIR design kernels and coefficient arrays equal their definitions",
  "For every number of taps and cutoff the low-pass, high-pass and band-pass kernels are the ideal (sinc) impulse responses centred in the taps, the rational-cutoff forms agree with the real-cutoff forms, low-pass plus high-pass is the identity kernel, and the Hilbert kernel is 2/(Pi*x) at odd offsets for odd lengths and 1/(Pi*x) for even lengths. Coefficient arrays hold the product of their generating functions, are zero outside their range, and normalized arrays sum to one in magnitude (divided by the divisor, whose sign is kept), for any sign or size of the sum.",
  [I, C], "every tap count, tap index, cutoff and divisor, float and double",
  NOTEST + "a few filters.", ["filter.hh", "coeffs.hh", "utils.hh"], [("sinc evaluated through integer angles", "filter.hh LowPass2/HighPass2"), ("normalize", "coeffs.hh")], (), ["return values"])
p("C27", "Biquad filters realize their prototype and keep state across reconfiguration",
  "For every centre or cutoff n/N between 0 and 1/2 and every quality, the low-pass, high-pass, notch, band-pass and all-pass sections respond to any input like the bilinear transform of their analog prototype, are stable, and default to passing the input unchanged. Reconfiguring a running section changes the coefficients only, keeping the signal history. The cascade of order 2n has the Butterworth response with -3 dB at the cutoff for every n.",
  [H, I, C], "every input stream and reconfiguration history, every n/N, quality and cascade length",
  NOTEST + "a few responses.", ["biquad.hh", "decibel.hh", "unit_circle.hh"], [("coefficient formulas", "biquad.hh"), ("direct form recursion", "biquad.hh operator()")], [("x1,x2,y1,y2", "signal history", "biquad.hh")], ["return values"])
p("C28", "Exponential moving averages follow their recursion and cutoff",
  "Each output is the weighted mean of the previous output and the input, so it never leaves the range spanned by the initial value and the inputs, and a constant input is its fixed point; the initial value and weight can be given at construction. Setting the cutoff to n/N gives half power at that frequency, also for cascades of order 1 to 16 within the accuracy of their correction factor; setting a sample count s gives weight 1/s. Changing the cutoff keeps the state.",
  [H, I, C], "every input stream, cutoff and order, real and complex values",
  NOTEST + "a few streams.", ["ema.hh", "utils.hh"], [("lerp recursion", "ema.hh operator()"), ("cutoff formula and correction table", "ema.hh cutoff_alpha/cascade_factor")], [("prev, alpha", "state and weight", "ema.hh")], ["return values"])
p("C29", "DC blocker, integrator and differentiator follow their recursions",
  "The DC blocker removes any constant offset, passes the Nyquist frequency with gain one and obeys its one-pole recursion for every sample count s, keeping its state when s changes. The integrator returns the initial value plus the sum of all inputs and the differentiator the difference of consecutive inputs starting from its initial value, so each undoes the other exactly in integer arithmetic.",
  [H, I, C], "every input stream, every sample count and initial value",
  NOTEST + "a few streams.", ["blockdc.hh", "calculus.hh"], [("recursions", "blockdc.hh, calculus.hh operator()")], [("x1,y1,sum,prev", "signal history", "blockdc.hh, calculus.hh")], ["return values"])
p("C30", "Signal normalizers remove offset and scale periodic signals to unit amplitude",
  "The sine normalizer returns the DC-blocked input divided by the square root of twice its running mean square, started at one half, so that a steady sinusoid of any amplitude, offset and phase settles to amplitude one. The IQ normalizer treats both components independently in exactly that way.",
  [H, I, C], "every input stream, amplitude, offset, period and averaging length",
  NOTEST + "a few signals.", ["normalize.hh", "blockdc.hh", "ema.hh"], [("DC blocker and mean square tracker", "normalize.hh operator()")], [("hpf,lpf", "filter states", "normalize.hh")], ["return values"])
p("C31", "The oscillator stays on the unit circle with exact phase advance",
  "Every output has magnitude one however long the oscillator runs, starting at phase zero, and consecutive outputs differ by the angle configured when the earlier one was produced (2*Pi*n/N, an angle in radians, or a frequency in turns per sample, of either sign). Changing the frequency keeps the phase, and reset returns to phase zero keeping the frequency.",
  [H, I, C], "every history of steps, frequency changes and resets, every n/N",
  NOTEST + "a few steps.", ["phasor.hh", "unit_circle.hh", "complex.hh"], [("complex multiplication with renormalization", "phasor.hh operator()")], [("prev, delta", "phase and increment", "phasor.hh")], ["return values"])
p("C32", "Complex down conversion and Hilbert transform equal their FIR definitions",
  "The Fs/4 down converter maps each pair of real samples to the complex output of mixing by a quarter of the sampling rate, half-band low-pass filtering with the Kaiser-windowed kernel and decimating by two. The Hilbert transformer returns the delayed input as real part (scaled by the window's centre) and the Kaiser-windowed discrete Hilbert transform as imaginary part. Both are linear in the input history with zeros before the start, for every tap count of the form 4k+1 and every window parameter.",
  [H, I, C], "every input stream, every tap count 4k+1, every window parameter",
  NOTEST + "a few streams.", ["cdc.hh", "hilbert.hh", "filter.hh", "window.hh"], [("folded symmetric convolution", "cdc.hh/hilbert.hh operator()")], [("real, imag, sign", "delay lines and mixer phase", "cdc.hh, hilbert.hh")], ["return values"])
p("C33", "FM demodulators output the scaled phase difference of consecutive samples",
  "The three arctangent based demodulators return the phase advance from the previous to the current sample, wrapped to (-Pi, Pi] and divided by Pi times the bandwidth, for any non-zero amplitudes, with phase zero before the first sample. The two arctangent-free ones return the cross product of the samples normalized by power: between previous and current sample, and between the middle one and the difference of its neighbours.",
  [H, I, C], "every stream of phases and amplitudes, every bandwidth",
  NOTEST + "a few streams.", ["fmd.hh", "complex.hh"], [("wrap_around", "fmd.hh FMD1"), ("conjugate products", "fmd.hh FMD2..FMD5")], [("prev, prev1, prev2", "previous samples", "fmd.hh")], ["return values"])
p("C34", "The AM demodulator recovers the envelope under its gain control law",
  "Each output is ((1 + index) * amplitude / average - 1) / index, where the average moves towards the amplitude by the attack weight when the amplitude is not below it and by the decay weight when it is, and never leaves the configured limits. The output depends only on the magnitude of the input, not on its phase.",
  [H, I, C], "every stream of samples, every attack, decay, limit and index setting made at any time",
  NOTEST + "a few streams.", ["amd.hh"], [("automatic gain control", "amd.hh operator()")], [("avg", "tracked carrier level", "amd.hh")], ["return values"])
p("C35", "Schmitt and edge triggers follow their state machines",
  "The Schmitt trigger switches on only when the input exceeds the high threshold, off only when it falls below the low threshold, and otherwise keeps its state, equality with a threshold included; the one-threshold form is symmetric around zero. The rising (falling) edge trigger is true exactly for inputs that are true (false) after a false (true) one. The initial state is the one given at construction, false by default.",
  [H, C], "every input stream, thresholds and initial state",
  NOTEST + "a few streams.", ["trigger.hh"], [("state bit", "trigger.hh operator()")], [("previous", "trigger state", "trigger.hh")], ["return values"])
p("C36", "The adaptive filters perform normalized least mean squares updates",
  "For every input history the real and the complex adaptive filter return the error between the desired value and the current filter's output over the last N inputs (oldest first), then move the filter by step times error times conjugated input over input power, so with step one the new filter reproduces the desired value exactly. With zero input power the filter is unchanged, and for data produced by a fixed filter and steps in (0, 2) the distance to that filter never grows.",
  [H, I, C], "every history of inputs, desired values and steps, every filter length",
  NOTEST + "a few histories.", ["lms.hh", "bip_buffer.hh"], [("normalized gradient step", "lms.hh operator()")], [("history, filter", "input window and weights", "lms.hh")], ["return value and filter weights"])
p("C37", "Resamplers evaluate the windowed-sinc interpolation at the right instants",
  "The block resampler writes, for every output index it can compute, the input interpolated with its Kaiser-windowed sinc kernel at the index times rate/(rate+difference) offset by half the kernel, leaves other outputs untouched, never reads outside the input and honours the stride. The streaming resampler emits for each input zero, one or two outputs so that the output instants advance by one minus difference/rate input samples, never falling behind or running ahead by more than one sample, and each output is the kernel applied to the last samples at that instant. Both are linear in the input.",
  [H, I, C], "every input, rate difference of either sign (also changing between calls), tap count, oversampling and stride",
  NOTEST + "a few signals.", ["resampler.hh", "spline.hh", "window.hh"], [("fractional position", "resampler.hh dpos / x"), ("spline-interpolated kernel", "resampler.hh lpf")], [("dpos, buf", "fractional position and history", "resampler.hh")], ["outputs and their count"])
p("C38", "Kahan summation keeps the error independent of the number of terms",
  "For every sequence of terms the compensated sum differs from the exact sum by at most about two epsilon times the sum of the magnitudes, independently of the number of terms, also when compiled with -ffast-math. The sum over a range equals feeding its elements one by one, adding a term reports 'same' exactly when it changed neither sum nor compensation, and copies continue identically.",
  [H, I, C], "every sequence of terms, float and double, gcc and clang, with and without -ffast-math",
  "kahan_test checks a single series whose result happens to round to Pi.", ["kahan.hh"], [("compensation term protected from reassociation", "kahan.hh operator()")], [("high, low", "sum and compensation", "kahan.hh")], ["return values"])
p("C39", "The everyday helpers match their mathematical definitions",
  "Signum returns -1, 0 or 1 with the sign of its argument, lerp returns the weighted mean of its operands with an error of a few epsilon of the weighted operands, so its first one at 0 and its second one at 1 whatever the size of the other, clamp returns the nearest value within its limits, sinc is sin(Pi x)/(Pi x) with value one at zero, delta is one at zero and zero elsewhere, and the normal density is that of the given mean and deviation. This holds for all arguments of integer, floating-point and (for lerp) complex type.",
  [I, C], "every argument", NOTEST + "a few arguments.", ["utils.hh"], [("closed formulas", "utils.hh")], (), ["return values"])
p("C40", "Objects are independent: interleaved, concurrent and copied use equals solo use",
  "Using any two objects of the library in any interleaving of calls gives each the outputs it gives alone, and the same holds when different threads use different objects or call the pure functions concurrently, at any preemption point. A copied or assigned object continues exactly like the original would, and neither affects the other afterwards.",
  ["schedules", H, C], "every interleaving of calls of two objects, every preemption of two threads working on distinct objects, every copy point, all stateful classes and pure functions",
  "Every test uses one object at a time in a single thread.", ["*.hh"], [("all state lives in the object; helpers keep no mutable statics", "all headers")], (), ["return values"])
p("C41", "The work per sample and per array grows no faster than documented",
  "Over every stream of inputs the moving extrema take a number of comparisons and copies proportional to the number of inputs plus the window length (amortized constant per input, as documented), the sliding window accelerator and SMA4 a number of reductions per input logarithmic in N, and the delay line, SMA2, SMA3 and every deque and stack operation a constant number of operations on elements, whatever N or the fill level. Sorting n elements or selecting one of them takes no more than on the order of n log n comparisons and copies for mixed, sorted, reversed, constant, stepped and few-valued arrays, also with an outlier. A transform of N points takes complex operations on the order of N times the sum of its prime factors.",
  [I, H, C], "every stream and window length, every fill level, the shapes of arrays listed, every supported size", "The tests look at results only; a quadratic algorithm passes them all.",
  ["movext.hh", "swa.hh", "sma.hh", "delay.hh", "deque.hh", "stack.hh", "quick.hh", "fft.hh"],
  [("candidates dropped for good once dominated", "movext.hh"), ("only the path from leaf to root is updated", "swa.hh"), ("three-way partition around a median of five", "quick.hh"), ("mixed-radix recursion", "fft.hh")], (),
  ["calls of user-supplied comparison and reduction functors, operations on user-supplied elements"])
p("C42", "Storage faults are reported and what was stored stays readable",
  "A writer or reader whose file cannot be opened is not good. When storing fails, after whatever number of bytes and at whatever write, the writer is not good after the call during which that happened and never turns good again, and nothing crashes or hangs. The WAV file left behind is accepted by the reader once its header was stored, reports its number of frames as unknown (-1) or as the number actually stored, and delivers every complete stored frame unchanged; the image left behind is a prefix of the complete one. When the device fails while reading, everything delivered while the reader is still good is right, and the reader is not good from then on. Transfers that are cut into pieces or interrupted change nothing.",
  [F, H, C], "every byte and every call at which the device fails, every format", NOTEST + "files on a working device.", ["wav.hh", "netpbm.hh"],
  [("good() is the state of the stream", "wav.hh, netpbm.hh good()"), ("header patched through the same stream, so only while it is good", "wav.hh WriteWAV destructor")], (), ["good() after every call", "reader on the file left behind"])

p("C43", "The headers combine in any order and from several translation units",
  "Every header can be included alone, repeatedly, before or after any other header of the library, and from any number of translation units of one program, which then compiles and links. A header leaves the names outside of namespace DSP to its user: it brings no names of namespace std or DSP into the global namespace and defines no macros with common names. The results of a program do not depend, beyond rounding, on the order in which it includes the headers, nor on another translation unit including them in a different order. The user provides the standard headers and the names min and max, const.hh before fmd.hh, and utils.hh before amd.hh.",
  [F, H, C], "every header, every ordered pair of headers, each header first and last among all, two translation units", NOTEST + "a few headers at a time in one fixed order and one translation unit.", ["utils.hh", "const.hh", "complex.hh", "window.hh"],
  [("one-time inclusion", "#pragma once"), ("everything is a template, a member defined in its class or inline", "all headers"), ("names in namespace DSP", "all headers")], (), ["compiler and linker", "results of the users in every order"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
