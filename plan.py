FLAVOURS = {
    # the flags of the project's own Makefile
    "fast": {"cxx": ["g++"], "flags": ["-std=c++17", "-O2", "-fno-exceptions", "-fno-rtti", "-ffast-math", "-ftree-vectorize"]},
    "strict": {"cxx": ["g++"], "flags": ["-std=c++17", "-O2"]},
    "san": {"cxx": ["g++"], "flags": ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                        "-fno-sanitize=shift-base,vptr", "-fno-sanitize-recover=all"]},
    "clang": {"cxx": ["clang++"], "flags": ["-std=c++17", "-O2", "-fno-exceptions", "-fno-rtti", "-ffast-math"]},
    # memory accesses call the scheduler in checks/sched.cc, no sanitizer runtime is linked
    "sched": {"cxx": ["g++"], "flags": ["-std=c++17", "-O1", "-fsanitize=thread", "-fno-exceptions", "-fno-rtti", "-ffast-math"],
              "link": ["g++", "-std=c++17", "-O2", "HERE/checks/sched.cc",
                       "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_once", "-lpthread"]},
}
FAST, SAN, STRICT = {"flavour": "fast"}, {"flavour": "san"}, {"flavour": "strict"}
PLAN = {}
def parts(flavour, n, **kw):
    return [dict({"flavour": flavour, "tag": "%d" % i, "defs": ["-DPART=%d" % i]}, **kw) for i in range(n)]

def plan(id, src, bound, oracle, builds=None, level="model_checking", technique="", note="", rule=None, assumptions=None, why=None):
    PLAN[id] = {"src": src, "bound": bound, "oracle": oracle, "builds": builds or [FAST, SAN], "level": level, "technique": technique,
                "note": note, "rule": (rule or bound) + "; distinct counts different observed results, at most 200000 kept per scenario",
                "assumptions": assumptions or [], "why": why}

plan("C01", "c01_deque.cc",
     "explicit-state search of the real object to a fixpoint: capacities 1-4 over 2-3 values and 5-8 over 1 value, all operations, "
     "two poison patterns of the memory, with and without peeking; all rotations x fill levels x splits x operations x drains for capacities up to 40 "
     "(a grid of them above, complete in the thorough tier); streams of distinct values for capacities up to 100000",
     "ideal list, whole content compared by draining copies at both ends; misuse must trip an assertion",
     technique="explicit-state model checking of the real class against a list model",
     note="Exhaustive for all histories over the alphabet at small capacities; larger capacities by data independence of a container that only copies values.")

plan("C02", "c02_stack.cc",
     "explicit-state search to a fixpoint: capacities 1-8 over 2-3 values, three poison patterns; every up/down/up level profile for capacities up to 16, "
     "a grid of profiles up to capacity 65537",
     "ideal list; whole content compared by draining copies; misuse must trip an assertion",
     technique="explicit-state model checking of the real class against a stack model",
     note="Exhaustive for all histories over the alphabet at small capacities; larger ones by data independence.")

plan("C03", "c03_delay.cc",
     "explicit-state search to a fixpoint: delay N=1-5 and 8, bip buffer N=1-5, 2-3 values, several initial values, two poison patterns; "
     "streams of distinct values through every ring phase for every N up to 72 and selected N up to 70000, 150000 samples for N up to 8",
     "the plain input history",
     technique="explicit-state model checking of the real classes against the input history",
     note="Exhaustive over the alphabet for small N; larger N by data independence with distinct values.")

plan("C04", "c04_movext.cc",
     "explicit-state search: N=1-3 over every choice of three and N=4-5 over every choice of two of the type's extreme values, two poison patterns; "
     "all permutations of 7 inputs (8 thorough) for N=1-5; fifteen stream shapes with up to two deviations at any positions for N up to 8 and one for N up to 100; "
     "streams of 200000 inputs for N up to 10; eight element types",
     "extremum of the actual last min(t, N) inputs",
     builds=parts("fast", 3) + parts("san", 3),
     technique="explicit-state model checking of the real classes against a brute-force window",
     note="Exhaustive over the alphabets and lengths listed; comparison-based code depends only on the order type of the window.")

plan("C05", "c05_swa.cc",
     "explicit-state search N=1-7 for sum, xor, minimum, maximum and product; eleven streams of individually identifiable contributions for N=1-34 and around 64, 100, 128; "
     "one and two impulses at every position for N=1-24; sums of distinct 64-bit hashes for every N up to 150 and selected N up to 100000, 200000 inputs for N up to 12",
     "fold of the last N inputs over the identity",
     technique="explicit-state model checking of the real class against folding the window",
     note="Distinct 64-bit contributions make a lost or doubled input visible up to a hash coincidence fixed by the stream.")

plan("C06", "c06_sma.cc",
     "integers: explicit-state search N=1-6, all variants, normalized and not; floating point: every periodic stream whose period is a word of up to 5-7 letters over alphabets "
     "spanning eleven orders of magnitude, repeated up to 40 times, then flushed with zeros, for N=1-7 and 16, float, double and complex, at four levels; four long streams (200000 steps, 3 million thorough) for N up to 1000; filling windows of up to 300000 values",
     "window mean in long double; SMA1/SMA4 within (N+2) eps of the largest value in the window and exactly zero after N zeros, SMA3's sum within 2 eps of the magnitudes added and removed so far, SMA2 within rounding accumulated per step; integers exact",
     builds=parts("fast", 3) + parts("san", 3),
     technique="explicit-state model checking (integers) and exhaustive history enumeration (floating point) of the real classes",
     note="Exhaustive over the alphabets and word lengths listed; drift is observed on long periodic histories.")

plan("C07", "c07_sort.cc",
     "all arrays of up to 10 elements over 3 values and 6 over 6 values, all permutations of up to 9; for sizes around and above the partitioning threshold: every content (3125) of the five "
     "positions spread over the array on six backgrounds, all three-piece arrays over 3 values, all multiplicities of least and greatest value, 22 shapes with one deviation at any position for every n up to 130 "
     "and with two for selected n, shapes up to n=200000; int, short, unsigned, float, double and a struct with identity",
     "order, multiset of element identities, canaries or red zones on both sides",
     builds=parts("fast", 2) + parts("san", 2), level="exploration",
     technique="bounded exhaustive enumeration of array contents on the real code",
     note="Exhaustive over the classes of arrays listed; comparison-based code depends only on the order type of the array, which is enumerated completely up to 6 elements (permutations up to 9).")

plan("C08", "c08_select.cc",
     "the array classes of C07 with all ranks up to 7 elements, for all multiplicities and for all shapes up to n=300, and nine ranks (ends, quarters, middle) for the others",
     "rank by counting, partition around the rank, multiset of element identities, canaries or red zones",
     builds=parts("fast", 2) + parts("san", 2), level="exploration",
     technique="bounded exhaustive enumeration of array contents and ranks on the real code",
     note="Exhaustive over the classes of arrays and ranks listed.")

plan("C09", "c09_median.cc",
     "all sets of 2-6 points over coordinates from 2-4 values (ties in x and y included), with fresh and reused objects; all y vectors over 2-4 values for four x layouts up to 9 points; every outlier subset "
     "below the breakdown point of five kinds up to 12 points (16 thorough); structured sets with single deviations up to 260 points and up to twice the size; 1100 and 1600 points of which up to five eighths lie elsewhere; float and double",
     "brute-force medians in long double; exact line recovery",
     technique="exhaustive enumeration of point sets and call histories on the real classes",
     note="Exhaustive over the lattices and outlier subsets listed.")

plan("C10", "c10_regression.cc",
     "all sets of 2-6 points over coordinates from 2-6 values; for equidistant x all y vectors over 2-4 values up to 6 points for 30 (start, step) pairs; for every length up to 140 (300 thorough) impulses at every position and four shapes; shapes of up to 200000 points; float and double",
     "normal equations in long double with a tolerance derived from the conditioning of the set",
     level="exploration", technique="bounded exhaustive enumeration of point sets on the real code",
     note="Exhaustive over the lattices; longer sets by linearity in y.")

plan("C11", "c11_spline.cc",
     "natural spline: all value vectors over three values for 2-6 knots (8 thorough), impulses at every knot for 2-17, 31-34, 64 and 100 knots, at selected ones for 257 and 600, 20 (origin, spacing) pairs of either sign, strides 1-3 and up to 70000; "
     "Hermite spline: all value vectors over three values for 3-7 knots, all spacings over three values, impulses up to 40 knots, selected ones for 257 and 1000; six points in every segment, the last knot, seven points beyond each end; real and complex",
     "natural spline from a dense solve for its second derivatives, Hermite segments in power basis, long double",
     level="exploration", technique="bounded exhaustive enumeration of knot vectors and segments on the real code",
     note="The splines are linear in the knot values, so impulses at every knot cover all values up to rounding.")

def sizes(flavour, lo, cnt, ty="double", **kw):
    return dict({"flavour": flavour, "tag": "%s-%d-%d" % (ty, lo, lo + cnt - 1), "defs": ["-std=c++20", "-DLO=%d" % lo, "-DCNT=%d" % cnt, "-DVT=" + ty]}, **kw)
def size_list(flavour, tag, lst, ty="double", extra=(), **kw):
    return dict({"flavour": flavour, "tag": "%s-%s" % (ty, tag), "defs": ["-std=c++20", "-DLIST=" + ",".join(map(str, lst)), "-DVT=" + ty] + list(extra)}, **kw)

plan("C12", "c12_fft.cc",
     "every supported size up to 512 (double; up to 1024 thorough) and up to 128 (float), squares and products of all radices, doubled products that nest two large radices, and powers up to 65536, both signs: every real and imaginary unit impulse "
     "(every 64th above 1100), five dense vectors, repeated use, round trip",
     "discrete Fourier sum in long double; error at most (4 + 2 log2 N) eps times the norm of the input; guards around the output",
     builds=[sizes("fast", lo, 64) for lo in range(1, 512, 64)] + [sizes("fast", lo, 64, tier="thorough") for lo in range(513, 1024, 64)] +
        [sizes("fast", 1, 128, "float"), size_list("fast", "large", [529, 667, 713, 841, 899, 961, 992, 1000, 1001, 1024, 1155, 2048, 2187, 2310, 3125, 4096]),
         size_list("fast", "nested", [646, 874, 1334, 1682, 1798, 1922]),
         size_list("fast", "large", [256, 512, 1024, 2048, 4096, 8192, 16384, 65536, 1920, 5040, 8000, 44100, 48000], "float"),
         sizes("san", 1, 32), size_list("san", "radices", [34, 38, 46, 58, 62, 64, 75, 128, 256], "float")],
     level="exploration", technique="exhaustive enumeration of transform sizes and basis inputs on the real code",
     note="The transform is linear, so the unit impulses determine it; dense vectors guard against data dependence. Exhaustive up to the size bounds.")

plan("C13", "c13_rfft.cc",
     "every supported even size up to 512 (double; 1024 thorough) and up to 128 (float), selected sizes up to 48000: every unit impulse of both signs (every 64th above 1100), five dense vectors, repeated use",
     "discrete Fourier sum in long double; error at most (6 + 2 log2 N) eps times the norm; guards around the half+1 outputs",
     builds=[sizes("fast", lo, 64) for lo in range(1, 256, 64)] + [sizes("fast", lo, 64, tier="thorough") for lo in range(257, 512, 64)] +
        [sizes("fast", 1, 64, "float"), size_list("fast", "large", [289, 361, 512, 529, 841, 961, 899, 1000, 1024, 1155, 2048, 2310]),
         size_list("fast", "nested", [646, 874, 1334, 1682, 1798, 1922]),
         size_list("fast", "large", [512, 1024, 4096, 8192, 960, 22050, 24000], "float"),
         sizes("san", 1, 24), size_list("san", "radices", [26, 29, 31, 32, 64, 75], "float")],
     level="exploration", technique="exhaustive enumeration of transform sizes and basis inputs on the real code",
     note="The transform is linear, so the unit impulses determine it; dense vectors guard against data dependence. Exhaustive up to the size bounds.")

plan("C14", "c14_fdzp.cc",
     "every pair of supported sizes with input up to 24 and output up to 24 larger plus multiples up to five times, inputs 25-64 and some up to 300 with nine ratios: every real and imaginary impulse and four dense vectors on fresh objects over "
     "three memory patterns, all ordered pairs of inputs on one object up to input size 8 and all inputs after dense ones above",
     "Fourier sum with split Nyquist bin evaluated at the output positions, long double; coinciding samples; guards around the output",
     builds=[sizes("fast", lo, 4) for lo in range(1, 24, 4)] + [sizes("fast", 1, 12, "float"),
         size_list("fast", "more", [25, 26, 27, 28, 29, 30, 31, 32, 33, 35, 36, 40], extra=["-DFEW"]),
         size_list("fast", "large", [45, 48, 49, 50, 55, 60, 63, 64, 81, 100, 125, 128], extra=["-DFEW"]),
         size_list("fast", "huge", [160, 256, 300], extra=["-DFEW"]),
         sizes("san", 1, 4), size_list("san", "more", [5, 6, 7, 8, 9, 15, 16], "float", ["-DFEW"])],
     technique="exhaustive enumeration of size pairs, basis inputs and two-call histories on the real class",
     note="Linear in the input, so impulses determine the result; exhaustive up to the size bounds.")

plan("C15", "c15_complex.cc",
     "all pairs of operands with components in -7..5 (9 values) and in 14 values of magnitudes 1e-8 to 1e8, float and double (7 integers for int), every operator, compound form and its value, aliasing with itself; polar over 8 radii of both signs and 2881 angles",
     "definition in long double with a tolerance of a few eps of the intermediate products, exact for int",
     level="exploration", technique="exhaustive enumeration of an operand lattice on the real operators")

plan("C16", "c16_unitcircle.cc",
     "all N up to 6000 (12000 thorough) with all n from -N to N; 900 larger N up to 2^27 (powers of two, 3/4 and 5/8 of them with offsets -9..9, common rates) with 25 n around every octant boundary and 201 spread n; float and double; all constants for three types",
     "sine and cosine in long double, tolerance two epsilon; constants rounded from long double",
     level="exploration", technique="exhaustive enumeration of integer angles on the real functions", note="Exhaustive up to the bound on N; larger N at octant boundaries only.")

plan("C17", "c17_atan.cc",
     "atan: every positive float, all floats within 2^17 of the five switching points, all double exponents with 2^9 mantissas (2^14 near one) and four low parts; "
     "atan2: all pairs over every float exponent and every 6th double exponent (3 mantissas, both signs), zero and the extremes, all directions of a 301x301 lattice at four scales, the axes at every exponent",
     "atan and atan2 of the C library in double (for float) or long double (for double); sign, oddness and range checked on bits",
     builds=[FAST, STRICT, SAN], level="exploration", technique="exhaustive enumeration of floating-point bit patterns on the real functions",
     note="The thorough tier covers every float; double by exponent and mantissa patterns. The sign of a zero y is only checked without -ffast-math.")

plan("C18", "c18_cordic.cc",
     "all 2^16 pairs of 8-bit coordinates; all 2^32 pairs of 16-bit coordinates; in the sanitized build every 601st 16-bit value, powers of two with neighbours and extremes in both coordinates",
     "atan2 in double modulo a full turn: one LSB plus one input step seen from the origin (8 bit), 1.25 LSB plus 2.8 input steps (16 bit, the accumulated truncation of the iterations); undefined behaviour trapped in the sanitized build",
     level="exploration", technique="exhaustive enumeration of the coordinates on the real function", note="Values are exhaustive for both widths; undefined behaviour is trapped for all 8-bit and selected 16-bit pairs.")

plan("C19", "c19_decibel.cc",
     "powers and inverse decibels: every float from 1e-12 to 390 in both signs, decibels: every positive normal float; double: arguments k/512 over the range with offsets, all exponents with 512 mantissas and three low parts, 80000 values around one; round trips",
     "pow and log10 of the C library in double (float) or long double (double)",
     builds=[FAST, STRICT, SAN], level="exploration", technique="exhaustive enumeration of floating-point bit patterns on the real functions",
     note="The thorough tier covers every float of the range; results above 0.7 of the largest number are not claimed.")

plan("C20", "c20_wav.cc",
     "all sequences of up to 5 of 9 writer operations (blocks of 0-3 frames, strides, silences) for 8, 16, 32 and other bit depths with 1-3 channels, float and double; all sequences of 6 of 10 reader operations (skipping backwards included) on 5-frame files; "
     "all 8- and 16-bit codes in both directions, values in eighths of a code beyond full scale; 35328 float bit patterns; all channel counts up to 64, 19 rates, lengths around buffer sizes and around data of 2^24 bytes, silences of up to 300000 frames, strides up to 100000; through the abstract interfaces as well",
     "independent strict WAV parser and sample codec; canaries around every buffer element not addressed",
     technique="exhaustive enumeration of writer and reader operation sequences on the real classes and files",
     note="Sequences complete up to the depth; an empty file may report its frame count as unknown.")

plan("C21", "c21_crash.cc",
     "recordings of 10 short shapes (blocks, silences, empty) and three long ones filling several stream buffers for 8, 16 and 32 bits with 1-3 channels, lengths around powers of 256: the file image after every byte of every write that reaches the file "
     "(in long runs of data every 61st byte and the first and last kilobyte of each write) and after every call",
     "real reader on every image: not good before the header is complete, otherwise format, frame count unknown or exact, and every complete frame equal to the finished file",
     level="fault_enumeration", technique="enumeration of all crash points of the real writer from its write log, each image read by the real reader",
     note="The log comes from interposed write calls and must rebuild the finished file, otherwise only stops between calls are explored. Writes are assumed to reach the file in order.",
     rule="an image counts as a distinct outcome by the reported frame count, the number of complete frames and the format")

plan("C22", "c22_badwav.cc",
     "six formats with known and unknown sizes: every truncation, every header byte with all 256 values, every byte removed and four inserted anywhere, all pairs of two header fields over 20 values each; a grid of 9 format codes, 12 depths, 11 channel counts, 6 format chunk sizes, 7 rates; missing files",
     "independent classifier of headers into malformed, well-formed and undecided; results must not depend on the memory contents before construction; sanitizers",
     level="fault_enumeration", technique="exhaustive enumeration of header corruptions on the real reader",
     note="A contradicting fact chunk may be refused or believed.",
     rule="a file counts as a distinct outcome by the values the reader reports and its length")

plan("C23", "c23_pnm.cc",
     "all codes of all maxima up to 2500 (8000 thorough) and of 13 larger ones up to 65535 in both directions, float and double; 130000 linear values for nine maxima including beyond both ends; all ways of splitting 10 pixels into calls with four stride patterns; all widths up to 40 with eight heights, widths and heights up to 70000, strides up to 100000; through the abstract interfaces as well",
     "independent parser and sRGB curve: nearest code, monotone, codes encode back to themselves; canaries around elements not addressed",
     technique="exhaustive enumeration of codes and call partitions on the real classes and files",
     note="Codes within one step of the knee of the curve may use either branch.")

plan("C24", "c24_badpnm.cc",
     "110000 headers from a grammar of magic numbers, numbers and 13 separators with comments; all strings up to length 8 over five characters after three prefixes; three valid files with every truncation, every byte removed, replaced by and preceded by all 256 values, and all pairs of bytes replaced by ten values; missing files",
     "reference parser of the header grammar; first pixel after the header; results must not depend on the memory contents before construction; sanitizers",
     level="fault_enumeration", technique="exhaustive enumeration of headers and corruptions on the real reader",
     note="Other white space, comments elsewhere than after a line end, zero sizes and numbers beyond the integer range are not claimed.",
     rule="a file counts as a distinct outcome by its contents and the values the reader reports")

plan("C25", "c25_window.cc",
     "all lengths 2 to 400 (1500 thorough) and every index, 18 longer ones up to 2^24+1 at 400 spread indices and around every sixteenth; seven windows with 26 parameter choices, float and double",
     "textbook formulas in long double with a tolerance of a few epsilon; symmetry, bound by one, maximum in the centre",
     level="exploration", technique="exhaustive enumeration of lengths and indices on the real functions")

plan("C26", "c26_fir.cc",
     "kernels: all rational cutoffs with denominators up to 48 and tap counts 1 to 100, audio cutoffs with up to 4001 taps, four cutoffs with up to 70001 taps, bands over three grids with the cutoffs in both orders, Hilbert kernels of up to 1000 taps and of 33000 and 70001; coefficient arrays: all value assignments over 5 to 9 values for 1, 2, 3 and 5 taps, with normalization by several divisors and repeatedly; windowed designs up to 4097 taps; float and double",
     "ideal impulse responses in long double with exactly reduced angles; products and sums of the generator values",
     level="exploration", technique="exhaustive enumeration of cutoffs, tap counts and coefficient values on the real functions",
     note="A cutoff of zero has no kernel in the rational form and is not claimed.")

plan("C27", "c27_biquad.cc",
     "impulse, step and alternating responses of all five kinds for every 0 < n/N < 1/2 with N up to 40 (100 thorough) and six qualities, eleven qualities from 0.001 to 1000 at twelve frequencies over 3000 samples, 15 audio cutoffs over 3000 samples, long runs of 300000 samples, seven input levels from 2^-80 to 2^80; all sequences of 2 inputs and 5 reconfigurations up to length 7 (8), real and complex, float and double; cascades of 1 to 11 sections at nine cutoffs and seven frequencies",
     "recursion with coefficients derived in long double by substituting the bilinear transform into the analog prototype; Butterworth magnitude in closed form; decay of the impulse response",
     technique="depth-first exploration of all operation sequences on the real object, with a reference model in lockstep",
     note="Deviations are allowed some epsilon times the inverse squared sine of the angle and the inverse bandwidth, as coefficients in the given type move the poles that much.")

plan("C28", "c28_ema.cc",
     "all sequences of 3 inputs, 3 cutoffs and 3 sample counts up to length 6 (7 thorough) from four initial states; all sequences of 3 inputs and 2 cutoffs up to length 7 (8) for cascades of 1, 2, 3, 4, 5 and 16 stages; weights for every n/N with N up to 500 (2000) and four rates, sample counts up to 2000 (8000) and eight up to 2^24; long runs of 200000 samples, seven input levels; cascade cutoffs and the digits of the correction factor for orders 1 to 16; real and complex, float and double",
     "recursion in long double with the weight solving the half-power equation; range of all values so far; closed-form power at the cutoff",
     technique="depth-first exploration of all operation sequences on the real object, with a reference model in lockstep",
     note="Very low cutoffs, whose weight the given type cannot resolve, are skipped (tolerance 16 epsilon over the squared sine of half the angle).")

plan("C29", "c29_blockdc.cc",
     "DC blocker: all sequences of 3 inputs and 4 sample counts up to length 7 (8 thorough), constant and alternating inputs for sample counts up to 1000, long runs of 100000 samples with sample counts up to 16000000, seven input levels; integrator and differentiator alone and chained both ways: all input sequences up to length 7 (8) over 3 to 5 values from three starts, six number types and seven levels",
     "recursions in long double, exact sums and differences in 128 bit integers",
     technique="depth-first exploration of all operation sequences on the real objects, with a reference model in lockstep")

plan("C30", "c30_normalize.cc",
     "all sequences of 4 inputs and 2 or 3 sample counts up to length 7 (8 thorough); steady sinusoids of six frequencies, two sample counts, three amplitudes, three offsets and four (eight) phases until settled; long runs of 200000 samples, five input levels, sample counts up to a million; float and double",
     "recursions in long double; mean square, peak and mean over one period of the settled output",
     technique="depth-first exploration of all operation sequences on the real objects, with a reference model in lockstep",
     note="An input that has only ever been zero divides zero by zero; its output is not claimed.")

plan("C31", "c31_phasor.cc",
     "all sequences of next, reset and 6 frequency changes up to length 6 (7 thorough); all n/N with N up to 40 (100) for 300 steps, 258 real angles and frequencies for 1000 steps, slow and fast rotations from 2^-38 to 896 radians and up to 40 million steps per turn, five frequencies for two million steps; float and double",
     "exact phase accumulation in long double; magnitude within 4 epsilon, each step's advance within 8 epsilon plus the rounding of the angle, accumulated drift bounded",
     technique="depth-first exploration of all operation sequences on the real object, with a reference model in lockstep")

plan("C32", "c32_cdc.cc",
     "all sequences of 4 input pairs up to length 7 (8 thorough) and of 3 inputs up to length 8 (9) for 5, 9 and 13 taps and two window parameters; impulses at the first four positions and two dense signals until passed through, for thirteen tap counts 5 to 513 and six window parameters; long runs of 150000 samples, seven input levels; float and double",
     "direct convolution in long double with the Kaiser-windowed half-band and Hilbert kernels",
     technique="depth-first exploration of all input sequences on the real objects, with a reference model in lockstep",
     note="The phase of the mixer and the delays (half the kernel, one sample more for the Hilbert transformer) are those of the current code.")

plan("C33", "c33_fmd.cc",
     "five demodulators: all sequences of 8 samples and 2 bandwidth changes up to length 5 (6 thorough); all pairs of 64 and 59 (160 and 155) angles with nine amplitude combinations; steps within 2^-1 to 2^-18 (2^-45 for double) of half a turn from 36 angles; long runs of 150000 samples, six input levels; float and double",
     "phase difference and normalized cross products in long double; a difference of exactly half a turn may have either sign",
     technique="depth-first exploration of all operation sequences on the real objects, with a reference model in lockstep")

plan("C34", "c34_amd.cc",
     "all sequences of 6 samples, 2 indices and 3 gain control settings up to length 6 (7 thorough); 64 (200) phase advances with nine gain control settings compared with the real-valued input; 24 modulated carriers; long runs of 200000 samples, six input levels; float and double",
     "gain control law in long double; equality up to rounding of differently rotated inputs; the modulating signal",
     technique="depth-first exploration of all operation sequences on the real object, with a reference model in lockstep")

plan("C35", "c35_trigger.cc",
     "fixpoint of all reachable object states from every kind of construction, with inputs at, just above and just below every threshold (float, double and all integers -8 to 8 for int; pairs of thresholds over the whole range of six number types), three memory patterns; all sequences of 5 values up to length 9 and of 2 values up to length 18",
     "two-state machines",
     technique="explicit-state search to a fixpoint over the real objects' bytes, plus depth-first exploration of all input sequences")

plan("C36", "c36_lms.cc",
     "real and complex filters of 1, 2, 3, 5 and 8 weights: all sequences of 8 combinations of input, desired value and step (between -1 and 3) up to length 6 (7 thorough); all sequences of 4 inputs up to length 7 (8) with desired values of a fixed filter and three steps; twelve combinations of input and desired levels; long converging runs up to 300 weights and of 100000 samples; float and double",
     "update rule in long double applied to the weights read back before each call; distance to the fixed filter; convergence",
     technique="depth-first exploration of all call sequences on the real objects, with a reference model in lockstep")

plan("C37", "c37_resampler.cc",
     "block: twelve kernels (1 to 33 taps, 1 to 32 knots per sample, real and complex, float and double), four configurations, ten rate differences, nine lengths around the kernel length, three strides, four signals, blocks of up to 70000 samples and strides up to 70000, with guarded or exactly sized buffers; streaming: all sequences of 11 combinations of input and difference up to length 5 (6 thorough), runs of 2000 (20000) inputs at 37 constant and 37 changing differences; seven input levels",
     "interpolation in long double with a natural cubic spline through the Kaiser-windowed sinc, at exactly computed instants; counts and instants of the outputs",
     technique="enumeration of block shapes and depth-first exploration of all streaming call sequences on the real objects, with a reference model in lockstep",
     note="Rate differences of at most half the rate are claimed for the streaming resampler. Instants half way between two input samples may use either neighbourhood.")

plan("C38", "c38_kahan.cc",
     "all sequences of 15 operations (adding, same, copying) over nine terms up to length 5 (6 thorough) from three starts; all ranges of up to 7 (9) elements over four values; five series of a million (ten million) terms; compiled by gcc and clang with -ffast-math, strictly, and with sanitizers; float and double",
     "exact sums in 128 bit integers",
     builds=[FAST, SAN, STRICT, dict(flavour="clang", optional=True)],
     technique="depth-first exploration of all operation sequences on the real object, with an exact model in lockstep")

plan("C39", "c39_utils.cc",
     "signum and delta: all 8 and 16 bit integers, values around zero and the limits of 32 and 64 bit integers, 174 floating-point values over the whole range of exponents; clamp: all ordered triples of these; lerp: all pairs times 53 weights, complex and integer operands; sinc: 400000 multiples of 1/256 and 14848 others; normal density: 25 parameter choices times 801 arguments; float and double",
     "definitions, in long double where rounding matters",
     level="exploration", technique="exhaustive enumeration of argument lattices on the real functions",
     note="Denormal and non-finite arguments are not claimed, -ffast-math excludes them.")

plan("C40", "c40_objects.cc",
     "60 users (every class and function family of the library, each with a constructor and four logged calls): all 252 merges of the events of every pair of users; "
     "copy construction, assignment to a fresh and to a used object after 0 to 4 calls with all merges of the remaining calls of original and copy, with equal and with other input, and with the original destroyed and overwritten; "
     "every ordered pair of users as two threads under a scheduler that sees every memory access: pairs without a common written word have one schedule up to equivalence, "
     "the others are preempted at one and two of their conflicting accesses (2000 schedules per pair, 30000 thorough)",
     "the outputs of the same user alone in a fresh process",
     builds=[FAST, SAN, dict(flavour="sched", src="c40_threads.cc")],
     technique="enumeration of all call interleavings and copy points, and of thread schedules with conflict-driven preemption, on the real code",
     note="Sequentially consistent memory. The C and C++ runtime libraries are not instrumented. A preempted schedule that cannot be finished because of a synchronization primitive unknown to the scheduler is recorded, not reported. "
          "Where two threads share written memory the exploration is bounded to two preemptions and reported as not exhaustive.")

plan("C41", "c41_cost.cc",
     "operations on user-supplied elements and by user-supplied functors, counted: streams of all words of one to three of 8 kinds of pieces (rising, falling, constant, sawtooth, zigzag, mixed) times five lengths around the window, repeated, "
     "for windows up to 10000; every container operation at a grid of rotations and fill levels for capacities up to 4096; sorting and selecting (six ranks) 14 shapes with an outlier at nine positions for every n up to 300 and selected n up to a million; "
     "transforms of 34 lengths up to 8192",
     "at every input the total stays within a constant (8 comparisons, 60 copies and comparisons) times inputs plus window for the extrema, 2 log2(2N)+6 reductions per input for the accelerator, constants for delay line, SMA2, SMA3 and containers, "
     "40 n log2 n for sorting and selecting, 4 N times the sum of the prime factors plus 8 for each for the transform; the present code uses at most a third of each",
     level="exploration",
     technique="bounded exhaustive enumeration of stream and array shapes on the real code with counting elements",
     note="Counts operations, not time. The shapes of arrays leave out those bad for particular choices of the pivot.")

plan("C42", "c42_storage.cc",
     "recordings and images of several shapes, 8, 16 and 32 bits, 1-3 channels, written to and read from a device that is full after every number of bytes, "
     "fails from every call on, fails at one call only, transfers only part at a call, single bytes at every call or is interrupted at a call; files limited in length by the system; six kinds of names that cannot be opened",
     "before a fault everything is good and right, after the call with the fault the writer is not good and stays so, the file left behind is read by the real reader; samples delivered while good equal those of the intact file; partial and interrupted transfers change nothing",
     level="fault_enumeration", technique="enumeration of every failing byte and call on the real classes through interposed system calls",
     note="The calls of the stream library on the file are interposed; a scenario that cannot observe them says so and injects nothing, the length limit works without. A fault that first happens in the destructor cannot be reported by the writer and is not asked of it.",
     rule="a run counts as a distinct outcome by kind of fault, stored size, reported frames and final state")
plan("C43", "c43_headers.cc",
     "each of the 43 headers alone, twice, in two translation units of one program, followed by 140 names of its user, and before every other one (all 1806 ordered pairs), by gcc and, where installed, clang; "
     "programs of two translation units with the users of C40 in 172 orders: each header first and last, the others forwards and backwards",
     "everything compiles and links; the results of the users equal those of the usual order within 1e-5",
     builds=[{"flavour": "fast"}], level="exploration", technique="exhaustive enumeration of inclusion orders, each decided by compiling, linking and running the real headers",
     note="The standard headers and the global names min and max are provided, as the library expects; const.hh comes before fmd.hh and utils.hh before amd.hh, which do not include what they use. Headers that are removed are left out.",
     rule="a configuration (compiler, headers, order) or the output of a program counts as one outcome")
