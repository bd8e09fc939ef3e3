#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

H = ["inputs", "histories", "configurations"]

p("C01", "No component ever leaves its own storage or its caller's buffers",
  "For every sequence of valid calls, every sample value and every supported template size, a component reads and writes only inside the arrays it owns and inside the extent of the buffers the caller handed over (length, count and stride as passed). This includes ring wrap-around, the first calls after construction, repeated transforms on one object, strided access, evaluation points far outside the tabulated range, and any resampling offset.",
  H, "all call sequences, all sample values, all template sizes, all evaluation points and strides",
  "Tests run without sanitizers, touch 8 of 43 headers, and a one-element overrun inside the same object does not change any value they look at.",
  ["delay.hh","bip_buffer.hh","deque.hh","stack.hh","swa.hh","sma.hh","movext.hh","fft.hh","fdzp.hh","hilbert.hh","cdc.hh","spline.hh","resampler.hh","lms.hh","coeffs.hh","quick.hh","theil_sen.hh","repeated_median.hh","regression.hh","cordic.hh","wav.hh","netpbm.hh"],
  [("ring positions wrapped after every increment","delay.hh, bip_buffer.hh, deque.hh, swa.hh, sma.hh"),("segment index clamped to the first/last segment","spline.hh UniformNaturalCubicSpline::operator()"),("window of taps checked against the sample count","resampler.hh Resampler::operator()"),("candidate count bounded by the array size","theil_sen.hh, repeated_median.hh compute")])

p("C02", "No result ever depends on memory nobody has written",
  "Every value a component returns, and every decision it takes, is determined by its constructor arguments and the inputs supplied so far. This holds from the first call after construction, and for every accessor of a file reader even when the file is missing, truncated or not of the expected format.",
  H, "all call sequences from construction on; all file contents including malformed and truncated headers",
  "An indeterminate member often happens to be zero in a test process; no test opens a file or inspects an object before it has been fed.",
  ["wav.hh","netpbm.hh","delay.hh","bip_buffer.hh","deque.hh","stack.hh","swa.hh","sma.hh","fdzp.hh","hilbert.hh","cdc.hh","resampler.hh","lms.hh","spline.hh"],
  [("constructors fill every history array and scalar","all classes with state"),("reader constructors","wav.hh ReadWAV, netpbm.hh ReadPNM")])

p("C03", "Objects are independent: no hidden shared mutable state",
  "Two objects never influence each other, whatever order or threads they are used from: a call changes only the object it is made on and the buffers passed to it. The free functions are pure: they return the same result for the same arguments whatever was called before.",
  ["schedules","histories","programs"], "all interleavings of calls on distinct objects and of the free functions",
  "Tests use one object of a kind at a time from one thread; leakage through shared storage needs two objects or two threads.",
  ["fft.hh","fdzp.hh","window.hh","spline.hh","resampler.hh","repeated_median.hh","theil_sen.hh","unit_circle.hh","atan2.hh","exp.hh","decibel.hh","quick.hh","cordic.hh"],
  [("all working storage is a non-static member or a local","whole library"),("static tables are constant","atan2.hh, decibel.hh, exp.hh, unit_circle.hh, cordic.hh")])

p("C04", "Impossible configurations do not compile, supported ones do",
  "A transform length with a prime factor above 31, an odd length for the real transform, an interpolation output not longer than its input, a tap count that is not one more than a multiple of four for the analytic-signal filters, and an angle type wider than 16 bits are rejected at compile time. Every transform length whose prime factors are at most 31, and every other valid configuration, is accepted.",
  ["configurations","programs"], "all template arguments",
  "A test program that must not compile cannot be part of the test suite, and the tests instantiate no transform at all.",
  ["fft.hh","fdzp.hh","cdc.hh","hilbert.hh","cordic.hh"],
  [("static_assert","fft.hh RealToHalfComplexTransform, fdzp.hh, cdc.hh, hilbert.hh, cordic.hh"),("primary butterfly template has no members","fft.hh Dit")])

p("C05", "Delay line and contiguous history return exactly the last N inputs",
  "After any sequence of inputs the N-sample delay line returns the input of exactly N calls ago (the initial value before that). The contiguous history always exposes the last N inputs oldest first, with zero standing in for inputs not yet seen, both when queried and when fed.",
  H, "all input sequences of any length, all N",
  "No test feeds either buffer; a wrong wrap shows only at particular N and after the ring has wrapped.",
  ["delay.hh","bip_buffer.hh"],
  [("write position advances and wraps","delay.hh Delay::operator()"),("two mirrored write positions","bip_buffer.hh BipBuffer::operator()")])

p("C06", "Fixed-size deque and stack behave as sequences and stop on misuse",
  "For every history of pushes, pops and clears, the deque and the stack report the contents, ends, size, emptiness and fullness of the corresponding mathematical sequence with the given capacity. Pushing onto a full container, or popping or reading an empty one, terminates the program instead of touching storage.",
  ["histories","configurations"], "all operation histories, all capacities",
  "The deque test samples random histories but never clears, never looks at fullness above capacity one and never misuses it; the stack is only used through the moving extrema.",
  ["deque.hh","stack.hh"],
  [("assertions on count/position","deque.hh, stack.hh"),("head/tail wrap","deque.hh")],
  state=[("head, tail, count","ring positions and fill level","deque.hh Deque"),("pos","top of stack or -1","stack.hh Stack")])

p("C07", "Moving averages and sliding-window reduction cover exactly the last N inputs",
  "In exact arithmetic, after any sequence of inputs each of the four moving averages returns the mean (or, when normalization is off, the sum) of exactly the last N inputs, counting inputs not yet seen as zero, and the four agree with each other. The sliding-window reduction combines exactly the last N inputs, each once, under any commutative and associative operation, and the mean absolute deviation refers to that same window.",
  H, "all input sequences, all N, normalized or not",
  "No test uses the averages; the reduction is compared only with the moving extrema under min and max, which cannot see a value counted twice.",
  ["sma.hh","swa.hh","delay.hh","kahan.hh"],
  [("history position wrap","sma.hh SMA1"),("add newest subtract oldest","sma.hh SMA2, SMA3"),("tree update along the path to the root","swa.hh SWA")])

p("C08", "Moving minimum and maximum are the extrema of exactly the last N inputs",
  "After any sequence of inputs, for integer and floating-point samples alike, the moving minimum (maximum) is the smallest (largest) of the last N inputs, or of all inputs while fewer than N have been seen. Ties, monotone runs and repeated values make no difference, and the internal storage never overflows.",
  H, "all input sequences including ties and negative floating-point values, all N",
  "Tests draw uniform random 32-bit integers, so ties, long monotone runs and floating-point samples practically never occur.",
  ["movext.hh","stack.hh","delay.hh"],
  [("two-stack queue with dominated entries dropped","movext.hh MovExt::operator()"),("initial value neutral for the comparison","movext.hh MovMin, MovMax")])

p("C09", "The fast Fourier transform equals the discrete Fourier transform",
  "For every supported length and for every input vector the forward (inverse) transform computes, in exact arithmetic, the unnormalized discrete Fourier sum with negative (positive) exponent in natural order. The input is left unchanged, and calls on one object do not influence each other.",
  H, "all complex input vectors, all lengths with prime factors up to 31, both signs, any number of calls",
  "No test includes the transform; each radix from 2 to 31 has its own hand-written butterfly with its own coefficient pattern.",
  ["fft.hh","unit_circle.hh","complex.hh"],
  [("butterflies per radix and sign","fft.hh Dit<R,R,...>::dft"),("decimation in time with strided twiddles","fft.hh Dit<R,BINS,...>::dit"),("radix choice","fft.hh split")])

p("C10", "The real-input transform yields the one-sided spectrum",
  "For every even length and every real input the half-complex transform yields, in exact arithmetic, bins 1 to N/2-1 of the unnormalized discrete Fourier transform of that input and one half of its bins 0 (DC) and N/2 (Nyquist), and writes exactly those N/2+1 bins.",
  H, "all real input vectors, all even supported lengths, any number of calls",
  "No test includes it; the in-place recombination of bin pairs is easy to break for the middle bin only.",
  ["fft.hh"],
  [("packed half-length transform and recombination","fft.hh RealToHalfComplexTransform::operator()")])

p("C11", "Frequency-domain zero padding interpolates its input",
  "For every input length and every longer output length (both supported transform lengths), even or odd, the output is the band-limited trigonometric interpolation of the input: each frequency bin keeps its frequency and the Nyquist bin of an even-length input is split evenly. Repeated calls on one object are independent.",
  H, "all complex inputs, all pairs of supported lengths with the output longer, any number of calls",
  "No test includes it; it depends on parity and on how close the two lengths are.",
  ["fdzp.hh","fft.hh"],
  [("negative frequencies moved to the end, gap cleared","fdzp.hh FDZP::operator()")])

p("C12", "Complex arithmetic obeys the field laws for all operands",
  "For all finite operands addition, subtraction, multiplication, division, scaling, conjugation, norm, modulus, argument, polar form and comparison of complex numbers return the mathematically defined result in exact arithmetic. Every compound assignment equals its plain operator, also when an object is combined with itself, and assigning a real clears the imaginary part.",
  ["inputs","programs"], "all operand values and all aliasings of the operands",
  "No test includes the complex type.",
  ["complex.hh"],
  [("operators","complex.hh")])

p("C13", "Second-order filters realize the designs they are named after",
  "For every frequency and quality the low-pass, high-pass, notch, band-pass and all-pass settings realize the bilinear second-order transfer function of that name (unit gain in the pass band, zeros at DC, Nyquist or the centre as the name says, unit magnitude everywhere for the all-pass). The recursion applies it to the whole input history from zero initial state, changing the setting keeps that history, and the cascade is the 2n-order Butterworth filter.",
  H, "all input sequences, all frequencies n/N, all Q values, all cascade lengths",
  "No test includes the filters.",
  ["biquad.hh","unit_circle.hh","decibel.hh"],
  [("coefficient formulas","biquad.hh Biquad::lowpass/highpass/notch/bandpass/allpass"),("direct form recursion","biquad.hh Biquad::operator()"),("Butterworth section quality","biquad.hh BiquadCascade")])

p("C14", "First-order recursions follow their difference equations for ever",
  "For every input history the exponential moving average and its cascade, the DC blocker, the integrator, the differentiator and the sine normalizers follow their defining recurrences from their documented initial state; the integrator and the differentiator are inverse to each other. The averages reach half power at the requested cutoff and have unit gain at DC, the DC blocker has zero gain at DC and unit gain at Nyquist.",
  H, "all input sequences, all cutoffs, sample counts and orders up to 16",
  "No test includes them.",
  ["ema.hh","blockdc.hh","calculus.hh","normalize.hh","utils.hh"],
  [("recurrences","ema.hh, blockdc.hh, calculus.hh, normalize.hh operator()"),("cutoff formula and cascade correction","ema.hh cutoff_alpha, cascade_factor")])

p("C15", "Hilbert and quarter-rate conversion filters have their exact impulse response",
  "For every input sequence and tap count the Hilbert filter outputs the window-weighted delayed input as real part and the convolution with the windowed ideal Hilbert kernel as imaginary part. The quarter-rate down-converter outputs at half rate exactly the input mixed by minus a quarter of the sampling rate and filtered by the windowed half-band low-pass.",
  H, "all input sequences, all tap counts 4k+1, all window parameters",
  "No test includes them.",
  ["hilbert.hh","cdc.hh","window.hh","filter.hh"],
  [("odd-tap coefficients and shift register","hilbert.hh Hilbert"),("folded half-band taps with alternating sign","cdc.hh CDC")])

p("C16", "Window functions follow their published formulas at every index and length",
  "For every length of at least two and every index inside the window the rectangular, Hann, Hamming, Lanczos, Blackman, Gaussian and Kaiser windows take the value of their published formula; all are symmetric about the centre. The rectangular window is zero outside.",
  ["inputs","configurations"], "all indices, all lengths from two, all shape parameters",
  "No test evaluates a window.",
  ["window.hh","unit_circle.hh","kahan.hh","utils.hh"],
  [("formulas","window.hh"),("Bessel series","window.hh Kaiser::i0")])

p("C17", "FIR design functions return the ideal impulse responses",
  "For every cutoff, index and filter length the low-pass, high-pass, band-pass and Hilbert designs return the centred ideal impulse response, and the rational-cutoff variants agree with the real-cutoff ones. The coefficient table holds the (windowed) response for indices inside and zero outside, and normalization divides by the given divisor times the magnitude of the sum of the taps.",
  ["inputs","configurations"], "all cutoffs, indices and lengths, odd and even",
  "No test includes the designs.",
  ["filter.hh","coeffs.hh","utils.hh","unit_circle.hh"],
  [("sinc formulas with centre case","filter.hh"),("index guard and normalization","coeffs.hh")])

p("C18", "Unit-circle sine and cosine are right for every fraction of a turn",
  "For every denominator up to 2^28-1 and every numerator of at most that magnitude, sine and cosine of the fraction of a turn are within the precision of the type of the true value in exact arithmetic, and no intermediate integer overflows.",
  ["inputs"], "all numerator/denominator pairs with magnitude up to 2^28-1",
  "The test walks denominators up to 5000 only; octant selection and overflow depend on the magnitude of the integers.",
  ["unit_circle.hh","const.hh"],
  [("octant selection","unit_circle.hh UnitCircle::cos, sin"),("kernel polynomials","unit_circle.hh")])

p("C19", "Arc tangent is right in every quadrant and at every magnitude",
  "For all finite real arguments the arc tangent and the two-argument arc tangent agree with the true function to the precision of the type in exact arithmetic, with the sign of the first argument and the full range of minus pi to pi. The angle of the origin is zero.",
  ["inputs"], "all pairs of finite coordinates, axes and origin included",
  "The test only uses points of unit magnitude with angles strictly inside the half turn and at rational fractions up to 5000.",
  ["atan2.hh","const.hh"],
  [("argument reduction","atan2.hh atan_approx"),("quadrant correction","atan2.hh atan2")])

p("C20", "Powers of ten and decibel conversions are right over their whole range",
  "Over the range of the type, scaling by a power of two is exact, the power of ten and the two decibel conversions agree with the true functions (to relative 1e-9 for double over +-300 dB), and the decibel conversions are inverse to each other.",
  ["inputs"], "all arguments within +-300 dB / all exponents within +-240",
  "No test includes them.",
  ["exp.hh","decibel.hh"],
  [("exponent splitting","exp.hh ldexp"),("range reduction and rational approximation","exp.hh exp10"),("root reduction and series","decibel.hh decibel")])

p("C21", "The natural cubic spline interpolates its knots smoothly everywhere",
  "For every set of knot values, number of knots, origin, spacing and stride the natural cubic spline passes through every knot, has continuous first and second derivative at inner knots and zero second derivative at both ends. Outside the knots it continues the first or last segment.",
  H, "all knot values, knot counts, origins, spacings, strides and evaluation points",
  "No test includes the spline.",
  ["spline.hh"],
  [("tridiagonal solve","spline.hh UniformNaturalCubicSpline constructor"),("segment selection","spline.hh UniformNaturalCubicSpline::operator()")])

p("C22", "Cubic Hermite interpolation hits its points with finite-difference slopes",
  "For every table of at least three points with increasing abscissae the Hermite interpolation passes through every point, and its slope there is the mean of the adjacent secant slopes (the one-sided secant slope at the two ends). The variant for equally spaced points agrees with the general one for every origin and spacing, and outside the table the first or last segment is continued.",
  H, "all tables of three or more points, all evaluation points",
  "No test includes it.",
  ["spline.hh"],
  [("basis polynomials","spline.hh CubicHermiteSpline h00,h10,h01,h11"),("interval search and end cases","spline.hh CubicHermiteSpline::eval")])

p("C23", "Linear regression is the least-squares line",
  "For every data set with at least two distinct abscissae the fitted line satisfies the least-squares normal equations exactly in exact arithmetic, its intercepts and evaluation agree with each other, and the equally-spaced form gives the same line as the general form on the same points.",
  ["inputs","configurations"], "all data sets, lengths, origins and spacings",
  "No test includes it.",
  ["regression.hh"],
  [("centred sums","regression.hh SimpleLinearRegression constructors")])

p("C24", "Robust line estimators recover the line despite an outlier",
  "For every line and every set of distinct abscissae, data on the line give exactly that line from each of the robust estimators. One arbitrarily wrong ordinate among five or more points does not change the fitted slope and intercept. In general the slope is the upper median of the slopes between the points (for the repeated median, of each point's median slope) and the intercept is the upper median of the intercepts belonging to the estimator's definition.",
  ["inputs","configurations"], "all lines, all outlier positions and values, lengths within capacity",
  "No test includes them.",
  ["theil_sen.hh","repeated_median.hh","quick.hh"],
  [("all pairs, median by selection","theil_sen.hh compute"),("median of medians","repeated_median.hh compute")])

p("C25", "Resampling is the windowed-sinc interpolation at the shifted instants",
  "For every input and every rate offset the block resampler writes, for each of the first output positions up to the length of the input less the taps whose taps lie inside the input, the sum of inputs weighted by the interpolation kernel at their distance, for any stride, and touches no other output. The streaming resampler produces for each input sample the number of outputs it reports, each the kernel-weighted sum of the last taps at the accumulated position, which stays within half a sample.",
  H, "all inputs, offsets, strides and call histories",
  "No test includes it.",
  ["resampler.hh","spline.hh","window.hh"],
  [("kernel tabulation","resampler.hh constructors"),("position accumulation","resampler.hh Resampler2::operator()"),("tap window guard","resampler.hh Resampler::operator()")])

p("C26", "Written WAV files are well-formed and saturate instead of wrapping",
  "For every rate, channel count, sample width and sequence of write and silence calls, the closed file has a RIFF/WAVE header whose format fields match the constructor arguments and whose size fields match the bytes actually written. Each sample is stored little-endian at its own place with the stride given, rounded to nearest, saturated at the limits of the width, and silence is the mid level.",
  ["inputs","histories","configurations"], "all rates, channels, widths, call sequences, sample values including out-of-range ones",
  "No test writes a file.",
  ["wav.hh","pcm.hh"],
  [("header and its patching","wav.hh WriteWAV constructor and destructor"),("clamp and round","wav.hh WriteWAV::write")])

p("C27", "Reading WAV returns what was written and rejects inconsistent headers",
  "Reading back any file made by the writer yields the same rate, channels, width and frame count (unknown, −1, for an empty one) and, for every sample, the written value to within half a quantization step (exactly for 32-bit float), at any stride and after skipping any number of frames forwards or back. A header whose block or byte rate contradicts its format, or whose chunk sizes contradict each other, or that ends early, never yields a positive frame count.",
  ["inputs","histories","configurations"], "all files made by the writer; all sample values; all header fields",
  "No test reads a file.",
  ["wav.hh","pcm.hh"],
  [("little-endian decode with sign extension","wav.hh ReadWAV::readLE"),("header validation","wav.hh ReadWAV constructor"),("scaling","wav.hh ReadWAV::read")])

p("C28", "Netpbm images survive a write and read and saturate",
  "Reading back any image made by the writer yields the same dimensions and kind, with the components of every pixel in the same order and place, at any stride. Stored components are the sRGB-encoded values, rounded to nearest and saturated to the maximum value, and decoding applies the inverse curve; comments and blanks in the header are skipped, and what is no such image has no pixels.",
  ["inputs","histories","configurations"], "all pixel values, dimensions, strides, maximum values up to 255, grey and colour, header layouts",
  "No test reads or writes an image.",
  ["netpbm.hh","pel.hh"],
  [("header parser","netpbm.hh ReadPNM constructor"),("transfer curves","netpbm.hh linear, srgb")])

p("C29", "LMS filters apply the normalized update and never divide by zero power",
  "For every history of inputs and desired outputs the real and complex adaptive filters return the error of the current prediction and move every coefficient by the normalized gradient step with the given rate over the last N inputs. With zero input power they leave the coefficients unchanged.",
  H, "all input, target and step-size sequences, all filter lengths",
  "No test includes them.",
  ["lms.hh","bip_buffer.hh"],
  [("normalized update","lms.hh NLMS, NCLMS operator()"),("zero power guard","lms.hh")])

p("C30", "Triggers and scalar helpers follow their definitions at every threshold",
  "For every history the Schmitt trigger switches on only strictly above its high and off only strictly below its low threshold and holds in between, and the edge triggers fire exactly on the respective change. Sign, linear interpolation, clamping, impulse, normal density and sinc helpers return their defined values for all arguments, including the boundary ones.",
  H, "all input histories, thresholds and argument values including equality",
  "No test includes them; the equality cases are single points.",
  ["trigger.hh","utils.hh"],
  [("hysteresis","trigger.hh SchmittTrigger::operator()"),("previous level","trigger.hh edge triggers"),("definitions","utils.hh")])

p("C31", "Demodulators compute the defined phase step or envelope on every history",
  "For every sample history each frequency demodulator returns the phase step between successive samples (wrapped to one turn, or its documented arctangent-free approximation) divided by pi times the configured bandwidth. The amplitude demodulator normalizes by an envelope average that follows its attack and decay rates and never leaves its configured limits.",
  H, "all complex sample sequences, bandwidths, rates and limits",
  "No test includes them.",
  ["fmd.hh","amd.hh","complex.hh","utils.hh"],
  [("previous sample state","fmd.hh operator()"),("wrap around","fmd.hh FMD1"),("clamped average","amd.hh AMD1::operator()")])

p("C32", "The oscillator stays on the unit circle and advances by its step",
  "For every number of calls and every frequency setting the oscillator starts at one, each output is the previous one advanced by the current step, and every output has unit magnitude. Changing the frequency keeps the phase, and reset returns to one.",
  H, "all histories of calls, frequency changes and resets",
  "No test includes it.",
  ["phasor.hh","unit_circle.hh"],
  [("multiply and renormalize","phasor.hh Phasor::operator()")])

p("C33", "Compensated summation keeps its compensation under the optimizer",
  "For every input sequence the compensated sum equals the exact sum with the rounding error of the running total cancelled to first order, in the code the supported compilers generate with the project's value-changing optimization flags. Copying, comparing and range summation use the full compensated state.",
  ["inputs","histories","configurations"], "all input sequences; both supported compilers at the project's flags",
  "One series per type is summed with one compiler; copies, comparisons and the range form are not tested.",
  ["kahan.hh"],
  [("compensation term","kahan.hh Kahan::operator()"),("optimizer attribute","kahan.hh")])

p("C34", "Sorting and selection order every input",
  "For every array content and length, including empty, tiny, constant and already ordered ones, sorting leaves the same elements in non-decreasing order. Selection leaves the same elements with the k-th smallest at position k, returns it, and has nothing larger before and nothing smaller after it.",
  ["inputs","configurations"], "all array contents and lengths, all k",
  "Tests use random contents with lengths mostly in the thousands.",
  ["quick.hh"],
  [("three-way partition around a median of five","quick.hh QUICK::partition, median"),("insertion sort below 33 elements","quick.hh QUICK::insertion")])

p("C35", "Published constants are correct to the precision of every float type",
  "Every mathematical constant the library provides, in every floating-point type, is the correctly rounded value of the quantity it is named after.",
  ["configurations"], "all constants in float, double and long double",
  "Only pi is compared, in two types.",
  ["const.hh","ema.hh"],
  [("literals","const.hh Const, ema.hh cascade_factor")])

p("C36", "Fixed-point CORDIC angle is within a few units of the true angle",
  "For every pair of coordinates of which one is at least half of full scale, the fixed-point arc tangent is within 1.6 units (8 bits) or 3 units (16 bits) of the true angle, modulo the full turn. When one coordinate is at full scale it is within 1.3 or 2.2 units. For no pair of coordinates does an intermediate value overflow.",
  ["inputs"], "all coordinate pairs with one at half of full scale or more; all pairs for overflow",
  "The test walks the full-scale circle only.",
  ["cordic.hh"], [("shift-and-add rotation","cordic.hh CORDIC::atan2"),("left half plane","cordic.hh CORDIC::atan2"),("table","cordic.hh LUT")])

p("C37", "Rounding errors stay small multiples of the unit roundoff",
  "Instantiated with double precision or wider, no component except file access passes a value through single precision. For inputs of magnitude up to one, the transforms of N points are within 8 N (1 + log2 N) roundoffs of their exact result. The tree and plain moving averages over N inputs are within N + 2 roundoffs however long the history is, and recursions, FIR conversions, complex arithmetic and slopes of lines far from the origin within a small constant number.",
  ["inputs","histories","configurations"], "all inputs up to one; all instantiations in double and long double",
  "Tests compare with tolerances a single-precision temporary or a drifting sum stays below.",
  ["fft.hh","fdzp.hh","biquad.hh","sma.hh","swa.hh","ema.hh","hilbert.hh","cdc.hh","regression.hh"], [("evaluation order","fft.hh, sma.hh, biquad.hh"),("types of temporaries","whole library")])

p("C38", "Moving extrema, sorting and selection keep their time on ordered inputs",
  "On n elements that are constant, ascending, descending, rising and falling, two-valued, interleaved, scattered or periodic, sorting takes at most 6 n log2 n comparisons and moves and selection of a quartile or extreme at most 16 n. On such inputs the moving extrema take at most 6 comparisons and 32 moves per sample on average, whatever the length of the window.",
  ["inputs","histories"], "unknown values in ten orders, up to 1000 elements; windows of 8 and 64",
  "Tests do not measure time.",
  ["movext.hh","quick.hh","stack.hh"], [("two-stack queue","movext.hh"),("median-of-five pivot and three-way partition","quick.hh")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
