"""The claims: what each property says, and the bounds within which its check decides it."""

REAL = "symbolic execution of the compiled code's LLVM IR over the reals (own executor, z3)"
BOTH = "bounded symbolic execution of the compiled code (Kani/CBMC, SAT) and symbolic execution of its LLVM IR over the reals (own executor, z3)"
MS = "src/memory/memory_slice.rs"
ASSUMPTIONS = [
    "Kani's translation of Rust to CBMC and CBMC's float and pointer models are right; violations are replayed natively before they are reported.",
    "The dev profile's overflow and debug checks are part of the obligations.",
    "Queries over the reals: rustc's unoptimised LLVM IR means what the executor (tools/irexec.py) takes it to mean, float operations are exact, and z3 is right; violations are replayed natively, in f32, before they are reported.",
    "micromath 2.1.0 as locked, except for the functions a harness names in its stub(..) attribute (see harness/src/models.rs).",
]
CLAIMS = [
    dict(id="C01", title="Checked element access is exact and confined to the slice",
         statement="For every slice and every index, a checked read or write succeeds exactly when the index is below the slice's length; a read returns that element bit for bit, a write changes that element only, and anything else is reported as IndexOutOfBound without touching memory. A slice retargeted at run time behaves like one built over the new window.",
         quantifier="every index (full usize range), every element and stored value (all bit patterns), every slice length up to 300",
         tests="The tests read a few fixed indices of one 24-sample buffer; out-of-range confinement is a statement about all 2^64 indices.",
         files=[MS], mechanism=[("MemorySlice::get / assign / change_slice_unchecked", MS)],
         bounds="lengths 0, 1, 2, 3, 5, 8 and 64 with unrestricted contents, every length up to 300 (thorough: 5000) with one sample unrestricted; index and stored value unrestricted; retargeting between any two windows of five samples."),
    dict(id="C02", title="Sub-slices never reach outside their parent",
         statement="A sub-slice of a slice is granted exactly when its offset lies inside the parent and offset plus length does not exceed the parent's length; its element k is the parent's element offset + k for reads and writes, and no sequence of sub-slicing reaches memory outside the original slice.",
         quantifier="every offset, length and element index (full usize range, overflowing sums included), nested twice, every parent length up to 300",
         tests="The tests take two fixed windows; the offset + length overflow and the end-of-slice windows are single points in a 2^128 input space.",
         files=[MS], mechanism=[("MemorySlice::get_sub_slice", MS)],
         bounds="parent lengths 0, 1, 2, 3, 5, 8 and 64, every length up to 300 (thorough: 5000) with one sample unrestricted; offset, length, element index and values unrestricted; nesting depth 2."),
    dict(id="C03", title="Wrapped reads are cyclic for every signed index",
         statement="A wrapped read at any signed index, negative ones included, returns the element at that index modulo the slice's length, and the four-sample wrapped read returns the four consecutive elements from there, modulo the length; neither ever panics or reads outside a non-empty slice.",
         quantifier="every isize index (both ends of the range included), every content, lengths 1..8 and 24",
         tests="The tests walk a handful of indices around one period; the index range ends and lengths below four are not reached.",
         files=[MS], mechanism=[("MemorySlice::get_wrapped, get_slice_of_four_wrapped, wrap_index", MS)],
         bounds="lengths 1, 2, 3, 5, 8 over every isize index for the four-sample read; for both, within 40 periods of zero and 64 of either range end for lengths up to 24, and up to 127 times six powers of two from 2^24 to 2^55; thorough: every isize index for both."),
    dict(id="C04", title="Fractional reads interpolate linearly between neighbours",
         statement="A checked linear read accepts exactly the positions from 0 to length - 1 and reports IndexOutOfBound for all others, NaN included (an empty slice has none); it returns the stored sample at an integral position and the weighted average of the two neighbours elsewhere. The wrapped form accepts every position and interpolates between cyclic neighbours, the last sample's being the first.",
         quantifier="every f32 position and every length up to 300 for acceptance, every position on a 1/16 grid within 40 periods and far beyond for values, lengths 0..8",
         tests="The tests interpolate a few positions of one buffer; the empty slice, the last sample and negative fractional positions need specific inputs.",
         files=[MS, "src/float/interpolation.rs"], mechanism=[("MemorySlice::lerp, lerp_unchecked, lerp_wrapped", MS)],
         bounds="acceptance: every f32, NaN included, every length up to 300 (thorough: 5000); values: eight sample values and eight fractions on which the arithmetic is exact, positions within 40 periods and up to 127 times 2^7, 2^9, 2^12, lengths 1, 2, 3, 5; wrapped integral positions up to 127 times six powers of two from 2^24 to 2^55, beyond 2^63 some stored sample; thorough: wrapped positions up to 2^23 in magnitude. Over the reals also: every position in [-12, 12) (wrapped) and (-30, 30) (checked), any five samples in +-16, rounding excluded.", technique=BOTH),
    dict(id="C05", title="Lagrange reads interpolate through the stored samples",
         statement="A wrapped Lagrange read (any window size, and the four-point form) at an integral position, positive or negative, returns the sample stored there, and between samples it reproduces data that lies on a polynomial of degree below the window size; the window starts half of one less than its size, rounded down, before the sample at or in front of the position (the four-point form's at that sample itself), and a window of at most one sample holds that sample.",
         quantifier="every integral position within four periods and far beyond, every real position in [-12, 12), lengths 1..6, windows 0..6, 8, 40 and 120, sampled polynomials up to degree 3",
         tests="The tests interpolate one sine at a few positions with a loose tolerance.",
         files=[MS, "src/float/interpolation.rs"], mechanism=[("MemorySlice::lagrange_wrapped, lagrange_four_points_wrapped", MS)],
         bounds="integral positions k + q*N with q in {0, 1, -1, 3, -4}, and far from zero as in C04 (window 3 and four-point), windows 2..5 on lengths 5 and 6, four-point on lengths 1, 3, 5; polynomials with coefficients in {0, 1, -2, 0.5} at four fractions, windows 2, 3 and four-point (thorough: 4, 5). Over the reals also: any five samples in +-16 and every position in [-12, 12), windows 2..5 and four-point, against the interpolating polynomial through the window, windows 0 and 1 the sample itself, windows 6 and 8 in five of the unit intervals, 40 and 120 (wider than the 100 samples there are room for) at five integral positions; rounding excluded.", technique=BOTH),
    dict(id="C06", title="Checked linear interpolation rejects bad input and never yields NaN",
         statement="lerp returns an error for NaN or infinite end points, a NaN amount or an amount outside [0, 1] (naming something that is wrong), and otherwise the weighted average of its end points: the first at 0, the second at 1, never NaN.",
         quantifier="every f32 triple for acceptance, end points up to 3e38",
         tests="The tests sample a few finite triples and single error cases.",
         files=["src/float/interpolation.rs"], mechanism=[("lerp, lerp_unchecked", "src/float/interpolation.rs")],
         bounds="acceptance and NaN-freedom: all f32 triples; end values: all f32 pairs up to 3e38; interior values: eight end points each and amounts k/256, where the arithmetic is exact. Over the reals also: the weighted average for end points in +-8 and any amount, rounding excluded.", technique=BOTH),
    dict(id="C07", title="Lagrange interpolation passes through its points",
         statement="The free Lagrange functions return the data point at every node and reproduce straight lines between nodes, for any number of points; the four-point form agrees.",
         quantifier="1..5 points, every node, eight values per point, positions on a quarter grid",
         tests="The tests evaluate one fixed data set.",
         files=["src/float/interpolation.rs"], mechanism=[("lagrange, lagrange_only_4_elements", "src/float/interpolation.rs")],
         bounds="1..5 points from eight values; lines with slope and offset in {0, 1, -2, 0.5} over 2..4 points on a quarter grid; tolerance 1e-3 and 1e-2. Over the reals also: 1..6 points of any value in +-4 and every position from -2 to the last node, against the interpolating polynomial; rounding excluded.", technique=BOTH),
    dict(id="C08", title="A delay line returns each sample exactly its length later",
         statement="A delay line of length N returns every written sample unchanged exactly N steps later, each step moving on by one position cyclically and touching one sample only; after switching to another buffer of any length at any moment it stays inside the new buffer, delays by the new length and leaves the old buffer alone. Combs and all-passes built on it behave alike when they switch.",
         over=["inputs", "histories"],
         quantifier="every write / advance history up to 2N+1 steps, every position at which the buffer is switched, any sample bits, lengths 1..16",
         tests="The tests run one buffer through a few steps; switching to a shorter buffer at a late position is one particular history.",
         files=["src/delay_line.rs", "src/comb.rs", "src/all_pass.rs"], mechanism=[("DelayLine::advance, write_and_advance, change_buffer", "src/delay_line.rs")],
         bounds="one operation from every reachable position for lengths 1, 2, 3, 8, 16; 2N+1 writes for lengths 1, 3, 5; buffer switches 5->2, 2->5, 4->4, 3->1 (comb and all-pass 4->2, 3->3, 2->4) at every position."),
    dict(id="C09", title="Delay taps read relative to the current position, cyclically",
         statement="A tap at any signed offset reads the sample that many positions from the delay line's current one, modulo its length; tap 0 is the output, fractional taps interpolate linearly between the two neighbours, and Lagrange taps lie on the polynomial through the five samples from two before the position to two after it.",
         quantifier="every position, every offset within 40 periods and at the far ends of their range, lengths 1..8, eight fractions",
         tests="The tests read a few taps at one position.",
         files=["src/delay_line.rs", MS], mechanism=[("DelayLine::read_wrapped_at, read_lerp_wrapped_at, read_lagrange_wrapped_at", "src/delay_line.rs")],
         bounds="every position of lengths 1, 3, 8 (integral), 2, 5 (linear), 3, 5 (Lagrange); offsets within 40 periods (Lagrange: 2) and up to 127 times 2^7, 2^9, 2^12 (length 3), integral ones also within 64 of the ends of their range and at multiples of six powers of two; samples and fractions on which the arithmetic is exact. Over the reals also: linear and Lagrange taps at every offset in [-12, 12), any five samples in +-16, all five positions; rounding excluded.", technique=BOTH),
    dict(id="C10", title="The comb filter implements its damped feedback loop",
         statement="A comb outputs what entered its loop length samples ago; the loop receives the input plus feedback times the output low-passed by the dampening (state = output * (1 - dampening) + state * dampening), for any gains and any sample history.",
         over=["inputs", "histories"],
         quantifier="every signal and buffer content over six levels, gains over eight levels, default or set gains, up to 5 samples",
         tests="The tests feed one impulse with one setting.",
         files=["src/comb.rs", "src/delay_line.rs"], mechanism=[("Comb::tick, set_dampening, set_feedback", "src/comb.rs")],
         bounds="lengths 1 (3 samples), 3 (5 samples), thorough 2 (5 samples); six sample levels, eight gain levels, tolerance 1e-5. Over the reals also: any gains and samples in +-2, 10 samples, lengths 2 (gains changed halfway) and 3, from rest; rounding excluded.", technique=BOTH),
    dict(id="C11", title="The all-pass implements its delay loop",
         statement="An all-pass outputs the delayed loop sample minus the input and stores the input plus half the delayed sample, for any sample history and any buffer content.",
         over=["inputs", "histories"],
         quantifier="every signal and buffer content over six levels, up to 5 samples",
         tests="The tests feed one impulse.",
         files=["src/all_pass.rs", "src/delay_line.rs"], mechanism=[("AllPass::tick", "src/all_pass.rs")],
         bounds="lengths 1 (3 samples), 2 and 3 (5 samples); six sample levels; tolerance 1e-5. Over the reals also: any 10 samples in +-8, length 3, from rest; rounding excluded.", technique=BOTH),
    dict(id="C12", title="The biquad computes its difference equation",
         statement="A biquad's output is y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] from rest, for any coefficients and any signal; untouched coefficients give silence, and two filters run in turn do not influence each other.",
         over=["inputs", "histories"],
         quantifier="every real coefficient and sample in +-2, 8 samples from rest",
         tests="The tests push an impulse through one low-pass; a state update in the wrong order shows only from the third sample of particular signals on.",
         files=["src/biquad/mod.rs"], mechanism=[("Biquad::process", "src/biquad/mod.rs")],
         technique=REAL,
         bounds="8 samples from rest, coefficients and samples any real in +-2 (as polynomial identities: all reals); rounding excluded."),
    dict(id="C13", title="Filter coefficients realise the analog prototype by the bilinear transform",
         statement="For every cutoff below Nyquist and every quality factor, the low-pass, high-pass, all-pass, notch and bell coefficients have at every frequency exactly the response of their second-order analog prototype under the bilinear transform prewarped to the cutoff (k = tan(pi fc / sr), as fast_tan gives it); bell and shelf pick boost or cut by the sign of the gain; the low shelf has its gain at DC, unity at Nyquist and the prototype's poles. Nothing is left over from coefficients set before.",
         quantifier="every real cutoff in (0, sr/2), quality factor in (0.01, 100), gain in +-(0.01, 100), sample rate in 1 kHz..1 MHz, and every frequency",
         tests="The tests compare a few coefficients at one setting; the cut branches, the shelves and other settings are not evaluated.",
         files=["src/biquad/butterworth.rs"], mechanism=[("BiquadCoeffs<Butterworth>::lowpass, highpass, allpass, notch, bell, low_shelf", "src/biquad/butterworth.rs")],
         technique=REAL,
         bounds="real arithmetic (rounding excluded); fast_tan as an unknown k > 0 whose argument must be pi fc / sr; the shelf's square root as any r with r^2 within 15% of its argument (micromath approximates), its middle term to the same 15%; response at frequencies with tan(w/2) in [0, 100]."),
    dict(id="C14", title="Every filter setting is stable",
         statement="For every cutoff below Nyquist, quality factor above zero and gain, the coefficients' poles lie inside the unit circle (|a1| < 1 + a2, a2 < 1), and computing them never divides by zero.",
         quantifier="every real cutoff in (0, sr/2), quality factor in (0.01, 100), gain in +-(0.01, 100), sample rate in 1 kHz..1 MHz",
         tests="No test looks at stability; a pole leaves the circle only in a corner of the parameter space.",
         files=["src/biquad/butterworth.rs"], mechanism=[("BiquadCoeffs<Butterworth>::lowpass, highpass, allpass, notch, bell, low_shelf", "src/biquad/butterworth.rs")],
         technique=REAL,
         bounds="real arithmetic (rounding excluded); fast_tan as an unknown k > 0, square root as in C13."),
    dict(id="C15", title="Float raw words and components are lossless IEEE-754 views",
         statement="Converting a float to its raw word or to sign, exponent and mantissa, and back, restores every bit pattern (NaNs, infinities and subnormals included), and the components are the IEEE-754 fields.",
         quantifier="all 2^32 bit patterns, all component triples",
         tests="The tests convert a few numbers.",
         files=["src/float/conversion.rs"], mechanism=[("ToRawBytes, FromRawBytes, ToF32Components, FromF32Components", "src/float/conversion.rs")],
         bounds="none: all 2^32 words and all component triples with a 23-bit mantissa."),
    dict(id="C16", title="Bit reduction quantises towards zero on the coarser grid",
         statement="Reducing a sample in [-1, 1] by d bits yields the nearest multiple of 2^d / 2^31 not larger in magnitude, keeps the sign, changes nothing when repeated or when d is 0; inputs outside [-1, 1] and reductions above 30 bits are refused with the matching error.",
         quantifier="every f32 input and every u8 reduction",
         tests="The tests reduce a few samples by a few bits.",
         files=["src/float/bit_manipulation.rs"], mechanism=[("bit_reduce, bit_reduce_unchecked", "src/float/bit_manipulation.rs")],
         bounds="none on the inputs (all f32, all u8); NaN input excluded."),
    dict(id="C17", title="Exponent-wise bit reduction clears exactly the low mantissa bits",
         statement="bit_reduce_exp by d bits clears exactly the d lowest mantissa bits of any float and touches neither sign nor exponent; reductions above 23 bits are refused.",
         quantifier="all 2^32 bit patterns and every u8 reduction",
         tests="The tests reduce one number.",
         files=["src/float/bit_manipulation.rs"], mechanism=[("bit_reduce_exp, bit_reduce_exp_unchecked", "src/float/bit_manipulation.rs")],
         bounds="none: all f32 bit patterns, all u8."),
    dict(id="C18", title="Time and sample conversions are exact scalings and invert each other",
         statement="Samples and seconds convert by the sample rate, samples and milliseconds by the sample rate over 1000, and each conversion is undone by its counterpart at the same sample rate.",
         quantifier="every real number of samples, seconds or milliseconds in +-1e6, every sample rate in (0, 1e6]",
         tests="The tests convert one value each way.",
         files=["src/float/dsp_util.rs"], mechanism=[("DSPUtility for f32", "src/float/dsp_util.rs")],
         technique=REAL,
         bounds="real arithmetic (rounding excluded)."),
    dict(id="C19", title="The integer sine stays within its series' error",
         statement="For every 16-bit phase and every degree the integer sine differs from the true sine by no more than its truncated series allows plus rounding, is odd, and never overflows; degrees above the highest supported behave like the highest.",
         quantifier="all 65536 phases times all 256 degrees",
         tests="The tests check a few angles at one degree.",
         files=["src/fixed_point/math.rs"], mechanism=[("sin_i16, sin_i16_unchecked", "src/fixed_point/math.rs")],
         bounds="none on the inputs: all 65536 phases, all 256 degrees; oracle: 256-step chord table of the sine; tolerance 5 LSB plus truncation error."),
    dict(id="C20", title="Fixed point sine and cosine approximate the real ones",
         statement="fixed_point_sin and fixed_point_cos agree with sine and cosine to better than 0.002 over a full turn and stay within [-1, 1] far beyond it.",
         quantifier="every f32 angle in one turn (accuracy) and in +-190 rad (range)",
         tests="The tests compare at three angles.",
         files=["src/float/math.rs", "src/fixed_point/math.rs"], mechanism=[("fixed_point_sin, fixed_point_cos", "src/float/math.rs")],
         bounds="accuracy: sine on [0, 2 pi], cosine on [-pi, pi], all f32, against 64 chords, tolerance 0.0016 + chord error 0.0012; range: |x| <= 190. micromath's rem_euclid replaced by an exact remainder (CBMC's float % is not fmod)."),
    dict(id="C21", title="Table lookups stay inside their tables and ranges",
         statement="The band-limited rectangle lookup accepts every position, never reads outside its table, is zero outside (0, 1), positive in the first half period, flat between its edges, and mirrored with opposite sign in the second; the sine lookup never reads outside its table and stays within [-1, 1].",
         quantifier="every f32 position (rectangle), every f32 angle in +-190 rad (sine lookup)",
         tests="The tests sample a few positions; the peaks at exactly 0.25 and 0.75, where it was silent, are single inputs.",
         files=["src/float/math.rs", "src/oscillator/lookup_tables/bl_rect.rs"], mechanism=[("lookup_bl_rect, lookup_sin", "src/float/math.rs")],
         bounds="memory safety: every non-NaN f32; sign and plateau (0.79 to 1) on a 1/1024 grid and at every f32 within 0.001 of the peaks and edges, symmetry on a 1/64 grid; sine lookup |x| <= 190 with rem_euclid replaced by an exact remainder."),
    dict(id="C22", title="The phase accumulator is modular and runs at freq / sr",
         statement="A phase accumulator advances by freq / sr of a period per tick, the same amount every tick, modulo one period; a phase shift offsets the phase by itself and replaces the previous shift; the normalized phase is the phase over one period and always lies in [0, 1).",
         over=["inputs", "histories"],
         quantifier="every 32-bit counter value and shift, every integral frequency up to Nyquist at 8, 44.1 and 48 kHz, LFO rates in 1/128 Hz",
         tests="The tests tick one accumulator with one frequency; the counter values next to the wrap round up to 1.0 only within the last 128 of 2^32.",
         files=["src/oscillator/phase_accumulator.rs"], mechanism=[("SoftPhaseAccumulator, PhaseAccumulator::next_value_normalized", "src/oscillator/phase_accumulator.rs")],
         bounds="counter and shifts: all u32; frequencies: multiples of 1 Hz up to Nyquist at 44.1 and 48 kHz, 1/4 Hz to 4 kHz at 8 kHz, 1/128 Hz to 128 Hz at 48 kHz; four consecutive ticks."),
    dict(id="C23", title="The functional oscillator plays its waveform over each period",
         statement="At every phase the sawtooth rises linearly from -1 to 1, the rectangle is low for the first half and high for the second, the triangle rises and falls linearly between -1 and 1, and the sine is the sine of the phase; all stay within [-1, 1], and frequency, rate, waveform and phase shift setters take effect on the running oscillator.",
         quantifier="every f32 phase in [0, 1) and every 32-bit counter value of the shipped accumulator",
         tests="The tests sample a few phases per waveform.",
         files=["src/oscillator/osc_functional.rs", "src/oscillator/phase_accumulator.rs"], mechanism=[("FunctionalOscillator::next", "src/oscillator/osc_functional.rs")],
         bounds="phase: every f32 in [0, 1) through a user-defined accumulator, every u32 through the shipped one; setters: integral frequencies to 24 kHz, shifts in sixteenths on the shipped accumulator, every f32 in [0, 1) of each setter's range on one that plays its settings back, three changes of wave, frequency and rate while running. The sine's angle is checked with the sine function replaced by the identity, the sine function by C20."),
    dict(id="C24", title="The wavetable oscillator interpolates its table cyclically",
         statement="For every phase the wavetable oscillator returns the linear interpolation of the two neighbouring table samples at phase times table length, the last sample's neighbour being the first; it never reads outside the table. It plays one phase of its accumulator per sample, and its setters reach that accumulator, a phase shift as that part of a period.",
         quantifier="every f32 phase in [0, 1) and every counter value; table lengths 1..8",
         tests="The tests play one table at a few phases; the span between last and first sample is where it read out of bounds.",
         files=["src/oscillator/osc_wavetable.rs"], mechanism=[("WavetableOscillator::next", "src/oscillator/osc_wavetable.rs")],
         bounds="tables of 1, 2, 3, 5, 8 samples from eight values; phase: every f32 in [0, 1) (safety, exact at samples, within the table's range), eight fractions per segment (values), every u32 counter (safety); setters: every f32 in [0, 1) of their range; three samples in a row at three frequencies."),
    dict(id="C25", title="The envelope stays within [0, 1]",
         statement="Whatever the stage times, levels, slope, gate history and parameter changes between ticks, the ADSR envelope's output stays within [0, 1], each stage between the levels it connects.",
         over=["inputs", "histories"],
         quantifier="every attack, decay and release time in [0, 1e30] s at the first tick of its stage, any slope; every history of up to 4 gate, reset and parameter operations",
         tests="The tests run one envelope at ordinary times; stages shorter than a sample and parameters changed mid-stage are not reached.",
         files=["src/envelope.rs"], mechanism=[("AudioRateADSR::tick", "src/envelope.rs")],
         bounds="single stages: every time in [0, 1e30], slopes 0.05 and 20 (attack 1; thorough all of 0.05, 1, 20) with micromath's real power function; histories: 4 operations of 9 kinds with six times, six levels and any slope, the power function replaced by its contract, which is discharged on micromath's ln and exp."),
    dict(id="C26", title="The envelope's stages follow the gate and last their time",
         statement="Opening the gate starts the attack from any state, closing it starts the release from any sounding state (and does nothing when idle), a reset returns to idle; attack leads to decay to sustain, which is held, and release to idle, silence before and after. Each stage lasts the time last set, up to the two seconds the envelope provides, to within one sample (stages of more than some 5000 samples: within 0.2 %, from adding up in single precision).",
         over=["inputs", "histories"],
         quantifier="every stage length of 1..3 samples, sustain levels 0, 0.5 and 1, retriggered after 0..6 samples; one step from fourteen positions at ten lengths up to 2 s; every gate history of 4 operations from arbitrary parameters",
         tests="The tests play one note of 144 samples per stage.",
         files=["src/envelope.rs"], mechanism=[("AudioRateADSR::trigger_on, trigger_off, reset, tick", "src/envelope.rs")],
         bounds="durations: stages of 1..3 samples at 48 kHz, five slopes, three sustain levels, cut short and retriggered after 0..6 samples, power function replaced by its base; one sample of a stage of 1 to 96000 samples from fourteen positions between 0.0001 and 0.9999 of it; ordering: every time in [0, 1e30], level in [0, 1], any slope, 4 operations, power function replaced by its contract."),
    dict(id="C27", title="Constructing an envelope equals setting its parameters",
         statement="An envelope constructed with given times, level, slope and sample rate behaves exactly like one whose setters were called with the same values, invalid values (negative times, levels or slopes out of range) included.",
         over=["inputs", "configurations"],
         quantifier="every sustain level and slope in +-1e20, twelve times per stage (zero, negative, tiny, huge), compared over the stage they rule",
         tests="The tests construct with ordinary values.",
         files=["src/envelope.rs"], mechanism=[("AudioRateADSR::new and setters", "src/envelope.rs")],
         bounds="one parameter arbitrary at a time (level and slope: every f32 in +-1e20; times: twelve values) plus combinations of nine, ten sample rates from 0.5 Hz to 1 MHz; up to seven ticks; power function replaced by one that tells bases and exponents apart; tolerance 1e-5."),
    dict(id="C28", title="Panning and crossfading follow their gain laws",
         statement="Checked panning accepts exactly the positions in [-1, 1] and otherwise says which side was exceeded; amplitude panning and crossfading have gains (1 - p) / 2 and (1 + p) / 2, power panning their square roots (power sums to one within the square root approximation's error); hard left and right pass one side unchanged and silence the other, moving right never makes the left louder.",
         quantifier="every f32 position in [-1, 1], every non-NaN position for acceptance, every sample up to 1e6 at the ends",
         tests="The tests check three positions with a different square root than the shipped one.",
         files=["src/stereo.rs"], mechanism=[("stereo_pan, mono_pan, crossfade_correlated_unchecked", "src/stereo.rs")],
         bounds="gain laws: every f32 position; linearity in the samples: eight sample values (amplitude: positions k/64); tolerances 1e-6 (amplitude), 0.063 of power (micromath's square root). Over the reals also: amplitude gains for every position and samples in +-8; rounding excluded.", technique=BOTH),
    dict(id="C29", title="Clippers limit to [-1, 1]",
         statement="Digital clipping returns samples within [-1, 1] unchanged and the nearer limit otherwise; the soft clippers saturate at the limits outside and, inside, accept every sample, keep its sign and stay within [-1, 1].",
         quantifier="every non-NaN f32",
         tests="There are no tests of the clippers.",
         files=["src/clipping.rs"], mechanism=[("digital_clip, tanh_clip, poly_clip, sigmoid_clip", "src/clipping.rs")],
         bounds="none: every non-NaN f32; soft clippers' second parameter arbitrary outside, one value inside (where they are unimplemented: known finding)."),
    dict(id="C30", title="Decibel conversion classifies every ratio and never yields NaN",
         statement="to_decibels refuses negative and NaN ratios, maps either zero to minus infinity and every positive ratio (infinity included) to a level that is not NaN; to_decibels_checked additionally refuses zero as Infinite and never yields minus infinity; to_volt_ratio maps every level to a non-negative number, 0 dB to 1 and minus infinity to 0.",
         quantifier="all 2^32 bit patterns for the ratios, every level up to 700 dB",
         tests="The tests check one negative and one zero ratio, with a different logarithm than the shipped one.",
         files=["src/decibels.rs"], mechanism=[("Decibels for f32", "src/decibels.rs")],
         bounds="ratios: all f32; levels: every f32 up to 700 dB (micromath's exp leaves its domain above)."),
    dict(id="C31", title="Decibels are 20 log10 of the ratio, and back",
         statement="The level of a ratio is 20 log10 of it (to 0.01 dB above unity and micromath's 1.1 dB below), each doubling adding 6.02 dB; the ratio of a level is the inverse, each 6.02 dB doubling it, and a level survives conversion to a ratio and back.",
         quantifier="every normal f32 ratio, every level within +-600 dB",
         tests="The tests check unity only.",
         files=["src/decibels.rs"], mechanism=[("to_decibels_unchecked, to_volt_ratio", "src/decibels.rs")],
         bounds="ratio to level: every normal f32, octave-wise (below unity also in eighths of the octave; thorough above too); level to ratio: every f32 within 100 octaves, octave-wise to 1%; round trip: integral levels within 100 dB."),
    dict(id="C32", title="Hyperbolic functions keep their symmetry and identities",
         statement="sinh is odd and cosh even, their sum is exp(x) and their difference exp(-x), they match the known values to 0.2 percent; tanh is odd, bounded by 1, keeps the sign and follows its argument near zero.",
         quantifier="every f32 argument up to 80 (identities), up to 4 (values), up to 1e15 (tanh)",
         tests="The tests check one argument each.",
         files=["src/float/math.rs"], mechanism=[("sinh, cosh, tanh", "src/float/math.rs")],
         bounds="identities: every f32 in (0, 80) for an arbitrary pair of exponentials; values: eight points (thorough: between every half up to 4); tanh: bounds and sign up to 1e15, oddness on a 1/64 grid to 8, slope on [0, 0.25]."),
    dict(id="C33", title="sinc is sin(x)/x and the sine integral its integral",
         statement="sinc returns sin(x)/x (1 at 0, with no loss of accuracy near it) to better than 0.003 and si its integral from 0 to x, for either sign of x.",
         quantifier="every f32 in [-0.5, 0.5] and every real in +-190 beyond (sinc); seven integration limits, every integrand of a three-parameter family around sinc (si)",
         tests="There are no tests of sinc and si.",
         files=["src/float/math.rs", "src/float/integral.rs"], mechanism=[("sinc, si", "src/float/math.rs"), ("simpsons_rule", "src/float/integral.rs")],
         technique=BOTH,
         bounds="sinc: f32 arithmetic within 0.5 of zero against the series (tolerance 0.003), beyond it, up to 190, the quotient over the reals for any sine x + c1 x^2 + c2 x^3 + c3 x^4; si: limits 0, +-1/4, 1, -2, 3, -6.5 (thorough: ten more), real arithmetic, integrand sinc from the sine's polynomial with |c1| <= 1/200, c2 in [-1/5, -2/15], |c3| <= 1/20, tolerance 4e-4; replay: 2e-4 against a finer quadrature of the sinc actually returned."),
    dict(id="C34", title="The fast tangent approximates the tangent",
         statement="fast_tan is the tangent to better than 0.00105 |x|^17 on [-1, 1], is zero at zero, keeps the sign of its argument, and is never smaller in magnitude than it up to pi/2.",
         quantifier="every real in [-1, 1] (accuracy), in [-1.6, 1.6] (sign and magnitude)",
         tests="The tests check two angles.",
         files=["src/float/math.rs"], mechanism=[("fast_tan", "src/float/math.rs")],
         technique=REAL,
         bounds="real arithmetic (rounding and micromath's powi excluded: integral powers are products); allowance 1e-5."),
    dict(id="C35", title="The checked frequency setter refuses what it should and only that",
         statement="Setting a frequency that is zero, negative or above half the sample rate reports exactly that and changes nothing; any other frequency is accepted and takes effect on the accumulator it was called on.",
         quantifier="every non-NaN f32 frequency at 48 kHz",
         tests="The tests set one frequency of each kind and do not look at the accumulator afterwards.",
         files=["src/oscillator/phase_accumulator.rs"], mechanism=[("PhaseAccumulator::set_freq for SoftPhaseAccumulator", "src/oscillator/phase_accumulator.rs")],
         bounds="every non-NaN f32 frequency; sample rate 48 kHz; two previous frequencies; 1 Hz around Nyquist left open (the limit is derived from the phase increment)."),
    dict(id="C38", title="The envelope continues from the level being heard when the gate changes",
         statement="Closing the gate releases from the level last output and opening it, also while a note sounds, attacks from that level (from silence after a reset): a release never rises above it, an attack never falls below it, and with a linear slope the first step is at most one step of the stage, whatever parameters changed in between and however many gate changes fall between two ticks.",
         over=["histories", "inputs"],
         quantifier="every history of 6 operations (gate on, gate off, reset, sustain level change, each with or without a tick after it)",
         tests="The tests play one note and one early release.",
         files=["src/envelope.rs"], mechanism=[("AudioRateADSR::trigger_on, trigger_off, reset, tick", "src/envelope.rs")],
         bounds="bounds on either side: linear slope, attack and release of 4 samples, decay of 1 or 4, 6 operations; one-sided: five slopes, stages of 100 samples (decay 1 or 100), 4 operations (thorough: 6), the power function replaced by its contract (see C25)."),
]

NOT_APPLICABLE = [
    dict(id="C36", title="Memory slices shared between contexts are not torn or raced",
         statement="A memory slice handed to another execution context (it is Send) is used there without data races.",
         over=["schedules"], quantifier="every interleaving of two contexts over one buffer",
         tests="Single-threaded tests cannot show a race.",
         files=[MS], mechanism=[("unsafe impl Send for MemorySlice", MS)],
         reason="The crate has no synchronisation to encode: whether two contexts overlap is decided entirely by the caller, and Kani does not model concurrent execution. There is no code whose symbolic execution could decide it."),
    dict(id="C37", title="A memory slice does not outlive its buffer",
         statement="A memory slice is only used while the buffer it was built over is alive.",
         over=["programs"], quantifier="every program using the API",
         tests="A test is one program.",
         files=[MS], mechanism=[("from_slice, from_slice_mut erase the borrow's lifetime", MS)],
         reason="It quantifies over client programs, not over inputs to this code: the lifetime is erased by design (static memory is documented as a precondition), so the harness, not the code, would decide the outcome."),
]
