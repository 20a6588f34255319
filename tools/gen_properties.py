#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to review and edit)."""
import json, os
H = "include/colorsystem.hpp"
P = []
def prop(id, title, statement, over, text, why, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=[H],
        mechanism=[dict(name=n, where=f"{H}: {w}") for n, w in mech], observe_at=observe, hook_needed=None)))

prop("C01", "3x3 matrix algebra agrees with exact linear algebra",
 "Matrix product, sum, scaling by and division by a number, transpose, determinant, row and column extraction, diagonal and array construction, and application to a vector give the mathematically exact result up to float rounding, in the static and the member form alike. Inverting any matrix that is not close to singular yields its true inverse, so that multiplying by a matrix and then by its inverse restores every vector. The cross-talk matrix keeps neutral colours unchanged and the inverse cross-talk matrix undoes it for every amount other than 1/3.",
 ["inputs"], "All finite 3x3 matrices (any sign, scale, sparsity, orientation), vectors and scalars in range; inversion for well-conditioned matrices.",
 "Tests look at two products of fixed built-in matrices; an error in one index, sign or special case shows up only for matrices of another shape.",
 [("Matrix3::mul/apply/add/div/det/invert/transpose/row/col/diag/fromArray/crosstalk/crosstalkInvert", "class Matrix3")],
 ["values returned by the matrix operations"])

prop("C02", "Tristimulus and vector arithmetic is exact and channel by channel",
 "Adding, scaling, dividing, multiplying, taking the dot product, minimum or maximum of tristimulus values (and vectors) acts on each of the three channels independently and gives the real result up to float rounding. Clipping to [lo,hi] always returns every channel inside the interval and leaves channels already inside untouched; removing negatives and testing for negatives agree with each other. Static, member and operator forms always agree.",
 ["inputs"], "All finite triples, including zeros, negative zeros, subnormals, equal channels and very large or small values; all scalars and clip bounds lo <= hi.",
 "No existing test calls these operations directly; they are used on a handful of constants.",
 [("Tristimulus scale/add/mul/dot/min/max/min3/max3/clip/positive/hasNegative, Vector3::dot", "class Vector3, class Tristimulus")],
 ["values returned by the operations"])

prop("C03", "XYZ, Yxy and Yuv chromaticity coordinates convert back and forth",
 "Converting XYZ to Yxy or Yuv keeps Y exactly and gives x=X/(X+Y+Z), y=Y/(X+Y+Z), u=4x/(-2x+12y+3), v=6y/(-2x+12y+3); converting back restores the original XYZ up to float rounding for every colour that is not black and has |y| above 1e-8, however dark or bright. Black (component sum below 1e-8 in magnitude) gets the D65 chromaticity (0.3127, 0.3290) instead of a division by zero, and a chromaticity with |y| below 1e-8 converts to X=Z=0 with Y kept. Every overload (three numbers, a triple, a member call) gives the same answer.",
 ["inputs"], "All XYZ colours from 1e-7 to 1e6 in scale, including near-black, saturated, imaginary (negative channel) and boundary ones; all Yxy / Yuv triples with a non-vanishing denominator.",
 "Tests convert six fixed colours, none dark and none through Yuv.",
 [("toYxy/fromYxy/toYuv/fromYuv/YxyToYuv/YuvToYxy and their thresholds", "class Tristimulus")],
 ["returned coordinates"])

prop("C04", "CIELAB follows the CIE definition and inverts",
 "For any colour and any white with positive components, conversion to CIELAB equals the CIE 1976 formula (cube root above (6/29)^3, linear below, down to and through zero), with each channel ratio above the white treated as equal to the white; so the white itself is (100,0,0), L* never exceeds 100 and never decreases with Y. Converting back from CIELAB equals the inverse formula for every Lab triple, so XYZ to Lab to XYZ restores every colour not brighter than white in any channel. The white defaults to D50 (0.9642, 1, 0.8249).",
 ["inputs"], "All XYZ from slightly negative to several times the white, all positive whites, all Lab triples; both sides of the linear/cubic breakpoint.",
 "Two fixed colours are converted forward with tolerance 0.1; the linear segment, the inverse and other whites are never run.",
 [("toCIELAB/fromCIELAB", "class Tristimulus, Lab section")],
 ["returned Lab and XYZ triples"])

prop("C05", "HSV conversion is the standard hexcone and inverts",
 "For every non-negative RGB colour (dynamic range not limited to 1), conversion to HSV returns the standard hexcone hue in [0,360] degrees, saturation (max-min)/max in [0,1] and value max, with hue and saturation 0 for greys and black, and converting back restores the RGB colour up to float rounding. Colours with negative channels follow the same formulas (saturation above 1, or negative) and convert back unless their largest channel is zero. Converting from HSV accepts every finite hue, also outside 0..360 and negative, and is periodic in 360 degrees. The arctangent variant has the same saturation and value and the circular hue atan2(sqrt(3)(G-B), 2R-G-B) in [0,360].",
 ["inputs"], "All RGB triples >= 0 in every sextant, including ties between channels, near-greys, black and HDR values, and triples with one to three negative channels; hues from -36000 to 36000 degrees (exact) and up to 3e38 (up to the rounding of the hue), saturation in [0,4], value >= 0.",
 "HSV has no tests at all; errors in one sextant, at a tie or after wrap-around need a particular input.",
 [("toHSV/fromHSV/toHSV_atan/mod360", "class Tristimulus, HSV section")],
 ["returned HSV and RGB triples"])

prop("C06", "A gamut built from primaries reproduces its primaries and white",
 "A gamut constructed from three primary chromaticities and a white chromaticity converts RGB (1,1,1) to the XYZ of that white with Y=1 and each pure primary to a colour with that primary's chromaticity; converting to XYZ and from XYZ are inverse to each other for every colour, as matrices and applied to a colour. The gamut reports back the same primaries (as x,y,z), the same white (as XYZ) and its name. A gamut constructed from an XYZ-to-device matrix uses that matrix unchanged and its inverse for the other direction, and reports as primaries the chromaticities of its three device colours and as white the XYZ of device (1,1,1).",
 ["inputs", "configurations"], "All non-degenerate primary triangles (including primaries outside the spectral locus) with the white inside; all invertible matrices; all RGB / XYZ colours including negative and >1.",
 "Tests check AdobeRGB and ACES matrices only; other primaries, the accessors and the matrix constructor are not covered.",
 [("Gamut constructors, toXYZ, fromXYZ, primaryVector/Matrix/White/Red/Green/Blue", "class Gamut")],
 ["matrices, converted colours and reported primaries"])

prop("C07", "Named gamuts match their standards and conversion preserves the colour",
 "The named gamuts AdobeRGB, Rec.709, Rec.2020, DCI-P3, S-Gamut, S-Gamut3.Cine, ACEScg (AP1) and ACES2065-1 (AP0) have the primaries and white of their published standard, LMS is the Bradford cone matrix and XYZ the identity. The matrix converting between any two gamuts maps every device colour to the device colour with the same XYZ; hence converting a gamut to itself is the identity, converting there and back restores the colour, and converting through a third gamut changes nothing.",
 ["inputs", "configurations"], "All ordered pairs and triples of named gamuts (and gamuts built from arbitrary primaries), all device colours including out-of-gamut ones.",
 "One conversion (ACES2065 to ACEScg) and three matrices are compared with constants.",
 [("named Gamut constants", "static constexpr Gamut AdobeRGB..XYZ"), ("GamutConvert", "GamutConvert")],
 ["conversion matrices and converted colours"])

prop("C08", "Chromatic adaptation maps any white to any other; illuminants are standard",
 "The Bradford adaptation matrix from one white to another maps the source white exactly to the destination white, equals the standard Bradford von-Kries scaling in cone space, is the identity for equal whites, is undone by the adaptation in the opposite direction, and composes (a to b to c equals a to c). The named illuminants A, B, C, D50, D55, D60, D65, D75, E, F2, F7 and F11 have their published XYZ white points with Y=1.",
 ["inputs", "configurations"], "All pairs and triples of named illuminants and of arbitrary plausible whites at any luminance; all colours.",
 "One pair (D65 to D50) is compared with tolerance 0.01; four illuminants are checked.",
 [("Bradford", "Bradford()"), ("Illuminant_*", "standard illuminants constants")],
 ["adaptation matrices, adapted colours, illuminant constants"])

prop("C09", "Every transfer function decodes what it encoded",
 "For each transfer curve (linear, gamma with any exponent, sRGB, BT.709, ST 2084 PQ, S-Log, S-Log2, S-Log3, HLG), encoding scene light to a screen signal and decoding it again restores each channel over the curve's whole documented light range, and decoding then encoding restores each signal, up to the float precision of the curve. Channels never influence one another. Light outside the range of a clipping curve comes back as the nearest end of the range.",
 ["inputs"], "All floats in each curve's range (sRGB, BT.709: 0..1; PQ: 0..100; S-Log: 0..10; S-Log2: >= 0; S-Log3 and HLG beyond 1 and, for S-Log3, below 0), all gamma exponents, every assignment of values to the three channels.",
 "Three sample values for three of the nine curves are round-tripped; PQ and the S-Log family are never run.",
 [("OTF::toScreen / OTF::toScene and the Y_to_* / *_to_Y pairs", "class OTF")],
 ["toScreen/toScene results"])

prop("C10", "Every transfer function is the published curve",
 "Encoding and decoding through each transfer curve equals the published definition (IEC 61966-2-1 sRGB, ITU-R BT.709, SMPTE ST 2084 with 1.0 = 100 cd/m2, Sony S-Log, S-Log2 and S-Log3, BT.2100-style HLG with reference white at signal 0.5, pure power law for gamma, identity for linear) at every input, so the curves are continuous and monotonic (up to the 2.5e-4 by which BT.709's published constants miss each other at the segment joint), with sRGB, BT.709 and PQ signals confined to [0,1] and inputs outside the clipping range of a curve saturating.",
 ["inputs"], "Every float input of each curve, both directions, including both sides of every segment boundary and the saturation limits.",
 "Only end points and three middle values of three curves are sampled, and only as round trips.",
 [("OTF::Y_to_* and *_to_Y curve formulas and constants, toScreen/toScene dispatch", "class OTF")],
 ["toScreen/toScene results"])

prop("C11", "ICtCp follows its definition and inverts",
 "Converting XYZ (1.0 = 100 cd/m2) to ICtCp equals the published transform (cone matrix, PQ curve, ICtCp opponent matrix), and converting back restores the XYZ colour for every colour whose cone responses lie in 0..10000 cd/m2. Cone responses below zero or above the PQ peak saturate and never produce NaN; an ICtCp triple that decodes to a signal below zero stands for no light in that cone.",
 ["inputs"], "All XYZ colours in the PQ range from 1e-4 to 100, neutral and saturated, plus out-of-range ones for the forward direction.",
 "ICtCp has no tests at all.",
 [("XYZ_to_ICtCp / ICtCp_to_XYZ", "XYZ_to_ICtCp, ICtCp_to_XYZ")],
 ["returned triples"])

prop("C12", "OKLab follows its definition, inverts, and is silent",
 "Converting XYZ to OKLab equals the published Oklab definition (published M1 and M2 matrices around a cube root that also accepts negative cone responses), scaling XYZ by k cubed scales OKLab by k, the D65 white has L=1 and a=b=0 to three decimals, and converting back restores the XYZ colour; the reverse direction equals the published inverse for every OKLab triple. The conversions return a value and do nothing else: they write nothing to the program's output.",
 ["inputs"], "All XYZ triples, including negative, imaginary, near-black and HDR values, and all OKLab triples of corresponding size.",
 "Four fixed points with tolerance 0.1 (one of them failing) are compared.",
 [("XYZ_to_OKLAB / OKLAB_to_XYZ", "XYZ_to_OKLAB, OKLAB_to_XYZ")],
 ["returned triples; standard output"])

prop("C13", "CIEDE2000 equals the CIE formula for every pair of colours",
 "The Delta E 2000 difference of any two Lab colours equals the CIEDE2000 formula (Sharma et al.) with the given kL, kC, kH weights, which default to 1. It is never negative or NaN, is zero for equal colours, and is symmetric in its two colours.",
 ["inputs"], "All pairs of Lab colours (mostly L in 0..100 and a, b in -128..128, also HDR lightness and far larger chroma), in every combination of hue quadrants, across the hue wrap-around, with one or both colours achromatic, identical or almost identical; all positive weights.",
 "Two pairs from the published data set, both in one hue region, are tested.",
 [("Delta::E00", "class Delta")],
 ["returned difference"])

prop("C14", "Euclidean colour differences are exact metrics",
 "Delta E 1976 is the Euclidean distance of two Lab colours, Delta uv the Euclidean distance of the u and v coordinates of two Yuv colours irrespective of their luminance, and Delta ICtCp the square root of dI^2 + 0.25 dCt^2 + dCp^2 of two XYZ colours converted to ICtCp. Each is symmetric, non-negative, zero for identical colours and obeys the triangle inequality up to float rounding.",
 ["inputs"], "All pairs and triples of colours, from identical and almost identical to far apart, each channel dominating in turn.",
 "None of the three differences is called by a test.",
 [("Delta::E76, Delta::UV, Delta::ICtCp", "class Delta")],
 ["returned differences"])

prop("C15", "Colour temperature gives points on (or offset from) the Planckian locus",
 "White points from a colour temperature have exactly the requested Y (default 1) and a chromaticity on the CIE 1931 Planckian locus: within 0.004 in x and y for the polynomial from 1000 to 10000 K, and the published Kim et al. cubic spline, within 0.001, from 1667 to 25000 K. Both vary continuously with temperature (the published spline segments meet within 1e-4). A white from temperature and Duv (1000 to 10000 K) lies at the CIE 1960 uv distance |Duv| from the polynomial's point of that temperature, perpendicular to the locus, on the green side for positive Duv, and coincides with it for Duv 0.",
 ["inputs"], "All temperatures in the stated ranges, both sides of the spline joints, all Y > 0 and |Duv| <= 0.05.",
 "One temperature (6504 K) is tested with tolerance 0.01.",
 [("fromCT, fromPlanckianLocus, fromCCT", "class Tristimulus, colour temperature section")],
 ["chromaticity and Y of returned whites"])

prop("C16", "Sampling a spectrum interpolates linearly and never leaves the data",
 "Reading a spectrum at any wavelength, or building a spectrum from any number (two or more) of equally spaced samples over any wavelength interval, returns the linear interpolation of the two neighbouring samples, in every interval including the first and the last, and the first or last sample outside the sampled range. Samples on the built-in 1 nm grid are reproduced (up to the rounding of the position). No memory outside the given samples is ever read.",
 ["inputs"], "All sample counts >= 2, all sample values, all intervals lo < hi (inside, overlapping, covering or disjoint from 380..779 nm), all wavelengths including exact knots and values just beside them.",
 "Tests only fetch 555 nm from the built-in table.",
 [("Spectrum::fetch and the resampling constructor", "class Spectrum")],
 ["sampled values; memory accesses under AddressSanitizer"])

prop("C17", "Spectrum arithmetic and inner products cover every wavelength exactly once",
 "Adding, multiplying and scaling spectra acts on all 400 wavelengths independently; the sum, the inner product of two spectra and the inner product of three spectra include every wavelength exactly once, so they are linear in each argument and symmetric. The equal-energy spectrum has the requested value at every wavelength.",
 ["inputs"], "All spectra, dense, sparse, single-line at any wavelength, signed and of any scale.",
 "Only smooth built-in spectra are integrated, where losing one of 400 samples is below the tolerance.",
 [("Spectrum add/mul/sum/dot/dot3/E", "class Spectrum")],
 ["values of resulting spectra and scalars"])

prop("C18", "Blackbody spectra follow Planck's law",
 "The spectral radiance of a black body equals Planck's law 2hc^2/lambda^5/(exp(hc/(lambda k T))-1), in W per square metre, steradian and nanometre, at every temperature and wavelength, and a blackbody spectrum is that radiance at 380, 381, ..., 779 nm. Hence it is positive (up to float underflow), grows with temperature at every wavelength and peaks where Wien's displacement law says.",
 ["inputs"], "All temperatures (mostly 500 K to 100000 K, also 1 K to 1e7 K) and all wavelengths (mostly 200 nm to 3000 nm, also 20 nm to 1 mm); every one of the 400 samples.",
 "One temperature and one wavelength are tested, with tolerance 0.4 percent.",
 [("Spectrum::planck, Spectrum::blackbody", "class Spectrum")],
 ["returned radiance values"])

prop("C19", "Observers integrate light linearly and consistently",
 "For any observer (built-in or made from any three matching functions), the XYZ of a spectrum is the wavelength sum of spectrum times matching function divided by the sum of that matching function; so the equal-energy spectrum gives (1,1,1), the result is linear in the spectrum and never negative for non-negative light and matching functions. Measuring a reflectance under a light equals measuring their product, in either order. Monochromatic light gives 683 lm/W (or cd/m2 per W/sr/m2) times the matching function at that wavelength, and the normalised monochromatic XYZ is the matching function divided by its sum.",
 ["inputs", "configurations"], "All observers with positive-sum matching functions, all spectra (dense and single-line), reflectances, lights, wavelengths and powers.",
 "Tests integrate three smooth lights under one observer and read one wavelength.",
 [("Observer::fromSpectrum, fromReflectanceAndLight, lumensFromMonochromaticFlux, candellasFromMonochromaticRadiance, xyz", "class Observer")],
 ["returned XYZ, lumen and candela values"])

prop("C20", "Built-in spectral data are the published tables",
 "The built-in colour matching functions (CIE 1931, Judd-Vos, CIE 2012), the D65 illuminant, the 99 TM-30-15 colour samples and the 24 Macbeth reflectances return, at every wavelength from 380 to 779 nm, the value of the published table, whether read through the spectrum, the observer or the chart and sample lists, which keep their published order (the Macbeth data end at 730 nm, fade to zero at 740 nm and are zero beyond). All values are non-negative and reflectances do not exceed 1.",
 ["inputs"], "Every built-in spectrum at every wavelength on and between the 1 nm grid, through every access path.",
 "Chromaticities of integrals of a few tables are compared to 1e-4; single entries, the order of the charts and most tables are not checked.",
 [("CIE1931_*, CIE1931_JuddVos_*, CIE2012_*, CIE_D65, TM_30_15::*, Macbeth::* tables and lists", "spectral tables")],
 ["table values through fetch, observers, sample and patch lists"])

prop("C21", "The Macbeth chart is simulated patch by patch under any light and observer",
 "For any light and observer, the simulated chart has 24 colours in chart order, each the XYZ of that patch's reflectance under that light seen by that observer (CIE 1931 when none is given); it is linear in the light, and the six neutral patches of the last row get darker from white to black under every non-zero light.",
 ["inputs", "configurations"], "All non-negative lights (smooth, sparse, blackbody, single-line) and all built-in or custom observers.",
 "One light and observer are run and only printed.",
 [("Macbeth::reference", "namespace Macbeth")],
 ["returned list of XYZ colours"])

prop("C22", "The linear solver returns the least-squares solution for any system",
 "For every system with at least as many equations as unknowns, the solver returns a vector minimising the squared residual, the one of minimum norm when the matrix is rank deficient or zero (singular values below the rank tolerance, 1e-5 unless given, times the largest count as zero), reports success and leaves its inputs unchanged; the singular value decomposition it is built on reproduces the matrix as U W V^T with orthonormal V, non-negative W and orthonormal columns of U for the non-zero singular values. A system with fewer equations than unknowns is reported as failure. No input, not even NaN or huge values, makes it access memory outside its arguments or run forever.",
 ["inputs"], "All sizes (exercised up to 340 equations and 40 unknowns) and all matrices whose largest entry is of magnitude 1e-12 to 1e12: dense, sparse, block-sparse, graded (also with negligible columns), integer, exactly rank deficient, zero; all right-hand sides, consistent or not.",
 "The solver has no test at all.",
 [("SOLVER::solve, SOLVER::svdcmp, SOLVER::svbksb", "namespace SOLVER")],
 ["solution vector, return code, decomposition factors; memory accesses under AddressSanitizer"])

prop("C23", "Colour correction recovers the best 3x3 matrix from patches",
 "Given measured patches spanning the colour space and target colours that are a linear transform of them, the correction solver returns that transform whatever the number and order of patches; for inexact targets it returns the transform minimising the summed squared error of each target channel. Solving against the Macbeth chart uses the chart colours of the given light and observer as targets. A gamut made from chart measurements converts device colours to XYZ with exactly that transform and back with its inverse.",
 ["inputs", "configurations"], "All lists of at least three independent patches (exercised up to 200), all transforms and targets, noise, duplicated patches and patch orders; all lights and observers for the chart variant.",
 "No test calls the corrector.",
 [("Corrector::solve (both), Corrector::makeGamut", "class Corrector")],
 ["returned matrix and gamut"])

prop("C24", "The stream encodes and decodes every value in the chosen byte order",
 "Every value written to a memory stream (signed and unsigned 8/16/32/64-bit integers, floats, doubles, strings, 32/64-bit pointers) occupies exactly its size in bytes in the selected byte order (two's complement, IEEE 754) and reads back as the identical value with the same byte order, leaving the cursor just behind it. Any mixture of types and byte orders in one stream round-trips. A pointer slot that is back-patched afterwards reads as the stream length at the time of patching and disturbs no other byte.",
 ["inputs", "histories"], "All values of all types (extremes, sign boundaries, NaN payloads, empty strings), both byte orders switched at any point, all write/read sequences.",
 "The stream has no test at all.",
 [("MemoryStream put*/get*, putPointer*/adjustPointer*, putString/get_string, putSubstr/getSubstr, setReadEndian/setWriteEndian", "class MemoryStream")],
 ["bytes of the buffer, values read back, cursor position"])

prop("C25", "The stream behaves as a growable byte array with a cursor, memory-safely",
 "Under every sequence of in-range seeks, marks, alignments, reads, writes, absolute reads and writes and single-byte gets and puts, a memory stream behaves like a byte array with one cursor: writes overwrite in place and extend at the end, absolute writes beyond the end extend with zeros and do not move the cursor (one whose end cannot be represented writes nothing), reads return at most the bytes that exist, get and read operations at or past the end return 0, and end-of-stream is reported exactly when the cursor is at or past the end. Sequential byte reads and writes advance the cursor by one. No operation with any position or size, and no input buffer including an empty one (also through the ICC profile entry point), accesses memory outside the stream.",
 ["inputs", "histories"], "All initial contents (including empty), all operation sequences, all absolute positions up to 64-bit values for reads.",
 "The stream has no test at all.",
 [("MemoryStream init/fseek/seekTo/mark/ftell/feof/align/read/write/read_at/write_at/get_at/put_at/getUint8/putUint8", "class MemoryStream"), ("loadGamutFromICCProfileMemory", "loadGamutFromICCProfileMemory")],
 ["buffer contents, returned values, cursor; memory accesses under AddressSanitizer"])

prop("C26", "The compile-time square root is correct for every float",
 "The library's square root terminates for every float and returns the square root to within two units in the last place for every finite non-negative input, including zero and subnormals, and NaN for negative numbers, infinity and NaN.",
 ["inputs"], "All 2^32 float values.",
 "No test calls it; a non-terminating or inaccurate iteration can depend on a single input bit pattern.",
 [("util::sqrtf", "namespace util")],
 ["returned value; termination"])

prop("C27", "Results depend only on the arguments",
 "Every conversion, difference, adaptation, spectral integration, chart simulation and solve returns bit-identical results for identical arguments, no matter which other calls were made before, in which order, how often, or from how many threads at once, and whatever the surroundings (previous contents of memory, environment variables, locale, clock, random numbers). The arguments and the built-in constants are never modified, and nothing is written to the program's standard output or standard error.",
 ["histories", "schedules", "inputs"], "All interleavings of calls to the public conversions with arguments drawn from a small pool (so that equal and partly equal arguments recur), single- and multi-threaded.",
 "Each test makes one call per function in a fresh section; caching or hidden state is invisible to them.",
 [("absence of mutable static state; const static data", "whole header")],
 ["results of repeated calls; standard output and error"])

prop("C28", "Compile-time evaluation gives the run-time result",
 "Every operation usable in a constant expression (matrices, colours, chromaticities, gamuts, spectra, observers, the square root) gives, when evaluated by the compiler, the same value up to float rounding as when evaluated at run time with the same arguments, and the built-in gamuts, observers and illuminants are usable as compile-time constants.",
 ["programs", "inputs"], "Generated programs that evaluate random operations on random constants both ways.",
 "Tests never force compile-time evaluation of an operation.",
 [("constexpr functions and constants", "whole header")],
 ["static and dynamic results of generated programs"])

prop("C29", "Results do not depend on how the header is compiled",
 "Every public function returns the same values (up to the last digits where a compiler evaluates a mathematical function itself) whichever compiler, language version (C++14 to C++20), optimisation level or assertion setting (NDEBUG) the header is compiled with, whether plain char is signed or not, and from whichever of several translation units of a program that include the header it is called.",
 ["configurations", "inputs"], "Calls of all public functions on generated arguments, in builds by g++ and clang++ at optimisation levels 0 to 3 and size, C++14/17/20, with and without NDEBUG, signed and unsigned char, with uninitialised locals set to zero or to a pattern; two translation units each.",
 "The tests are built once, with one compiler and one set of options, assertions on.",
 [("absence of undefined, unspecified and configuration-dependent behaviour", "whole header")],
 ["returned values of the same call in differently compiled copies of the library"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
