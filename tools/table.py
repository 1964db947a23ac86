p('C01', 'Matrix inverse and determinant are exact inverses for every regular matrix',
  'The determinant of a 3x3 matrix equals the sum over its six signed permutations, and the inverse multiplied by the matrix gives the identity up to float rounding scaled by the conditioning, for every matrix whose determinant is not tiny.',
  'every 3x3 matrix with entries in the stated range and determinant bounded away from zero, and every structured (diagonal, triangular, permuted) family',
  'The tests invert two fixed matrices; a wrong sign or index in one cofactor shows only for matrices with that entry non-zero.',
  [('Matrix3::invert / det', H + ':130-230')])
p('C02', 'Matrix algebra obeys its laws',
  'Matrix product, scaling, transposition, diagonal construction and application to a vector compute the textbook linear-algebra result in every entry, and application of a product equals successive application.',
  'all entries of both operands and of the vector in the stated range',
  'Tests multiply a few fixed matrices; an index slip is visible only for matrices without the symmetry of those samples.',
  [('Matrix3::mul, apply, transpose, diag', H + ':90-240')])
p('C03', 'Tristimulus and vector arithmetic acts component by component',
  'Addition, scaling, clamping, absolute value, minimum, maximum and dot product of stimuli and vectors give the component-wise textbook result for every operand, and leave other components alone.',
  'every pair of stimuli, scalar and clamp bounds in the stated range, all components independent',
  'Tests use a few stimuli, frequently with equal components, which cannot tell one component from another.',
  [('Vector3, Tristimulus operators', H + ':50-330')])
p('C04', 'XYZ and Yxy convert into each other without loss',
  'For every stimulus with positive component sum, conversion to luminance and chromaticity gives x = X/(X+Y+Z) and y = Y/(X+Y+Z) with unchanged luminance; converting back restores the stimulus and the other direction restores the chromaticity.',
  'all X, Y, Z and all Y, x, y in the stated range, including black',
  'Tests round-trip a handful of colours; errors in one coordinate or in the degenerate black case need other inputs.',
  [('Tristimulus::toYxy/fromYxy', H + ':330-360')])
p('C05', 'Chromaticity conversions xy, uv and Yuv are mutually consistent',
  'Converting between xy and uv chromaticity, or between XYZ and Yuv, follows the CIE 1960 definition, keeps luminance, round-trips, and every route between two representations (direct or through XYZ) ends at the same value.',
  'all chromaticities and luminances in the stated range',
  'Tests compare single points on single routes; route agreement is a statement over all chromaticities.',
  [('Tristimulus::toYuv/fromYuv/YxyToYuv/YuvToYxy', H + ':360-400')])
p('C06', 'CIELAB conversion follows the CIE definition and inverts',
  'For every stimulus not brighter than the white, CIELAB equals the CIE definition with its cube-root and linear pieces for the white that was passed; white maps to L=100, a=b=0, greys to a=b=0; and converting back restores the stimulus.',
  'every stimulus with components in [0,1] times the white, on both sides of both thresholds, and every listed white',
  'Tests sample a few patches on the cube-root piece with one white; the linear piece, the threshold and other whites are untested.',
  [('Tristimulus::toCIELAB/fromCIELAB', H + ':400-440')])
p('C07', 'HSV conversion follows its definition, inverts, and ends for every hue',
  'Hue, saturation and value of every stimulus follow the hexcone definition (hue in [0,360], grey has zero hue and saturation), converting HSV back restores the colour, hues that differ by full turns give the same colour, and every result component lies between V(1-S) and V for every finite hue, however large.',
  'all R, G, B in range in every order of size including ties, all H, S, V in range and any finite hue',
  'No test touches HSV; sector boundaries, wrap-around and huge hues are edge cases a sample misses.',
  [('Tristimulus::toHSV, toHSV_atan, fromHSV, mod360', H + ':441-492')])
p('C08', 'OKLAB conversion follows its published definition and inverts',
  'XYZ to OKLAB is the published pair of matrices around a cube root for every stimulus with non-negative cone responses; OKLAB to XYZ is the exact inverse; a round trip restores the stimulus; black maps to zero and every grey of D65 has no chroma and the cube root of its luminance as lightness.',
  'every X, Y, Z in [0,1.2] with cone responses at least 0.005, every L, a, b in the stated range, every grey level',
  'One test compares four published colours to three digits; a slip in one of 18 coefficients or an error outside those colours passes.',
  [('XYZ_to_OKLAB / OKLAB_to_XYZ', H + ':1418-1450')])
p('C09', 'ICtCp conversion follows its published definition in both directions',
  'For every stimulus, XYZ to ICtCp equals PQ-encoded cone responses mixed by the published integer matrix (responses outside the PQ range are clipped to its ends), and ICtCp to XYZ equals the published decoding, for bright and dark stimuli alike.',
  'all X, Y, Z up to 100 (10,000 cd/m2) over five decades of intensity, all I, Ct, Cp whose PQ signals lie in [0.01,0.99]',
  'No test calls the ICtCp conversions.',
  [('XYZ_to_ICtCp / ICtCp_to_XYZ', H + ':1392-1416')])
p('C10', 'A gamut built from primaries and white, or from a matrix, honours them',
  'A gamut constructed from chromaticities maps RGB (1,1,1) to the given white with unit luminance, maps each unit primary to the given chromaticity, its two matrices are inverses of each other, and the reported primaries and white are the given ones; a gamut constructed from a matrix uses it as the XYZ-to-RGB matrix and reports the primaries that matrix implies.',
  'chromaticities moving freely (two at a time) around five primary sets, and matrices around the sRGB matrix, all stimuli in range',
  'Tests compare the matrices of a few fixed gamuts; the construction must hold for any primaries.',
  [('Gamut::Gamut, primaryMatrix, fromPrimaries, toXYZ, fromXYZ', H + ':494-560')])
p('C11', 'Built-in gamuts carry the published primaries and convert linearly through XYZ',
  'Every built-in gamut maps RGB to XYZ with the matrix its published primaries and white define, maps back with the inverse, and GamutConvert between any two of them equals going through XYZ, for every stimulus including negative and over-range ones.',
  'all ten gamuts, all ordered pairs of them, every stimulus with components in [-16,16]',
  'Tests look at a few matrix entries of a few gamuts.',
  [('built-in Gamut constants, GamutConvert', H + ':1352-1372')])
p('C12', 'Bradford adaptation maps white to white by scaling cone responses',
  'The Bradford matrix from one white to another maps the first onto the second, acts in Bradford cone space as the diagonal of the cone quotients, is the identity for equal whites, is inverted by exchanging the whites, and takes every grey of one built-in illuminant to the same grey of the other.',
  'either white free in the stated region with the other at D65, D50, A or C; every grey level; ten pairs of built-in illuminants',
  'Tests adapt two fixed whites.',
  [('Bradford', H + ':1374-1385')])
p('C13', 'sRGB, BT.709 and gamma transfer functions follow their definitions and invert',
  'Encoding and decoding equal the published piecewise functions for every value in [0,1], are pinned to 0 and 1 outside, never decrease, and decoding after encoding (and the reverse) restores the value; pure gamma is the power function with its reciprocal.',
  'every scene value and signal in [-10,10] (sRGB, BT.709), values in [0.001,2] with five exponents (gamma)',
  'Tests sample a coarse grid; thresholds between the pieces and the ends of the range are single points a grid misses.',
  [('OTF::Y_to_sRGB ... BT709_to_Y, Y_to_gamma', H + ':561-640')])
p('C14', 'PQ and HLG transfer functions follow their standards and invert',
  'The PQ functions equal SMPTE ST 2084 (1 = 100 cd/m2, clipped at black and at 10,000 cd/m2), the HLG functions equal ARIB STD-B67 with its square-root and logarithmic pieces, both never decrease, and each direction undoes the other.',
  'PQ scene values in [-10,200] (definition on [1e-6,100]) and signals in [0.001,1]; HLG scene values in [-10,12] and signals in [-1,1]',
  'Tests sample a coarse grid and only compare round trips, which equal errors in both directions would survive.',
  [('OTF::Y_to_ST2084, ST2084_to_Y, Y_to_HLG, HLG_to_Y', H + ':640-740')])
p('C15', 'S-Log, S-Log2 and S-Log3 follow the camera maker\'s formulas and invert',
  'Each camera log encoding equals the published formula in both its logarithmic and its linear piece, reaches the published code values for black and mid grey, never decreases, and decoding restores the scene value.',
  'scene values in [-1,20] (S-Log clipped to [0,10]) and signals in [0,1.09]',
  'Tests check round trips on a grid; equal errors in both directions survive and the linear pieces are not reached.',
  [('OTF::Y_to_SLog ... SLog3_to_Y', H + ':640-740')])
p('C16', 'Transfer functions apply to a whole colour channel by channel',
  'For every transfer type and both directions, converting a colour applies the scalar transfer function of that type to each channel independently of the others, linear leaves the colour unchanged, and gamma uses the exponent that was passed, which plays no part in any other type.',
  'all nine types, all three channels independent over the range of each scalar function',
  'Tests convert grey or single colours with a few types; a swapped channel or a wrong dispatch for one type and direction is missed.',
  [('OTF::toScreen / toScene', H + ':740-788')])
p('C17', 'Sampling a spectrum interpolates linearly and holds the end values outside',
  'Fetching a value at any wavelength from a table over any range gives the linear interpolation of the two neighbouring samples, the sample itself at its own wavelength, and the end sample outside the range, never reads outside the table, and resampling a table into a spectrum does this at each of its 400 wavelengths.',
  'every wavelength inside and outside the range, free sample values, fixed and free ranges, tables of 2 to 6 samples and larger fixed sizes for resampling',
  'Tests fetch a few interior wavelengths; first and last interval, exact ends and out-of-range wavelengths are missed.',
  [('Spectrum::fetch, get, Spectrum(from table)', H + ':1242-1330')])
p('C18', 'Spectrum arithmetic acts sample by sample and its sums count every sample once',
  'Product, sum and scaling of spectra act on each of the 400 samples from the samples at the same index only, the sum adds every sample exactly once, and the two- and three-fold dot products add the products of equal indices.',
  'all 400 samples of the operands free',
  'Tests use flat spectra, for which a lost or doubled sample or an index shift is invisible or drowned in tolerance.',
  [('Spectrum operators, sum, dot, dot3', H + ':1330-1350')])
p('C19', 'Observers integrate spectra with their colour-matching functions',
  'An observer maps a spectrum to the sums of the spectrum weighted by its colour-matching functions, normalised by the sums of these functions so that equal energy gives (1,1,1). With a reflectance and a light it does the same for their product wavelength by wavelength, and the colour chart gives every patch under any light this way. Monochromatic flux follows the 683 lm/W definition with the interpolated functions.',
  'all 400 samples of spectrum, reflectance or light free, all built-in observers, all chart patches',
  'Tests integrate a few fixed lights; a wrong weight or normalisation at one wavelength is within their tolerance.',
  [('Observer::fromSpectrum, fromReflectanceAndLight, lumensFromMonochromaticFlux, candellasFromMonochromaticRadiance; Macbeth::patch/reference', H + ':1527-1568')])
p('C20', 'Black-body spectra follow Planck\'s law',
  'The spectral radiance of a black body equals Planck\'s law per nanometre at every temperature and wavelength, is never negative, and the black-body spectrum holds that radiance at each of its 400 wavelengths.',
  'every temperature in [500,30000] K and wavelength in [200,3000] nm; all 400 wavelengths of the spectrum for every temperature in [1000,20000] K',
  'Tests look at the colour of a few temperatures, which any constant factor survives.',
  [('Spectrum::planck, blackbody', H + ':1300-1330')])
p('C21', 'Colours of a colour temperature follow the published approximations',
  'The Planckian-locus colour of a temperature follows the published piecewise cubic in every piece with unit luminance, the polynomial variant follows its published polynomial, the two agree, and a colour with an offset from the locus lies at that signed distance in uv across the locus, on the locus for offset zero; the luminance asked for is delivered.',
  'every temperature in [1667,25000] K (cubic) and [1000,10000] K (polynomial); every offset in [-0.05,0.05] at fixed temperatures',
  'Tests look at a few temperatures; each piece has its own coefficients, of which most are not reached.',
  [('Tristimulus::fromPlanckianLocus, fromCT, fromCCT, CT', H + ':290-330')])
p('C22', 'Euclidean colour differences are distances',
  'The uv, CIE76 and ICtCp differences equal the Euclidean distance of the respective coordinates (of I, half of Ct, and Cp for the last), are zero for equal colours, never negative, and do not depend on the order of the two colours.',
  'every pair of colours in the stated range',
  'Tests evaluate a single pair; an omitted or swapped coordinate shows only for pairs differing in it.',
  [('Delta::UV, E76, ICtCp', H + ':1454-1475')])
p('C23', 'The CIEDE2000 difference follows its definition',
  'The CIEDE2000 difference equals the published formula (Sharma, Wu and Dalal 2005) for colours in every pair of hue quadrants, including hues on both sides of the red axis and hues more than 180 degrees apart, with and without the parametric weights Kl, Kc, Kh; it is zero for equal colours, and for colours differing in lightness alone it is the weighted lightness difference.',
  'every pair of colours and weights in the stated windows',
  'Tests evaluate at most a few published pairs; the hue wrap-around, the blue rotation term and the weights each act only for particular pairs.',
  [('Delta::E00', H + ':1466-1520')])
p('C24', 'Numbers written to a memory stream read back unchanged in either byte order',
  'Writing an 8- to 64-bit integer, float or double puts its bytes at the cursor in the write byte order, overwriting or extending the buffer, touches no other byte and advances the cursor past it; reading assembles the bytes at the cursor in the read byte order; write then read restores every value; and reads at or past the end never leave the buffer.',
  'every value of every width, both byte orders, every small buffer with any content and every cursor',
  'Tests of the stream do not exist; byte order, sign extension and partial overwrite depend on particular values and cursors.',
  [('MemoryStream::putUint8..putFloat64, getUint8..getFloat64', H + ':789-1100')])
p('C25', 'Memory stream cursor, block and string operations keep a list of bytes',
  'Seeking, telling, aligning, skipping, block reads and writes, strings, back-patched pointers and positional writes behave as the same operations on a growing list of bytes with a cursor: only the named bytes change, the buffer grows exactly as needed, strings round-trip, and no access leaves the buffer; the same holds for sequences of operations.',
  'every small buffer with any content, every cursor, every argument in the stated range, and short sequences of operations',
  'Tests of the stream do not exist; the state after a mixed sequence of overwriting and extending operations is a matter of histories.',
  [('MemoryStream', H + ':789-1240')], over=('inputs', 'histories'))
p('C26', 'The least-squares solver returns the solution of smallest residual and norm',
  'For every right-hand side, SOLVER::solve returns the vector that minimises the residual of the linear system and, among those, has the smallest norm, also for rank-deficient, zero and badly scaled matrices; singular values below the given fraction of the largest count as zero; systems with fewer rows than columns are reported as failed; and the matrix and right-hand side passed in are left unchanged.',
  'every right-hand side for a list of matrices of every rank, free one-column and diagonal systems, free cut-off',
  'Tests solve one square regular system; rank-deficient systems and the cut-off take branches of the decomposition that it does not enter.',
  [('SOLVER::solve, svdcmp, svbksb', H + ':7420-7700')])
p('C27', 'The colour corrector finds the best matrix from patches to targets',
  'The correction matrix is the 3x3 matrix with the least squared error from the measured patches to their targets in every channel: if some matrix maps every patch exactly to its target, that matrix is returned; for any targets the residual is orthogonal to the patches; and the gamut made from measured chart patches takes RGB to XYZ by the matrix fitted to the chart colours under the given light and observer, and XYZ to RGB by its inverse.',
  'any target matrix and any targets for fixed patch sets of 3 to 24 patches; every mix of two lights',
  'The test corrects one chart and looks at the result by eye; a transposed matrix or a dropped patch needs unsymmetric targets to show.',
  [('Corrector::solve, makeGamut', H + ':7640-7760')])
p('C29', 'Built-in observers, lights, reflectances and illuminants are the published ones',
  'The 1931 colour-matching functions and the D65 spectrum equal the published tables at every wavelength between the samples, the other observers and the reflectances are smooth, non-negative and bounded as published, no reflectance sends back more light than it receives, chart colours under D65 are the published ones, and each illuminant constant has the published chromaticity at every intensity.',
  'every wavelength in the table range, every light for the reflectance bound, every intensity of a white',
  'Tests integrate a few tables with tolerances that hide a wrong sample.',
  [('CIE1931_X ... CIE2012_Z, CIE_D65, Macbeth::Patch, Illuminant_*', H + ':1244-7370')])
p('C30', 'Conversions depend on their arguments only and print nothing',
  'Every conversion of colours, transfer functions, gamuts, whites, colour temperatures and colour differences gives the same result for the same arguments whatever was converted before, in the same or a fresh process, and writes nothing to standard output or error.',
  'two free argument lists per conversion, called in the order first, second, first, and second alone in a fresh process',
  'A test calls each conversion in one order; caches, static state and debug output on a particular branch stay invisible to value comparisons.',
  [('all conversions', H + ':90-1475')], over=('inputs', 'histories'))
p('C28', 'The compile-time square root equals the square root',
  'util::sqrtf(x) equals the square root of x within a relative 1e-6 for every finite positive x, whatever its magnitude, is zero for zero and not a number for negative x.',
  'every float x in the stated range',
  'Tests reach it only through colour temperature offsets of one magnitude; a stopping rule that suits that magnitude fails for smaller or larger values.',
  [('util::sqrtf', H + ':23-45')])
