# prop(id, title, statement, over, text, why, files, mech, observe, tech, note, na)
TH = 'core/lib/TimeHandling/'; GC = 'core/lib/GNSSCore/'; GE = 'core/lib/GNSSEph/'; UT = 'core/lib/Utilities/'; MA = 'core/lib/Math/'; XE = 'ext/lib/GNSSEph/'; XG = 'ext/lib/Geomatics/'; XM = 'ext/lib/Math/'; FH = 'core/lib/FileHandling/'
PBT = 'property-based testing: '

# ---------------------------------------------------------------- time
prop('T01', 'Every time representation names the same instant, both ways',
 'For every CommonTime in the representable range and every time system: converting it to CivilTime, YDSTime, MJD, JulianDate, UnixTime, PosixTime, ANSITime, GPSWeekZcount or any of the GPS/GAL/BDS/QZS/IRN WeekSecond tags gives the fields that an independent day-count calendar (Julian before 15 Oct 1582, Gregorian from then on) and plain arithmetic give, converting back returns the same instant to within the resolution of that tag and the same time system, any chain of such conversions does too, valid fields convert to the instant they name and back to the same fields, instants outside a tag\'s range are refused with an exception, and tags compare with ==, <, > and so on exactly as the instants they name.',
 'inputs', 'All Julian days 0..3442448 for the calendar, all seconds of the day, generated instants (clustered at day, week, month, leap year, epoch and range limits), all time systems, generated field values and chains of 2 to 8 conversions.',
 'The tests convert a few dates per class; a calendar or rounding error at one day, century, epoch or sub-millisecond fraction escapes them.',
 [TH+'TimeConverters.cpp', TH+'CivilTime.cpp', TH+'YDSTime.cpp', TH+'MJD.cpp', TH+'JulianDate.cpp', TH+'UnixTime.cpp', TH+'PosixTime.cpp', TH+'ANSITime.cpp', TH+'GPSWeekZcount.cpp', TH+'WeekSecond.cpp', TH+'Week.hpp'],
 ['calendar @ convertJDtoCalendar, convertCalendarToJD', 'tag conversions @ *::convertToCommonTime, *::convertFromCommonTime', 'week second @ WeekSecond::convertFromCommonTime'], ['TimeTag classes', 'CommonTime'],
 PBT + 'generated instants, round trips and an independent calendar table as reference model')

prop('T02', 'CommonTime arithmetic and ordering obey the arithmetic of instants',
 'For every CommonTime t and every s that stay in range, t.addSeconds(s), t.addDays(n), t.addMilliseconds(n), +, -, += and -= move the instant by exactly that much (to 1e-10 s for integral amounts and to floating point resolution otherwise), never yield fields out of range, and preserve the time system; the difference of two times equals the difference of their instants; (a+s)-a equals s; ==, !=, <, <=, >, >= are a total order that agrees with the instants when they differ by more than the documented resolution; ordering or subtracting times of different, non-Any systems throws InvalidRequest instead of giving an answer and such times are never equal; additions leaving the representable range are refused; invalid set() arguments are refused and leave the time unchanged; getDays, getSecondOfDay, get, getInternal and asString agree.',
 'histories', 'Generated sequences of additions and subtractions of seconds, days, milliseconds from generated instants, pairs and triples of instants, all pairs of time systems.',
 'Errors appear only for carries across a second, day or sign boundary, or for long histories that accumulate them.',
 [TH+'CommonTime.cpp', TH+'CommonTime.hpp'], ['normalisation @ CommonTime::normalize, CommonTime::add', 'comparison @ CommonTime::operator<, operator=='], ['CommonTime public operators'],
 PBT + 'stateful: sequences of operations against an exact integer model of the instant')

prop('T03', 'Text made from a time with a format reads back as the same time',
 'For every time in the domain of the format\'s fields and every format that determines a time (civil, ordinal date, MJD, JD, Unix, Posix, GPS/Galileo/BeiDou/QZSS/IRNSS full week and seconds of week or day and seconds of day, week and Z-count, with the fields in any order, with any literal separators and optional widths and precision), scanTime and mixedScanTime applied to printTime\'s output give the same time to the precision printed, and in the printed time system when it is printed; numeric fields are printed with the value an independent computation gives; printTime never changes literal text.',
 'inputs', 'Generated instants, generated formats (field combination, order, separators, widths), all time systems.',
 'There are thousands of field combinations and orders; the tests scan a handful of fixed strings.',
 [TH+'TimeString.cpp', TH+'CivilTime.cpp', TH+'YDSTime.cpp', TH+'WeekSecond.cpp', TH+'TimeTag.cpp'], ['scan dispatch @ scanTime, mixedScanTime', 'print dispatch @ printTime'], ['printTime', 'scanTime', 'mixedScanTime'],
 PBT + 'print/scan round trip over a grammar of formats, with an independent field computation')

prop('T04', 'Time-system differences and leap seconds are consistent',
 'For every instant from 1961 on and every pair of the time systems getTimeSystemCorrection supports (GPS, GAL, IRN, UTC, GLO, BDT, TAI, TT, TDB), the correction from A to B is minus that from B to A, is additive through any third system, and equals the definition (TAI-UTC from the published IERS table, GPS = GAL = IRN = TAI-19, BDT = TAI-33, TT = TAI+32.184, GLO = UTC, TDB smooth and within 2 ms of TT), Unknown is refused; the leap second count changes exactly at the published dates and nowhere else, is 0 before 1960, and before 1972 follows the published rates within each day; a TimeSystemCorrection of any RINEX header type converts times by its own A0, A1 and reference time with the documented sign, there and back cancel, isConverterFor tells which systems it serves, and times in other systems are refused.',
 'inputs', 'All days 1960 to 2040 for leap seconds; generated instants, pairs and triples of systems, correction coefficients.',
 'The tests look at a few dates and pairs; each system pair and each leap second date is a separate path.',
 ['core/lib/RefTime/TimeSystem.cpp', 'core/lib/RefTime/TimeSystemCorr.hpp'], ['leap seconds @ getLeapSeconds', 'system offset @ getTimeSystemCorrection'], ['getLeapSeconds', 'getTimeSystemCorrection', 'TimeSystemCorrection::Correction'],
 PBT + 'algebraic laws (antisymmetry, additivity) and an independent leap second table')

prop('T05', 'GPS week, Z-count and rollover arithmetic is modular arithmetic',
 'For every GPS time, Z-count arithmetic (increment, decrement, addition, subtraction and comparison, in GPSZcount and GPSWeekZcount) is exact integer arithmetic on the total Z-count with carries across weeks, out of range values are refused, and the 29-bit and 32-bit packed forms and 10-bit and modulo week forms decode to the time they encode; adjusting a truncated week to a year it lies in (Week::adjustToYear) gives back the full week for the rollover of every constellation, and timeAdjustWeekRollover picks a week with that residue within half an epoch of the reference week; blocks of Z-counts (inSameTimeBlock) start at the documented places.',
 'inputs', 'Generated Z-counts and weeks clustered at week, epoch and range limits; sequences of arithmetic; all 10-bit week values against generated references.',
 'Rollover faults show up at one week in 1024 or at one Z-count in 403200.',
 [TH+'GPSWeekZcount.cpp', TH+'GPSZcount.cpp', TH+'Week.hpp', TH+'GPSWeek.hpp'], ['Z-count arithmetic @ GPSZcount::operator+, GPSZcount::operator-', 'packed forms @ GPSWeekZcount::setZcount32, getZcount29', 'week adjustment @ Week::adjustToYear, GPSWeek'], ['GPSZcount', 'GPSWeekZcount', 'GPSWeek'],
 PBT + 'stateful arithmetic against an integer model')

prop('T06', 'TimeRange interval algebra is set algebra',
 'For every pair of time ranges with any inclusive or exclusive ends, inRange is membership of the interval, overlaps, isPriorTo and isAfter agree with the (non-empty) intervals as sets of instants and exactly one of them holds, isSubsetOf compares the ends as documented, operator< orders by start so that a set of ranges keeps every distinct start, an interval with end before start is refused and leaves the object unchanged, and setToString reads back what printf wrote, with missing brackets taken as inclusive.',
 'inputs', 'Generated pairs of ranges with nested, equal, touching, disjoint ends and all inclusivity combinations.',
 'The number of endpoint relations times inclusivity combinations exceeds the sampled tests.',
 [TH+'TimeRange.cpp', TH+'TimeRange.hpp'], ['membership @ TimeRange::inRange', 'relations @ TimeRange::overlaps, TimeRange::isSubsetOf'], ['TimeRange'],
 PBT + 'differential against a pointwise interval model')

# ---------------------------------------------------------------- utilities
prop('U01', 'String utilities agree with their documented meaning for every string',
 'For every string: stripping, justification, subString, word functions (firstWord, word, words, numWords, stripFirstWord, removeWords, split by character, by set and with quotes), replaceAll, change, translate, case conversion, character class tests, decimal and hexadecimal conversions (x2d, d2x, c2x, x2uint, int2x, asInt, asUnsigned, asDouble, asFloat, asString), pattern matching (matches, isLike), printable, prettyPrint and hexDumpData give what a straightforward reference implementation of their documentation gives; conversions that are inverse to each other compose to the identity; all of them return.',
 'inputs', 'Generated strings (delimiters at either end, repeated, absent, empty strings, quotes, all byte values), patterns, widths, numbers over the whole range of their type.',
 'Edge cases (empty strings, delimiter runs, widths equal to the length) combine freely; the tests pick a few.',
 [UT+'StringUtils.hpp', UT+'StringUtils.cpp'], ['word functions @ StringUtils::word, numWords, removeWords', 'justification @ StringUtils::leftJustify, center', 'number conversion @ StringUtils::x2d, d2x, x2uint'], ['gpstk::StringUtils'],
 PBT + 'differential against reference implementations, inverse pairs')

prop('U02', 'Numbers in fixed-width formats survive writing and reading',
 'For every finite double and every format description, FormattedDouble (floatFormat), RNDouble, doubleToScientific, doub2sci and doub2for write text with the requested leading character, sign, number of mantissa digits, exponent character and least exponent digits, padded to the requested width on the requested side, whose value is the number rounded to those digits (an exponent that needs more digits is never cut; RINEX fields are 19 columns for every value with a two digit exponent), and assigning, constructing or streaming the text back (FormattedDouble, RNDouble, for2doub with E, e, D or d) gives that value; values that are not finite are written as such.',
 'inputs', 'Generated doubles over the whole exponent range, rounding boundaries (9.99.., ..5), zero, negative; widths, precisions, exponent lengths and characters, leading character styles.',
 'Rounding that carries into a new digit and three-digit exponents happen for few inputs.',
 [UT+'FormattedDouble.cpp', UT+'RNDouble.hpp', UT+'StringUtils.hpp', UT+'StringUtils.cpp'], ['formatting @ StringUtils::floatFormat, FormattedDouble::operator<<', 'scientific @ StringUtils::doub2sci, doub2for, for2doub'], ['FormattedDouble', 'StringUtils::doub2for'],
 PBT + 'write/read round trip and comparison with correctly rounded digits')

prop('U03', 'Binary decoding, CRC and byte-order helpers are exact',
 'For every value and position, the encode and decode helpers (encodeVar, decodeVar and their little-endian forms, and the buffer forms buitoh*, buntoh*, buhtoi*, buhton* of every integer and floating point type) produce the documented byte order, are inverses, respect their position and touch no other byte; computeCRC agrees with polynomial long division for every parameter set (order 1 to 32, initial value, final xor, reflection in and out, direct or not), the predefined CCITT, CRC-16, CRC-32 and CRC-24Q sets have the published parameters; reflect and countBits are exact; xorChecksum equals the xor of all words and refuses a partial word.',
 'inputs', 'Generated values, byte strings, positions, CRC parameter sets.',
 'The tests use the default CRC sets and a few values.',
 [UT+'BinUtils.hpp', UT+'BinUtils.cpp'], ['byte order @ BinUtils::buhtonl, encodeVar, decodeVar', 'CRC @ BinUtils::computeCRC'], ['gpstk::BinUtils'],
 PBT + 'round trips, byte-wise reference, and a polynomial long division as CRC reference')

prop('U04', 'The expression evaluator computes ordinary arithmetic',
 'For every expression over unsigned numbers (decimal or scientific), variables, the binary operators + - * / ^ (^ before * and /, before + and -, each associating to the left), the functions cos, sin, tan, acos, asin, atan, exp, abs, sqrt, log and log10, parentheses, and a sign before a number at the start, Expression gives the value that a tree evaluator with that precedence gives, regardless of white space and redundant parentheses, on repeated evaluation, after variables are bound again, in copies and for variable names in any letter case; canEvaluate is true exactly when all variables are set, set tells whether the variable occurs, setGPSConstants binds the documented constants, and malformed expressions (empty, missing argument or operator, malformed number) are refused with an exception.',
 'inputs', 'Generated expression trees printed with varied white space and redundant parentheses; bindings of variables.',
 'Precedence and associativity faults appear only for particular operator nestings.',
 [XM+'Expression.cpp', XM+'Expression.hpp'], ['parsing @ Expression::tokenize, buildExpressionTree', 'evaluation @ Expression::evaluate'], ['Expression::evaluate'],
 PBT + 'grammar-generated expressions against a tree-walking evaluator')

# ---------------------------------------------------------------- math
prop('M01', 'Matrix and vector algebra and decompositions satisfy their definitions',
 'For every matrix in the tested sizes (1 to 8, well-conditioned, badly scaled, rank deficient, symmetric, orthogonal): +, -, *, scaling, transpose, row and column slices, concatenation (&&, ||), identity, trace, determinant and norms agree with elementwise definitions; LUDecomp, Cholesky, CholeskyCrout, Householder and SVD factors have their defining structure and multiply back to the input; solving by back substitution solves the system; inverse, inverseChol, inverseLUD, inverseSVD give the inverse; minors and cofactor determinants agree; dimension mismatches throw, and so does inverting a matrix with a zero row or column.',
 'inputs', 'Generated matrices of all small shapes with controlled condition numbers and values.',
 'The tests use fixed 3 by 3 style matrices; pivoting, rank and shape paths need others.',
 [MA+'Matrix/MatrixFunctors.hpp', MA+'Matrix/MatrixOperators.hpp', MA+'Matrix/Matrix.hpp', MA+'Vector/Vector.hpp'], ['decompositions @ SVD, LUDecomp, Cholesky, CholeskyCrout, Householder', 'inverse @ inverse, inverseChol, inverseSVD'], ['Matrix operators and functors'],
 PBT + 'defining equations and elementwise reference in long double')

prop('M02', 'Sequential statistics equal the batch definitions',
 'For every sample sequence, Stats, SeqStats, WtdStats, TwoSampleStats, BivarStats (scaled or not) and PowerSum (moments up to the fifth, skewness, kurtosis) give the count, minimum, maximum, mean, variance, standard deviation, covariance, correlation, slope, intercept and their uncertainties that the defining formulas give on the whole sample, whatever the order or grouping of the additions; merging two accumulators equals accumulating the union, subtracting samples or accumulators undoes adding them, and Dump followed by Load restores the accumulator; Robust::Median, mad, MedianAbsoluteDeviation, Quartiles, MEstimate, RobustPolyFit, Quantiles, QSort, the Anderson-Darling statistic ADtest and MostCommonValue satisfy their definitions on any ordering.',
 'histories', 'Generated samples (offset, scale, ties, outliers, constants) and sequences of Add, Subtract, merge and Reset.',
 'Update formulas drift or mishandle merging only for particular histories.',
 [MA+'Stats.hpp', MA+'BivarStats.hpp', MA+'PowerSum.hpp', XG+'RobustStats.hpp'], ['sequential update @ Stats::Add, TwoSampleStats::Add, BivarStats::add', 'robust @ Robust::Median, Robust::Quartiles'], ['Stats', 'TwoSampleStats', 'BivarStats', 'PowerSum', 'Robust'],
 PBT + 'stateful accumulation against a batch long double reference')

prop('M03', 'Interpolation and polynomial fits reproduce what they must reproduce',
 'For every set of distinct nodes and every polynomial of admissible degree: LagrangeInterpolation, SimpleLagrangeInterpolation, their first and second derivative forms and PolyFit reproduce the polynomial (and its derivatives) at every point to rounding; the form of LagrangeInterpolation with an error estimate does so for points in the middle of an even number of nodes; a least squares fit leaves residuals orthogonal to the basis; cubic splines pass through the nodes, are twice continuously differentiable and keep prescribed end derivatives, and evaluating a vector of points in any order equals evaluating each point; RSS, Round and the other small helpers match their formulas.',
 'inputs', 'Generated nodes (uneven spacing, any count admitted), coefficients and evaluation points including nodes and ends.',
 'Interpolation weights are wrong only for specific node counts or positions.',
 [MA+'MiscMath.hpp', MA+'PolyFit.hpp', XG+'CubicSpline.hpp'], ['Lagrange @ LagrangeInterpolation, LagrangeInterpolating2ndDerivative', 'fit @ PolyFit::Add, PolyFit::Solve', 'spline @ CubicSpline::Initialize, Evaluate'], ['MiscMath', 'PolyFit', 'CubicSpline'],
 PBT + 'metamorphic: exact reproduction of generated polynomials')

prop('M04', 'Special functions and probability distributions satisfy their identities',
 'Over their documented domains, gamma, lnGamma, beta, incomplete gamma and beta, erf, erfc and inverse error function, factorial and the Gaussian, chi-square, Student and F distribution functions agree with the C library or with numerical integration, obey their recurrence and symmetry relations, are monotone, and each inverse distribution function inverts its distribution function.',
 'inputs', 'Generated arguments over the domain, degrees of freedom 1 to several hundred, probabilities near 0 and 1.',
 'Series and continued fraction branches switch at thresholds the tests do not reach.',
 [XM+'SpecialFunctions.cpp', XG+'SpecialFuncs.cpp'], ['special functions @ gamma, lower_gamma, erf, ierf', 'distributions @ ChisqCDF, StudentsCDF, FDistCDF, invNormalCDF'], ['SpecialFunctions', 'SpecialFuncs', 'distributions'],
 PBT + 'identities, inverse pairs and libm/numeric integration reference')

prop('M05', 'Square root information filters equal batch least squares',
 'For every linear system, square root information measurement updates (dense or sparse, with or without measurement covariance) and a priori information in any order and grouping give the information matrix and vector of the weighted normal equations, and the solution, covariance and kept sum of squares that go with them; Kalman time updates and the two backward smoothers give the state and covariance of the batch solution of the whole trajectory; permuting, extending, merging, appending, splitting, reshaping, shifting, transforming, de-weighting, fixing and removing states act on the information of the named states exactly as they do on normal equations, whatever the order of the states; zeroing and Reset leave no information; SRIleastSquares gives the least squares solution (weighted by the measurement covariance, sequential, linearized, with a priori information, robust: with the weights it returns); singular, inconsistent or non positive definite input is refused; Cholesky, LDL, UDU and triangular inverses satisfy their definitions; Namelist is an ordered set with the usual set algebra.',
 'histories', 'Generated systems of 1 to 6 states, updates of 1 to 6 measurements, operation sequences, trajectories of up to 4 time updates, singular and inconsistent input.',
 'The update path depends on partitioning and naming of the states, which tests fix once.',
 [XG+'SRI.cpp', XG+'SRIFilter.cpp', XG+'SRIMatrix.hpp', XG+'SRIleastSquares.cpp'], ['update @ SrifMU, SRI::measurementUpdate', 'state operations @ SRI::operator+=, SRI::permute, SRI::getState'], ['SRI', 'SRIFilter'],
 PBT + 'differential: sequential filter against batch normal equations')

prop('M06', 'Sparse vectors and matrices compute what dense ones compute',
 'For every vector and matrix with zero and non-zero elements, construction, element access and assignment, addition, subtraction, negation, scaling, dot and limited dot products, norm, cosine, sum, extremes, resizing, truncation, sub-vectors and sub-matrices, row and column exchange, transposition, concatenation and every product of SparseVector, SparseMatrix, Vector and Matrix agree with the same operation on dense values in any sequence, no zero is stored, and counts, isFilled and flatten match the non-zero elements; inverse, Cholesky factors, inverseLT, inverseViaCholesky and SparseHouseholder satisfy their defining equations; SrifMU with sparse or dense partials gives the information matrix and vector of the normal equations and keeps the sum of squares; inconsistent dimensions, singular or non positive definite input are refused.',
 'histories', 'Generated sparse patterns (empty rows, full rows, cancelling values), sequences of operations, linear systems with and without a priori information.',
 'Merging of index lists fails only for particular patterns.',
 [XG+'SparseMatrix.hpp', XG+'SparseVector.hpp'], ['sparse algebra @ SparseMatrix::operator*, SparseVector::operator+='], ['SparseMatrix', 'SparseVector'],
 PBT + 'differential against dense matrices')

# ---------------------------------------------------------------- geometry, identifiers, models
prop('G01', 'Position conversions between coordinate systems are mutually inverse',
 'For every position from 10 km below the ellipsoid to 50000 km above it and every ellipsoid model, Cartesian, geodetic, geocentric and spherical forms convert to each other and back to the same point to a millimetre (within a centimetre of the polar axis, to the distance from the axis), satisfy the closed formulas for geodetic to Cartesian, keep longitude in [0,360) and latitude in [-90,90]; asking for coordinates by any accessor gives the same values whatever the stored form; the set functions and the text made by printf and asString with delimited formats, read by setToString, round trip; invalid latitudes or negative radii are refused and leave the object unchanged; the constants of each ellipsoid are consistent with each other.',
 'inputs', 'Generated points including poles, equator, antimeridian, all ellipsoid models, heights from -10 km to 50000 km.',
 'Failures sit at poles, octant boundaries and for one source-target pair.',
 [GC+'Position.cpp', GC+'Position.hpp', GC+'EllipsoidModel.hpp'], ['transform @ Position::transformTo, convertGeodeticToCartesian', 'text @ Position::setToString, printf'], ['Position'],
 PBT + 'round trips and closed form reference')

prop('G02', 'Azimuth, elevation, range and local frames are geometrically right',
 'For every receiver and target, elevation, geodetic elevation, azimuth, geodetic azimuth and range from Position equal the angles and length of the vector expressed in an independently built local frame, and angles to the receiver itself are refused; ENU and NED utilities give the components of vectors, Triples and Xvts (position and velocity) in that frame and keep clock values; the radial-along-cross rotation is orthonormal with the defined axes; Triple dot, cross, magnitude, unit vector and rotations about the axes follow their definitions; getIonosphericPiercePoint for a receiver at the mean Earth radius lies at the requested height on the line of sight (within 0.6 m); curvature radii and the radius of the Earth match the ellipsoid.',
 'inputs', 'Generated receiver positions anywhere on Earth, target directions over the sphere, distances 1 m to 40000 km.',
 'Quadrant and pole errors need particular geometries.',
 [GC+'Position.cpp', MA+'Triple.cpp', 'ext/lib/GNSSCore/ENUUtil.cpp', 'ext/lib/GNSSCore/NEDUtil.cpp', MA+'RACRotation.cpp'], ['angles @ Position::elevation, azimuth, elevationGeodetic, azimuthGeodetic', 'frames @ ENUUtil::convertToENU, NEDUtil'], ['Position', 'Triple', 'ENUUtil', 'NEDUtil', 'RACRotation'],
 PBT + 'independent local frame construction')

prop('G03', 'Identifiers survive their text form and order consistently',
 'For every satellite, observation and navigation identifier: RinexSatID and SP3SatID text parses back to the same identifier and every valid text form (upper or lower case system letter, leading zero or blank) denotes the documented satellite, an unknown system letter is refused and a missing number gives an invalid identifier; every RINEX 3 observation code of every system, for versions 3.00 to 3.04, round trips through RinexObsID with its band, tracking code and type as in the RINEX tables (with the 3.02 BeiDou band letters), and RINEX 2 types map to the matching identifiers; identifiers defined with newID read back and defined ones are refused; SatID, ObsID and NavID equality and ordering are consistent and a strict weak order; NavID of a signal is the message that signal carries; the names of all enumerators (systems, bands, codes, observation and navigation types, frames, time systems) are distinct and read back, iteration visits each once.',
 'inputs', 'All systems and PRNs, all letters/digits observation codes for every system, all enumerators, generated malformed text.',
 'The code space is large and each entry is a separate table row.',
 [GC+'SatID.hpp', GC+'RinexSatID.hpp', GC+'RinexObsID.cpp', GC+'ObsID.cpp', GE+'SP3SatID.hpp', GE+'NavID.cpp'], ['satellite text @ RinexSatID::fromString', 'code text @ RinexObsID::asString, isValidRinexObsID', 'ordering @ ObsID::operator<, SatID::operator<'], ['RinexSatID', 'SP3SatID', 'RinexObsID', 'ObsID', 'NavID'],
 PBT + 'exhaustive enumeration and round trips against tables from the RINEX standard')

prop('G04', 'Tropospheric models compute the published delays and mappings',
 'For every weather, height, latitude, day and elevation, and whatever sequence of constructors and setters supplied them, the Simple, Goad-Goodman (with and without height), New Brunswick, Saastamoinen, GCAT, MOPS, Neill, Global and Zero models give the dry and wet zenith delays, mapping functions and correction of their published formulas for the values in force (the Saastamoinen seasonal and Global mapping tables included; the New Brunswick model has no southern phase and takes its weather when setWeather is called): the correction is the sum over dry and wet of zenith delay times mapping function, never grows with elevation, the mapping functions are 1 at the zenith, corrections are 0 below the horizon or the documented cutoff, the correction for two positions is the one for their elevation after setting the receiver, a model with missing input refuses, and weather that is impossible (below absolute zero, negative pressure, humidity outside its range, no source) is refused and leaves the model invalid until good weather comes (not claimed for the Saastamoinen model); MOPS gives its documented residual variance, the Global model the pressure, temperature and undulation of GPT and refuses heights it cannot use; a store of weather observations behaves as a sorted list (most recent, within an interval, interpolation, flush, first and last).',
 'inputs', 'All tropospheric models, generated weather, positions, days and elevations.',
 'The tests evaluate each model at a few points.',
 [GC+'TropModel.cpp', GC+'SaasTropModel.cpp', GC+'NBTropModel.cpp', GC+'NeillTropModel.cpp', GC+'GGTropModel.cpp', GC+'GGHeightTropModel.cpp', GC+'MOPSTropModel.cpp', GC+'GCATTropModel.cpp', GC+'GlobalTropModel.cpp', GC+'SimpleTropModel.cpp'], ['delay @ TropModel::correction, dry_zenith_delay', 'mapping @ dry_mapping_function, wet_mapping_function'], ['TropModel subclasses'],
 PBT + 'invariants and metamorphic relations over generated atmospheres')

prop('G05', 'The broadcast ionosphere model follows its specification',
 'For every alpha/beta set in either units, time, receiver, azimuth and elevation, IonoModel::getCorrection equals an independent implementation of the IS-GPS-200 Klobuchar algorithm, on L1 and scaled by the square of the frequency ratio on the other bands, also when built from an EngAlmanac; a model without valid parameters is refused; equality compares the parameters; and IonoModelStore holds models exactly as an ordered map does (a model is added unless invalid or the same as the one in force at its time, editing keeps those in the interval) and returns the model in force (latest not after the epoch) whatever the order models were added.',
 'histories', 'Generated coefficients, geometry, time of day; store histories of adds in any order, queries at, between and outside the epochs.',
 'Only particular local times and latitudes reach the clamps and the cosine branch.',
 [GC+'IonoModel.cpp', GC+'IonoModelStore.cpp'], ['delay @ IonoModel::getCorrection', 'selection @ IonoModelStore::getIonoModel'], ['IonoModel', 'IonoModelStore'],
 PBT + 'differential against an independent Klobuchar implementation; model-based store histories')

prop('G06', 'The SVN to PRN cross reference is a time-consistent relation',
 'For every PRN, SVN and time in the table, getPRN and getNAVSTAR invert each other, availability answers match whether a query succeeds, queries at interval ends count as inside, documented historical assignments through 2020 and block types are reported, and unassigned numbers are refused; SatMetaDataStore loaded from generated metadata answers findSat, findSatBySVN, findSatBySlotFdma, getSVN and getPRN exactly as a linear scan of the records (start included, end excluded) would for every satellite, system and time, and refuses bad records while keeping the others.',
 'inputs', 'All SVN and PRN, generated times clustered at interval ends; generated metadata files and queries.',
 'Intervals abut and overlap at particular instants only.',
 [GC+'SVNumXRef.cpp', GC+'SatMetaDataStore.cpp', GC+'SatMetaData.cpp'], ['lookup @ SVNumXRef::getNAVSTAR, getPRN', 'store @ SatMetaDataStore::findSat, loadData'], ['SVNumXRef', 'SatMetaDataStore'],
 PBT + 'mutual inverses and a linear-scan model over generated metadata')

prop('G07', 'Reference frame transformations are invertible similarity transforms',
 'For every Helmert transformation and position, transform equals its seven-parameter formula in every overload (Vector, Triple, Position, Xvt, with velocity rotated but not translated), inverseTransform undoes it to second order in the small angles, the result carries the target frame and the same clock, transforming with a mismatched frame or too short a vector is refused, the predefined set links the frames it names with its stated epochs, and reference frame names round trip for every frame.',
 'inputs', 'Generated Helmert parameters, positions, all predefined transforms and frames.',
 'Sign or order errors in one parameter need a general transform to appear.',
 ['core/lib/RefTime/HelmertTransform.cpp', 'core/lib/RefTime/HelmertTransform.hpp', 'core/lib/RefTime/ReferenceFrame.cpp'], ['transform @ HelmertTransform::transform, inverseTransform', 'names @ ReferenceFrame::asString'], ['HelmertTransform', 'ReferenceFrame'],
 PBT + 'inverse pairs and the seven parameter formula')

# ---------------------------------------------------------------- ephemerides
prop('E01', 'Broadcast Kepler ephemerides give the ICD orbit and clock',
 'For every set of broadcast elements of a plausible orbit and every time, position, velocity, clock bias, clock drift and relativity from OrbitEph, GPSEphemeris, GalEphemeris, BDSEphemeris (including the GEO rotation), QZSEphemeris, OrbElem, BrcKeplerOrbit, BrcClockCorrection, EngEphemeris and AlmOrbit equal an independent implementation of the interface specification (to mm and 1e-6 m/s scale), velocity is the derivative of position, the sign and week-rollover handling of time from epoch is right, and the fit interval is honoured by isValid.',
 'inputs', 'Generated orbital elements (eccentricity 0 to 0.3, all angles, both rates), clock polynomials, times on either side of the epoch and across week boundaries.',
 'Tests compare with one or two stored results; an error in a seldom dominant term or quadrant stays below their tolerance or outside their sample.',
 [GE+'OrbitEph.cpp', GE+'GPSEphemeris.cpp', GE+'BDSEphemeris.cpp', GE+'GalEphemeris.cpp', GE+'OrbElem.cpp', GE+'BrcKeplerOrbit.cpp', GE+'BrcClockCorrection.cpp', GE+'EngEphemeris.cpp', GE+'AlmOrbit.cpp'], ['orbit @ OrbitEph::svXvt, OrbElem::svXvt, BrcKeplerOrbit::svXvt, EngEphemeris::svXvt, AlmOrbit::svXvt', 'clock @ svClockBias, svClockDrift, svRelativity'], ['svXvt', 'svClockBias'],
 PBT + 'differential against an independent ICD implementation')

prop('E02', 'GLONASS ephemerides integrate the ICD equations of motion',
 'For every GLONASS state vector of a plausible orbit, every integration step from 1 to 60 s and every time within 15 minutes of the epoch, svXvt of GloEphemeris equals an independent integration of the ICD equations in the rotating frame (J2, Earth rotation, lunisolar acceleration; to better than a millimetre for small steps), gives the broadcast state at its epoch, returns to it when integrated back, has velocity equal to the derivative of position, and its clock bias and drift are the broadcast polynomial less the relativistic correction; times outside the validity are refused; for every history of adding, editing and clearing records at least 30 minutes apart, GloEphemerisStore returns the record within 15 minutes of the time (using its integration step and refusing unhealthy records if asked), refuses other times, other time systems and satellites, and its times, sizes, lists and presence tests describe the content.',
 'inputs', 'Generated GLONASS states, step sizes, times within 30 minutes of the epoch; store histories.',
 'The integration is sampled at a couple of epochs by tests.',
 [GE+'GloEphemeris.cpp', GE+'GloEphemerisStore.cpp'], ['integration @ GloEphemeris::svXvt, derivative', 'selection @ GloEphemerisStore::getXvt, findEphemeris'], ['GloEphemeris', 'GloEphemerisStore'],
 PBT + 'differential against an independent integrator; store model')

prop('E03', 'Ephemeris stores return the ephemeris a full scan would choose',
 'For every history of added broadcast data sets of realistic timelines (any order, duplicates, several satellites and systems, gaps, uploads before the regular cutover) and every query, OrbitEphStore and its GPS, Galileo, BeiDou and QZSS forms, OrbElemStore and GPSOrbElemStore, Rinex3EphemerisStore and GPSAlmanacStore find by the user and near strategies exactly the data set that scanning all records by the documented rule selects, getXvt equals the own svXvt of that record, times without valid data and unhealthy satellites (when asked to check) are refused, initial and final times (of the store and of each satellite), size, lists and presence tests describe the content, rationalize corrects the begin of validity of uploads as documented, edit removes exactly what lies outside the given interval, and clear empties the store.',
 'histories', 'Generated sequences of add, edit, clear and queries over generated ephemerides with clustered transmit and reference times.',
 'The selection depends on the whole content and order of insertion.',
 [GE+'OrbitEphStore.cpp', GE+'GPSEphemerisStore.cpp', GE+'OrbElemStore.cpp', GE+'Rinex3EphemerisStore.cpp', XE+'GPSAlmanacStore.cpp'], ['selection @ OrbitEphStore::findUserOrbitEph, findNearOrbitEph', 'content @ OrbitEphStore::addEphemeris, edit'], ['OrbitEphStore', 'GPSEphemerisStore', 'OrbElemStore'],
 PBT + 'stateful: store histories against a list-scan model')

prop('E04', 'Tabular precise ephemeris stores interpolate the table they hold',
 'For every table of positions or clocks (any spacing, gaps, order of insertion, with or without velocity, drift and acceleration data) and every query, PositionSatStore and ClockSatStore return the record of the table at its epochs and between them the value of the polynomial through the interpolation order\'s records centered on the time (the line through two for linear clock interpolation), with velocity, drift or acceleration interpolated when loaded and otherwise the derivative of that polynomial, and with the root sum square of the sigmas of the two nearest records; they refuse exactly the times without enough records on both sides, across a gap or over an interval longer than configured; their counts, times, satellites, time step, flags, editing and clearing describe the content; getTableInterval and getNonCenteredTableInterval choose the documented window; an SP3EphemerisStore loaded from an SP3c or SP3d file holds the records that its reject options keep, and gives Xvt in m, m/s and s.',
 'histories', 'Generated tables (spacing, gaps, missing records, several satellites, orders 4 to 16), settings, queries at nodes, between them and near gaps and ends; generated SP3 files with bad and predicted records.',
 'Window selection at edges and gaps needs particular times.',
 [GE+'PositionSatStore.cpp', GE+'ClockSatStore.cpp', GE+'SP3EphemerisStore.cpp', GE+'TabularSatStore.hpp', XE+'RinexClockStore.hpp'], ['window @ TabularSatStore::getTableInterval', 'interpolation @ PositionSatStore::getValue, ClockSatStore::getValue'], ['PositionSatStore', 'ClockSatStore', 'SP3EphemerisStore'],
 PBT + 'stateful tables sampled from known trajectories; window selection model')

prop('E05', 'Packed navigation bits return what was packed',
 'For every sequence of fields (unsigned, signed, unsigned and signed doubles, semicircles, split fields, strings, long) added to PackedNavBits, reading each back from its bit position gives the value to the field\'s quantisation, the packed bits equal an independent bit string, insertion and trimming, copyBits, rawBitInput and text output describe the same bits, comparison with and without bit ranges is bitwise equality, and values that do not fit the field are refused.',
 'histories', 'Generated lists of field widths 1 to 64 (1 to 52 for fields given as doubles), scale powers, positions and values including extremes.',
 'Word straddling and sign extension depend on widths and positions.',
 [GE+'PackedNavBits.cpp', GE+'PackedNavBits.hpp'], ['packing @ PackedNavBits::addUnsignedLong, addSignedLong, addSignedDouble', 'unpacking @ PackedNavBits::asUnsignedLong, asLong, asSignedDouble, asDouble'], ['PackedNavBits'],
 PBT + 'stateful packing against an independent bit string')

prop('E06', 'Legacy navigation words, subframes and almanac are decoded as IS-GPS-200 says',
 'For the GPS legacy navigation message: EngNav::computeParity, fixParity, checkParity and subframeParity follow the parity equations of IS-GPS-200 (upright and as-transmitted words, non-information bits solved so that bits 29 and 30 are zero), and one to three wrong bits in one word of a subframe are always found. The HOW accessors give the TOW, time and subframe ID. getSubframePattern and subframeConvert (from uint32_t and from long words, with no other call needed first) give for each of the ten subframe/page patterns every field with its bits, sign and scale factor, and full weeks nearest to the week given. zcount2page, sfpage2svid and sv2page follow the page sequence of the frame, convert8bit/convert10bit/convertXBit give the nearest full week, and getNMCTValidity the validity time from AODO and toe, also across the end of the week. After any history of addSubframe calls EngAlmanac holds the content of the last good page of each kind: the almanac of each PRN, health, configuration, ionosphere and UTC pages; subframes with a wrong preamble or of subframes 1-3 are refused and leave it as it was, and what was never received is refused by every accessor.',
 'inputs', 'random data bits, bit errors, page sequences and histories',
 'Each field and parity bit has its own mask and scale.',
 [GE+'EngNav.cpp', GE+'EngEphemeris.cpp', GE+'EngAlmanac.cpp'], ['parity @ EngNav::computeParity, subframeParity', 'decode @ EngNav::subframeConvert, convertQuant'], ['EngNav', 'EngEphemeris', 'EngAlmanac'],
 PBT + 'independent encoder of the ICD tables; bit error injection')

prop('E07', 'Navigation message filters follow their rule and lose no message',
 'Each GPS legacy and CNAV message filter splits the messages given to it, in order and unchanged, into accepted and rejected by its documented rule: LNavParity, LNavEmpty (all zero, or subframe 4/5 with alternating bits in words 3-10), LNavTLMHOW, LNavAlmVal; CNavParity (CRC-24Q), CNavEmpty, CNavTOW, CNav2Sanity (TOI, ITOW, week, PRN and page against the transmit time). The cook filters bring a subframe to upright form, however it was received. The cross-source filters accept, per epoch and PRN, all copies of one content with the most votes (two of at least three for LNAV, minIdentical for CNAV) and nothing else, one epoch late. The order filters give messages in time order, reject those older than their depth, and hold the rest until they are that old. LNavEphMaker gives an ephemeris when the last subframes 1, 2, 3 of one source have consecutive TOWs and the same IODE/IODC. NavFilterMgr, for any chain of filters and any history of validate and finalize calls, gives every message exactly once, accepted or in the rejected list of a filter that it names. NavMsgDataBits, NavMsgDataWords and NavMsgDataPNB give the same bits for any field of up to 32 bits.',
 'histories', 'subframes with and without parity errors, inversions, empty content; histories of messages over epochs, sources and filter chains',
 'Filters with state (order, cross source) depend on the history.',
 ['core/lib/NavFilter/NavFilterMgr.cpp', 'core/lib/NavFilter/LNavParityFilter.cpp', 'core/lib/NavFilter/LNavCookFilter.cpp', 'core/lib/NavFilter/LNavCrossSourceFilter.cpp', 'core/lib/NavFilter/NavOrderFilter.cpp'], ['filters @ validate in each NavFilter', 'manager @ NavFilterMgr::validate, finalize'], ['NavFilterMgr', 'NavFilter subclasses'],
 PBT + 'stateful streams against per-filter reference predicates')

prop('E08', 'Decoded navigation objects agree with the bits they came from',
 'For every generated LNAV and CNAV data set packed by an independent encoder, the ephemeris, almanac, UTC, ionosphere, and Earth orientation objects (CNAV message types and OrbDataSys and OrbAlm factories) report the values that were encoded, to the quantisation, with the right reference and effective times, reject invalid or empty data, and their stores answer queries as a scan would.',
 'inputs', 'Generated field values for each message type and page.',
 'Each field has its own offset and scale; tests decode a few recorded messages.',
 [XE+'OrbSysGpsL_56.cpp', XE+'OrbSysGpsL_55.cpp', XE+'OrbSysGpsC_30.cpp', XE+'OrbSysGpsC_32.cpp', XE+'OrbSysGpsC_33.cpp', XE+'OrbDataSysFactory.cpp', XE+'OrbAlmFactory.cpp', XE+'OrbAlmGen.cpp'], ['decode @ loadData in each OrbSys class', 'factory @ OrbDataSysFactory::createOrbDataSys'], ['OrbDataSysFactory', 'OrbAlmFactory'],
 PBT + 'independent encoder, decode and compare')

prop('E09', 'URA, accuracy and fit interval tables are consistent',
 'For every index and accuracy the legacy, nominal and CNAV URA conversions equal the tables of IS-GPS-200, are monotone, the accuracy lies in the range of its index, index to accuracy to index is the identity, legacy indices outside 0 to 15 give the ends of the table and CNAV indices outside -15 to 15 are refused, also through GPSEphemeris, BrcKeplerOrbit and BrcClockCorrection; the fit interval from IODC and flag (getLegacyFitInterval, EngEphemeris, GPSEphemeris, QZSEphemeris) equals the ICD table for every IODC.',
 'inputs', 'All indices, all IODC values, generated accuracies clustered at table limits.',
 'Tables have many boundaries.',
 [GE+'GPS_URA.hpp', 'core/lib/GNSSCore/GNSSconstants.hpp', GE+'EngEphemeris.cpp', GE+'GPSEphemeris.cpp'], ['tables @ gpstk::ura2accuracy, accuracy2ura, getLegacyFitInterval, EngEphemeris::getFitInterval'], ['GPS_URA', 'EngEphemeris'],
 PBT + 'exhaustive indices, generated accuracies, ICD tables as reference')

# ---------------------------------------------------------------- files
prop('F01', 'RINEX observation files survive writing and reading',
 'For every valid RINEX 2.0, 2.1, 2.11 and 3.00 to 3.04 observation file, Rinex3ObsStream reads (and for version 2 RinexObsStream too) the header records and epochs the text states: all header fields, observation types and their RINEX 3 identifiers, times in the time system of the file, satellites, values to the three decimals of the format, loss-of-lock and signal-strength flags, missing values, event epochs with their inline header records, clock offsets, continuation lines for many satellites, types or comments; writing what was read and reading it again gives the same header and epochs, writing a second time gives the identical text, the RINEX 3 data section is written as it was read, header lines keep their 80 columns, and the predicted number of header records is the number written.',
 'inputs', 'Generated headers (optional records, many observation types) and epochs (up to 40 satellites, many types, gaps, events).',
 'Continuation and wrap logic depend on counts; tests use a few recorded files.',
 [FH+'RINEX3/Rinex3ObsHeader.cpp', FH+'RINEX3/Rinex3ObsData.cpp', FH+'RINEX/RinexObsHeader.cpp', FH+'RINEX/RinexObsData.cpp'], ['header @ Rinex3ObsHeader::reallyPutRecord, reallyGetRecord', 'data @ Rinex3ObsData::reallyPutRecord, reallyGetRecord, RinexObsData'], ['Rinex3ObsStream', 'RinexObsStream'],
 PBT + 'write/read round trip with an independent field comparison')

prop('F02', 'RINEX navigation files survive writing and reading',
 'For every valid RINEX 2 (GPS, GLONASS, SBAS) and RINEX 3 (GPS, GLONASS, Galileo, BeiDou, QZSS, SBAS, mixed) navigation file, reading gives every value of the header (ionospheric and time system corrections, leap seconds, comments) and of the records that the columns state, with the epoch in the time system of the satellite and the week counted at transmission; writing what was read and reading again gives the same content to the printed digits, writing again the same text; an unknown transmission time stays unknown; a header or record object used before keeps nothing of the earlier content; the RINEX 2 and the RINEX 3 classes read the same GPS file alike and convert; conversion to GPSEphemeris, GalEphemeris, BDSEphemeris, QZSEphemeris and GloEphemeris keeps satellite, clock and orbit elements, epochs, transmission week and second (GPS: the nominal one when the epoch is on the hour) and derives Galileo health from the health bits, and conversion back gives the record again.',
 'inputs', 'Generated headers and records with values over the full printed range, spellings of numbers in use, missing trailing fields, times across week boundaries.',
 'Exponent and week handling break for few values.',
 [FH+'RINEX3/Rinex3NavData.cpp', FH+'RINEX3/Rinex3NavHeader.cpp', FH+'RINEX/RinexNavData.cpp', FH+'RINEX/RinexNavHeader.cpp'], ['nav records @ Rinex3NavData::reallyPutRecord, reallyGetRecord', 'conversion @ Rinex3NavData::operator GPSEphemeris, castTo, loadFrom'], ['Rinex3NavStream', 'RinexNavStream', 'Rinex3NavData', 'RinexNavData'],
 PBT + 'files generated as text with their content as model, read, written, read again')

prop('F03', 'SP3, met and almanac files survive writing and reading',
 'For every valid SP3 (a, b, c, d), RINEX met (2.x and 3.00), SEM and Yuma content, writing and reading back gives the same header and records to the printed digits, and writing what was read gives the same file; the text has the columns of the format documents; satellites, epochs, flags, correlations and accuracy codes are kept; a missing end-of-file line loses no record, and a header object used again keeps nothing of the file before. Content a format cannot hold and defective files (wrong record, truncated, bad numbers) are refused. SEM and Yuma weeks are resolved across week rollovers, the almanac records give orbits and clocks of the IS-GPS-200 almanac algorithm, and met headers compare by the fields asked for.',
 'inputs', 'Generated headers and records within the fixed-column limits.',
 'Column limits and optional fields combine freely.',
 [FH+'SP3/SP3Header.cpp', FH+'SP3/SP3Data.cpp', FH+'RINEX3/Rinex3ClockData.cpp', FH+'RINEX/RinexMetData.cpp', 'ext/lib/FileHandling/SEM/SEMData.cpp', 'ext/lib/FileHandling/Yuma/YumaData.cpp'], ['records @ reallyPutRecord, reallyGetRecord of each class'], ['SP3Stream', 'RinexMetStream', 'SEMStream', 'YumaStream'],
 PBT + 'write/read round trip')

prop('F04', 'BINEX numbers, messages and records survive writing and reading',
 'BINEX integers (UBNXI) and length numbers (MGFZI) equal the format in both byte orders over their whole range, with any offset in the buffer, through streams and with their bytes reversed, and values out of range are refused. A record message behaves as a byte string: any sequence of updates and extractions of integers, reals, strings and bytes gives what the same operations on a byte string give. Records of messages below 1 MiB with any flags (byte order, enhanced checksum, reverse readability) are framed as the format document says, have the sizes it gives, are read back equal from a mixed file forward and, when reversible, backward; and a record with one changed byte in message or checksum, or cut short, is refused.',
 'inputs', 'Generated numbers around every size class, operation histories, records of every flag and size class, mixed files, one-byte changes and truncations.',
 'Size classes and checksum forms are selected by length.',
 [FH+'Binex/BinexData.cpp', FH+'Binex/BinexData.hpp'], ['binex @ BinexData::putRecord, getRecord, UBNXI, MGFZI'], ['BinexStream', 'BinexData'],
 PBT + 'write/read round trip and byte corruption')

prop('F05', 'Damaged input files are refused or read, never a crash or a hang',
 'For every file obtained by damaging a valid RINEX 2 or 3 observation, navigation, meteorological or clock file, SP3, SEM, Yuma, IONEX, ANTEX, SINEX or BINEX file, ocean or atmospheric loading table or Earth orientation file (numbers, characters, lines and labels changed, removed, repeated, exchanged or cut off), with stream exceptions on or off: reading it record by record, or loading it into the store that takes such files, ends, accesses no memory outside its objects, throws nothing but gpstk::Exception (or the stream failure the caller asked for), yields no more records than the file has bytes, and every header and record that it yields can be printed.',
 'faults', '29 valid seed files damaged by one or many edits of fields, characters, columns, lines and labels, truncation and line ends; BINEX bytes flipped, inserted, removed.',
 'Parsers index fixed columns of lines whose length the input decides.',
 [FH+'RINEX3/Rinex3ObsHeader.cpp', FH+'RINEX/RinexObsData.cpp', FH+'SP3/SP3Data.cpp', FH+'Binex/BinexData.cpp', 'core/lib/FileHandling/FFTextStream.cpp'], ['line reading @ FFTextStream::formattedGetLine', 'record reading @ FFStream::tryFFStreamGet'], ['FFStream subclasses'],
 PBT + 'structure-aware mutation fuzzing under AddressSanitizer and UBSan')

prop('F06', 'Record streams and record lists behave as their sequence model',
 'Record streams: a record that cannot be read puts the stream back to its beginning, reports the failure through the state (and an exception exactly when the failbit exceptions are enabled) and keeps record and line numbers; end of file ends the sequence; text and binary (both byte orders) written are read back. Record lists: FileFilter operations (filter, sort, unique, merge, difference, touch, half difference, intersection) give what the same operation on a plain list gives; FileFilterFrame loads and writes the records of its files in order, headers merge as sets; record comparison operators are strict weak orders; FileStore keeps a header per file name.',
 'histories', 'Generated record files with good, bad and truncated records, stream modes, record lists with duplicates, histories of list operations, record pairs and triples for the comparison operators.',
 'Iterator handling fails only for particular duplicates and adjacent matches.',
 ['core/lib/FileDirProc/FileFilter.hpp', 'core/lib/FileDirProc/FileFilterFrame.hpp'], ['operations @ FileFilter::filter, unique, merge, diff, halfDiff'], ['FileFilter'],
 PBT + 'stateful against list operations')

prop('F07', 'File specifications and file search match names by their pattern',
 'For every file specification and field values, FileSpec::toString, extractField, createSearchString, hasField and extractCommonTime are consistent with each other: names made from values give the values back, search strings match the names, unspecified fields stay as tokens, unknown tokens are refused, newSpec gives what a fresh object gives. sortList orders names by the fields of the file-name part, ascending or descending, and keeps only the latest version of a name. For every generated directory tree FileSpecFind lists exactly the existing files that match the pattern whose time truncated to the specification is within the requested range, with the filters and widths of the search; and FileHunter (specifications without version fields) finds exactly the files that match the pattern, the chunk of the time range and the filters, sorted by the fields of the last level, and refuses an end before the start.',
 'inputs', 'Generated specifications, values and directory trees in a scratch folder.',
 'Field adjacency and widths combine freely.',
 ['core/lib/FileDirProc/FileSpec.cpp', 'core/lib/FileDirProc/FileHunter.cpp', 'core/lib/FileDirProc/FileSpecFind.cpp'], ['pattern @ FileSpec::toString, extractField', 'search @ FileHunter::find, FileSpecFind::find'], ['FileSpec', 'FileHunter', 'FileSpecFind'],
 PBT + 'generated directory trees against a listing model')

# ---------------------------------------------------------------- positioning
prop('S01', 'The position solution recovers the true position from exact data',
 'For every receiver near the Earth, clock offset per system and geometry of 4 to 14 satellites that is not near singular, pseudoranges computed from known geometry (satellite motion and clock, Earth rotation, troposphere) give back position and clocks through PRSolution at the millimetre scale. For noisy data the solution, covariance, residuals, RMS and slopes are those of the (weighted) least squares of the satellites used, the dilutions of precision follow from the covariance, RAIM rejects the fewest satellites for which some choice has a residual below the limit and then the choice of smallest residual, satellites without ephemeris, marked, or of systems not allowed are ignored and marked, the memory holds the last solution and the averages over epochs, and too few satellites, empty or inconsistent input is refused with the documented code and an invalid result. PRSolutionLegacy does the same for GPS, and one of the two solutions of Bancroft is exact for exact ranges.',
 'inputs', 'Generated receivers, satellite sets of 1 to 3 systems, clock offsets, outliers and troposphere models.',
 'Convergence, exclusion and multi-system bookkeeping depend on geometry.',
 ['core/lib/PosSol/PRSolution.cpp', 'ext/lib/PosSol/Bancroft.cpp', 'ext/lib/PosSol/PRSolutionLegacy.cpp'], ['solution @ PRSolution::SimplePRSolution, RAIMCompute'], ['PRSolution', 'Bancroft'],
 PBT + 'inverse problem: simulate exact ranges, solve, compare')

prop('S02', 'Observed range deviations and clock models follow their definitions',
 'For every receiver position, pseudorange, instant and ephemeris, the ranges of the ord functions, CorrectedEphemerisRange and Xvt::preciseRho equal an independent solution of the light time equation with the rotation of the Earth, satellite clock and relativity; ObsRngDev is observed minus computed range with troposphere and one or two frequency ionosphere as documented; EpochClockModel and LinearClockModel use exactly the deviations that their elevation, health and outlier rules admit and report the mean, deviation, offset, slope and validity of those, and a deviation set corrected with them changes by exactly the clock offset.',
 'inputs', 'Generated geometry, weather, clocks and deviation sets with outliers.',
 'Tests use one recorded data set.',
 ['core/lib/ORD/ord.cpp', 'core/lib/ClockModel/ObsRngDev.cpp', 'core/lib/ClockModel/ObsClockModel.cpp', 'core/lib/ClockModel/EpochClockModel.hpp'], ['ORD @ ObsRngDev::computeOrd, ord::calculate_ord', 'clock @ ObsClockModel::simpleOrdClock'], ['ObsRngDev', 'ObsClockModel', 'gpstk::ord'],
 PBT + 'independent range computation and batch statistics')

prop('S03', 'Phase discontinuity correction finds and repairs inserted slips',
 'For every continuous dual frequency pass of realistic noise-free or low-noise data, the discontinuity corrector reports no slip, and when integer cycle slips well above the thresholds are inserted it reports segments starting at the right epochs and returns data that is continuous to the input\'s integer cycles, without changing data where there is no slip; data gaps split arcs as documented.',
 'inputs', 'Generated passes (range, ionosphere, noise), slip sizes and epochs, gaps.',
 'Detection depends on slip size, position in the pass and gaps.',
 [XG+'DiscCorr.cpp', XG+'SatPass.cpp'], ['discontinuity @ DiscontinuityCorrector'], ['DiscontinuityCorrector'],
 PBT + 'fault injection: insert slips into generated passes, check the report')

# ---------------------------------------------------------------- others
prop('A01', 'Command lines are parsed, checked and reported as declared',
 'For every set of declared options and every argument list, CommandOptionParser follows the GNU conventions (options end at the first other word or at --, clusters of short options, joined, separate and = arguments, full or unambiguously shortened long names), gives each option the count, values and order of its uses, reports exactly the errors there are (unknown option, missing or unexpected argument, excess arguments, required option absent, too many uses, number, decimal, alphabetic, time and position formats), and applies mutual exclusion, one-of, n-of, all-of, dependent and group conditions; help and usage text show the declared options in order; invalid declarations are refused. The application frames run their steps in order and return the exit codes they promise. The older CommandLine class sets boolean, toggle, integer, real, text and satellite targets and lists, expands @files, comma lists and option files, and returns the unrecognised arguments, errors, usage and configuration text that follow from the arguments; invalid definitions are refused.',
 'inputs', 'Generated option declarations and command lines.',
 'Combinations of options interact.',
 ['core/lib/CommandLine/CommandOptionParser.cpp', 'core/lib/CommandLine/CommandOption.cpp'], ['parsing @ CommandOptionParser::parseOptions', 'checks @ CommandOption::checkArguments'], ['CommandOptionParser', 'CommandOption'],
 PBT + 'differential against a reference parser')

prop('A02', 'The conversion applications print what their input means',
 'timeconvert accepts a time in each of its twelve forms or by an input format, adds and subtracts offsets, and prints, in any output format or its table, the calendar, day, week, Z-count and Unix values of that time; timediff prints the first minus the second of two times in any forms; poscvt converts between ECEF, geodetic, geocentric and spherical positions on the WGS 84 ellipsoid in any output format or its table; calgps prints the calendar of the requested months with GPS weeks and days of year. All exit with status 0 then, whatever the order and spelling of the options, and refuse missing, contradictory, incomplete or unknown arguments with a message and a nonzero status.',
 'inputs', 'Generated command lines: times from 1859 to 2399 in every form, offsets, positions, months, formats, malformed arguments.',
 'The tests run a few command lines.',
 ['core/apps/time/timeconvert.cpp', 'core/apps/time/timediff.cpp', 'core/apps/time/calgps.cpp', 'core/apps/positioning/poscvt.cpp'], ['applications @ process in each program'], ['stdout', 'exit status'],
 PBT + 'generated command lines against an independent computation')

prop('A03', 'The merge, difference and check tools lose and invent nothing',
 'mergeRinObs, mergeRinMet and mergeRinNav write, for any set of RINEX 2 files of one station, one record for each epoch (each distinct navigation record) of the inputs, in time order, with the observation types common to all files and all comments, each record being one of those given for that epoch, whatever the order of the arguments. rowdiff, rmwdiff and rnwdiff exit 0 when the files hold the same records within the time range asked for and 1 otherwise, and then print one line for each differing satellite or record, marked as in the first, in the second or both, with the differences of the values. rowcheck, rnwcheck and rmwcheck count the records of good files and report bad ones. Missing or contradictory arguments and missing files are refused with a message and a nonzero status.',
 'inputs', 'Generated RINEX 2 observation (GPS and mixed), navigation and met files with overlapping, duplicate, conflicting and disjoint records, differing types, time ranges, spoilt files.',
 'Tests merge two recorded files.',
 ['core/apps/mergetools/mergeRinObs.cpp', 'core/apps/mergetools/mergeRinNav.cpp', 'core/apps/mergetools/mergeRinMet.cpp', 'core/apps/difftools/rowdiff.cpp', 'core/apps/difftools/rnwdiff.cpp', 'core/apps/difftools/rmwdiff.cpp', 'core/apps/checktools/CheckFrame.hpp', 'core/lib/FileDirProc/FileFilter.hpp'], ['merge @ mergeRinObs, mergeRinNav, mergeRinMet'], ['output files', 'exit status'],
 PBT + 'generated files against a union model')

prop('C01', 'P-code generation equals the shift register definition',
 'The X1A/X1B/X2A/X2B shift registers, the X1 and X2 sequence words (including register resets, holds and the end of week behaviour) and the six seconds of P-code that the generator returns equal those of a bit-serial shift register implementation of IS-GPS-200, for PRN 1 to 210 and every six second interval of a week; a generator constructed at any time starts at the preceding multiple of 4 Z-counts, incrementing it equals setting it to the later time, and code buffers return, copy, combine and index exactly the bits put in.',
 'histories', 'Generated PRN, Z-counts (including begin and end of week), numbers of steps, buffer contents and bit offsets.',
 'The tests do not cover the generator.',
 ['ext/lib/CodeGen/SVPCodeGen.cpp', 'ext/lib/CodeGen/X1Sequence.cpp', 'ext/lib/CodeGen/X2Sequence.cpp', 'ext/lib/CodeGen/CodeBuffer.cpp'], ['code @ SVPCodeGen::getCurrentSixSeconds', 'registers @ X2Sequence, GenXSequence'], ['SVPCodeGen', 'CodeBuffer'],
 PBT + 'differential against a bit-serial shift register model')

prop('X01', 'Earth orientation, EOP store, sun and moon follow the published models',
 'For every time in UTC or TT, fundamental arguments, obliquity, centuries since J2000, mean and apparent sidereal time of the IERS 1996, 2003 and 2010 conventions equal the published formulas (nutation to the precision of its largest terms), and restoring the tides adds the same correction whatever UT1-UTC is; polar motion, precession, nutation and ECEF to inertial matrices are rotations, follow the published angles, compose to the full transformation, and the conventions agree with each other; the EOP store behaves as a map by day whose values are interpolated between four neighbouring days, EOP files give the values written in them; positions of the sun and the moon of both implementations agree with independent theories to their stated accuracy from 1900 to 2100, and the covered fraction of the sun is that of two overlapping circles.',
 'inputs', 'Generated times (biased to noon, midnight and J2000) in two time systems, EOP values, histories of EOP store operations, IERS and NGA files, radii and separations.',
 'Tests compare a few epochs with SOFA output.',
 [XG+'EarthOrientation.cpp', XG+'EOPStore.cpp', XG+'SolarPosition.cpp', 'ext/lib/AstroEph/SunPosition.cpp', 'ext/lib/AstroEph/MoonPosition.cpp'], ['rotation @ EarthOrientation::ECEFtoInertial, preciseEarthRotation', 'EOP @ EOPStore::getEOP'], ['EarthOrientation', 'EOPStore', 'SolarPosition'],
 PBT + 'invariants of rotations, cross-model agreement')

prop('P01', 'The Python bindings expose the same behaviour as the C++ library',
 'For every value passed through the SWIG bindings, the Python result equals the C++ result and C++ exceptions arrive as Python exceptions.',
 'inputs', 'Generated calls through the Python module.',
 'Type maps are per-signature.',
 ['swig/gpstk.i' if os.path.exists('/repo/swig/gpstk.i') else 'swig/gpstk_py.i'], ['type maps @ swig interface files'], ['import gpstk'], '', '',
 na='A check would have to regenerate and compile the SWIG module (one very large translation unit, and the swig tool with Python headers) from the working tree on every run; the generated-input checks of the C++ classes behind it decide the behaviour instead. The family could apply; the build cost per run is what rules it out.')
