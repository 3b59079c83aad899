P = []


def prop(**k):
    P.append(k)


ARITH_EXACT = '''Exact machine integers and IEEE double semantics.'''
REAL = '''Double arithmetic is treated as real arithmetic in these proofs (rounding is not covered); integers are exact.'''

MV = 'core/lib/Math/'
GE = 'core/lib/GNSSEph/'
prop(id='C01', title='Julian day and civil calendar are inverse and follow the historical calendar',
     statement='''Every Julian day number of the supported span converts to the civil date of the historical calendar
     (Julian until 4 October 1582, Gregorian from 15 October 1582, no year 0), and every valid civil date converts to its
     Julian day number.''',
     forall='every Julian day 0..3442447 and every valid civil date of years -4713..4713',
     why='''Tests sample a few dozen dates; leap-century, calendar-reform and negative-year boundaries over seven thousand
     years are not enumerated.''',
     files=['core/lib/TimeHandling/TimeConverters.cpp'],
     mech=[('convertJDtoCalendar / convertCalendarToJD', 'core/lib/TimeHandling/TimeConverters.cpp')],
     note='''Both directions proved for all days and dates against an independent closed-form calendar. Integers exact;
     the floating-point intermediate steps are proved in real arithmetic.''')

prop(id='C12', title='GPS LNAV parity is computed, repaired and checked as the ICD defines it',
     statement='''The parity of every 30-bit navigation word is the IS-GPS-200 parity of its source data; a repaired word
     passes that parity with its information bits unchanged (and zero in its last two bits when the non-information bits are
     solved for); a subframe is accepted exactly when all ten words pass, so any one to three bit error in a word is rejected.''',
     forall='every word, previous word, polarity assumption, ten-word subframe and error pattern of up to three bits',
     why='''2^60 word pairs and their error patterns; tests try a handful of recorded subframes that all have the same polarity.''',
     files=['core/lib/GNSSEph/EngNav.cpp', 'core/lib/GNSSEph/EngNav.hpp', 'core/lib/Utilities/BinUtils.cpp'],
     mech=[('computeParity, fixParity, checkParity, subframeParity', 'core/lib/GNSSEph/EngNav.cpp'),
           ('countBits', 'core/lib/Utilities/BinUtils.hpp')],
     note='''All obligations discharged bit-precisely for all words. The ICD equations are restated independently in
     contracts/spec_lnav.h. Trusts the VC generator and solvers.''')

prop(id='C14', title='GPS LNAV subframes decode to the quantities the ICD defines',
     statement='''Every quantity of a decoded GPS LNAV subframe (clock, ephemeris, almanac, ionosphere/UTC, configuration, text)
     equals its ICD bit field, sign-extended where signed, times its ICD scale factor, in the documented output slot; truncated
     week numbers become the nearest full week; subframe layout, page and SV/page id tables agree with the ICD for every id,
     page and handover word.''',
     forall='every ten-word subframe of each layout, every reference week, every SV/page id, page number and time of week',
     why='''Tests decode a few recorded subframes; sign bits, split fields, page ids and week roll-overs that do not occur in the
     recordings are never exercised.''',
     files=['core/lib/GNSSEph/EngNav.cpp', 'core/lib/GNSSEph/EngNav.hpp'],
     mech=[('format tables and convertQuant', 'core/lib/GNSSEph/EngNav.cpp'), ('convertXBit', 'core/lib/GNSSEph/EngNav.cpp'),
           ('getSubframePattern, sv2page, sfpage2svid, zcount2page', 'core/lib/GNSSEph/EngNav.cpp')],
     note='''Field extraction bit-precise for all words; scaling proved in real arithmetic. Reserved pages (layouts 6, 7) are
     covered only for the layout decision.''')

prop(id='C13', title='Packed navigation bit fields read back exactly what was appended',
     statement='''Appending an N-bit value (N = 1..64) at any position writes exactly its low N bits, most significant first, grows
     the store as needed and changes no other bit; reading a field gives exactly its bits, and a field that is not all
     there is rejected. The typed readers (unsigned, two's complement, sign-magnitude, split, scaled, semi-circle) return the
     defined value of that field. The typed writers append the scaled integer (rounded to nearest for doubles), or, exactly when it does not fit the
     width (up to 53 bits), raise an error and append nothing.''',
     forall='every bit store, position, width, value, scale and power of two (within the stated widths)',
     why='''Tests pack a few fields at a few offsets; widths, offsets, most negative values and values just outside the range are not
     enumerated.''',
     files=['core/lib/GNSSEph/PackedNavBits.cpp'],
     mech=[('addUint64_t, asUint64_t', 'core/lib/GNSSEph/PackedNavBits.cpp'), ('typed as*/add* functions, SignExtend, ScaleValue', 'core/lib/GNSSEph/PackedNavBits.cpp')],
     note='''std::vector<bool> is represented by an assumed contract (contracts/vp_bitvector.h). asUint64_t/addUint64_t/SignExtend/ScaleValue are proved and
     then used through their contracts. Stores up to 2^20 bits. ScaleValue rounding is proved in real arithmetic. Writer widths above 53 bits
     are outside the statement (their limit test is computed in double).''')

TIME = 'core/lib/TimeHandling/'
prop(id='C02', title='Seconds of day and hour, minute, second convert into each other',
     statement='''Any number of seconds of day (also negative, or days beyond one) converts to the hour 0..23, minute 0..59 and second
     [0,60) that lie the same time after midnight modulo whole days, and any hour, minute and second convert to
     3600 h + 60 m + s.''',
     forall='every second of day within +-12000 days and every hour, minute and second',
     why='Tests try a few values; minute/hour/day boundaries and negative values are not enumerated.',
     files=[TIME + 'TimeConverters.cpp'],
     mech=[('convertSODtoTime / convertTimeToSOD', TIME + 'TimeConverters.cpp')],
     note=REAL)
prop(id='C03', title='Time arithmetic keeps times normalised and adds whole units exactly',
     statement='''A CommonTime always holds a day, a millisecond of day below 86400000 and a fraction below 1 ms; setting it keeps the
     given time and get returns it. Adding whole days, seconds or milliseconds is exact (a fraction within rounding of a
     whole millisecond may be carried), adding and then taking back restores the time, adding fractional seconds and taking
     differences agree with real arithmetic, and the operators agree with the named functions; results outside the supported
     span, or mixing time systems, are rejected.''',
     forall='every normalised time of the span, every count of days, seconds and milliseconds that fits, every fraction',
     why='''Tests add a few durations; carries across milliseconds, seconds, days and negative amounts are not enumerated.''',
     files=[TIME + 'CommonTime.cpp', TIME + 'CommonTime.hpp'],
     mech=[('set*/add*/get*/operators', TIME + 'CommonTime.cpp')],
     note='''Whole-unit additions are proved with exact IEEE doubles; setting, fractions and differences in real
     arithmetic.''')
prop(id='C04', title='Comparison of times is a total order compatible with time differences',
     statement='''Within one time system (Any matches every system) exactly one of <, ==, > holds of two times up to the tolerance
     the library documents for ==; the six operators agree with each other, < is transitive, and comparing different systems is rejected.
     Changing the system tag changes nothing else.''',
     forall='every pair and triple of normalised times and every pair of time systems',
     why='Orderings must hold for all pairs and triples; tests compare a handful.',
     files=[TIME + 'CommonTime.cpp'],
     mech=[('operator==, <, <=, >, >=, !=', TIME + 'CommonTime.cpp')],
     note='All obligations discharged with exact integers and IEEE doubles.')
prop(id='C05', title='Time ranges behave as intervals, open or closed at either end',
     statement='''A range holds exactly the times between its ends (an end only if included); building one whose end precedes
     its start is rejected. isPriorTo, isAfter, overlaps, isSubsetOf and equality state the corresponding
     relation of the two sets of times, ranges that overlap have a common time, and < orders ranges strictly and
     transitively.''',
     forall='every pair (for the order: triple) of ranges with any ends and any inclusion flags',
     why='Sixteen flag combinations times the orders of four ends; tests visit a fraction of them.',
     files=[TIME + 'TimeRange.cpp'],
     mech=[('inRange, isPriorTo, isAfter, overlaps, isSubsetOf, operator==, <', TIME + 'TimeRange.cpp')],
     note='''Time comparisons in real arithmetic (the tolerance of == is modelled).''')
prop(id='C06', title='Week numbers split into epoch and broadcast week and are resolved uniquely',
     statement='''For every constellation the full week number splits into roll-over epoch and truncated broadcast week (10 bits GPS
     and QZS, 12 Galileo, 13 BeiDou, per ICD) and joins back; adjusting a truncated week to a year recovers the full week
     when it lies in that year; validity and ordering of week/second and week/Z-count tags agree with the time
     they stand for.''',
     forall='every week number, truncated week, year, second of week and Z-count of each constellation',
     why='Roll-over boundaries decades away for five constellations are not sampled by tests.',
     files=[TIME + 'Week.hpp', TIME + 'Week.cpp', TIME + 'WeekSecond.hpp', TIME + 'GPSWeek.hpp', TIME + 'GPSWeekZcount.cpp'],
     mech=[('getEpoch, getModWeek, setEpoch, setModWeek, adjustToYear', TIME + 'Week.hpp')],
     note=REAL)
prop(id='C07', title='Week/second and week/Z-count tags convert to and from time exactly',
     statement='''For every constellation a week and second of week convert to the time that many weeks and seconds after that
     system's epoch, and every time on or after the epoch converts back to a week and a second in [0,604800) (Z-count in
     [0,403200)) that stand for it; earlier times are rejected.''',
     forall='every week and second of week, and every normalised time of the span',
     why='Week and day boundaries of all constellations over the span are not enumerated by tests.',
     files=[TIME + 'WeekSecond.cpp', TIME + 'GPSWeekZcount.cpp', TIME + 'GPSEpochWeekSecond.cpp', TIME + 'Week.hpp'],
     mech=[('convertToCommonTime / convertFromCommonTime', TIME + 'WeekSecond.cpp'), ('same', TIME + 'GPSWeekZcount.cpp')],
     note=REAL)
prop(id='C09', title='Every other time representation converts to and from time correctly',
     statement='''Unix, POSIX, ANSI, (modified) Julian date, year/day/second and civil representations convert to the time they stand
     for, and every supported time converts to the representation that stands for it (rounded to the resolution of the
     representation where it is coarser than a time), with all fields in range.''',
     forall='every normalised time of the span, and every field value of each representation',
     why='Boundaries before the Unix epoch, at carries of microseconds or nanoseconds and at year ends are not enumerated.',
     files=[TIME + f for f in ('UnixTime.cpp', 'PosixTime.cpp', 'ANSITime.cpp', 'JulianDate.cpp', 'MJD.cpp', 'YDSTime.cpp', 'CivilTime.cpp')],
     mech=[('convertToCommonTime / convertFromCommonTime of each class', TIME)],
     note=REAL + ' The calendar conversions are used through the contracts proved by C01.')
prop(id='C10', title='Offsets between time systems are the defined ones, consistent and signed',
     statement='''TAI-UTC of every date is the published one (leap seconds since 1972, drifting UTC 1960-1971, none before), and the correction from any time system to
     any other is the difference of their defined offsets from TAI (GPS, Galileo, NavIC 19 s, BeiDou 33 s, TT -32.184 s, UTC and GLONASS the leap seconds,
     TDB within 2 ms of TT and consistent both ways); unknown systems are rejected.''',
     forall='every pair of time systems and every date of the years -4000..3000',
     why='144 pairs times every leap-second boundary; tests sample some.',
     files=['core/lib/RefTime/TimeSystem.cpp'],
     mech=[('getLeapSeconds, getTimeSystemCorrection', 'core/lib/RefTime/TimeSystem.cpp')],
     note=REAL + ''' Known findings: nine periods before 1972 drift from the wrong reference date (the existing tests expect those values).
     TDB-TT is proved only bounded and antisymmetric (sine is uninterpreted).''')
prop(id='C08', title='Arithmetic on weeks and Z-counts is exact and never leaves an invalid value',
     statement='''Adding or subtracting any number of Z-counts (or one by ++/--) gives the week and Z-count that stand for the sum, with
     the Z-count in [0,403200); it is rejected exactly when there is none, and then the operand keeps its value. Adding
     weeks changes only the week; differences, totals and comparisons agree with total Z-counts; packed 29- and 32-bit Z-counts hold
     week and Z-count and read back; two Z-counts are in the same time block exactly when no block boundary separates them.''',
     forall='every week and Z-count, every count within +-2^62, every offset (eleven block lengths from 1 count to 1024 weeks)',
     why='Roll-over of week and Z-count, large and negative counts and rejection are not enumerated by tests.',
     files=[TIME + 'GPSZcount.cpp', TIME + 'GPSWeekZcount.cpp', TIME + 'GPSWeekZcount.hpp'],
     mech=[('addZcounts, addWeeks, operators, inSameTimeBlock, setFullZcount', TIME + 'GPSZcount.cpp'),
           ('same, getZcount29/32, setZcount29/32', TIME + 'GPSWeekZcount.cpp')],
     note='Integers exact. Block lengths are proved one by one, not for a symbolic length.')
prop(id='C15', title='Checksums are those of their definition',
     statement='''computeCRC of a message is the remainder defined by its parameters (order, polynomial, start value, augmentation, reflection,
     final xor), and the predefined CRC-CCITT, CRC-16, CRC-32 and CRC-24Q parameters are the standard ones; reflect reverses the low bits;
     countBits counts the ones; xorChecksum is the exclusive or of all words and rejects incomplete words.''',
     forall='''every content of messages up to 8 and of 32 bytes (other parameter sets: up to 6 bytes), every word and width, strings of up to 32 bytes''',
     why='''Tests check one message per CRC; message contents are not enumerated.''',
     files=['core/lib/Utilities/BinUtils.hpp', 'core/lib/Utilities/BinUtils.cpp'],
     mech=[('computeCRC, reflect, countBits, xorChecksum', 'core/lib/Utilities/BinUtils.hpp'), ('CRCParam constants', 'core/lib/Utilities/BinUtils.cpp')],
     note='''Bit-precise for every content; message lengths are fixed per proof (0..4, 8, 32 bytes), so lengths are bounded. Known finding: CRC24Q
     is not CRC-24Q (the existing tests expect its value).''')
prop(id='C18', title='Binary data is converted exactly between host, Intel and network byte order',
     statement='''Every conversion from bytes gives the value whose little-endian (Intel) or big-endian (network) bytes stand at the position, every
     conversion to bytes writes exactly those bytes and no others, and the string encoders and decoders do the same, removing
     from or replacing in the string exactly what they say.''',
     forall='every value of each 1, 2, 4 and 8 byte integer and floating type, every surrounding byte, positions 0..4',
     why='Tests convert one value per type; sign bits, byte positions and neighbouring bytes are not enumerated.',
     files=['core/lib/Utilities/BinUtils.hpp'],
     mech=[('buitoh*, buntoh*, buhtoi*, buhton*, decodeVar*, encodeVar*', 'core/lib/Utilities/BinUtils.hpp')],
     note='Bit-precise; positions 0..4 in buffers of 16 bytes.')
prop(id='C20', title='BINEX integers and records are read back as written, forwards and backwards',
     statement='''BINEX variable-length integers (unsigned below 2^29, signed up to 1157442765409226759 in magnitude) take the number of bytes the
     format assigns to the value, are encoded into the specified bytes of either byte order, and decode to the same value from a
     buffer or a stream; larger values, offsets beyond the buffer and integers cut short are refused.  Message data is appended and
     extracted in the order and byte order of the record.  A record is written as synchronization byte, record number, message
     length, message, checksum (and reversed length and tail byte when reverse-readable), with the size announced; reading it
     forwards, or back to front, gives the same record and consumes all of it; altered or truncated records are refused.''',
     forall='every value of every integer size, every byte string an integer can be decoded from, all 8 kinds of record, every record number, all messages of the lengths checked',
     why='The existing tests encode a list of values and one record kind; boundaries between sizes, byte orders, reverse reading and damaged input are not enumerated.',
     files=['core/lib/FileHandling/Binex/BinexData.cpp', 'core/lib/FileHandling/Binex/BinexData.hpp'],
     mech=[('UBNXI, MGFZI (constructors, encode, decode, read, write)', 'core/lib/FileHandling/Binex/BinexData.cpp'),
           ('updateMessageData, extractMessageData, setRecordFlags, setRecordID, getRecordSize, getCRCLength', 'core/lib/FileHandling/Binex/BinexData.cpp'),
           ('putRecord, getRecord, getCRC, reverseBuffer, isHeadSyncByteValid, isTailSyncByteValid', 'core/lib/FileHandling/Binex/BinexData.cpp')],
     note='Bit-precise. Integers: all values and all byte strings. Records: messages of 1, 2 and 6 bytes with arbitrary contents; streams are a ghost byte buffer with the contract of istream::read and ostream::write.')
prop(id='C16', title='Accuracy indices and fit intervals are those of the GPS interface specification',
     statement='''Every accuracy in metres has the URA index (LNAV, CNAV, nominal) whose interval contains it, upper end included; every index has the accuracy
     (upper end, nominal value) the interface specification gives, indices out of range are clamped or refused as documented, and going to
     metres and back gives the same index; the intervals of neighbouring indices adjoin; and every IODC with a fit interval flag has
     the curve fit interval of the specification, in subframe data and ephemeris alike.''',
     forall='every finite accuracy, every 16-bit index, every IODC and fit interval flag',
     why='The tables have 46 interval ends and 12 IODC ranges; tests sample the middle of some.',
     files=['core/lib/GNSSEph/GPS_URA.hpp', 'core/lib/GNSSEph/EngEphemeris.cpp', 'core/lib/GNSSEph/GPSEphemeris.cpp'],
     mech=[('accuracy2ura, ura2accuracy, nominalAccuracy2ura, ura2nominalAccuracy, accuracy2CNAVura, ura2CNAVaccuracy, ura2CNAVNominalaccuracy', 'core/lib/GNSSEph/GPS_URA.hpp'),
           ('getFitInterval', 'core/lib/GNSSEph/EngEphemeris.cpp'), ('getFitInterval', 'core/lib/GNSSEph/GPSEphemeris.cpp')],
     note='Bit-precise, IEEE arithmetic.')
prop(id='C17', title='Broadcast ephemerides have their defined period of validity and health',
     statement='''adjustValidity of GPS, QZSS, Galileo and BeiDou ephemerides sets the begin and end of the period of validity from Toe, Toc, transmit time and fit
     interval as each system defines it, and refuses ephemerides without data; a time is valid exactly inside the period, ends included; and
     an ephemeris is healthy exactly when the health bits that concern it are clear.''',
     forall='every week, Toe, Toc, transmit time, fit interval (whole seconds and hours) and health word',
     why='Uploads in odd hours, data across a week end and single health bits are sampled by few tests.',
     files=['core/lib/GNSSEph/' + f for f in ('GPSEphemeris.cpp', 'QZSEphemeris.cpp', 'GalEphemeris.cpp', 'BDSEphemeris.cpp', 'OrbitEph.cpp', 'GPSEphemeris.hpp', 'QZSEphemeris.hpp', 'BDSEphemeris.hpp')],
     mech=[('adjustValidity', 'core/lib/GNSSEph/' + f) for f in ('GPSEphemeris.cpp', 'QZSEphemeris.cpp', 'GalEphemeris.cpp', 'BDSEphemeris.cpp')] + [('isValid', 'core/lib/GNSSEph/OrbitEph.cpp'), ('isHealthy', 'core/lib/GNSSEph/GPSEphemeris.hpp')],
     note=REAL + ' The whole chain of time conversions and CommonTime arithmetic is executed, not assumed.')
CORE = 'core/lib/GNSSCore/'
prop(id='C24', title='Positions convert exactly between coordinate systems, and bad input is refused',
     statement='''Cartesian, spherical, geocentric and geodetic coordinates of a position are related by the formulas of the ellipsoid (geodetic latitude and height by
     the fixed-point iteration), poles and centre included; a transformation takes the right conversion for every pair of systems and keeps ellipsoid, frame
     and tolerance; latitudes, polar angles and radii out of range are refused by every constructor and setter, longitudes are brought into
     0..360; sums, differences, distances and equality are those of the Cartesian coordinates; elevation, azimuth, curvature radii and ionospheric pierce
     point are those of the defining formulas; ellipsoid models agree with themselves and their definitions.''',
     forall='every coordinate triple, ellipsoid (axis 6000-7000 km, squared eccentricity 0-0.01), pair of systems, target',
     why='Tests convert a few dozen positions; poles, quadrants, negative longitudes and pairs of systems are sampled.',
     files=[CORE + f for f in ('Position.cpp', 'Position.hpp', 'WGS84Ellipsoid.hpp', 'GPSEllipsoid.hpp', 'PZ90Ellipsoid.hpp', 'GalileoEllipsoid.hpp', 'CGCS2000Ellipsoid.hpp')] + ['core/lib/Math/Triple.cpp', 'core/lib/Math/MiscMath.hpp'],
     mech=[('convertXToY, transformTo, initialize, set*, operators, elevation*, azimuth*, getIonosphericPiercePoint', CORE + 'Position.cpp'), ('RSS', 'core/lib/Math/MiscMath.hpp')],
     note=REAL + ''' Sine, cosine, arctangent are uninterpreted with sin^2+cos^2=1 and their ranges: formulas are proved for every interpretation. That going there and back
     returns to within a millimetre needs their analysis and is only checked bounded (native search), labelled so.''')
prop(id='C26', title='Running statistics are those of the samples added and not yet taken out',
     statement='''Every accumulator (Stats, SeqStats, WtdStats, TwoSampleStats, BivarStats, PowerSum) stands for its samples: adding, subtracting, joining and separating
     change the number and the (weighted) sums of powers and products accordingly, whatever came before; average, variance (n-1), deviation, moments, slope and
     intercept are the textbook functions of them; an emptied, joined or reloaded accumulator behaves like a fresh one given the same samples; medians are medians;
     polynomial fits accumulate the weighted normal equations and solve them.''',
     forall='every state of an accumulator (any number of earlier samples), every sample, weight and scale; medians of up to four samples, fits of up to three coefficients',
     why='Tests add one fixed sample set to a fresh object. They never join with an empty or emptied object, reload one, start a scaled one with 1, or use as few samples as the moment needs.',
     files=[MV + f for f in ('Stats.hpp', 'BivarStats.hpp', 'PowerSum.cpp', 'PowerSum.hpp', 'PolyFit.hpp')],
     mech=[('Stats, SeqStats, WtdStats, TwoSampleStats: Add, Subtract, operator+=, operator-=, Dump, Load, Average, Variance, StdDev, Slope, Intercept; median', MV + 'Stats.hpp'),
           ('add, subtract, operator+=, slope, intercept, variance', MV + 'BivarStats.hpp'), ('add, subtract, moment, average', MV + 'PowerSum.cpp'), ('Add, Solve, Evaluate, Reset', MV + 'PolyFit.hpp')],
     note=REAL + ''' The representation invariant (number and scaled sums) is assumed on entry and proved on exit of every operation, so histories of any length are covered by induction.
     skew() and estimateDeviation() are not under contract; sigma of slope and correlation are not either.''')
prop(id='C27', title='Vector algebra, rotations and line-of-sight quantities follow their definitions',
     statement='''Dot and cross product, magnitude, unit vector, cosine, slant range, elevation and azimuth of triples, rotations about the axes, the rotation to
     radial, along-track and cross-track components, the relativity correction and the precise range (rotation of the Earth during
     the time of flight, clock and relativity corrections) are those of their formulas, and null vectors are refused.''',
     forall='all vectors with components up to 1e9, all angles',
     why='Tests use a few vectors, mostly along axes; quadrants and degenerate vectors are not enumerated.',
     files=['core/lib/Math/Triple.cpp', 'core/lib/Math/RACRotation.cpp', CORE + 'Xvt.cpp'],
     mech=[('members of Triple', 'core/lib/Math/Triple.cpp'), ('RACRotation', 'core/lib/Math/RACRotation.cpp'), ('computeRelativityCorrection, preciseRho', CORE + 'Xvt.cpp')],
     note=REAL + ' Trigonometric functions are uninterpreted.')
prop(id='C25', title='Matrix and vector algebra gives the defined result for every shape and value',
     statement='''Sums, products, transposes, joins, submatrices, minors, slices, rows, columns, diagonals, block diagonals, outer, dot and cross products, norms, traces
     and rotations of matrices and vectors are those of linear algebra and have the right shape; writing through a slice changes that part only; copies are
     independent; operands that do not fit are refused with an exception; determinants, inverses, solutions, LU, Cholesky, singular value and Householder
     decompositions satisfy their defining equations, and singular or unfit matrices are refused.''',
     forall='all real elements, shapes up to 4x4 in every arrangement listed in the contract',
     why='Tests use a few fixed matrices; mixed shapes, mixed matrix/vector joins, single rows and columns and singular cases are not enumerated.',
     files=[MV + 'Matrix/' + f for f in ('Matrix.hpp', 'MatrixBase.hpp', 'MatrixBaseOperators.hpp', 'MatrixImplementation.hpp', 'MatrixOperators.hpp', 'MatrixFunctors.hpp')]
           + [MV + 'Vector/' + f for f in ('Vector.hpp', 'VectorBase.hpp', 'VectorBaseOperators.hpp', 'VectorOperators.hpp')],
     mech=[('operators, minorMatrix, inverse, inverseLUD, inverseSVD, inverseChol, blkdiag, rotation', MV + 'Matrix/MatrixOperators.hpp'),
           ('LUDecomp, Cholesky, CholeskyCrout, SVD, Householder', MV + 'Matrix/MatrixFunctors.hpp'), ('Vector, VectorSlice', MV + 'Vector/Vector.hpp')],
     note=REAL + ''' Shapes are enumerated, elements are universal. Elementary operations for shapes up to 4x4; LU, inverse, solution and Cholesky are proved for 2x2 and, like
     SVD and Householder, checked bounded (native search) for 3x3 and up.''')
prop(id='C21', title='Broadcast orbits and clocks follow the standards',
     statement='''The satellite clock of a broadcast ephemeris is the polynomial about Toc and its drift the rate of that polynomial; position and velocity are those of
     the Keplerian elements with second harmonic perturbations (IS-GPS-200), with the rotated frame for BeiDou geostationary satellites and reduced
     elements for almanacs; the relativity correction is F e sqrt(A) sin E; GLONASS states are integrated by fourth order Runge-Kutta in the inertial frame,
     forwards and backwards, with steps of the given length up to the requested time, from the PZ-90 force model, and only within fifteen minutes of the epoch; GLONASS clock bias
     excludes the relativity correction; times of an almanac follow the half week rule; nothing is computed from an object without data.''',
     forall='every set of elements (eccentricity up to 0.1), every time, every clock polynomial; GLONASS: every state, given epochs and intervals',
     why='Tests compare a few satellites at a few times, mostly with zero for the rarely broadcast terms (Adot, af2), within one week and away from perturbation extremes.',
     files=[GE + f for f in ('OrbitEph.cpp', 'BDSEphemeris.cpp', 'OrbElem.cpp', 'OrbElemBase.cpp', 'BrcKeplerOrbit.cpp', 'BrcClockCorrection.cpp', 'AlmOrbit.cpp', 'EngEphemeris.cpp', 'GloEphemeris.cpp')] + [CORE + 'Xvt.cpp'],
     mech=[('svXvt, svClockBias, svClockDrift, svRelativity', GE + f) for f in ('OrbitEph.cpp', 'OrbElem.cpp', 'BrcKeplerOrbit.cpp', 'EngEphemeris.cpp')]
          + [('svXvt', GE + 'BDSEphemeris.cpp'), ('svClockBias, svClockBiasM, svClockDrift', GE + 'BrcClockCorrection.cpp'), ('svXvt, getFullWeek, getToaTime, getTransmitTime', GE + 'AlmOrbit.cpp'),
             ('svXvt, svXvtOverrideFit, derivative, getSidTime, svClockBias', GE + 'GloEphemeris.cpp')],
     note=REAL + ''' Trigonometric functions are uninterpreted. The difference of two times is taken by its contract (proved in C03). Kepler's equation: the Newton iteration is
     executed symbolically to its limit of 20, every exit included, and compared with the same iteration in the specification. The integration of GLONASS states is proved for
     every state, but for the listed epochs, steps and intervals only (bounded in that respect); the force model is used by its contract there.''')
prop(id='C34', title='Interpolation returns the polynomial through the given points',
     statement='''Interpolating N points gives the value of the one polynomial of degree below N through them, and its first and second derivatives where asked for, for every
     position in the interval and every set of values; at a knot it gives the value there; too few points or values are refused; sums of squares and rounding
     are those of their names.''',
     forall='all values at the knots and every position, for even, uneven and backward sets of 2 to 10 knots',
     why='Tests interpolate one sampled function to a tolerance, at one spacing.',
     files=[MV + 'MiscMath.hpp'],
     mech=[('SimpleLagrangeInterpolation, LagrangeInterpolation, LagrangeInterpolating2ndDerivative, RSS, Round', MV + 'MiscMath.hpp')],
     note=REAL + ''' The knots are listed sets (bounded in that respect), the values and the position arbitrary. RSS of three is proved in C24.''')
prop(id='C35', title='Tropospheric models are usable only when set, and give the published delay',
     statement='''A tropospheric model is valid exactly when everything its formula needs has been given (weather, height, latitude, day of year), whatever way it was constructed,
     and refuses to correct before; impossible weather is refused and leaves the model invalid; the zenith delays and mapping functions are those of the published
     model for every weather, site, day and elevation in every latitude band; the correction is dry zenith times dry mapping plus wet zenith times wet mapping, and
     zero below the horizon; correcting from positions and a time first sets the height, latitude and day those give.''',
     forall='every model, constructor, order of setters, weather, site, day and elevation',
     why='Tests compare a few delays at one site and never look at which state a constructor leaves behind.',
     files=[CORE + f for f in ('TropModel.cpp', 'SimpleTropModel.cpp', 'GGTropModel.cpp', 'GGHeightTropModel.cpp', 'GCATTropModel.cpp', 'SaasTropModel.cpp', 'NBTropModel.cpp',
                               'NeillTropModel.cpp', 'MOPSTropModel.cpp', 'GlobalTropModel.cpp')],
     mech=[('correction, setWeather, setParameters', CORE + f) for f in ('TropModel.cpp', 'SimpleTropModel.cpp', 'GGTropModel.cpp', 'GGHeightTropModel.cpp', 'GCATTropModel.cpp',
           'SaasTropModel.cpp', 'NBTropModel.cpp', 'NeillTropModel.cpp', 'MOPSTropModel.cpp', 'GlobalTropModel.cpp')],
     note=REAL + ''' exp, pow, log and trigonometric functions are uninterpreted; Position::elevation and elevationGeodetic are used by contract (C24) in the seen_* proofs.
     The coefficient tables of GlobalTropModel are compared with a copy taken when the contract was written. The wet zenith delay of SaasTropModel, which its own comments call unfinished, is not part of the property.''')
prop(id='C36', title='Ionospheric delay is that of the broadcast model, on every band',
     statement='''getCorrection gives the delay of the Klobuchar algorithm of IS-GPS-200 for any parameters, receiver, line of sight and time, scaled to L2 and L5 by the squared
     frequency ratio; other bands and models without parameters are refused; parameters per radian are converted, those of an almanac (kept per radian) included;
     models are equal exactly when all parameters are.''',
     forall='every parameter set, latitude, longitude, elevation, azimuth and time',
     why='Tests check equality, validity and exceptions, and no computed delay at all.',
     files=[CORE + 'IonoModel.cpp', GE + 'EngAlmanac.cpp'],
     mech=[('getCorrection, setModel, IonoModel, operator==', CORE + 'IonoModel.cpp'), ('getIon', GE + 'EngAlmanac.cpp')],
     note=REAL + ''' Trigonometric functions are uninterpreted; the specification is written from the document with the same association of products. IonoModelStore (std::map) is not under contract.''')
