D={
'T01':"All days JD -0.5e6…5.4e6 are enumerated in 64 stripes through the calendar; other cases are instants with picosecond-to-day structure (day, week, 1024-week, leap and epoch boundaries) and chains of up to 8 tags. Oracle: own calendar arithmetic in integers; the tag printed fields are compared field by field, the return instant to the documented resolution of the coarsest tag in the chain; tags order like instants.",
'T02':"Histories of up to 30 additions in the different unit forms from generated instants. Oracle: a 128-bit integer count of 10^-15 s. Differences, comparisons, system mixing (Any matches all, different systems throw), set/get forms, text form, limits. Known finding: overflow not refused.",
'T03':"A grammar of formats (every tag's conversion letters, literal separators, widths) printed with printTime and scanned back by scanTime, mixedScanTime and TimeTag::scanf. Oracle: the instant rounded to what the printed format can carry; printed text equals own formatting of own field values.",
'T04':"Every day 1960–2040 for the leap table (own IERS table with pre-1972 rates), triples of systems for antisymmetry/transitivity, TimeSystemCorrection against the linear formula. TDB/TCG/TCB against their published periodic terms to the stated precision.",
'T05':"Histories of increments, decrements and additions over GPSWeek/WeekSecond/GPSWeekZcount and the modular week tags; model: integer Z-count. Rollover helpers: the adjusted time is congruent and nearest.",
'T06':"Ranges with inclusive/exclusive ends over a small lattice of instants; model: membership function; relations (overlap, abut, prior, after, subset) derived from membership.",
'U01':"Strings over small alphabets with separators, quotes, blanks; reference implementations written from the documentation (strip, justify, words, split, replace, translate, numbers, POSIX-like pattern match, pretty print, hex dump).",
'U02':"Doubles over all exponents, halfway and carry cases, widths 3–30; oracle: decimal arithmetic on the digits of printf with long precision; reading back; Fortran 'D' exponents; overflow and non-finite fields.",
'U03':"Buffers and integers; oracle: shifts, bitwise polynomial division for CRC parameters, XOR; known finding CRC24Q.",
'U04':"Expression trees printed with random parentheses and spacing; oracle: tree walk; malformed texts must throw.",
'M01':"Matrices up to 8×8 including rank-deficient, graded and integer ones; oracle: element definitions in long double, residuals and orthogonality scaled by norms and condition.",
'M02':"Histories of Add/Subtract/merge for Stats, TwoSampleStats, weighted forms, running filters; oracle: batch formulas on the retained list in long double; medians, quartiles, MAD and robust estimates by sorting. Known finding: ADtest.",
'M03':"Polynomials up to degree 9 sampled on generated abscissae; oracle: the polynomial itself, Lagrange in long double, dense normal equations; evaluation interleaved with adding data.",
'M04':"Arguments over the documented domain; oracle: Boost.Math, reflection/recurrence identities, inverse of the distribution.",
'M05':"Histories of SRI/SRIFilter operations; oracle: the normal equations in long double (information matrix and vector), batch least squares, Kalman formulas.",
'M06':"Histories on sparse vectors and matrices; the model is a dense array; every visible state compared after each operation.",
'G01':"Positions from every coordinate form, poles and ±180° included; closed-form or iterated long double conversions.",
'G02':"Pairs of positions; oracle: an own ENU frame and ellipsoid in long double.",
'G03':"All RINEX 3.04 observation codes and all four-letter combinations; satellites and their texts; enum text round trips; ordering is a strict weak order.",
'G04':"Each model against its published formulas re-implemented here (Niell, GMF/GPT, Saastamoinen, Goad–Goodman, MOPS, NB, GCAT), state after setters in any order, refusal when data are missing. Three known findings pinned by existing tests.",
'G05':"Klobuchar in long double, with pierce points at all latitudes; store as a map by time; RINEX almanac forms.",
'G06':"The SVN–PRN table as a relation in time; SatMetaDataStore loaded from generated files against a scan.",
'G07':"Seven-parameter Helmert formula and exact inverse; names of realisations and frames.",
'E01':"Random but physical Kepler sets (GPS, GAL, BDS, QZS; CNAV-type rates); oracle: own long double implementation of the ICD algorithm for position, and differentiation for velocity, relativity, clock.",
'E02':"GLONASS states integrated with an own RK4 with small steps; store as a scan over records with the documented validity.",
'E03':"Histories of adds (duplicates, resends, overlapping uploads) to Orbit/GPS/almanac stores; queries by time and by 'near'; model: a list and the documented selection rule.",
'E04':"Position and clock tables with gaps, bad values and unequal spacing; generated SP3 files; oracle: window selection by documentation and Lagrange polynomial in long double.",
'E05':"Histories of field additions with scale and sign; oracle: a text of 0/1; reading at any offset, exact decoding, overflow refusals.",
'E06':"LNAV words with own parity; subframes 1–5 encoded by an own encoder with the ICD table; almanac pages, NMCT.",
'E07':"Message streams with bit errors, duplicates, reordering from several receivers; oracle: each filter's documented rule; over a history each message leaves the manager once.",
'E09':"All indices and values around each table boundary; own copy of the tables.",
'F01':"RINEX 2/3 observation text generated from the format documents with all header records, continuation lines, events; oracle: the stated content on read, and read-write-read.",
'F02':"The same for navigation files of all systems, several spellings of numbers, version mixes; ephemeris objects built from the records.",
'F03':"SP3 a–d, RINEX met, SEM, Yuma: text from the documents, content compared; written files read again.",
'F06':"Own tiny text and binary formats on the stream framework; filters, sorters, stores and directories against list models.",
'F07':"Specifications and directories; names and searches against a listing model of what exists.",
'S01':"Simulated pseudoranges from 4–12 satellites (one or two systems), noise, outliers; oracle: own iterated least squares and brute-force search over exclusions for RAIM.",
'S02':"Own light-time iteration (signal emitted at t, Earth turned during the flight), own clock and relativity terms, own Klobuchar and two-frequency forms; the clock models are recomputed directly from the set of deviations and rules. The SvTime variant rotates with a small-angle formula and is compared to 2 cm, the others to the precision of the arithmetic.",
'F05':"29 small valid files (seeds/) and damage operators that know columns and labels; the library is compiled with AddressSanitizer and UBSan, each case runs in a forked worker with limits of time and memory, so that a crash, hang or runaway allocation is attributed to a case and shrunk. Nothing is claimed about what is read from damaged files beyond the statement (the F properties decide valid ones).",
'C01':"PRN 1–210, any interval of the week; bit-serial shift registers of IS-GPS-200.",
'F04':"BINEX only. Models: the number encodings of the BINEX format written out here, a byte string for message histories, and a framing model (sync byte by flags, record id, length, message, checksum length class XOR / CRC-16 / CRC-32, reversed tail). Records of every flag combination and size class mixed in one file are read forward, and backward when every record is reversible; damage flips one byte or cuts the file. Not claimed: the value -0 (BINEX 'no value'), the 16-byte checksum class, extraction with a size smaller than the type, ANTEX and IONEX.",
'A02':"The programs are built from the working tree and run as processes on generated command lines (options in any order, short, joined, long and = forms); nothing of the library is used by the oracle: civil calendar arithmetic, Z-counts and week numbers from integers of milliseconds, WGS 84 formulas, a month table. Numbers are chosen so that truncated fields are exact. Not claimed: words that are no number inside a time (scanned as 0), Unix seconds before 1970, poscvt --list-formats without a position.",
'A03':"The programs run as processes on files that the harness writes and reads itself (RINEX 2 text). Model: sets of epochs and records. Merge: union of epochs, common types, each record equal to one of those given for its epoch, same body for any order of arguments. Difference: exact list of lines (rowdiff), pairs and counts (rmwdiff, rnwdiff). Check: record counts, bad files reported, -1 stops at the first. Loss-of-lock and strength flags never mix 0 and other values for one epoch, because the programs ignore a flag of 0 and the comparison is then no order.",
'A01':"Random option sets and argument lists; model of getopt_long semantics plus the documented rules (required, mutually exclusive, dependent, typed). Not claimed: ambiguous abbreviations (glibc takes the first), '?' as a short option, leniency of time scanning; numbers may carry a sign.",
'X01':"See the statement; noon, midnight and J2000 are over-represented. Nutation is compared with its 13 largest terms (0.1\"), the 2003 and 2010 conventions with each other (0.005\"), which are computed along different paths (equinox series against CIO).",
}
import json
out=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    i=p['id']
    if i in D: out.append('* **%s – %s.** %s'%(i,p['title'],D[i]))
open('/verif/doc/design_props.md','w').write('\n'.join(out)+'\n')
print([json.loads(l)['id'] for l in open('/verif/properties.jsonl') if json.loads(l)['id'] not in D])
