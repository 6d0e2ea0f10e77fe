"""Texts of the properties.  gen.py turns them into properties.jsonl and MANIFEST.json."""
H = "common/include/rofl/common/"
S = "common/src/"
GH = "geometry/include/rofl/geometry/"
GS = "geometry/src/"
CAT = []


def P(pid, title, stmt, over, q, why, files, mech, technique, note, level="other", explain="", assume=()):
    CAT.append(dict(id=pid, title=title, statement=stmt, over=over, q=q, why=why, files=files, mech=mech,
                    technique=technique, note=note, level=level, explain=explain or note, assume=list(assume)))


AI = "static analysis: trace-partitioned abstract interpretation of the LLVM IR (%s)"
NOSOLVE = " The IR of /repo's current sources is interpreted over abstract values; nothing is executed and no solver is used. An obligation the domains cannot decide is recorded as undecided, never as a violation."

P("C01", "Min-max heap always exposes the true minimum and maximum",
  "After any sequence of pushes and pops from either end, the double-ended priority queue reports as top a minimum and as bottom a maximum of the elements currently held, under the caller's ordering and with ties allowed. Each pop removes exactly one element of the end it names, and size and emptiness count pushes minus pops.",
  ["histories", "inputs"], "every sequence of push, popTop and popBottom, for every order pattern of the pushed values (ties included) and every comparator",
  "test_min_max_heap pushes one fixed list of integers and prints; the order patterns and interleavings are unbounded.",
  [H + "min_max_heap.h"], [("level-alternating heap, bubble up / trickle down", "MinMaxHeap::push, popTop, popBottom in min_max_heap.h")],
  AI % "zone domain over order tokens",
  "Exhaustive over all order patterns (ties included) of bounded histories: values are abstract tokens constrained only by the comparisons the code makes, so each partition stands for infinitely many inputs; longer histories (up to 24-40 elements) over chains of tokens through several permutations. Longer histories than the bound are not covered." + NOSOLVE)
P("C02", "Min-max heap runner-up queries return the true second element",
  "With at least two elements held, the queries for the next element after the top and after the bottom return the second smallest and the second largest held element (counting repetitions); with one element both return it. They never change the queue.",
  ["histories", "inputs"], "every heap reachable by pushes and pops, every order pattern",
  "no test calls these queries on more than one heap shape.",
  [H + "min_max_heap.h"], [("children and grandchildren scan", "MinMaxHeap::nextTop, nextBottom")],
  AI % "zone domain over order tokens", "Same bounded histories as C01, with the runner-up queries observed at every point." + NOSOLVE)
P("C03", "Peak finder reports exactly the strict local optima of the grid",
  "Over any grid domain, field and window, the peak finder reports a cell exactly once if and only if its value strictly precedes (under the caller's ordering) the value of every other domain cell inside the window centred at it, and passes the minimum-value filter when the filter is on. Reported peaks come best first, and the field is never read outside the domain.",
  ["inputs", "configurations"], "every field of values, domain, window size, comparator and filter setting",
  "test_peak_finder_d runs one synthetic field and prints what it finds.",
  [H + "peak_finder_d.h", H + "interval_indices.h"], [("sliding window with a min-max heap over cells", "PeakFinderD::detect"), ("interval intersection and raster iteration", "IntervalIndices")],
  AI % "zone domain over cell values", "All order patterns of the field on small domains (lines up to 6 cells, planes up to 2x3; larger in the thorough tier) for every window up to 3, and token-chain fields on domains up to 7x5 and 3x3x3." + NOSOLVE)
P("C04", "Raster indexer is a bijection between cells and positions",
  "For every integer box domain of any dimension, numbering a cell and then decoding the number returns the same cell, decoding and then numbering returns the same position, and consecutive positions are consecutive cells along the first dimension. Positions of the cells of the box are exactly 0 up to the number of cells minus one.",
  ["inputs", "configurations"], "every box (minimum and extent per dimension) and every cell or position of it, in 1 to 5 dimensions and for several index types",
  "the programs under common/app index one or two boxes of fixed size.",
  [H + "interval_indices.h"], [("mixed-radix position arithmetic", "raster indexer in interval_indices.h")],
  AI % "polynomial domain with integer division rules", "Unbounded in the box position; extents up to thousands per dimension are symbolic (the polynomial identities hold for all of them). Index arithmetic is checked not to overflow within those bounds." + NOSOLVE)
P("C05", "Boustrophedon order visits every cell once by unit steps",
  "For every integer box domain of any dimension, the serpentine ordering is a bijection between cells and positions, and two consecutive positions always differ by exactly one in exactly one coordinate. Iterating an index interval in raster or in serpentine order visits every cell of the interval exactly once and then stops.",
  ["inputs", "configurations"], "every box and every position of it, in 1 to 4 dimensions",
  "test_interval_indices iterates a single two-dimensional box.",
  [H + "interval_indices.h"], [("parity-dependent direction per dimension", "boustrophedon indexer and interval iterator in interval_indices.h")],
  AI % "polynomial domain with parity partitions", "Bijection and unit step are decided for symbolic extents in 1 to 4 dimensions; complete iteration is enumerated on all boxes with extents up to 12 (1-D), 5 (2-D), 3 (3-D)." + NOSOLVE)
P("C06", "Index intervals behave as the sets of cells they denote",
  "An index interval contains exactly the cells of the box it was built from, whichever way it was declared (bounds, minimum and maximum, centre and half width), and reports its size, emptiness, bounds and corners accordingly. Intersection contains exactly the cells common to both operands and is empty, and iterated zero times, when there is none; translation and stacking move exactly the cells they should and leave the source unchanged.",
  ["inputs", "configurations"], "every pair of boxes (empty ones included), every cell, in 1 to 4 dimensions",
  "test_interval_indices intersects one pair of overlapping boxes.",
  [H + "interval_indices.h"], [("per-dimension minimum and extent", "IntervalIndices")],
  AI % "zone and polynomial domains", "Box positions and extents are fully symbolic; every comparison outcome is partitioned." + NOSOLVE)
P("C07", "Grid cells are independent and addressed consistently",
  "A grid holds one value per cell of its domain; writing a cell through its indices, an index pointer or its position changes that cell only and is read back through all three, for every way of declaring or redeclaring the domain. The domain test tells exactly the cells of the domain, fill sets every cell, and access by a position outside the grid is refused.",
  ["inputs", "configurations"], "every domain (origin arbitrary), every pattern of writes",
  "no test exercises the grid container.",
  [H + "grid.h", H + "interval_indices.h"], [("position = raster index into a vector", "Grid::value, getPos, getIndices")],
  AI % "polynomial and memory-cell domains", "Origins and values symbolic; extents enumerated up to 5 (1-D), 3 (2-D), 2 (3-D) in the quick tier." + NOSOLVE)
P("C08", "Bit primitives are exact for every word",
  "For every 8, 16, 32 and 64 bit word, the leading-zero count is the width minus one minus the position of the highest set bit (the width for zero), rounding down to a power of two keeps exactly the highest set bit, and rounding up gives the smallest power of two not below the word whenever it is representable, zero for zero.",
  ["inputs"], "all 2^8 + 2^16 + 2^32 + 2^64 words",
  "test_numeric_traits prints a handful of words.",
  [H + "bit_manip.h", S + "bit_manip.cpp"], [("bit smearing and binary search", "nlz8..nlz64, flp2u8..flp2u64, clp2u8..clp2u64 in bit_manip.cpp")],
  AI % "bit-provenance domain", "Complete over all words: partitions by highest and lowest set bit with every other bit an unknown." + NOSOLVE, level="proof")
P("C09", "Typed integer helpers agree with the mathematics for every integer type",
  "For every signed and unsigned integer type, the leading-zero count, the base-2 logarithm of the magnitude (zero for zero), and the rounding to the power of two below or above the argument are exact for every value whose result is representable; for negative arguments rounding down goes to the opposite of the power above the magnitude and rounding up to the opposite of the power below it. The declared width of each type is its true width.",
  ["inputs", "configurations"], "every value of the eight integer types",
  "test_numeric_traits prints a handful of values for some types.",
  [H + "numeric_traits.h", S + "bit_manip.cpp"], [("per-type dispatch to the bit primitives", "IntegerTraits, nlz, log2Mod, floorPow2, ceilPow2 in numeric_traits.h")],
  AI % "bit-provenance domain", "Complete over all values of all eight types except the magnitude of the most negative value of each signed type." + NOSOLVE, level="proof")
P("C10", "Floating-point decomposition is exact and invertible",
  "For every single- and double-precision number, decomposition yields the sign bit, the fraction field and the unbiased exponent of the IEEE format, recomposition restores the number bit for bit, and composing in-range fields places each in its own field. The declared widths, masks, bias and exponent range are those of the format.",
  ["inputs", "configurations"], "every bit pattern of both formats",
  "test_numeric_traits prints a handful of numbers.",
  [H + "numeric_traits.h"], [("bit casts and field masks", "FloatTraits<float>, FloatTraits<double>")],
  AI % "bit-provenance domain", "Complete over all bit patterns of both formats." + NOSOLVE, level="proof")
P("C11", "Morton comparison of integer vectors is the Z-order",
  "Comparing two integer vectors of any dimension and integer type orders them by the coordinate whose values differ in the highest bit (the first such coordinate on ties), by numeric value of that coordinate, negative before positive. It is therefore a strict total order in which only equal vectors are equivalent.",
  ["inputs", "configurations"], "every pair of vectors over every integer type and dimension",
  "test_morton_order sorts random points and prints them.",
  [H + "morton_sort.h", S + "bit_manip.cpp"], [("xor / most-significant-bit comparison", "mortonCmpInt, MortonTraits::compare")],
  AI % "bit-provenance domain with exclusive-or variables", "Partitions by the highest differing bit of each coordinate, all other bits unknown; every bit position for 1 and 2 dimensions of 8 and 16 bit types, a regular subset of positions for wider types and more dimensions in the quick tier." + NOSOLVE)
P("C12", "Enclosing power-of-two blocks, levels and splits are exact for integers",
  "The block reported for two integers is the smallest aligned power-of-two interval holding both, with its level, bounds and midpoint exact for every pair (the whole range when the top bits differ, the number itself when equal). The Morton distance of two vectors is the largest level over the coordinates, and the split divides exactly the coordinate that decides the Morton order.",
  ["inputs", "configurations"], "every pair of values and vectors over the eight integer types",
  "test_morton_functions prints a few pairs of small positive numbers.",
  [H + "morton_sort.h"], [("shift and mask arithmetic", "intervalPow2Int, mortonDistanceInt, MortonTraits::split")],
  AI % "bit-provenance domain", "Complete for pairs of values of every integer type; vectors of 2 and 3 coordinates with every (8, 16 bit) or a regular subset (32, 64 bit) of highest differing bits." + NOSOLVE)
P("C13", "Morton comparison of floating-point vectors is a strict total order",
  "Comparing two finite floating-point vectors orders them by the coordinate whose binary expansions (two's complement for negative numbers) differ in the highest digit (the first such coordinate on ties; different signs differ above every digit), by numeric value of that coordinate. Only numerically equal vectors are equivalent, the order is transitive, and the Morton distance of two coordinates is the exponent of the highest differing digit.",
  ["inputs", "configurations"], "every pair of finite float or double vectors: positive, negative, zero of either sign, subnormal",
  "test_morton_functions compares a few positive pairs; a sort with a comparison that is not a strict weak order is undefined behaviour only on particular triples.",
  [H + "morton_sort.h", H + "numeric_traits.h"], [("exponent and mantissa comparison", "mortonCmpFloat, mortonDistanceFloat, MortonTraits<float/double>::compare")],
  AI % "bit-provenance domain over float bit patterns", "Partitions by the sign and exponent of each number and by the highest differing bit; mantissa bits below it unknown. All exponents for one coordinate near each other, a regular subset of exponents for two and three coordinates in the quick tier." + NOSOLVE)
P("C36", "Enclosing power-of-two blocks and splits are exact for floating-point numbers",
  "The block reported for two finite floating-point numbers of one sign is the smallest aligned dyadic interval holding both, mirrored for negative numbers; for equal numbers it is the number itself; for numbers of different sign it is the whole finite range with midpoint zero. A split divides exactly the coordinate with the highest level, the first one on ties, and leaves the others as they are.",
  ["inputs", "configurations"], "every pair of finite floats and doubles, and every pair of vectors of them",
  "test_morton_functions prints a few pairs of positive numbers.",
  [H + "morton_sort.h"], [("exponent and mantissa masks", "intervalPow2Float, MortonTraits<float/double>::split")],
  AI % "bit-provenance domain over float bit patterns", "Partitions by sign, exponent and highest differing bit, other mantissa bits unknown." + NOSOLVE)
P("C15", "Disjoint-set structure maintains exactly the joined partition",
  "After any sequence of set creations, joins and lookups, two nodes have the same representative exactly when a chain of joins connects them, every class size is the number of nodes in the class, and the number of classes and of nodes are exact. Joining nodes of one class changes nothing, and identifiers that name no node are reported and have no effect.",
  ["histories", "inputs"], "every sequence of makeSet, join and find operations",
  "no test exercises the disjoint-set structure.",
  [H + "disjoint_set.h", S + "disjoint_set.cpp"], [("union by rank with path compression", "DisjointSet::join, find, makeSet")],
  AI % "trace partitioning over operations", "All join sequences up to 3-4 joins on up to 5 nodes, all operation sequences up to 6, deep structured joins up to 16 nodes; identifiers outside the range symbolic." + NOSOLVE)
P("C16", "Label sets behave as mathematical sets of labels",
  "Union, intersection and difference of two label sets (or of a set and a label) contain exactly the labels of the corresponding set operation, leave their operands unchanged, and hold each label once in increasing order. Membership, size, equality and inequality agree with the elements for sets of any, also different, sizes.",
  ["inputs", "histories"], "every pair of label sets and every insertion history",
  "test_label_set operates on two fixed sets.",
  [H + "label_set.h", S + "label_set.cpp"], [("ordered set with linear merges", "LabelSet")],
  AI % "zone domain over labels", "All order patterns of labels (ties included) for sets of up to 4 labels and pairs up to 3+2 labels." + NOSOLVE)

REAL = " Arithmetic is idealised as real arithmetic (rounding is not part of the claim)."
P("C17", "Fast trigonometric functions stay within their error bounds",
  "For every angle, of any number of turns and either sign, the fast cosine and sine are within 0.0012 of the true values; the fast arc tangent is within 0.00002 of the true value on [-1,1]; and the two-argument arc tangent of a point (x first, then y) is within 0.00002 of its direction in every octant and on the axes (either sign of a zero), and zero in the origin. Both precisions obey the same bounds.",
  ["inputs"], "every angle, every slope in [-1,1], every point of the plane",
  "no test calls them; an error in one octant or one part of the period shows only for arguments there.",
  [H + "functions.h", S + "functions.cpp"], [("parabolic sine, odd polynomial arc tangent", "fastCosSin, fastCosSinf, fastAtan, fastAtanf, fastAtan2, fastAtan2f")],
  AI % "polynomial forms with mean-value interval branching", "All angles of the turns 0, +-1, 7 (also -160 and 1000 in the thorough tier), all slopes, points with coordinate ratio 0 or 0.001 and above and magnitude 0.001 to 1e6." + REAL + NOSOLVE)
P("C18", "Angle normalisation returns the congruent angle of its interval",
  "Normalising an angle to a turn returns the angle in [0,2pi) that differs from it by whole turns, and normalising to half a turn the angle in [0,pi) that differs by whole half turns, for angles of either sign and any number of turns.",
  ["inputs"], "every finite angle of moderate size",
  "no test calls them.",
  [H + "functions.h", S + "functions.cpp"], [("floor reduction", "normalize360, normalize180")],
  AI % "polynomial forms with floor symbols", "The range for all angles up to 1e5; congruence for all angles of the turns 0, +-1, 6, -40, to 1e-9." + REAL + NOSOLVE)
P("C19", "Fourier series evaluation is the sum of its harmonics",
  "The value returned for a coefficient vector and an angle is the sum over k of the cosine coefficient times cos(k angle) plus the sine coefficient times sin(k angle), for every number of harmonics (zero for none), every coefficients and every angle.",
  ["inputs"], "every coefficient vector and angle",
  "no test calls it.",
  [H + "functions.h", S + "functions.cpp"], [("angle addition recurrence", "evaluateFourier")],
  AI % "polynomial forms over sine and cosine symbols", "Symbolic coefficients and angle for up to 4 (thorough 6) harmonics; symbolic coefficients at seven angles for up to 8 (12) harmonics." + REAL + NOSOLVE)
P("C20", "Interval bounds of cosine and Fourier series enclose and are attained",
  "The bounds reported for the cosine over an interval, given in either order of its end points, are exactly the smallest and largest cosine on it, whichever turns it spans. The bounds of a Fourier series in double angles enclose the series at every angle of the interval and are the sums of the extremes of its harmonics.",
  ["inputs"], "every interval of angles; every coefficient vector",
  "no test calls them; wrong cases need an interval across a multiple of pi in a particular way.",
  [H + "functions.h", S + "functions.cpp"], [("case analysis on the circle", "findLUCos"), ("amplitude and phase per harmonic", "findLUFourier")],
  AI % "polynomial forms with mean-value interval branching", "findLUCos for all intervals up to a turn and an eighth starting anywhere in the turns 0, -1, 2; findLUFourier for every angle inside 45 intervals, four coefficient sets of up to 4 harmonics and a symbolic constant term." + REAL + NOSOLVE)
P("C21", "PNEBI values and tables approximate the scaled Bessel functions",
  "The order-0 function is within 5e-7 of 2 exp(-x) I0(x) for every argument up to 600, even in x. The vector of orders 0 to n has order 0 equal to that function, satisfies the Bessel recurrence, and matches 2 exp(-x) Ik(x) for arguments up to 10. A lookup table gives every order from 0 to its maximum within its tolerance, the same through both queries, decays beyond its end, and can be initialised again.",
  ["inputs", "configurations"], "every argument, order and tolerance",
  "no test calls them; the accuracy of a table between its points needs every argument.",
  [H + "functions.h", S + "functions.cpp"], [("Abramowitz-Stegun polynomials, downward recurrence, adaptive table", "evaluatePnebi0Polynom, evaluatePnebiVector, PnebiLUT")],
  AI % "polynomial forms with mean-value interval branching", "Order 0 for all arguments in [0,600]; the recurrence for all arguments in [0.5,9.5], n up to 3; all orders at 13 points; tables of orders 0 to 3 and tolerances 0.1 to 0.25 for every argument up to 6 or 10." + REAL + NOSOLVE)
STR = " The standard streams are replaced by a model (specs/model) that keeps text as strings and hands non-constant numbers through unchanged."
P("C22", "Parameter map: what was set or read is what is queried",
  "A parameter text yields, for every line with at least two words whose first does not start with the comment character, a binding of the first word to the second; a command line binds each option (a dash followed by a letter) to the following argument unless that is an option too; the last binding of a name wins, other names are untouched. Lines may have any length. Parameters whose names and values are single words (the names no comments) are the same when written to a stream or file and read again, also into a map that has others, which it keeps; numbers keep the digits they are written with. Files that cannot be opened are reported and change nothing. A query of an absent or unconvertible parameter yields the default and never leaves the variable unset; the default of an absent one becomes its value. List parameters yield their tokens in order. Expanding tildes replaces exactly a leading ~ or ~/ by the home directory, in every parameter, and does nothing when there is no home directory.",
  ["inputs", "histories", "configurations"], "every text, command line, map content and environment",
  "no test looks at the result of a query; the interplay of comments, options, repetitions and tildes is unbounded.",
  [H + "param_map.h", S + "param_map.cpp"], [("line and option parsing", "ParamMap::read, isOption"), ("queries", "getParam, getParamContainer, getParamContainerInserter"), ("tilde", "adaptTildeInPaths")],
  AI % "constant strings, partitioned inputs, model streams", "All texts of up to 6 characters over alphabets of four, up to three lines of words, all command lines of up to 4 arguments out of 9 kinds, lines of up to 4100 characters, all maps of up to three of eleven path values with and without HOME." + STR + NOSOLVE)
P("C23", "Profiler report gives the exact statistics of each series",
  "After any sequence of measurements under any labels, the report has one line per label measured, with the mean, the sample variance (zero for one measurement), the minimum, the maximum and the number of the measurements of that label. Reporting changes nothing.",
  ["histories", "inputs"], "every sequence of labelled measurements",
  "no test checks a statistic.",
  [H + "profiler.h", S + "profiler.cpp"], [("Welford update", "Profiler::updateStat"), ("report", "Profiler::printStats, MeasureStatistic::getVariance")],
  AI % "polynomial forms, model streams", "All real measurements, series of up to 4 (thorough 6) measurements, and all interleavings of three labels over 4 (5) measurements." + REAL + STR + NOSOLVE)
P("C24", "Scoped timers record exactly one measurement, that of their scope",
  "A scoped timer adds to the series of its label exactly one measurement when it ends (also by an exception) and none before; the measurement, like the elapsed time queried, is the time in milliseconds from its construction. The macro that places a timer in a scope measures the rest of that scope, under the label file_function_line.",
  ["schedules", "histories"], "every timing of the clock, every nesting",
  "tests cannot control the clock.",
  [H + "profiler.h", S + "profiler.cpp"], [("start point and difference", "ScopedTimer"), ("named object to the end of the scope", "ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE")],
  AI % "zone domain over a symbolic monotone clock, model streams", "The clock is any non-decreasing sequence of readings; up to three timers in sequence, two nested." + REAL + STR + NOSOLVE)
P("C34", "Logging macros print their values; assertions end exactly on a false condition",
  "Each variable-printing macro of one to seven arguments prints the file name, the line, and every expression followed by its own value, in order, evaluating each once. The message macros print file, line and message on the output and error stream. An assertion evaluates its condition once, ends the program when it is false, and otherwise does nothing: no output, no evaluation of its other arguments.",
  ["inputs"], "every value and condition",
  "no test looks at the output.",
  [H + "macros.h"], [("stringised arguments", "ROFL_VAR1..7, ROFL_MSG, ROFL_ERR"), ("condition", "ROFL_ASSERT, ROFL_ASSERT_VAR1..5")],
  AI % "constant strings, model streams", "All integer values for seven arguments, all pairs of integers for the assertions." + STR + NOSOLVE)
P("C14", "Morton tree keeps its items sorted, finds, and searches boxes exactly",
  "After any sequence of insertions (single, ranges, converted ranges, with ids reset or kept) and queries, the tree holds exactly the items inserted, each with its own id or with the number of items inserted before it; the caller's items are not changed. After a sort or any query the items are in Morton order. Finding returns the first item not ordered before the query. A box search, by corners or by centre and range, returns exactly the items whose every coordinate lies within the closed box, each once. The level of an interval is the Morton distance of its first and last item.",
  ["histories", "inputs", "configurations"], "every sequence of insertions and queries, every item and box, every scalar type and dimension",
  "test_morton_tree prints the result of one search.",
  [H + "morton_tree.h", S + "morton_tree.cpp"], [("lazily sorted vector", "MortonTree::insert, sort, findItem"), ("range between corners and filter", "MortonTree::searchInBox")],
  AI % "bit-level constants, partitioned histories", "int and float in 2 dimensions, int in 3: all trees of up to two (thorough three) items over five coordinates with every query, all histories of three insertions with queries in between, all boxes over trees of two items, an 8 by 8 grid with 48 boxes." + NOSOLVE)
P("C32", "Scalar consensus returns the least-cost consensus set and its inliers",
  "For values with acceptance ranges (end points of different intervals distinct), the estimate is the mean, weighted by the inverse squares of the ranges, of a set of values whose acceptance intervals share a point, and no other such set has a smaller cost: the sum of the squared residuals of the set plus the ranges of all other values. A value is marked inlier exactly when it lies strictly within its range of the estimate, whatever the mark vector held before. No values at all are accepted; different numbers of values and ranges are not.",
  ["inputs"], "every list of values and ranges",
  "test_tls_scalar_consensus prints one estimate.",
  [H + "tls_scalar_consensus.h"], [("sweep over sorted interval end points", "estimateTranslationTls")],
  AI % "polynomial forms and constants, partitioned inputs", "All real values for one and two intervals of three sizes; all lists of up to five values over a grid and two to four ranges." + REAL + STR + NOSOLVE)
P("C35", "VectorArray arithmetic works component by component",
  "Sum, difference, product, quotient and scaling of vectors of any dimension and scalar type yield in every component the result for that component; the assigning forms do so in place, also with the vector itself as operand, and return their object; the other forms leave their operands unchanged. The call operator accesses a component.",
  ["inputs", "configurations"], "every vector, scalar, dimension and scalar type",
  "no test includes the header.",
  [H + "vector_array.h"], [("component loops", "VectorArray operators")],
  AI % "polynomial forms", "All values, for double in 1, 2, 3 and 6 dimensions and int in 2 and 3." + REAL + NOSOLVE)
P("C29", "Geographic conversions agree with the WGS84 ellipsoid and invert each other",
  "The ECEF coordinates of a latitude, longitude and altitude are within 2 m (single precision) of the point at that altitude along the normal of the WGS84 ellipsoid. The metres per degree of latitude and of longitude at a latitude follow the AlvinXY series, within 10 m of the ellipsoid's arc lengths. Local coordinates are the differences in longitude and latitude times the metres per degree at the latitude of the origin, and converting back yields the point, for every origin.",
  ["inputs"], "every latitude, longitude, altitude and origin",
  "no test calls them.",
  [GH + "gis.h", GS + "gis.cpp"], [("closed forms", "convertLatLonAltToECEF, meterPerDegLat, meterPerDegLon"), ("scaled differences", "convertLatLonToLocalXY, convertLocalXYToLatLon")],
  AI % "polynomial forms over trigonometric symbols with mean-value interval branching", "All longitudes and altitudes at nine latitudes, all latitudes at six longitudes; the series for all latitudes; round trips for all points and origins between -85 and 85 degrees." + REAL + NOSOLVE)
P("C37", "Planar primitives: angles, angle intervals, orientation and poses",
  "A normalised angle lies between 0 and a turn and differs from the input by whole turns. An angle is inside an angle interval exactly when, turning counter-clockwise from the first limit, it is met before the second one, whatever whole turns are added to any of them; the first limit is inside, the second only for the version with equality. The orientation of three points is twice their signed triangle area, positive counter-clockwise. The transform of a pose rotates by its angle and then translates, whatever the transform held before.",
  ["inputs"], "every angle, interval, triple of points and pose",
  "no test calls them.",
  [GH + "base_geometry2.h", GS + "base_geometry2.cpp"], [("floor reduction", "normalizeAngle2Pi, insideAngleInterval, insideAngleIntervalEq"), ("determinant", "ccw"), ("Eigen transform", "poseToIsometry2")],
  AI % "polynomial forms with floor and trigonometric symbols, through Eigen", "All angles, with limits and angles more than 1e-3 apart; limits themselves at twelve intervals; all points and poses." + REAL + NOSOLVE)
P("C27", "Hough plane detector: votes, spectrum, peaks and plane parameters",
  "A bin counts exactly the points whose signed distance along its normal lies in its interval of distances (closed below, open above), for any number of bins; points outside every interval are not counted. The spectrum of a direction is the sum of the squares of its counts. Inserting a vector of points adds to what was there; inserting a range through iterators replaces it; setZero and init empty it. The normal of a bin is the unit vector of its latitude and longitude; the plane of a bin is its normal and minus its distance, with either overload. Directions found are the peaks of the spectrum, parallel planes are peaks of the counts of a direction, and planes come in decreasing order of counts. Queries outside the bins end the program.",
  ["inputs", "histories"], "every point along lines through the histogram, every short history of insertions, every small configuration of bins",
  "the only program using it needs a point cloud file and is no test.",
  [GH + "hough_plane_detector.h", GS + "hough_plane_detector.cpp"], [("voting", "insert"), ("spectrum and peaks", "findSpectrumMax, findParallelPlanes, findPlanes"), ("plane parameters", "getPlaneParam, getNormal")],
  AI % "polynomial forms with floor symbols over one real coordinate, exact histories of concrete points, through Eigen", "One symbolic coordinate in [-3, 3] with points at least 1e-4 from a border; up to 3 latitudes, 9 longitudes, 5 distances." + REAL + NOSOLVE)
P("C30", "Box registration: nearest points, best rigid step and first estimate",
  "For a query outside the box the associated point is its clamping to the box, coordinate by coordinate; for a query inside, it lies on a face and differs from the query only along the axis of a face at the least distance. A registration step returns the rigid motion, never a reflection, that brings the associated points closest to the cloud: their centres coincide and no rotation improves it; a cloud already on the box, even on a single face, leaves the placement as it is. The first estimate is centred on the cloud and puts the axes of the box along those of the cloud, longest on longest, as a right-handed frame; without at least two points it is the identity.",
  ["inputs"], "every query point, box size, cloud and placement",
  "no test calls it.",
  [GH + "box_registration.h"], [("case distinction per axis", "BoxRegistration::associate"), ("singular value decomposition", "BoxRegistration::computeTransform"), ("eigenvectors and permutation", "BoxRegistration::setDimension, estimateInitTranform")],
  AI % "linear relations between coordinates and sizes; steps with symbolic translation and enumerated rotations, through Eigen's decompositions", "All queries; in the plane all sizes, in space two (thorough: five) boxes; single and double precision. Steps: any translation, five rotations, clouds of six points on one or several faces, seven initial turns; one box of corners per order of lengths for the first estimate." + REAL + NOSOLVE)
P("C31", "Correspondence graph association returns the maximum coherent sets of pairs",
  "Two pairs (source item, destination item) are coherent when they share no item, the distance of their source items exceeds the minimum distance and differs from that of their destination items by less than the tolerance. Association returns every set of mutually coherent pairs of maximum size, each once, and nothing else; sets of nodes and sets of pairs agree (node = source index times number of destination items plus destination index). Inserting items again replaces the previous ones, and associating again with other items or tolerances gives the answer for those.",
  ["inputs", "histories"], "every table of distances, tolerance and order of use",
  "the one program is not a stable test and checks nothing.",
  [GH + "correspondence_graph_association.h", GS + "correspondence_graph_association.cpp"], [("pairwise distances", "insertSrc, insertDst"), ("edges between coherent pairs", "associate"), ("clique enumeration", "executeBronKerbosch")],
  AI % "zone relations between symbolic distances, exact set containers; the oracle enumerates all sets of pairs", "Symbolic distances up to 2x3 items, tables over four values for 3x3 items; tolerance and minimum distance fixed." + REAL + NOSOLVE)
P("C25", "Directory listings hold exactly the files, sorted; stamps are the local time",
  "Listing a directory gives the complete path of every regular file directly in it (links to files included), each once, in increasing order, and nothing else: no subdirectories, no files below them or elsewhere, no special files or broken links. A stamped string is the prefix, the current local date and time as YYYYMMDD_HHMM_SS with leading zeros, and the postfix, taken literally.",
  ["inputs", "histories"], "every directory content and every moment",
  "the test only prints the files of the current directory.",
  [H + "io.h", S + "io.cpp"], [("directory iteration and sort", "getDirectoryFiles"), ("calendar fields", "generateStampedString")],
  AI % "a model of the file system interface whose tree is enumerated, exact strings", "Directories of up to three entries of six kinds; four moments. The model of std::filesystem and of the calendar functions is trusted." + NOSOLVE)
P("C26", "Public headers stand alone, go together and can be included repeatedly",
  "Every public header of the libraries compiles when it is the only one included; all of them can be included together in any order, each still providing its declarations; and none defines a function or variable with external linkage, so that several translation units of a program can include it.",
  ["inputs"], "every header, every order of inclusion, every number of including translation units",
  "each test includes few headers, in one order, in one translation unit.",
  [H + "functions.h", H + "vector_array.h", H + "label_set.h", GH + "types.h"], [("include guards and inline definitions", "all public headers")],
  "compile witnesses with the clang front end, and a linkage query over the IR of all headers together", "Both orders of all headers (thorough: every ordered pair), the installed compiler and libraries; templates are not instantiated." )
P("C28", "Hough line detector: votes, spectrum and peaks",
  "A bin counts exactly the points whose signed distance along its normal (cosine and sine of its angle) lies in its interval of distances (closed below, open above), for any number of bins; points outside every interval are not counted. The spectrum of a direction is the sum of the squares of its counts. Inserting points adds to what was there; setZero and init empty it. The directions found are the peaks of the spectrum for the window set, given alike as indices, angles and normals; the lines found are the peaks of the counts of those directions. Queries outside the bins end the program.",
  ["inputs", "histories"], "every point along lines through the histogram, every short history of insertions, every small configuration of bins",
  "no test calls it.",
  [GH + "hough_line_detector.h", GS + "hough_line_detector.cpp"], [("voting and spectrum", "insert"), ("peaks", "findSpectrumIndicesMax, findSpectrumIndexMax, findSpectrumAngleMax, findNormalMax, findLines")],
  AI % "polynomial forms with floor symbols over one real coordinate, exact histories of concrete points, through Eigen", "One symbolic coordinate in [-3, 3] with points at least 1e-4 from a border; up to 9 angles and 6 distances. The declared overload of insert for iterators and that of findLines for parameters have no definition and are not covered." + REAL + NOSOLVE)
P("C33", "Plane aligner gives a right-handed frame whose third axis is the plane's normal",
  "The transform computed for a plane and a cloud is a rigid motion: orthonormal, right-handed axes, the third being the unit normal of the plane on the side of the origin, whatever the scale and sign of the coefficients given. The centre of the points within the tolerance of the plane (by the value of the plane's equation as given) comes to lie on the third axis, other points having no influence; without any such point the origin stays. Heights are signed distances along the normal from the origin. transform applies exactly that motion to every point. Computing again for another plane does not depend on the previous one.",
  ["inputs", "histories"], "every plane, cloud and tolerance",
  "no test calls it.",
  ["pcl/include/rofl/pcl/point_cloud_plane_aligner.h"], [("sign of the coefficients", "setPlaneCoeffs"), ("orthonormalisation and centre", "compute"), ("application", "transform")],
  AI % "linear forms over symbolic points and plane offsets, through Eigen and PCL", "Twelve normals, symbolic offset and point, clouds of up to three points away from the border of the tolerance; unit normals where the tolerance matters." + REAL + NOSOLVE)
