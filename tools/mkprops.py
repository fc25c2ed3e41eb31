import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state,obs):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state,observe_at=obs,hook_needed=False)))
U="src/tatc/utils.py";O="src/tatc/schemas/orbit.py";S="src/tatc/schemas/satellite.py";I="src/tatc/schemas/instrument.py"
C="src/tatc/analysis/coverage.py";L="src/tatc/analysis/latency.py";D="src/tatc/analysis/dop.py";R="src/tatc/analysis/ro_coverage.py";T="src/tatc/analysis/track.py"
GP="src/tatc/generation/points.py";GC="src/tatc/generation/cells.py";CF="src/tatc/config.py";CO="src/tatc/constants.py"
p("P01","Viewing-geometry conversions describe one viewing triangle",
 "For every altitude, every target elevation below it and every viewing angle, field of regard (up to 180 degrees), minimum elevation angle and swath width describe the same spherical-Earth viewing triangle, so converting one to another and back returns the starting value whenever the view stays inside the horizon. A field of regard that reaches past the horizon is clamped to it: minimum elevation angle 0 and the horizon-limited swath width. The field of view computed for a swath seen off-nadir is the angle subtended by exactly that swath centred on the look direction, and equals the nadir field of regard when the look angle is zero. An instrument reports the swath width and minimum elevation angle of its field of regard.",
 ["inputs"],"all altitudes, elevations, fields of regard, swath widths and look angles in their documented ranges",
 "Tests sample three altitudes; the relation has to hold over a continuum including the horizon boundary and non-zero elevation.",
 [U,CO,I],[("field of regard/swath width/elevation angle conversions",U),("instrument wrappers",I)],["Earth radius constants"],["return values of the conversion functions","instrument swath width and minimum elevation angle"])
p("P02","Orbit period, access time and ground speed follow circular motion",
 "For every altitude and inclination the orbit period is that of Kepler's third law at mean Earth radius plus altitude, the maximum access time is the time to sweep 180 degrees minus twice the minimum elevation angle at circular speed, and the ground speed is mean Earth radius times (mean motion minus sidereal rotation rate times the cosine of the inclination). Along-track distance and access time are proportional with that ground speed as the factor, so the two conversions are exact inverses.",
 ["inputs"],"all altitudes, inclinations in degrees, minimum elevation angles, distances and durations",
 "Tests sample one or two altitudes and no inclination-dependent value at all.",
 [U,CO],[("orbit period, access time, ground velocity and along-track conversions",U)],["gravitational parameter, radius and sidereal day constants"],["return values of the conversion functions"])
p("P03","Mean and true anomaly conversions follow the equation of the centre",
 "For every anomaly and eccentricity, converting mean to true anomaly applies the equation of the centre through third order in eccentricity, and converting true to mean anomaly applies the inverse series through fourth order. Hence both are the identity for circular orbits, leave perigee and apogee fixed, are odd, and advance by exactly 360 degrees per revolution.",
 ["inputs"],"all anomalies (any revolution, any sign) and all eccentricities in [0,1)",
 "Tests check isolated values; the series, symmetry and periodicity must hold over the continuum.",
 [U],[("anomaly conversions",U)],[],["return values of the two conversions","mean anomaly of orbit objects"])
p("P04","Exported two-line elements carry the orbit definition unchanged",
 "For every valid circular, sun-synchronous, Keplerian, Molniya or Tundra orbit, the generated two-line element set carries the same epoch, inclination, right ascension, eccentricity, perigee argument, the mean anomaly of the given true anomaly, no drag terms, and the mean motion of the given altitude (circular, sun-synchronous, Keplerian) or orbital period (Molniya, Tundra). A sun-synchronous orbit gets the inclination whose nodal precession keeps pace with the mean sun and the right ascension that puts the requested ascending or descending crossing at the requested local solar time. Asking again returns the same element set.",
 ["inputs","histories"],"all admissible orbit parameters, epochs and repeated calls",
 "Tests compare a few orbits field by field; five orbit types with independent code paths and a cache must agree for all parameters.",
 [O,U],[("conversion to two-line elements",O),("sun-synchronous inclination and node",O)],["cached element set"],["two-line elements of an orbit","inclination and right ascension getters"])
p("P05","Derived orbits shift only mean anomaly and ascending node",
 "For every orbit and every pair of shifts, a derived orbit has its mean anomaly advanced by exactly the requested amount and its right ascension of ascending node advanced by exactly the requested amount, both modulo 360 degrees (for eccentric analytic orbits, with the true anomaly given by the mean-to-true conversion of the advanced mean anomaly). Altitude, inclination, eccentricity, perigee argument, orbital period, epoch, and for two-line elements the drag terms and mean motion, are unchanged, for every element set in a multi-element orbit, and the original orbit is not modified.",
 ["inputs"],"all orbit types, shifts of any size and sign, any number of element sets",
 "Tests use a few shifts of one orbit; frame conditions over every other field and every element set cannot be sampled.",
 [O],[("derived orbits of each type",O)],["list of element lines"],["fields of the derived orbit","original orbit afterwards"])
p("P06","Malformed two-line element input is always rejected as invalid",
 "A list of lines is accepted as an orbit exactly when it has a positive even number of lines, each line is 69 characters in the standard column layout with the right line number, each line's last digit equals its modulo-10 checksum (digits plus one per minus sign), and its epochs are calendar dates that do not go backwards. Anything else is reported as a validation error, never accepted and never a different kind of failure.",
 ["inputs"],"all lists of strings",
 "The input space is all strings; tests corrupt a handful of characters.",
 [U,O],[("element set validators",U),("validated element field",O)],[],["construction of a two-line-element orbit"])
p("P07","Two-line element fields are read from their standard columns",
 "For every accepted element set and every element index, each field getter returns the number or text held in that field's standard columns of that element set: catalogue number (including letter-prefixed numbers), classification, designator with four-digit year, epoch, first and second mean-motion derivative and drag term with sign and exponent, ephemeris type, set number, inclination, right ascension, eccentricity, perigee argument, mean anomaly, mean motion and revolution number. The period, semimajor axis, altitude and true anomaly derived from them follow from mean motion, Kepler's third law and the anomaly conversion.",
 ["inputs"],"all well-formed element sets with any number of elements, any index",
 "Column and sign handling must hold for every character combination; tests read one or two fixed element sets.",
 [O],[("field getters",O)],[],["getter return values"])
p("P08","The element set nearest in time is always the one used",
 "For an orbit given by several element sets, the set selected for a time is one whose epoch is nearest to that time, for every time before, between, at or after the epochs and for single times and lists alike. Propagated positions and ground-point visibility searches over a period use, at every instant, a nearest set, and the period is split into adjoining pieces that start and end exactly with the period.",
 ["inputs","histories"],"all increasing epoch lists, all times and periods",
 "Boundary cases (before the first, after the last, exactly at midpoints, periods spanning several epochs) are unbounded in number.",
 [O],[("nearest element selection",O),("timeline partition",O),("multi-element propagation and events",O)],["cached epochs"],["selected index","partition","orbit track positions","observation events"])
p("P09","Repeat-cycle propagation folds time without moving timestamps",
 "When an orbit has a repeat cycle and it is used, the state reported for each requested time is the propagated state at the epoch plus the signed remainder of the elapsed time by the cycle, stamped with the requested time; without a cycle it is the state propagated to the requested time itself. Visibility events over a period longer than the cycle are the first cycle's events repeated at whole-cycle shifts, in time order, keeping exactly those not after the end of the period. A repeat cycle is reported only if a culmination in the search period returns to the initial Earth-fixed position and velocity within the limits, and is then the earliest such time.",
 ["inputs","histories"],"all epochs, times, cycles, periods and event lists",
 "Needs arbitrary cycle lengths and event patterns, which real orbits in tests do not produce.",
 [O],[("repeat cycle search, orbit track and event repetition",O)],["cached repeat cycle"],["orbit track positions and times","observation events","repeat cycle"])
p("P10","Train and Walker constellations place every member by the pattern",
 "For every valid train, member k (from 0) trails the lead orbit by k intervals of mean motion in mean anomaly, with the node advanced by Earth rotation over k intervals only when ground tracks repeat. For every valid Walker pattern with T satellites in P planes and relative spacing F, members fill planes in order with ceil(T/P) per plane, are spaced evenly in mean anomaly within a plane, shifted by 360 F/T between adjacent planes, with nodes spread evenly over 360 (delta) or 180 (star) degrees. Exactly the requested number of members is produced, in order, with distinct numbered names that sort in order and independent copies of the instruments; inconsistent pattern parameters are rejected.",
 ["inputs"],"all constellation sizes, plane counts, spacings, intervals and lead orbits",
 "Tests use a few small constellations; index arithmetic must hold for all sizes including planes that do not divide the satellites.",
 [S,U,O],[("train and Walker member generation",S),("name padding",U)],[],["generated member satellites"])
p("P11","Mutual-orbit and street-of-coverage groups have the stated geometry",
 "Every member of a mutual orbiting group has the reference semimajor axis, an eccentricity of the parallel axis over four semimajor axes, and an orbit plane tilted from the reference plane by the transverse axis over two semimajor axes, with members equally phased around the tilt axis and perigee, phase and rotation sense given by the published construction. A street-of-coverage constellation is the Walker pattern with the smallest number of equally spaced satellites per plane and planes whose spacing does not exceed the packed footprint spacing implied by the swath width. Member counts, names and copied instruments follow the request.",
 ["inputs"],"all reference orbits, axis lengths, swath widths, packing distances and sizes",
 "Tests only count members or check a few angles.",
 [S],[("mutual orbiting group generation",S),("street-of-coverage sizing",S)],[],["generated member satellites"])
p("P12","Visible intervals are exactly the rise-to-set passes in the period",
 "For every sequence of rise, culmination and set events in a period, the visible intervals are: each rise with the first set that follows it (if that set comes within twice the maximum access time), the period start to the first set when the pass began earlier, the last rise to the period end when the pass is still open, and the whole period when only culminations occur. Every interval lies within the period, has positive length, and the intervals are in time order and do not overlap.",
 ["inputs","histories"],"all event sequences a visibility search can return, all periods",
 "Event patterns at period boundaries are combinatorial; tests use real passes only.",
 [C],[("visible interval construction",C)],[],["visible intervals of a point and satellite"])
p("P13","Observations and downlinks are exactly the passes meeting requirements",
 "An observation is recorded for a visible interval exactly when the interval is at least the instrument's minimum access time, the observation is valid at the interval midpoint for the actual target, and, for pointed instruments, the footprint at the midpoint contains the target; a downlink is recorded exactly when the interval is at least the station's minimum access time. The record spans the interval (or, with fixed access time, exactly that time centred on the midpoint), its epoch is the midpoint, and it carries the right target, satellite, instrument or station. Collecting for several satellites and instruments or stations yields the union of the individual results in order of start time.",
 ["inputs","histories"],"all interval sets, instruments, stations, satellites and constellations",
 "Requires control over intervals, validity and footprints that real passes in tests never exercise.",
 [C,L],[("observation collection",C),("downlink collection",L)],[],["collected observation and downlink tables"])
p("P14","Aggregation merges overlapping observations and only those",
 "For every table of observations, aggregation yields for each point the maximal merged intervals of its observations: output intervals are pairwise separated, cover exactly the same instants, and start and end at an observation's start and end. Each merged row lists the satellites and instruments of its observations in start order, its epoch is the mean of their epochs, its access is end minus start, and its revisit is the gap to the previous merged interval of the same point (none for the first).",
 ["inputs"],"all observation tables, in any row order and with any overlap or nesting",
 "Overlap and nesting patterns across points are unbounded; tests use a few rows.",
 [C],[("observation aggregation",C)],[],["aggregated observation table"])
p("P15","Reduced and gridded statistics are exact sample means and counts",
 "Reducing observations or latencies gives one row per point with the number of rows of that point and the mean access, revisit or latency over its rows that have a value (none if no row has one). Gridding a non-empty table gives one row per cell that contains at least one point, with the sum of its points' sample counts and, where all of them have a value, the sample-count-weighted mean of its points' statistics, whatever the order or labelling of points and cells; the input tables are not modified.",
 ["inputs"],"all tables of points, values (including missing values), cells and row labels",
 "Weighted means over arbitrary labels and memberships need more than the single-cell tables in tests.",
 [C,L],[("observation reduction and gridding",C),("latency reduction and gridding",L)],[],["reduced and gridded tables"])
p("P16","Each observation is downlinked at the first later contact",
 "For all observation and downlink tables in any order, every observation appears exactly once, paired with the downlink of the same satellite that has the earliest start not before the observation's end; its latency is the downlink epoch minus the observation epoch. Observations with no such downlink appear with station, downlink time and latency missing, and rows are ordered by observation time. With no downlinks at all the table is empty.",
 ["inputs"],"all observation and downlink tables, ties and missing satellites included",
 "Pairings depend on arbitrary interleavings of tables; tests use one.",
 [L],[("latency computation",L)],[],["latency table"])
p("P17","Dilution of precision is the formula over exactly the visible satellites",
 "For every time, the reported value is the square root of the sum of the diagonal entries belonging to the requested kind (all four, three position, two horizontal, vertical, time) of the inverse of the normal matrix built from the unit line-of-sight directions and a clock term of exactly the satellites at or above the elevation mask. It is missing when fewer satellites than the requested minimum (or than four) are visible or the matrix is singular. Each satellite is where its element set nearest the time puts it, and each row is labelled with its time and located at the user's longitude and latitude.",
 ["inputs"],"all satellite geometries, masks, minimum counts and times",
 "Tests cover one constellation and compare magnitudes only.",
 [D],[("dilution of precision",D)],[],["dilution table"])
p("P18","Radio occultations are the maximal valid arcs at the true tangent point",
 "At every sampled time the tangent point is the point of the receiver-transmitter line closest to the Earth's centre, an occultation sample is valid exactly when that point lies between the two satellites, the transmitter is within the yaw limit fore or aft of the receiver, and the point's height is strictly inside the elevation range. Each reported arc is a maximal run of consecutive valid samples for one transmitter, rising when the transmitter is ahead of the receiver at its first sample, and its reported position, angles and time are those of the sample whose height is nearest the requested sample elevation; rows are ordered by that time.",
 ["inputs","histories"],"all satellite motions, sample times, limits and transmitter sets",
 "Arc segmentation over validity patterns is combinatorial; tests see a handful of arcs.",
 [R],[("occultation series",R),("occultation table",R)],[],["radio occultation table"])
p("P19","Sample points and grid cells are unique, in range and consistent",
 "For every spacing, generated grid points and cells have distinct non-negative identifiers, a grid point is the centre of the cell with the same identifier, cells are one spacing wide (the angle of the requested distance on the mean Earth sphere) and tile the globe without gaps or overlaps beyond rounding of the last row or column, and Fibonacci points have consecutive identifiers, longitudes in [-180,180] and strictly increasing latitudes strictly between the poles. With a valid region mask (longitudes from -180 to 540, spanning at most one turn), the points are exactly those of the global set lying in the region, and the cells those centred within its bounds that meet it (cut to it), with the identifiers and (up to a whole turn) coordinates of the global set; an invalid mask is a ValueError.",
 ["inputs"],"all spacings, elevations and polygon masks",
 "Identifier collisions appear only for spacings whose division leaves particular fractions.",
 [GP,GC,U],[("point generation",GP),("cell generation",GC)],[],["generated point and cell tables"])
p("P20","Splitting at the antimeridian and poles keeps the same region",
 "For every 2-D polygon spanning less than 360 degrees of longitude whose edges run the short way round (a step of 180 degrees or more between consecutive vertices, with longitudes in [-180,180], is a crossing of the antimeridian), splitting moves points only by whole turns of longitude or by reflection over a pole, so that the result covers the same region of the globe, holes included, with longitudes in [-180,180] and latitudes in [-90,90]. Polygons already in range that do not cross the antimeridian are returned unchanged, a ring drawn around a pole (longitudes in order, holes away from the antimeridian) covers the cap up to the pole, and projecting to an elevation changes only the height of each vertex.",
 ["inputs"],"all polygons and multipolygons, with or without holes",
 "Crossing patterns, holes and polar cases are unbounded; tests use a few boxes.",
 [U],[("splitting, wrapping and projection of polygons",U)],[],["split polygon","normalised geometry","footprints"])
p("P21","Instrument footprints and pixels point along the specified directions",
 "For every satellite state, fields of view below 180 degrees and roll and pitch within 90 degrees either way, the footprint edge ray at each angle (radians) is the nadir direction tilted by the roll (cross-track, positive along velocity x nadir) and the pitch (along-track) plus the half field-of-view tangent along and across track (following the ellipse, or the rectangle's sides), and the footprint vertex is where that ray first meets the Earth ellipsoid at the target elevation, or, when the ray misses, the limb point in the plane of the ray and the nadir on the side of the ray. Pixel directions subdivide the field of view evenly about the boresight, a pixel spacing of (1 - oversampling) times the field of view over the number of pixels. For several times the result at each time equals the single-time result, and one time gives a single result.",
 ["inputs"],"all states, angles, fields of view, pointing angles and pixel counts",
 "The direction field is continuous in eight parameters.",
 [U,I],[("projected ray position and footprint",U),("pointed instrument pixels",I)],[],["footprint vertices","footprint centre","pixel positions"])
p("P22","Observation validity is the conjunction of the stated requirements",
 "For every instrument and satellite track, an observation time is valid exactly when every requirement that is set holds at that time: the satellite is sunlit (or eclipsed) as required and the sun is above (or not above) the horizon at the target as required; requirements that are not set never matter. One time gives a single truth value and several times give one value per time.",
 ["inputs"],"all requirement combinations, tracks and targets",
 "Nine requirement combinations over arbitrary sunlight patterns; the bundled tests for sunlight cannot even run without the ephemeris.",
 [I],[("observation validity",I)],[],["validity result"])
p("P23","Track tables have one correct row per sampled time within the mask",
 "For chronological times and no mask, orbit-track, ground-track and ground-pixel tables contain every requested time in order (one row per time, or per pixel), each carrying the satellite, instrument, validity, and the position, velocity, swath width, footprint, sunlight and sun or satellite angles of that time. With a mask, the tables hold (in any order) exactly one row for every time whose footprint meets the mask (for orbit tracks, whose ground point lies in it; for pixels, the pixels within it), for polygon, multi-polygon and multi-geometry masks alike, except that a time whose ground point lies beyond the documented culling distance of the mask may be missing; footprints are cut to the mask and the other values are unaffected. The aggregated ground track is, orbit by orbit or overall, the union of the footprints of the valid times; with the line method it is, for each run of consecutive valid times within an orbit or overall, the area within half the run's mean swath width of the line through the places below the satellite, across the antimeridian in either direction alike.",
 ["inputs"],"all satellites, time lists, masks and options",
 "Culling errors appear only for particular mask shapes and times.",
 [T,U],[("orbit track, ground track and pixel collection",T),("target buffering",U)],[],["track tables"])
p("P24","Configuration files load completely or fail as configuration errors",
 "For every file path and file content, a file that maps settings to permitted values loads with each given value honoured and every other setting at its default (names that are no setting are ignored; an empty file may count as either kind), and anything else - a file that is missing, unreadable or malformed, that is no mapping, or that gives a setting a value of the wrong type or out of range - fails with the configuration error; no other failure escapes and no out-of-range setting is ever produced.",
 ["inputs","fault_sequences"],"all paths and file contents: missing, empty, malformed, wrong types, out-of-range",
 "File contents are unbounded; tests load two or three files.",
 [CF],[("configuration loading",CF)],["runtime configuration"],["loaded configuration or raised error"])
with open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
