"""Source of properties.jsonl and MANIFEST.json (run tools/build.py)."""

COV = "src/tatc/analysis/coverage.py"
LAT = "src/tatc/analysis/latency.py"
DOP = "src/tatc/analysis/dop.py"
RO = "src/tatc/analysis/ro_coverage.py"
TRK = "src/tatc/analysis/track.py"
CFG = "src/tatc/config.py"
CST = "src/tatc/constants.py"
CEL = "src/tatc/generation/cells.py"
PTS = "src/tatc/generation/points.py"
INS = "src/tatc/schemas/instrument.py"
ORB = "src/tatc/schemas/orbit.py"
PNT = "src/tatc/schemas/point.py"
SAT = "src/tatc/schemas/satellite.py"
ARC = "src/tatc/schemas/architecture.py"
UTL = "src/tatc/utils.py"


def P(id, title, statement, over, text, why, files, mech, oracle, cost, observe=()):
    return dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=files, mech=mech, oracle=oracle, cost=cost, observe=list(observe),
    )


PROPS = [
    P(
        "C01",
        "Observations are exactly the intervals when the target is visible",
        "For any satellite orbit, instrument field of regard, ground point (with elevation) and analysis window, the observations collected for the point are exactly the maximal time intervals, clipped to the window, in which the satellite is above the elevation angle at which the edge of the field of regard (at the altitude at the start of the window) meets the ground. Each appears once, in time order and without overlap, including one already under way when the window opens or still under way when it closes; no other interval appears, and an empty result keeps the documented columns.",
        ["inputs"],
        "every orbit type and altitude, point position and elevation, field of regard in (0, 360], window start, length and time zone",
        "Tests sample a handful of passes of one orbit and compare counts; they do not reach windows that open or close inside a pass, polar/antimeridian points, geostationary or eccentric orbits.",
        [COV, ORB, INS, UTL],
        [("rise/set event pairing", COV), ("find_events windowing", ORB), ("minimum elevation angle", UTL)],
        "independent reference: dense sampling plus root refinement of the elevation angle with skyfield propagation of the element set, minimum elevation from a separate triangle solution",
        "~20 s quick; intervals under 5 s or grazing by <0.05 deg may be missed, edges compared to 1 s / 0.01 deg",
        ["tatc.analysis.collect_observations"],
    ),
    P(
        "C02",
        "Downlink contacts are exactly the visible intervals of each station",
        "For any satellite, list of ground stations and window, the collected downlinks are exactly the maximal intervals, clipped to the window, in which the satellite is above that station's minimum elevation angle (station elevation included) and which last at least the station's minimum access time. Each row names its station and satellite, carries the station's position, and rows are in time order with no duplicates.",
        ["inputs"],
        "every orbit, station position/elevation/minimum elevation angle/minimum access time, number of stations, window",
        "Tests use one orbit and one station and check row counts only.",
        [LAT, ORB],
        [("downlink collection", LAT)],
        "same visibility reference as C01 applied per station, plus the duration filter",
        "~15 s quick; contacts within 3 s of the minimum access time may go either way",
        ["tatc.analysis.collect_downlinks"],
    ),
    P(
        "C03",
        "Instrument constraints select observations and records carry true attributes",
        "An observation is kept exactly when it lasts at least the instrument's minimum access time and, at its midpoint epoch, the satellite and the target meet the required sunlit states, and (for pointed instruments) the target lies inside the pointed view. Every record carries the point id, the point's longitude, latitude and elevation as geometry, satellite and instrument names, and start/epoch/end with epoch the midpoint; when the access time is fixed, the record spans the minimum access time centred on the midpoint. When requested, it carries the satellite's altitude and azimuth and the sunlit state, solar altitude, azimuth and solar time at the epoch.",
        ["inputs", "configurations"],
        "every instrument constraint combination, sun geometry, access time and point",
        "Tests check one or two constraints at one date; sunlight requirements and pointed views depend on geometry a sample cannot cover.",
        [COV, INS],
        [("is_valid_observation", INS), ("record assembly", COV)],
        "unconstrained collection (decided by C01) filtered by independently computed sun geometry, view angles and durations",
        "~20 s quick; samples at the edge of the view or of the terminator go either way",
        ["tatc.analysis.collect_observations"],
    ),
    P(
        "C04",
        "Observations of several systems are the time-ordered union of each one's",
        "Collecting observations for a list of satellites and constellations yields exactly the union (as a multiset) of the observations of every generated member satellite and each of its instruments, sorted by start time with a fresh index, whatever the order of the systems in the list.",
        ["inputs"],
        "every list of satellites/constellations and instruments, including duplicates and systems with no observations",
        "Tests use one constellation and check that rows exist.",
        [COV, SAT],
        [("member and instrument enumeration", COV)],
        "differential against collect_observations for each member and instrument",
        "~15 s quick",
        ["tatc.analysis.collect_multi_observations"],
    ),
    P(
        "C05",
        "Aggregation merges overlapping observations of each point, and only those",
        "Aggregating observations yields, per point, the connected groups of observations whose intervals overlap or touch, each with earliest start, latest end, their access duration and the list of contributing satellites/instruments; no time covered by an observation is lost or added. The revisit of each group is the gap from the end of the previous group of the same point to its start, undefined for the first.",
        ["inputs", "histories"],
        "every multiset and row order of observations over any number of points and satellites",
        "Tests use two or three hand-made rows; nesting, equal times, three-way chains and interleaved points are not reached.",
        [COV],
        [("interval merging", COV)],
        "reference interval union per point on integers",
        "~10 s quick",
        ["tatc.analysis.aggregate_observations"],
    ),
    P(
        "C06",
        "Reduction gives each point's mean access, revisit, latency and sample count",
        "Reducing aggregated observations (or latencies) yields one record per point with the arithmetic mean of its defined access and revisit (or latency) values, its number of samples and its position; undefined values are ignored, and a metric with no defined value is undefined. The result does not depend on row order.",
        ["inputs", "histories"],
        "every collection of aggregated records, including undefined values, single-record points, empty input",
        "Tests reduce one or two hand-made points without undefined values.",
        [COV, LAT],
        [("group-by reduction", COV), ("group-by reduction of latency", LAT)],
        "exact integer mean per point; pipeline aggregate->reduce on generated histories",
        "~12 s quick",
        ["tatc.analysis.reduce_observations", "tatc.analysis.reduce_latencies"],
    ),
    P(
        "C07",
        "Gridding puts the sample-weighted mean of contained points in each cell",
        "Gridding reduced observations or latencies gives every cell that contains a reduced point exactly once, with the total samples of the points it contains and the sample-weighted mean of their access, revisit or latency; no other cell receives samples or metrics, and cell ids and geometries are unchanged. A cell holding a point of undefined revisit or latency reports the weighted mean of the defined ones or undefined.",
        ["inputs"],
        "every set of cells and reduced points, including empty cells and undefined metrics",
        "Tests grid one or two points of equal weight.",
        [COV, LAT],
        [("spatial join and weighting", COV)],
        "exact weighted mean over brute-force containment",
        "~10 s quick; points exactly on cell borders are not judged",
        ["tatc.analysis.grid_observations", "tatc.analysis.grid_latencies"],
    ),
    P(
        "C08",
        "Latency pairs each observation with its satellite's first later contact",
        "Computing latencies yields one record per observation, paired with the earliest-starting contact of the same satellite that starts no earlier than the observation ends, reporting that contact's station, the contact's epoch as the downlinked time, the observation's epoch as the observed time, and their difference as latency; an observation with no such contact has an undefined latency (without any contact at all, the result is an empty table). Contacts of other satellites, row order and time resolution never matter.",
        ["inputs", "histories"],
        "every set of observations and contacts of any number of satellites and stations",
        "Tests pair one satellite's few rows.",
        [LAT],
        [("pairing", LAT)],
        "brute-force pairing",
        "~10 s quick",
        ["tatc.analysis.compute_latencies"],
    ),
    P(
        "C09",
        "Dilution of precision follows from the visible satellites' geometry",
        "At each requested time the dilution of precision of a point equals the value defined by the inverse of the geometry matrix of unit vectors to the satellites above the minimum elevation angle, for each of the geometric, position, horizontal, vertical and time kinds. It is defined only when more satellites than the minimum visible count (default 3) are visible, and the record carries the time and the point's position.",
        ["inputs"],
        "every constellation, point (with elevation), time, mask angle, kind and minimum visible count",
        "Tests check one constellation, point and kind.",
        [DOP],
        [("geometry matrix", DOP)],
        "independent topocentric geometry matrix in float64",
        "~10 s quick; near-singular geometry not judged",
        ["tatc.analysis.compute_dop"],
    ),
    P(
        "C10",
        "Radio occultations are the maximal runs of valid tangent geometry",
        "For a receiver, transmitters and sample times, the collected occultations are exactly the maximal runs of consecutive samples in which the transmitter is occulted at an allowed tangent height and within the allowed yaw of the fore or aft direction. Each record gives the receiver and transmitter, the true tangent points, whether it is rising or setting, its start, epoch and end, and the pitch, yaw and azimuth of the ray at the sample nearest the requested elevation.",
        ["inputs", "histories"],
        "every receiver/transmitter pair, sampling, height range and maximum yaw",
        "There are no tests of radio occultation.",
        [RO],
        [("tangent point and run segmentation", RO)],
        "independent tangent-point geometry over the same sampled positions, including synthetic crossing geometries",
        "~20 s quick; samples within 5 m / 1e-4 deg of a limit not judged",
        ["tatc.analysis.collect_ro_observations"],
    ),
    P(
        "C11",
        "Element sets are accepted iff well formed and decode to what they encode",
        "A list of TLE lines is accepted exactly when every line has the right length, numbering, character layout and checksum, lines pair up, and epochs are in chronological order; anything else is rejected. Every accessor (catalog number, designator, epoch, derivatives, drag, inclination, node, eccentricity, perigee, mean anomaly, mean motion, and the derived period, semimajor axis, true anomaly, altitude) returns the encoded value.",
        ["inputs"],
        "every field value representable in the format, every single-character corruption, every ordering of several sets",
        "Tests decode one ISS element set and reject two malformed ones.",
        [ORB],
        [("tle validator", ORB), ("field accessors", ORB)],
        "independent TLE encoder: generated fields -> text -> accessors; independent format checker on mutated text",
        "~15 s quick",
        ["tatc.schemas.TwoLineElements"],
    ),
    P(
        "C12",
        "Every orbit specification converts to the element set it specifies",
        "Circular, sun-synchronous, Keplerian, Molniya and Tundra orbits convert to an element set whose epoch, inclination, node, eccentricity, perigee, mean anomaly and mean motion equal those of the specification at TLE resolution, with no drag terms. Conversion is repeatable, and the specification's own mean anomaly, mean motion, period and semimajor axis agree with it.",
        ["inputs"],
        "every orbit of each type, epoch and time zone",
        "Tests convert one instance of each orbit type with mostly zero angles.",
        [ORB, UTL],
        [("to_tle", ORB), ("anomaly conversions", UTL)],
        "independent two-body computation from the specification",
        "~10 s quick; compared at TLE field resolution",
        ["to_tle of every orbit class"],
    ),
    P(
        "C13",
        "A derived orbit shifts mean anomaly and node, and nothing else",
        "Deriving an orbit with given shifts of mean anomaly and right ascension yields an orbit (of the same type; for a sun-synchronous orbit, an equivalent circular one) whose mean anomaly and node are shifted by exactly those angles modulo 360 degrees, and every other element, including the epoch, unchanged. Zero shifts give the same motion and shifts compose additively.",
        ["inputs", "histories"],
        "every orbit of each type and every pair of shifts, positive, negative or beyond a full turn",
        "Tests derive one orbit of each type with one small shift.",
        [ORB, UTL],
        [("get_derived_orbit", ORB)],
        "angle arithmetic on the converted element sets",
        "~10 s quick",
        ["get_derived_orbit of every orbit class"],
    ),
    P(
        "C14",
        "Orbit tracks are the SGP4 propagation of the element set",
        "The orbit track of an orbit at any time, or any sequence of times in any order and time zone, is the SGP4 position and velocity of its element set at exactly those times. The value at a time does not depend on which other times are requested along with it.",
        ["inputs", "histories"],
        "every orbit, single time or sequence, time zone and order",
        "Tests propagate one orbit to a few times.",
        [ORB],
        [("get_orbit_track", ORB)],
        "sgp4 library called directly, plus order/scalar metamorphic relations",
        "~10 s quick",
        ["get_orbit_track"],
    ),
    P(
        "C15",
        "With several element sets, the closest in epoch is used at each time",
        "An orbit with several element sets propagates each time with the element set whose epoch is closest, partitions any window at the midpoints between epochs, and finds observation events of a point with the set that is closest at the event. Within the span of one element set every analysis (tracks, footprints, dilution of precision, occultations, contacts) equals that of a satellite with this set alone. If the sets describe one and the same motion, the observations collected are the same as with a single set.",
        ["inputs"],
        "every chronological list of element sets, window and time",
        "Tests use one pair of element sets at a few times.",
        [ORB, DOP, RO],
        [("get_closest_tle_index", ORB), ("partition_by_tle_index", ORB)],
        "brute-force closest epoch, per-piece visibility reference, differential analyses with the closest set alone, consistency of re-encoded sets of one orbit",
        "~15 s quick",
        ["TwoLineElements.get_orbit_track", "TwoLineElements.get_observation_events"],
    ),
    P(
        "C16",
        "A repeat cycle is a true ground-track repeat and extends results periodically",
        "A reported repeat cycle is a time after which the orbit's Earth-fixed position and velocity return within the requested tolerances, no longer than the search limit, and none is reported when the orbit does not come back. With repeat cycles enabled, the orbit track and observation events beyond one cycle are those of the first cycle shifted by whole cycles in the Earth-fixed frame.",
        ["inputs", "configurations"],
        "every repeating and non-repeating orbit, tolerance, window and time",
        "Tests check one repeating orbit's period.",
        [ORB, CFG],
        [("get_repeat_cycle", ORB), ("repeat mode of tracks and events", ORB)],
        "direct propagation of the state at the epoch and one cycle later; periodicity of tracks and events",
        "~30 s quick; near-tolerance returns not judged",
        ["get_repeat_cycle", "get_orbit_track", "get_observation_events"],
    ),
    P(
        "C17",
        "Sun-synchronous orbits precess with the Sun and cross at the requested time",
        "A sun-synchronous orbit has the retrograde inclination at which its node precesses once per year, and its satellite crosses the equator northbound (or southbound, if so specified) at the requested local solar time, at the epoch and weeks later.",
        ["inputs"],
        "every altitude, crossing time, ascending/descending choice, epoch and true anomaly",
        "Tests check the inclination of one altitude and the node at one epoch.",
        [ORB],
        [("inclination and node from crossing time", ORB)],
        "propagate with SGP4, locate the node crossing, compute local mean solar time with an independent sun ephemeris",
        "~10 s quick; +-4 min on local time, 1 % on precession",
        ["SunSynchronousOrbit"],
    ),
    P(
        "C18",
        "Orbital mechanics utilities satisfy Kepler's laws and invert each other",
        "True and mean anomaly conversions satisfy Kepler's equation and invert each other for every angle and eccentricity below one; orbit period, orbital and ground velocity follow from altitude (and inclination), and distance, time and sample-count conversions are mutually consistent. The maximum access time is the time a circular orbit takes across the arc between the minimum elevation angles of an overhead pass.",
        ["inputs"],
        "every altitude, inclination, eccentricity below 1, angle and instrument field",
        "Tests check a few textbook values.",
        [UTL],
        [("anomaly, period and velocity formulas", UTL)],
        "independent two-body formulas, inverse round trips, monotonicity",
        "~5 s quick",
        ["tatc.utils"],
    ),
    P(
        "C19",
        "Viewing geometry conversions agree with the Earth triangle and invert",
        "Conversions among field of regard/field of view, swath width, elevation angle, access and look angles agree with the spherical-Earth viewing triangle, invert each other wherever the geometry is observable, and saturate at the horizon otherwise.",
        ["inputs"],
        "every altitude, field, swath width, off-nadir look angle and elevation",
        "Tests check a few textbook values and one inversion.",
        [UTL, INS, SAT],
        [("viewing geometry formulas", UTL)],
        "independent triangle solution by vector geometry, inverse round trips, monotonicity",
        "~5 s quick",
        ["tatc.utils"],
    ),
    P(
        "C20",
        "Walker constellations place every satellite at its Walker position",
        "A Walker constellation with N satellites in P planes (P dividing N) and phasing F generates exactly N members, named after it with zero-padded numbers from 1, whose nodes are spaced 360/P (delta) or 180/P (star) degrees, satellites evenly spaced in anomaly within a plane and adjacent planes offset by F*360/N; all other orbital elements and the instruments are those of the lead orbit. Where P does not divide N, planes are filled in order with ceil(N/P) slots each. Configurations outside the Walker domain are rejected.",
        ["inputs", "configurations"],
        "every lead orbit type, N, P <= N, F < P and configuration",
        "Tests check one or two small constellations.",
        [SAT, ORB],
        [("generate_members", SAT)],
        "closed-form Walker pattern on the members' element sets",
        "~10 s quick",
        ["WalkerConstellation.generate_members"],
    ),
    P(
        "C21",
        "Train constellations follow the leader by the interval",
        "A train generates exactly its number of satellites, named after it with zero-padded numbers from 1; the k-th trails the lead by k intervals along the orbit and, for a repeat ground track, passes over the same Earth-fixed points as the leader k intervals later. All other orbital elements and the instruments are the leader's.",
        ["inputs"],
        "every lead orbit type, interval, count and repeat-ground-track choice",
        "Tests check the anomaly of one two-satellite train.",
        [SAT, ORB],
        [("generate_members", SAT)],
        "element arithmetic and propagated ground positions of leader and follower",
        "~10 s quick",
        ["TrainConstellation.generate_members"],
    ),
    P(
        "C22",
        "Mutual orbiting groups follow their relative ellipse around the reference",
        "A mutual orbiting group generates its number of satellites, named after it with zero-padded numbers from 1, which move around the reference orbit in relative ellipses whose full axes are the requested transverse and parallel lengths, evenly phased and in the requested sense (clockwise as seen from above), with the same period, epoch and instruments.",
        ["inputs"],
        "every reference orbit, axes, sense and number of satellites",
        "There are no tests of mutual orbiting groups.",
        [SAT],
        [("generate_members", SAT)],
        "two-body propagation of members relative to the reference in its rotating frame",
        "~10 s quick",
        ["MOGConstellation.generate_members"],
    ),
    P(
        "C23",
        "Streets-of-coverage constellations have enough planes and satellites",
        "A streets-of-coverage constellation generates the smallest number of evenly spaced satellites per plane whose footprint centres are at most the packing distance times the footprint diameter apart, and the smallest number of planes at most sqrt(3)/2 of that apart, named after it with zero-padded numbers from 1, and the lead orbit's other elements and instruments.",
        ["inputs"],
        "every lead orbit, swath width and packing distance",
        "Tests check one configuration's counts.",
        [SAT, UTL],
        [("generate_members", SAT)],
        "street-of-coverage geometry recomputed independently and members' element sets",
        "~10 s quick",
        ["SOCConstellation.generate_members"],
    ),
    P(
        "C24",
        "Projected rays hit the Earth where the instrument points",
        "The projected position of a viewing ray lies on the WGS 84 ellipsoid raised to the requested elevation, on the ray leaving the satellite at the requested roll, pitch and field-of-view angle relative to the Earth-fixed velocity and nadir (positive pitch looks forward, positive roll toward velocity x nadir), at its first intersection. A ray that misses the Earth is replaced by the limb point in the ray's direction.",
        ["inputs"],
        "every orbit position, roll, pitch, field of view, clock angle and elevation, scalar or array",
        "Tests check sub-satellite points of one orbit.",
        [UTL],
        [("compute_projected_ray_position", UTL)],
        "independent ray-ellipsoid intersection in ECEF",
        "~10 s quick",
        ["tatc.utils.compute_projected_ray_position", "compute_footprint_center"],
    ),
    P(
        "C25",
        "Footprints contain exactly the ground points inside the view",
        "An instrument footprint is a valid geometry whose interior is exactly the ground within the field of view (elliptical or rectangular, pointed or nadir), also across the antimeridian, over a pole and out to the limb. The footprint does not depend on which other times are computed along with it.",
        ["inputs"],
        "every orbit position, field of view, pointing, shape, number of points and elevation",
        "Tests check footprint validity for a few positions.",
        [UTL, INS],
        [("compute_footprint", UTL), ("compute_limb", UTL)],
        "point-in-view test of generated ground points by independent view angles against shapely containment",
        "~20 s quick; points near the boundary (polygon chord error) not judged",
        ["Instrument.compute_footprint", "PointedInstrument.compute_footprint"],
    ),
    P(
        "C26",
        "Pixel arrays tile the field of view with the requested pixels",
        "The pixel array of a pointed instrument has one pixel per along- and cross-track index, whose view directions are evenly spaced with the configured oversampling and centred on the boresight, the cross-track index increasing with roll and the along-track index from fore to aft, each projected to the ground where that direction meets it. Ground pixel tables list every pixel of every time once with its position and whether the observation is valid; a mask keeps exactly the pixels inside it.",
        ["inputs"],
        "every pixel count, oversampling, pointing and orbit position",
        "Tests check one pixel array's size.",
        [INS, TRK, UTL],
        [("compute_footprint_pixel_array", INS), ("compute_ground_pixels", TRK)],
        "independent pixel directions intersected with the ellipsoid",
        "~15 s quick",
        ["PointedInstrument.compute_footprint_pixel_array"],
    ),
    P(
        "C27",
        "Splitting polygons at the antimeridian and poles preserves the region",
        "Splitting or normalizing a geometry (edges spanning less than 180 and polygons less than 360 degrees of longitude) yields valid geometries with longitudes in [-180, 180] and latitudes in [-90, 90] that cover the same region of the globe, whatever its longitude convention, and leaves geometries that do not cross unchanged.",
        ["inputs"],
        "every simple polygon or multipolygon, with or without holes, longitudes up to 360 beyond the antimeridian, poles included",
        "Tests split a few rectangles.",
        [UTL],
        [("split_polygon", UTL), ("normalize_geometry", UTL)],
        "membership of generated points modulo 360 before and after, exact planar area",
        "~10 s quick",
        ["tatc.utils.split_polygon", "tatc.utils.normalize_geometry"],
    ),
    P(
        "C28",
        "Orbit track tables give each instrument's true position at each time",
        "The orbit track table has one row per requested time, in order, with the satellite and instrument, the satellite's position in the requested representation (geodetic, Earth-fixed, or inertial; optionally velocity), the instrument's swath width and whether the observation is valid. A mask keeps exactly the rows whose sub-satellite point lies in it.",
        ["inputs", "configurations"],
        "every satellite, instrument, time list, elevation, coordinate choice and mask",
        "Tests check row counts and one position.",
        [TRK],
        [("collect_orbit_track", TRK)],
        "direct propagation and geodetic conversion, brute-force mask containment",
        "~15 s quick",
        ["tatc.analysis.collect_orbit_track"],
    ),
    P(
        "C29",
        "Ground track tables give each footprint at each time and honour masks",
        "The ground track table has one row per requested time with the instrument's footprint at that time, as a circle of the swath width in a projected coordinate system or as the view on the ellipsoid, and whether it is valid; a mask clips every footprint to it and drops only rows whose footprint does not reach it. When requested, it gives the altitude and azimuth of the satellite and of the Sun at the centre of the view.",
        ["inputs", "configurations"],
        "every satellite, instrument, times, coordinate system choice and mask",
        "Tests check row counts of one orbit.",
        [TRK],
        [("collect_ground_track", TRK)],
        "instrument footprint at each time (decided by C25), independent swath circle, brute-force clipping",
        "~20 s quick",
        ["tatc.analysis.collect_ground_track"],
    ),
    P(
        "C30",
        "Aggregated ground tracks cover exactly what the instrument sweeps",
        "The aggregated ground track covers the valid footprints (point method) or the swath about the sub-satellite path (line method), split per instrument and, where so requested, per orbit, and nothing beyond; only valid observations contribute. A mask restricts the result to the mask.",
        ["inputs", "configurations"],
        "every satellite, instrument, times, method and mask",
        "Tests check that one aggregate exists.",
        [TRK],
        [("compute_ground_track", TRK)],
        "union of the individual footprints; distance of generated points to the propagated path",
        "~20 s quick",
        ["tatc.analysis.compute_ground_track"],
    ),
    P(
        "C31",
        "Sunlight and solar angles in results are the true ones",
        "Wherever results report sunlit state or solar angles (observation tables, orbit tracks, ground tracks), they are those of the Sun's position at that time as seen from the satellite or the target.",
        ["inputs"],
        "every orbit, point and time of year and day",
        "Tests do not check solar columns.",
        [COV, TRK, INS],
        [("solar columns", COV), ("sunlit columns", TRK)],
        "independent solar position and cylindrical/conical shadow with a terminator margin",
        "~15 s quick",
        ["collect_observations(omit_solar=False)", "collect_orbit_track"],
    ),
    P(
        "C32",
        "Fibonacci points sample the globe evenly and masks keep exactly those inside",
        "The generated Fibonacci lattice has the number of points implied by the requested distance, unique consecutive ids, latitudes and longitudes in range, and near-uniform spacing close to that distance; a mask keeps exactly the lattice points inside it and changes none of them.",
        ["inputs"],
        "every distance, elevation and mask (box, polygon, multipolygon, crossing the antimeridian)",
        "Tests check a few counts.",
        [PTS],
        [("lattice generation and masking", PTS)],
        "closed-form lattice, brute-force containment, nearest-neighbour spacing",
        "~10 s quick",
        ["tatc.generation.generate_fibonacci_lattice_points"],
    ),
    P(
        "C33",
        "Grid points and cells tile the globe and correspond by id",
        "Equally spaced cells, starting at longitude -180 and latitude -90 with the whole rows and columns closest to filling the globe, tile it without gaps or overlaps; equally spaced points lie at the centres of those cells with the same ids, and both have unique ids and in-range coordinates. A mask keeps exactly the points inside it, and the cells that reach it (clipped to the mask) whose centre lies within its bounds.",
        ["inputs"],
        "every grid resolution, elevation, strip and mask",
        "Tests check a few counts.",
        [PTS, CEL],
        [("cubed-square and lat/lon grids", PTS), ("cells", CEL)],
        "closed-form grid arithmetic, area sums, random location lookup",
        "~15 s quick",
        ["tatc.generation"],
    ),
    P(
        "C34",
        "Schemas accept exactly their documented domain and round-trip through JSON",
        "Every schema object built from values in the documented range is accepted and equal to itself after being written to JSON and read back, including orbit and instrument subtypes; values outside the documented range are rejected.",
        ["inputs"],
        "every schema class and field, at, inside and outside its bounds",
        "Tests check one valid and a few invalid values per class.",
        [PNT, INS, ORB, SAT, ARC],
        [("pydantic models", SAT)],
        "round trip and documented bound table",
        "~10 s quick",
        ["tatc.schemas"],
    ),
    P(
        "C35",
        "Configuration defaults are honoured and overrides stay in force",
        "Run-time configuration starts at the packaged defaults, can be overridden, validated and reset, and every analysis that takes an optional setting behaves as if the configured value had been passed explicitly. Lazily loaded results are reused only while lazy loading is in force.",
        ["configurations", "histories"],
        "every sequence of configuration changes and every function with a configurable default",
        "Tests do not exercise configuration.",
        [CFG, UTL, ORB],
        [("config.rc", CFG)],
        "stateful model of the configuration; explicit-argument differential",
        "~10 s quick",
        ["tatc.config"],
    ),
    P(
        "C36",
        "Analyses are repeatable and leave their inputs untouched",
        "While the configuration is unchanged, calling any analysis, generation or conversion function leaves every argument (tables, schemas, geometries, lists) equal to what it was, and calling it again with equal arguments gives the same result.",
        ["inputs", "histories"],
        "every public function and every sequence of calls on shared arguments",
        "Tests call each function once on fresh arguments.",
        [COV, LAT, DOP, RO, TRK, UTL, ORB, SAT, PTS, CEL],
        [("copying of inputs; caches", COV)],
        "deep comparison of arguments before/after; two-call differential across generated call sequences",
        "~20 s quick",
        ["tatc.analysis", "tatc.generation", "tatc.utils"],
    ),
    P(
        "C37",
        "The stages of an analysis compose for every scenario",
        "Collecting, aggregating, reducing and gridding observations, and collecting downlinks, pairing, reducing and gridding latencies, compose for any set of systems, points and stations, including points and stations without any: the final tables equal the statistics computed directly from the individual observation and contact periods, and no observed point, sample or contact is lost, invented or moved on the way.",
        ["inputs", "histories"],
        "every set of systems, points, stations and cells, window, row order and way of joining tables",
        "Tests run each stage alone on hand-made rows, or the pipeline once with every point observed.",
        [COV, LAT, CEL],
        [("stage interfaces (columns, types, empty tables)", COV), ("stage interfaces", LAT)],
        "end-to-end statistics from the individual periods by brute force",
        "~15 s quick",
        ["tatc.analysis"],
    ),
    P(
        "C38",
        "Equivalent ways of asking give the same answer",
        "The answer of an analysis, grid generator, conversion or footprint function depends on what is asked and not on how it is written: an optional argument left out means its documented default, arguments may be given by name or by position, instants in any UTC offset or as timestamps, one system or station alone or as the only one in a list, a region as a polygon with any starting vertex or direction, a one-part multi-polygon, a data frame or a series, numbers as integers, floats or numpy scalars, and an orbit as its own two-line element set.",
        ["inputs"],
        "every public function with its arguments, and every combination of ways to write them",
        "Tests write each call in one way.",
        [COV, LAT, DOP, RO, TRK, UTL, INS, PTS, CEL],
        [("signatures and their defaults", COV), ("handling of masks and times", TRK)],
        "metamorphic: the call with every argument spelled out against the same call written differently",
        "~100 s quick",
        ["tatc.analysis", "tatc.generation", "tatc.utils", "tatc.schemas"],
    ),
]
