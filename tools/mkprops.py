#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Near-Earth states match the published SGP4 model",
  "For every element set with an orbital period below 225 minutes and every time offset before or after epoch, the propagated position and velocity equal those of the published SGP4 theory (Spacetrack Report 3 as revised by Vallado et al. 2006, with this library's WGS-84 gravity constants) up to floating-point rounding. This includes the drag terms, the simplified low-perigee treatment, the low-perigee drag-density adjustments, near-circular and retrograde orbits. Where the theory declares the orbit invalid, the library reports that same failure instead of a state.",
  ["inputs"], "all element sets (inclination 0..180 deg, eccentricity 0..<1, any angles, drag positive/zero/negative, period < 225 min) x all times since epoch, positive, negative and zero",
  "The suite propagates one near-Earth satellite (which takes the simplified drag branch) at two times with a 100 m tolerance; it never enters the full drag series, the low-perigee adjustments, negative times or retrograde/circular orbits.",
  ["src/propogation/sgp4.rs", "src/propogation/sgp4init.rs", "src/propogation/initl.rs", "src/constants.rs"],
  [("initialisation of secular and drag coefficients", "src/propogation/sgp4init.rs: sgp4init"), ("secular update, Kepler solve, short-period corrections", "src/propogation/sgp4.rs: sgp4"), ("un-Kozai of mean motion", "src/propogation/initl.rs: initl")],
  ["state returned by propagation", "error returned by propagation"])

p("C02", "Deep-space states match the published SDP4 model",
  "For every non-resonant element set with a period of 225 minutes or more and every time offset, in the improved as well as the AFSPC operation mode, the propagated position and velocity equal those of the published deep-space theory up to floating-point rounding. All lunar and solar effects on eccentricity, inclination, node, perigee and mean anomaly, secular and periodic, are present in the result, including the special treatment of low and of near-polar-retrograde inclinations.",
  ["inputs", "configurations"], "all non-resonant deep-space element sets x epochs 1957..2056 x times x operation mode",
  "One deep-space satellite at two times with a 50 km tolerance, which the code as found satisfied while discarding almost all lunar-solar corrections; low inclinations, AFSPC mode and other epochs are never exercised.",
  ["src/propogation/sgp4.rs", "src/propogation/sgp4init.rs", "src/propogation/dscom.rs", "src/propogation/dsinit.rs", "src/propogation/dspace.rs", "src/propogation/dpper.rs"],
  [("lunar-solar coefficients", "src/propogation/dscom.rs: dscom"), ("secular rates", "src/propogation/dsinit.rs: dsinit, src/propogation/dspace.rs: dspace"), ("periodics and Lyddane modification", "src/propogation/dpper.rs: dpper"), ("application of both to the mean elements", "src/propogation/sgp4.rs: sgp4")],
  ["state returned by propagation"])

p("C03", "Resonant 12-hour and 24-hour orbits match the published model",
  "For every geosynchronous-like (about one revolution per day) and Molniya-like (about two revolutions per day, eccentricity at least 0.5) element set and every time offset before or after epoch, short or years long, the propagated state equals that of the published theory with its numerically integrated geopotential resonance, up to floating-point rounding. Orbits just outside the resonance windows get no resonance terms.",
  ["inputs"], "all element sets in and at the edges of the two resonance windows x times spanning zero, one and many integration steps, both signs",
  "No existing test contains a resonant orbit: every resonance coefficient, the whole integrator and both of its time directions are unexercised.",
  ["src/propogation/dsinit.rs", "src/propogation/dspace.rs", "src/propogation/sgp4.rs", "src/propogation/sgp4init.rs"],
  [("resonance classification and coefficients", "src/propogation/dsinit.rs: dsinit"), ("720-minute step integrator", "src/propogation/dspace.rs: dspace")],
  ["state returned by propagation", "resonance class published on the initialised record"])

p("C04", "A propagated state depends only on the element set and the time",
  "For any sequence of propagations of one record, in any order of times, with repetitions, sign changes and failures in between, every answer equals the answer of a freshly initialised record at that time. Propagating to a calendar time leaves the caller's record unchanged, a cloned record behaves like the original, and re-initialising a used record with other elements behaves like initialising a new one and shows the same elements and class.",
  ["histories"], "all sequences of propagate / propagate-to-calendar-time / clone / re-initialise operations on near-Earth, deep-space and resonant records",
  "Tests propagate each record forward at two fixed times; they cannot show that coefficients overwritten during one call never leak into the next.",
  ["src/propogation/sgp4.rs", "src/propogation/sgp4init.rs", "src/propogation/mod.rs", "src/io.rs"],
  [("re-derivation of inclination-dependent coefficients on every deep-space call", "src/propogation/sgp4.rs: sgp4"), ("integrator restart from epoch", "src/propogation/dspace.rs: dspace"), ("private copy for calendar propagation", "src/propogation/mod.rs: propogate_datetime"), ("zeroing of all derived fields", "src/propogation/sgp4init.rs: sgp4init")],
  ["sequence of results", "record fields before and after"],
  [("satrec", "mutable record shared by successive calls", "src/io.rs: Satrec")])

p("C05", "Propagation returns a usable state or a classified error, never garbage",
  "For every parsed element set and every finite time offset up to decades, propagation returns, without crashing or hanging, either a state with finite components whose distance from the Earth's centre is at least one Earth radius, or an error. The error is the one the model documents for the condition met (1 eccentricity out of range, 2 non-positive mean motion, 3 perturbed eccentricity out of range, 4 negative semi-latus rectum, 6 decayed), its numeric code is also recorded on the record, and a later success clears it.",
  ["inputs", "histories"], "all parseable element sets including physically absurd ones (negative or zero mean motion, huge drag, sub-orbital perigee, eccentricity near 1) x times up to +-150 years x sequences of calls",
  "No test reaches any error return; none looks at non-finite results.",
  ["src/propogation/sgp4.rs", "src/propogation/sgp4init.rs", "src/io.rs"],
  [("validity checks in the propagation step", "src/propogation/sgp4.rs: sgp4"), ("error codes", "src/propogation/sgp4.rs: SGP4Error::code")],
  ["result of propagation", "error field of the record", "result of initialisation"])

p("C06", "Every TLE field decodes to exactly the value its columns state",
  "For every two-line element set laid out in the standard columns, the decoded record carries the satellite number, epoch, drag term, first and second mean-motion derivatives, inclination, node, eccentricity, perigee, mean anomaly and mean motion that the text states, in the library's internal units. Implied decimal points, explicit signs, signed exponents and leading zeros of the mantissas are honoured, and columns other than a field's own never influence it.",
  ["inputs"], "all standard-layout TLE texts: every digit string, sign and exponent per field, arbitrary content in unused columns, lines with or without trailing text",
  "Two fixed TLEs are decoded; neither has a negative drag or derivative, a mantissa with leading zeros, a positive exponent or a boundary value.",
  ["src/io.rs", "src/constants.rs"],
  [("fixed-column decoding", "src/io.rs: parse_satrec")],
  ["fields of the decoded record"])

p("C07", "TLE epochs map to the right Julian date for every year and day",
  "For every two-digit epoch year and every fractional day of year, the decoded record's Julian date is that of midnight January 1 of the intended year plus the day of year minus one, where years 57..99 mean 1957..1999 and 00..56 mean 2000..2056. Leap years, month boundaries and the last day of the year introduce no jump, and the date is accurate to the resolution of the TLE field.",
  ["inputs"], "all 100 two-digit years x all day-of-year values with eight decimals from 1.0 to the end of the year",
  "One date (day 275 of 1980) is asserted; neither the century pivot nor any leap-year or month boundary is sampled.",
  ["src/io.rs", "src/ext.rs"],
  [("century pivot", "src/io.rs: parse_satrec"), ("day-of-year split", "src/ext.rs: days2mdhms"), ("Julian date", "src/ext.rs: jday")],
  ["Julian epoch date on the record"])

p("C08", "Any text is parsed or rejected with an error, never a crash",
  "For every string whatsoever, the single-set, multi-set and two-line parsers return normally: with a record or with an error value. A line that is too short to hold all its fields, or whose columns for a numeric field hold or are split by a multi-byte character, are blank, or hold anything but a finite number, is rejected with an error that identifies a field that is actually wrong, and is never accepted with a made-up value.",
  ["inputs"], "all Unicode strings; in particular every truncation, byte-level corruption and field replacement of valid element sets",
  "The only malformed input in the suite is the four-letter string 'Test'; most truncated or non-ASCII inputs abort the process on the code as found.",
  ["src/io.rs"],
  [("field extraction and error values", "src/io.rs: parse_satrec, parse_float, parse_int"), ("line splitting", "src/io.rs: parse, parse_multiple")],
  ["return value of each parser"])

p("C09", "Single-set parsing honours line structure and satellite name",
  "A text whose non-blank lines are exactly a line 1 and a line 2, optionally preceded by one title line, yields the record of those two lines; the name is absent without a title line, otherwise it is the title without its optional '0 ' marker and without surrounding whitespace. Blank lines and LF or CRLF line endings make no difference, for acceptable as well as for defective data lines. Any other number of non-blank lines, or data lines not starting with '1' and '2' in that order, is rejected with the corresponding line-count or line-check error.",
  ["inputs"], "all title lines x line endings x blank-line placements x line counts and orders",
  "Two inputs are tested: one plain title and none.",
  ["src/io.rs"], [("line counting, line-number check, title handling", "src/io.rs: parse")], ["returned record's name and elements", "returned error"])

p("C10", "Multi-set parsing recovers every valid set, in order, with its name",
  "For a text that is a sequence of element sets, each with or without a title line, the multi-set parser returns exactly the valid sets, in input order, each with the elements and name that parsing it alone would give, whatever the length or content of the titles. Each set whose data cannot be decoded or initialised contributes exactly one error carrying the index of its first line among the non-blank lines, and does not affect any other set; a single leftover line at the end is reported as a line-count error at its index.",
  ["inputs"], "all sequences of titled, untitled and corrupt element sets, any titles, LF/CRLF, blank lines between sets",
  "The only multi-set test passes one word; the intended test for two-line sets is commented out, and files of untitled sets are mis-grouped by the code as found.",
  ["src/io.rs"], [("grouping of lines into sets and error collection", "src/io.rs: parse_multiple")], ["returned records", "returned errors"])

p("C11", "Sidereal time follows the IAU-1982 GMST definition and stays in one turn",
  "For every Julian date within centuries of J2000 the sidereal angle equals the IAU-1982 Greenwich mean sidereal time reduced to the interval from 0 up to one full turn. The calendar-time form gives the angle of that same instant, including its fractional seconds.",
  ["inputs"], "all Julian dates 1850..2150 and all UTC instants 1901..2099 at sub-millisecond resolution",
  "One Julian date is asserted; dates before 2000 with negative polynomial values, wrap-around and the calendar form are not.",
  ["src/propogation/gstime.rs", "src/ext.rs"], [("GMST polynomial and reduction", "src/propogation/gstime.rs: gstime"), ("calendar form", "src/propogation/gstime.rs: gstime_datetime")], ["returned angle"])

p("C12", "Propagating to a calendar time equals propagating by elapsed minutes",
  "For every record and every UTC instant, propagating to the instant gives the state (or failure) that propagating by the minutes elapsed from the record's epoch to that instant gives. The full instant counts, including its fractional second, before as well as after epoch.",
  ["inputs"], "all records x all UTC instants 1901..2099 including sub-second parts, day, month, year and leap boundaries",
  "No test calls the calendar entry point at all.",
  ["src/propogation/mod.rs", "src/ext.rs"], [("elapsed-minutes computation", "src/propogation/mod.rs: propogate_datetime"), ("Julian date of an instant", "src/ext.rs: jday")], ["returned state or error"])

p("C13", "Inertial and Earth-fixed frames convert by an exact rotation",
  "For every vector and every sidereal angle, converting inertial to Earth-fixed and back returns the vector, both conversions preserve length and the polar component, and the Earth-fixed vector is the inertial one turned westward by the sidereal angle. Angles that differ by a full turn give the same result.",
  ["inputs"], "all finite vectors x all sidereal angles",
  "Both existing tests use a sidereal angle of zero, for which almost any formula passes.",
  ["src/transforms.rs"], [("rotation", "src/transforms.rs: eci_to_ecf, ecf_to_eci")], ["returned vectors"])

p("C14", "Geodetic and Cartesian positions are inverse on the WGS-84 ellipsoid",
  "For every latitude, longitude (also counted beyond half a turn) and height from below sea level to beyond geostationary altitude, the Cartesian position is the point at that height along the ellipsoid normal, and converting a position back at any sidereal angle recovers latitude, height and longitude. The recovered longitude always lies within half a turn of zero and the recovered latitude within a quarter turn, poles and date line included.",
  ["inputs"], "all latitudes including the poles, longitudes including the date line, heights -10 km .. 500000 km, sidereal angles of several turns",
  "Neither conversion to geodetic coordinates nor its inverse has any test; the code as found misplaces heights by up to 21 km.",
  ["src/transforms.rs"], [("ellipsoid normal and iteration", "src/transforms.rs: geodedic_to_ecf, eci_to_geodedic")], ["returned coordinates"])

p("C15", "Look angles point from the observer exactly at the target",
  "For every observer and every distinct Earth-fixed target, range is the straight-line distance, elevation the angle above the observer's ellipsoidal horizon within a quarter turn, and azimuth the clockwise angle from true north in one non-negative turn, so that following azimuth, elevation and range from the observer reaches the target. The intermediate south/east/up components are the target's offset in that local frame and preserve its length.",
  ["inputs"], "all observers (all latitudes, longitudes within a turn either way, heights) x all targets above and below the horizon, in every azimuth quadrant, overhead and antipodal",
  "One observer and one target are tested, in one azimuth quadrant and below the horizon.",
  ["src/transforms.rs"], [("local frame and angles", "src/transforms.rs: topocentric, topocentric_to_look_angles, ecf_to_look_angles")], ["returned angles and components"])

p("C16", "Angle conversions are exact inverses and range guards are exact",
  "For every angle, degree and radian conversions scale by exactly 180/pi both ways and undo each other, and kilometre and mile factors undo each other. The latitude and longitude variants return that same conversion for every value within the closed valid range (a quarter turn, respectively a half turn, either side of zero) and refuse every value outside it.",
  ["inputs"], "all finite angles, in particular the range ends and their floating-point neighbours",
  "None of the conversion functions has a test.",
  ["src/transforms.rs", "src/constants.rs"], [("scaling and range guard", "src/transforms.rs: radians_to_degrees, degrees_to_radians, degrees_lat, degrees_long, radians_lat, radians_long")], ["return value or refusal"])

p("C17", "The Doppler factor reflects the change of range over one second",
  "For every observer location, satellite position and velocity in a common frame, the Doppler factor is one plus the magnitude of the change in range over the next second divided by the speed of light. It is therefore never below one, exactly one when the range does not change, and unaffected by translating or rotating the whole configuration or by exchanging which end of the second is the start.",
  ["inputs"], "all observer/position/velocity triples at orbital scales, approaching, receding and tangential",
  "The function has no test.",
  ["src/doppler_factor.rs", "src/lib.rs", "src/constants.rs"], [("range difference and scaling", "src/doppler_factor.rs: doppler_factor")], ["returned factor"])

p("C18", "Vector addition, subtraction and distance obey Euclidean geometry",
  "For all vectors, subtraction undoes addition component by component, addition is commutative, and neither operand is changed. Distance equals the Euclidean length of the difference: it is symmetric, zero only between equal points, obeys the triangle inequality and is unchanged by translation.",
  ["inputs"], "all pairs and triples of finite vectors at astronomical scales",
  "Vector operations are only used incidentally by tests with wide tolerances.",
  ["src/lib.rs"], [("component arithmetic", "src/lib.rs: Vec3")], ["returned vectors and distances"])

p("C19", "Propagated velocity is the rate of change of propagated position",
  "For every orbit of at least 0.7 revolutions per day and at most 175 degrees inclination, at every time at which propagation succeeds, drag has not reshaped the orbit and its perigee still is 100 km or more above the Earth, the reported velocity agrees with the displacement of the reported position over a short interval around that time, within the model's own approximation of one percent of the orbital speed. The reported states move along the orbit without jumps as time advances.",
  ["inputs"], "all near-Earth, deep-space and resonant element sets of non-decaying orbits (mean motion >= 0.7 rev/day, inclination <= 175 deg) x times within years of epoch",
  "Tests compare positions and velocities with constants at two instants and cannot relate one to the other along the trajectory.",
  ["src/propogation/sgp4.rs", "src/propogation/dspace.rs", "src/propogation/dpper.rs"], [("velocity from perturbed elements", "src/propogation/sgp4.rs: sgp4")], ["returned positions and velocities at neighbouring times"])

p("C20", "Propagation respects the symmetries of the Earth model",
  "For every near-Earth element set, advancing the ascending node by an angle turns every propagated position and velocity about the polar axis by exactly that angle, and changing only the epoch date, satellite number, name, mean-motion derivatives (which the theory does not use), operation mode or columns no field uses changes nothing. For every near-Earth element set, adding whole turns to the node, perigee or mean anomaly leaves the propagated states unchanged.",
  ["inputs"], "all near-Earth element sets x node shifts x epochs x whole-turn shifts x times",
  "A relation between several propagations; the tests only compare single propagations with constants.",
  ["src/propogation/sgp4.rs", "src/propogation/sgp4init.rs"], [("dependence on node only through the final rotation", "src/propogation/sgp4.rs: sgp4")], ["returned states of related element sets"])

p("C21", "An initialised record publishes the orbit's derived quantities",
  "For every element set that initialises successfully, the record publishes semi-major axis and apogee and perigee altitudes in Earth radii consistent with its stated mean motion and eccentricity, the Brouwer mean motion recovered from the stated one, the secular rates of node, perigee and mean anomaly, the sidereal angle at epoch, whether the deep-space theory applies (period of 225 minutes or more), the resonance class, and whether the simplified drag treatment applies. The element values as stated, other than mean motion, remain unchanged on the record, and it is marked initialised with no error. The initialiser's own answer is the state at epoch.",
  ["inputs"], "all element sets that initialise, in all regimes and at the regime boundaries",
  "One initialised record is asserted field by field; no deep-space or resonant record is.",
  ["src/propogation/sgp4init.rs", "src/propogation/initl.rs", "src/propogation/dsinit.rs", "src/io.rs"], [("derived quantities", "src/io.rs: parse_satrec; src/propogation/initl.rs: initl; src/propogation/sgp4init.rs: sgp4init")], ["fields of the initialised record"])

p("C22", "Calendar, day-of-year and Julian-date conversions agree with the calendar",
  "For every date from 1901 through 2099, the Julian date of a calendar date and time equals the true one to within the resolution of the number, advancing by exactly one per day and by the stated fraction for hours, minutes, seconds and milliseconds. Splitting a fractional day of year yields the true month and day and a time of day whose parts are within their ranges and add up to the fraction.",
  ["inputs"], "every calendar day 1901..2099 x all times of day including fractional seconds; every year and fractional day of year",
  "The helper module has no tests of its own; only one date is reached indirectly.",
  ["src/ext.rs"], [("Julian date formula", "src/ext.rs: jday, jday_datetime"), ("day-of-year split", "src/ext.rs: days2mdhms")], ["returned Julian date", "returned calendar parts"])

p("C23", "The resonance integrator can be resumed or restarted without effect",
  "For every resonant orbit and every sequence of requested times, evaluating the deep-space secular step with the integrator state left by the previous evaluation gives the same mean elements as evaluating it from epoch. This holds across increasing, decreasing, repeated and sign-changing times and exact multiples of the integration step.",
  ["histories", "inputs"], "all resonant coefficient sets x all sequences of times with carried-over integrator state",
  "The only test of the step uses a non-resonant orbit at time zero, for which the integrator is skipped.",
  ["src/propogation/dspace.rs"], [("epoch-restart condition and step loop", "src/propogation/dspace.rs: dspace")], ["mean elements returned by the deep-space secular step"],
  [("integrator state", "time, longitude and mean motion reached by the integrator", "src/propogation/dspace.rs: DspaceOptions/DspaceResult atime, xli, xni")])

p("C24", "Each public stage of the deep-space theory matches its published formula",
  "For every input, each individually callable stage of the propagator (epoch initialisation in either operation mode, lunar-solar coefficients, deep-space initialisation, secular step, periodic step) returns, in every published output, the value its published definition gives, up to floating-point rounding. The periodic step in its initialisation form leaves the elements unchanged.",
  ["inputs", "configurations"], "all stage inputs reachable from element sets, plus non-zero elapsed time and arbitrary saved coefficients for the stages that accept them; both operation modes",
  "Each stage is asserted on one input (the same satellite); resonance, AFSPC mode, low inclination and non-zero time are never sampled.",
  ["src/propogation/initl.rs", "src/propogation/dscom.rs", "src/propogation/dsinit.rs", "src/propogation/dspace.rs", "src/propogation/dpper.rs"],
  [("stage formulas", "src/propogation/*.rs")], ["outputs of the stage functions"])

p("C25", "The documented chain from element set and instant to ground view is right",
  "For every element-set text, UTC instant and observer, the documented chain of calls (parse the set, propagate to the instant, take the sidereal angle of that instant, convert to Earth-fixed and geodetic coordinates, compute look angles and Doppler factor) yields the sub-satellite latitude, longitude and height, and the azimuth, elevation, range and Doppler factor under which the model's satellite really stands for that observer at that instant. Which of the parsers read the text makes no difference.",
  ["inputs"], "all element-set texts x instants before and after epoch x observers on the globe",
  "The chain is what users run; the suite tests only single links, each on one or two inputs, and no test connects them, so disagreements between links about units, signs, angle origin or time scale are invisible.",
  ["src/io.rs", "src/propogation/mod.rs", "src/propogation/gstime.rs", "src/transforms.rs", "src/doppler_factor.rs"],
  [("text to record", "src/io.rs: parse, parse_multiple, twoline2satrec"), ("instant to state", "src/propogation/mod.rs: propogate_datetime"), ("state to ground view", "src/transforms.rs: eci_to_ecf, eci_to_geodedic, ecf_to_look_angles; src/doppler_factor.rs: doppler_factor")],
  ["geodetic position, look angles and Doppler factor at the end of the chain"])

p("C26", "Records are independent of one another and of the order of work",
  "For any collection of element sets, also of equal satellite number or the same set twice, parsing, propagating, cloning and date propagation interleaved in any order, or run concurrently on several threads, gives for every record exactly the answers that the same operations on that record alone give.",
  ["histories", "schedules"], "all collections of element sets x all interleavings of operations on them x concurrent execution",
  "Unit tests use one record at a time in a fresh state; shared or leaked state shows only when several records are in use.",
  ["src/io.rs", "src/propogation/sgp4.rs", "src/propogation/sgp4init.rs", "src/propogation/mod.rs"],
  [("per-record state, no shared state", "src/io.rs: Satrec; src/propogation/sgp4.rs: sgp4")],
  ["states and errors returned by propagation of each record"])

p("C27", "Extreme and non-finite numbers never crash, hang or yield a bogus answer",
  "For every argument of the numeric functions, of any magnitude, infinite or NaN, and for every instant the date type can hold, the functions for calendar, sidereal time, frames, coordinates, look angles, Doppler factor, vectors and unguarded angle conversion return promptly and without panicking, and never disguise an invalid input: NaN in the input gives NaN in what depends on it, finite input whose squares do not overflow gives finite answers inside their documented ranges (angles within one turn, latitude within a quarter turn, range not negative, month 1 to 12). A non-resonant record propagated to any time, finite or not, gives a finite state outside the Earth or one of the documented error codes, and NaN time never gives a state.",
  ["inputs", "numeric extremes"], "all bit patterns of every floating-point argument x all dates of the date type; resonant records only for times whose number of integration steps is practical",
  "Unit tests use ordinary values; loops that reduce angles step by step, integer conversions and fixed-range date arithmetic fail only at extremes.",
  ["src/ext.rs", "src/transforms.rs", "src/doppler_factor.rs", "src/lib.rs", "src/propogation/gstime.rs", "src/propogation/sgp4.rs", "src/propogation/mod.rs"],
  [("angle reduction", "src/transforms.rs: eci_to_geodedic; src/propogation/gstime.rs: gstime"), ("calendar arithmetic", "src/ext.rs: jday, jday_datetime, days2mdhms"), ("failure tests of the propagator", "src/propogation/sgp4.rs: sgp4")],
  ["return values of every public numeric function"])

p("C28", "Without drag a satellite keeps to Kepler's laws and the oblate Earth's drift",
  "Take any drag-free element set with 0.5 or more revolutions per day, inclination up to 168 degrees and perigee at least 100 km above the equatorial radius, and any time within 10 days of epoch, before or after, and let the bound be (0.006 + 0.0025 per day) / (1 - e)^2 for periods below 225 minutes and (0.018 + 0.0015 per day) / (1 - e)^2 beyond. Wherever that bound is below 0.3, initialisation and propagation succeed, and position and velocity deviate, relative to the distance and to the speed, by no more than the bound from those of a Kepler ellipse with the set's eccentricity, inclination, phase and (Brouwer) mean motion whose node and perigee drift at the first-order rates of the Earth's oblateness.",
  ["inputs"], "all drag-free element sets of that domain x all times within 10 days of epoch",
  "Unit tests compare a few satellites with recorded numbers; that the motion is physically right for every orbit (plane, sense, phase, drift, units) is a statement about all element sets and needs a model that is not SGP4.",
  ["src/propogation/initl.rs", "src/propogation/sgp4init.rs", "src/propogation/sgp4.rs", "src/propogation/dscom.rs", "src/propogation/dpper.rs", "src/propogation/dspace.rs"],
  [("recovery of the mean motion", "src/propogation/initl.rs: initl"), ("secular rates and orientation", "src/propogation/sgp4init.rs, src/propogation/sgp4.rs: sgp4"), ("periodic terms stay small", "src/propogation/sgp4.rs: sgp4; src/propogation/dpper.rs: dpper")],
  ["position and velocity returned by propagation, failure codes"])

p("C29", "Ground views respect the symmetry of the Earth ellipsoid",
  "For every observer, satellite position and sidereal angle: turning observer and satellite about the polar axis by any angle (by longitude and sidereal angle, or satellite and sidereal angle together, or whole turns of it) leaves range, elevation, azimuth, latitude and height unchanged and moves the longitude by that angle; mirroring both at the equator or at the Greenwich meridian mirrors azimuth, latitude and longitude and leaves the rest; raising a satellite along its vertical changes only its height, by that amount; seen from the point the library reports below it, a satellite stands overhead at a range equal to the difference of heights; the range is the distance of the two Earth-fixed positions.",
  ["inputs"], "all observers x satellite positions outside the Earth x sidereal angles x turns, reflections and lifts",
  "Relations between several answers over a continuum of configurations; the tests look at single configurations, in one hemisphere and with longitudes inside one turn.",
  ["src/transforms.rs", "src/lib.rs"],
  [("frame rotation", "src/transforms.rs: eci_to_ecf, ecf_to_eci"), ("geodetic coordinates", "src/transforms.rs: geodedic_to_ecf, eci_to_geodedic"), ("look angles", "src/transforms.rs: topocentric, topocentric_to_look_angles, ecf_to_look_angles")],
  ["look angles and geodetic coordinates of related configurations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
