import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
PR="src/propogation/"
p("C01","Near-earth predictions follow the SGP4 theory",
 "For every element set with an orbital period below 225 minutes and every finite time offset within twenty years of epoch, the predicted position and velocity equal those of the published SGP4 theory (Spacetrack Report 3 as revised in AIAA 2006-6753, WGS-84 constants), up to floating-point error (below a millimetre wherever the theory itself is well conditioned). This includes negative offsets, low perigees (the 98, 156 and 220 km drag regimes), near-circular, equatorial, polar and retrograde orbits, and positive, zero or negative drag terms.",
 ["inputs"],"all decodable near-earth element sets x all time offsets |t| <= 1.05e7 minutes",
 "The tests compare one element set at two times with a 0.1 km tolerance; a wrong coefficient or a branch that only low-perigee, high-drag, retrograde or long-arc cases take stays inside that tolerance or is never executed.",
 ["src/propogation/sgp4.rs","src/propogation/sgp4init.rs","src/propogation/initl.rs","src/constants.rs"],
 [("secular gravity and drag coefficients",PR+"sgp4init.rs sgp4init"),("Kozai to Brouwer mean motion",PR+"initl.rs initl"),("secular, long-period, Kepler and short-period evaluation",PR+"sgp4.rs sgp4")],
 ["satellite::propogation::sgp4::sgp4 result after satellite::io::twoline2satrec"])
p("C02","Deep-space predictions follow the SDP4 theory",
 "For every element set with an orbital period of 225 minutes or more and every finite time offset within twenty years of epoch, position and velocity equal those of the published theory including lunar and solar secular and periodic perturbations and the 12-hour and 24-hour resonance integration, up to floating-point error (below a millimetre wherever well conditioned). This holds for both the improved and the AFSPC operation modes, for offsets before and after epoch, and across every multiple of the 720-minute integration step.",
 ["inputs","configurations"],"all decodable deep-space element sets x both operation modes x |t| <= 1.05e7 minutes",
 "One deep-space test at two times with a 50 km tolerance; the component tests pin single argument vectors of each helper, so resonance bands, eccentricity breakpoints, low inclinations, negative inclination, the second operation mode and multi-step integration are unexplored.",
 ["src/propogation/dscom.rs","src/propogation/dsinit.rs","src/propogation/dspace.rs","src/propogation/dpper.rs","src/propogation/sgp4.rs","src/propogation/sgp4init.rs","src/propogation/initl.rs"],
 [("third-body coefficients",PR+"dscom.rs dscom"),("resonance initialisation",PR+"dsinit.rs dsinit"),("resonance integration",PR+"dspace.rs dspace"),("lunar-solar periodics",PR+"dpper.rs dpper")],
 ["sgp4 result for records built from text and through sgp4init with either operation mode"],
 [("irez, del*, d22.., xlamo","resonance class and coefficients","Satrec"),("atime, xli, xni","integrator start state","Satrec")])
p("C03","Propagation fails exactly when the model says it must",
 "For every element set and finite time offset, a prediction is refused exactly when the theory refuses it, with the matching documented error: 1 mean eccentricity out of range, 2 non-positive mean motion, 3 perturbed eccentricity out of range, 4 negative semi-latus rectum, 6 decayed; the error's numeric code and the code left in the record agree, and a success leaves code 0. A delivered prediction is always finite and at least one Earth radius from the centre.",
 ["inputs"],"all element sets (including decaying, sub-orbital, high-drag, nearly parabolic ones) x all |t| <= 1.05e7 minutes",
 "No test exercises any propagation error; which of the five verdicts applies depends on the element set and the time.",
 ["src/propogation/sgp4.rs","src/propogation/sgp4init.rs","src/io.rs"],
 [("guards returning SGP4Error",PR+"sgp4.rs sgp4"),("initial propagation at epoch",PR+"sgp4init.rs sgp4init"),("code mapping",PR+"sgp4.rs SGP4Error::code")],
 ["Result of sgp4/sgp4init/twoline2satrec, SGP4Error::code(), Satrec.error"],
 [("error","last error code","Satrec")])
p("C04","A prediction depends only on the elements and the time asked for",
 "Whatever propagations were made before on the same record (any order, forward or backward, failed ones included, repeated, on clones, interleaved with other satellites), asking for a given time yields the same answer as on a freshly built record. The same holds when records are used from several threads at once: every thread obtains the answers of a single-threaded run.",
 ["histories","schedules","inputs"],"all sequences of propagation calls on one or several records, clones and threads",
 "Propagation mutates the record; tests propagate one record forward at most twice and never from two threads.",
 ["src/propogation/sgp4.rs","src/propogation/dspace.rs","src/propogation/dpper.rs","src/propogation/mod.rs","src/io.rs"],
 [("state left in the record by a call",PR+"sgp4.rs sgp4"),("integration restarts from epoch",PR+"dspace.rs dspace"),("clone before propagating",PR+"mod.rs propogate_datetime")],
 ["results of long call histories versus a fresh record, and versus the reference model"],
 [("t, error, aycof, xlcof, con41, x1mth2, x7thm1, atime, xli, xni","fields written or read by a call","Satrec")])
p("C05","Predicting for a datetime equals predicting for its offset from epoch",
 "For every element set and UTC datetime from 1957 to 2056, the datetime prediction equals the prediction at the number of minutes between the element-set epoch and that instant, honouring the time of day to better than a millisecond, before as well as after epoch, and reports the same error when that prediction fails. The caller's record is left unchanged.",
 ["inputs"],"all element sets x all datetimes 1957-2056 with sub-second parts",
 "The datetime entry point has no test at all; month and year boundaries, leap days and fractional seconds are input-dependent.",
 ["src/propogation/mod.rs","src/ext.rs","src/io.rs"],
 [("datetime to Julian date to minutes since epoch",PR+"mod.rs propogate_datetime"),("calendar arithmetic","src/ext.rs jday")],
 ["propogate_datetime result versus sgp4 at the exact offset"])
p("C06","Element-set fields are decoded exactly from their columns",
 "For every well-formed two-line element set, each decoded quantity (catalogue number, epoch year and day, mean-motion derivatives, drag term, inclination, node, eccentricity, argument of perigee, mean anomaly, mean motion) has exactly the value printed in its columns, converted to the documented internal unit, whatever the signs, leading zeros, leading blanks, exponent signs, classification, designator, or text after the last field. The derived semi-major axis and apogee/perigee altitudes follow from the printed mean motion and eccentricity.",
 ["inputs"],"all well-formed element lines",
 "One pair of lines is decoded in the tests; leading zeros, signs, blanks and extreme digits in each column vary independently.",
 ["src/io.rs","src/constants.rs"],
 [("column slicing and unit conversion","src/io.rs parse_satrec, parse_float, parse_int")],
 ["fields of the record returned by parse_satrec, twoline2satrec, parse, parse_multiple"])
p("C07","The element-set epoch is the instant its year and day fields denote",
 "For every two-digit epoch year and day of year, the decoded epoch is the Julian date of that instant, with years 57-99 meaning 1957-1999 and 00-56 meaning 2000-2056, day 1.0 being midnight starting January 1st, and leap years respected, to within a tenth of a millisecond. Splitting a day of year into month, day, hour, minute and second yields in-range calendar fields that denote the same instant.",
 ["inputs"],"all epoch years 00-99 x all days 1.0 <= d < 366/367 at printed resolution",
 "The tests decode two epochs; century pivot, leap days, month ends, day 366 and fractions near midnight are not reached.",
 ["src/io.rs","src/ext.rs"],
 [("year pivot","src/io.rs parse_satrec"),("day of year split","src/ext.rs days2mdhms"),("Julian date","src/ext.rs jday")],
 ["Satrec.epochyr/epochdays/jdsatepoch, days2mdhms fields"])
p("C08","Parsing never panics and always returns, whatever the text",
 "Every parsing entry point returns a record or an error for every string whatsoever: empty, truncated at any point, non-ASCII, binary-like, with wrong line counts, line endings or columns, or arbitrarily long. It never panics, overflows or loops, and the answer depends on the text alone, not on what lies beyond it in memory.",
 ["inputs"],"all strings (and all pairs of strings for the two-line entry points)",
 "Tests feed well-formed text and one four-letter string.",
 ["src/io.rs","src/ext.rs","src/propogation/sgp4init.rs"],
 [("checked column access","src/io.rs parse_satrec and helpers"),("record framing","src/io.rs parse, parse_multiple")],
 ["panic/timeout monitor around parse, parse_multiple, twoline2satrec, parse_satrec"])
p("C09","Parsing one element set honours its framing and its name",
 "Text with exactly two non-blank lines starting with 1 and 2 yields that record without a name; with exactly three non-blank lines it yields the record of the last two, named by the first line without its optional leading '0 ' line number and without surrounding blanks or line-ending characters. Any other number of non-blank lines is refused as a bad line count, wrong line numbers as a failed line check, and blank lines and CRLF endings never change the outcome.",
 ["inputs"],"all texts built from element lines, name lines, blank lines and line endings",
 "Two framings of one element set are tested.",
 ["src/io.rs"],
 [("blank filtering, line-count and line-number checks, naming","src/io.rs parse")],
 ["parse result"])
p("C10","Parsing a stream loses, invents and reorders no record",
 "For every stream of element sets (named, unnamed or mixed; LF or CRLF; with blank lines; any number of records), each good record appears exactly once, in stream order, identical to parsing it alone and with its own name. Each bad record or stray line yields an error that carries the index, among the stream's non-blank lines, of the line where it starts, and affects no other record.",
 ["inputs","fault_sequences"],"all sequences of good records, corrupted records, stray and blank lines",
 "The multi-record entry point is tested only on a four-letter non-record (its real test is commented out).",
 ["src/io.rs"],
 [("record framing and resynchronisation","src/io.rs parse_multiple")],
 ["records and errors returned by parse_multiple"])
p("C11","A malformed field is refused with an error naming it, never guessed",
 "If any numeric field of an element set is not a number (letters, blank, embedded blank, repeated sign or point, NaN or infinity text) or its line is cut short of it, every parsing entry point refuses the set with a field error that identifies that field: its name and, for a field that is present but unreadable, its column range or its text (an integer field as an integer error, a decimal field as a decimal error). A set that is accepted has only finite orbital elements.",
 ["inputs"],"all single-field corruptions of well-formed element sets",
 "No test parses a malformed field.",
 ["src/io.rs"],
 [("field parsers and error construction","src/io.rs parse_float, parse_int, parse_satrec")],
 ["SatrecParseError returned by parse_satrec, twoline2satrec, parse, parse_multiple"])
p("C12","Calendar dates map to the right Julian date",
 "For every date and time of day from 1901 to 2099 the Julian date equals the true one to within a tenth of a millisecond, from calendar fields as well as from a UTC datetime including its fractional second, and it increases strictly with time at any step of a millisecond or more.",
 ["inputs"],"all instants 1901-01-01 to 2099-12-31 at nanosecond resolution",
 "No test calls the calendar functions directly; leap years, month lengths, year ends and sub-second parts are input-dependent.",
 ["src/ext.rs"],
 [("Julian date formula","src/ext.rs jday, jday_datetime")],
 ["jday, jday_datetime"])
p("C13","Sidereal time is the IAU-82 angle, within one turn",
 "For every Julian date from 1900 to 2100 the Greenwich sidereal angle lies in [0, 2*pi], equals the IAU-1982 expression to within floating-point error (3e-10 rad), and so advances by one turn plus 0.0172027908 rad per day. The datetime form gives the angle of that instant, fractional seconds included, to 1.2e-8 rad.",
 ["inputs"],"all Julian dates 2415020-2488070 and all datetimes 1901-2099",
 "One date is tested; quadrant correction for dates before 2000 and long-term terms are not.",
 ["src/propogation/gstime.rs","src/ext.rs"],
 [("GMST polynomial and quadrant correction",PR+"gstime.rs gstime")],
 ["gstime, gstime_datetime"])
p("C14","Inertial and Earth-fixed frames differ by exactly the sidereal rotation",
 "For every position and sidereal angle, converting inertial to Earth-fixed rotates the vector about the polar axis by minus that angle, the opposite conversion by plus that angle, so that each undoes the other, lengths, distances and the polar component are preserved, and a point fixed to the rotating Earth keeps its Earth-fixed coordinates.",
 ["inputs"],"all finite vectors up to 1e9 km x all angles |gmst| <= 1e4 rad",
 "Tests use a zero rotation angle only, for which every sign error is invisible.",
 ["src/transforms.rs"],
 [("rotation","src/transforms.rs eci_to_ecf, ecf_to_eci")],
 ["eci_to_ecf, ecf_to_eci"])
p("C15","Geodetic coordinates and Cartesian positions are inverse on WGS-84",
 "For every latitude, longitude and height from -100 km to 1,000,000 km the Earth-fixed position is the point at that height along the WGS-84 ellipsoid normal, and converting a position to geodetic coordinates returns latitude within +-pi/2, longitude within +-pi (east positive, after removing the sidereal angle, itself within +-100 rad) and height, such that mapping back reproduces the position to within a millimetre relative to 10,000 km. Poles, equator, date line and either hemisphere are included.",
 ["inputs"],"all geodetic points in range x all sidereal angles |gmst| <= 100 rad",
 "Neither conversion is tested directly; only one observer location is used indirectly.",
 ["src/transforms.rs"],
 [("ellipsoid formulas and iteration","src/transforms.rs geodedic_to_ecf, eci_to_geodedic")],
 ["geodedic_to_ecf, eci_to_geodedic"])
p("C16","Look angles point from the observer at the satellite",
 "For every observer and every satellite position other than the observer's own, the south/east/up components are the projections of the observer-to-satellite vector on the observer's local geodetic axes, and range, elevation in [-pi/2, pi/2] and azimuth in [0, 2*pi] clockwise from north reconstruct that vector. Distances, sums and differences of vectors are the Euclidean ones.",
 ["inputs"],"all observers (poles and date line included) x all satellite positions within 1e6 km",
 "One observer-satellite pair below the horizon is tested; quadrants, zenith, cardinal directions and poles are not.",
 ["src/transforms.rs","src/lib.rs"],
 [("topocentric projection and angles","src/transforms.rs topocentric, topocentric_to_look_angles, ecf_to_look_angles"),("vector algebra","src/lib.rs Vec3")],
 ["topocentric, topocentric_to_look_angles, ecf_to_look_angles, Vec3::range/add/subtract"])
p("C17","Doppler factor has the sign and size of the range rate",
 "For every observer position, satellite position and velocity, the factor is above one exactly when the satellite comes closer, below one exactly when it recedes, and equals one minus the distance change over the next second divided by the speed of light in km/s. It depends only on relative geometry: shifting both positions or rotating everything leaves it unchanged.",
 ["inputs"],"all observer/satellite positions up to 1e6 km apart and velocities up to 12 km/s",
 "The Doppler function has no test.",
 ["src/doppler_factor.rs","src/constants.rs","src/lib.rs"],
 [("range difference","src/doppler_factor.rs doppler_factor")],
 ["doppler_factor"])
p("C18","Angle conversions are exact inverses and enforce their ranges",
 "Degree/radian conversions scale by pi/180 and undo each other to rounding for every finite angle; the latitude and longitude variants agree with them on the closed ranges +-90 and +-180 degrees (end points included) and refuse every value outside those ranges by panicking. The published unit constants are mutually consistent (degrees/radians, miles/kilometres, gravity constants).",
 ["inputs"],"all finite angles, with emphasis on the range end points and their neighbours",
 "The conversions and range checks have no test; end points and neighbours are not sampled.",
 ["src/transforms.rs","src/constants.rs"],
 [("range checks","src/transforms.rs degrees_lat, degrees_long, radians_lat, radians_long"),("constants","src/constants.rs")],
 ["returned values and panics"])
p("C19","Predicted motion is physically consistent",
 "For every ordinary element set (perigee above 150 km, inclination at most 175 degrees, eccentricity at most 0.85, drag term at most 0.001) within ten days of epoch, the predicted velocity is the time derivative of the predicted position (to 0.5 % of the speed), the radius stays within the perigee-apogee band of the elements, the orbital plane keeps the element's inclination (to two degrees near earth), and the track is continuous in time: no jump at epoch, at multiples of 720 minutes, or anywhere else. Turning the ascending node of a near-earth element set by an angle turns the whole predicted track about the polar axis by that angle.",
 ["inputs"],"all ordinary near-earth and deep-space element sets x |t| <= 14400 minutes",
 "Continuity and derivative consistency relate neighbouring predictions along whole tracks; tests look at isolated points.",
 ["src/propogation/sgp4.rs","src/propogation/dspace.rs","src/propogation/dpper.rs","src/propogation/dsinit.rs","src/propogation/sgp4init.rs"],
 [("orientation and velocity construction",PR+"sgp4.rs sgp4"),("720-minute integrator",PR+"dspace.rs dspace")],
 ["sequences of sgp4 results along a track"])
p("C20","A record initialised from elements is fully determined by them",
 "Initialising a record from orbital elements, epoch and operation mode yields the same predictions (and the same initial prediction or error, and the same reported elements, rates, class, mode and verdict) whatever the record held before: a blank one, one parsed from other text, one already propagated, or one whose previous initialisation failed. Initialising from the decoded fields of an element set is equivalent to parsing its text. A blank record (Satrec::zero) holds no data: every number in it is zero, it has no name, no catalogue number and no error.",
 ["inputs","histories","configurations"],"all pairs of (previous record content, new elements), both operation modes",
 "Initialisation is only tested once on a fresh record.",
 ["src/propogation/sgp4init.rs","src/propogation/initl.rs","src/io.rs"],
 [("reset of all state",PR+"sgp4init.rs sgp4init"),("wiring of parsed elements","src/io.rs twoline2satrec")],
 ["sgp4init result and later sgp4 results"],
 [("all model coefficients","must be overwritten by initialisation","Satrec")])
p("C21","From text and time to what the observer sees, the whole chain is right",
 "For every element set, UTC instant and observer, following the documented usage (parse, predict for the datetime, sidereal time, geodetic position, Earth-fixed position, look angles) gives the sub-satellite latitude, longitude and height and the observer's azimuth, elevation and range that an independent computation from the same text and instant gives, to within five metres of satellite position. In particular an observer at the sub-satellite point sees the satellite at the zenith at a range equal to its height.",
 ["inputs"],"all ordinary element sets (perigee above 70 km, drag term below 0.001) x instants within 30 days of epoch x observers",
 "No test runs the chain end to end; errors in one stage's time scale or sign only show in combination.",
 ["src/io.rs","src/propogation/mod.rs","src/propogation/gstime.rs","src/transforms.rs","src/ext.rs"],
 [("README example pipeline","README.md; src/io.rs, src/propogation/mod.rs, src/transforms.rs")],
 ["parse -> propogate_datetime -> gstime_datetime -> eci_to_geodedic / eci_to_ecf -> ecf_to_look_angles"])
p("C22","The deep-space resonance integrator can be resumed or restarted at will",
 "For every deep-space element set, the public integration stage (dspace) gives for a requested time the same mean elements whether it is started at epoch or continued from the integrator state (atime, xli, xni) an earlier call returned, whatever the sequence of earlier times: forward, backward, repeated, across epoch, on a multiple of the 720-minute step. Those mean elements are the secular third-body rates times the elapsed time plus the numerically integrated resonance of the published theory, and the returned state is that of the last whole step between epoch and the requested time.",
 ["histories","inputs"],"all deep-space element sets with eccentricity up to 0.9 x all sequences of times within 200,000 minutes of epoch",
 "The one test of this stage is a non-resonant set at time zero: the integrator loop is never entered and no state is ever handed on.",
 ["src/propogation/dspace.rs"],
 [("epoch restart and 720-minute stepping",PR+"dspace.rs dspace")],
 ["dspace results along histories of calls that pass the returned state on"],
 [("atime, xli, xni","integrator state handed from call to call","DspaceOptions / DspaceResult")])
p("C23","Each initialisation stage returns the published quantities",
 "For every element set, the public initialisation stages called on their own return what the published theory defines: initl the recovered mean motion, semi-major axis, perigee and angle functions and the sidereal angle at epoch within one turn (in every operation mode); dscom the solar and lunar coefficients and angles at epoch or at an offset from it, with zero values at epoch; dsinit the third-body secular rates, the resonance class with its coefficients and phase, the mean elements advanced by those rates to the given time, and an integrator starting at epoch.",
 ["inputs","configurations"],"all element sets with eccentricity up to 0.9 x operation modes x time offsets",
 "Each stage is tested with one or two fixed argument vectors, none resonant and none away from epoch.",
 ["src/propogation/initl.rs","src/propogation/dscom.rs","src/propogation/dsinit.rs"],
 [("un-Kozai and epoch quantities",PR+"initl.rs initl"),("third-body geometry",PR+"dscom.rs dscom"),("secular rates and resonance terms",PR+"dsinit.rs dsinit")],
 ["InitlReturn, DscomResult, DinitResult"])
p("C24","Lunar-solar periodics are applied as published, and not at all initially",
 "For every deep-space record, time and mean elements, the public periodics stage (dpper) in its initial mode returns the elements unchanged, and otherwise adds the published lunar and solar long-period corrections, less their values at epoch: directly at inclinations of 0.2 rad or more, with the Lyddane modification below, keeping the node continuous (within half a turn of the old one) and, in AFSPC mode only, non-negative before use.",
 ["inputs","configurations"],"all deep-space records x times x mean elements (inclination from -0.02 to pi, any angles) x operation modes",
 "Two fixed argument vectors are tested.",
 ["src/propogation/dpper.rs"],
 [("periodics and Lyddane modification",PR+"dpper.rs dpper")],
 ["DpperResult"])
p("C25","A record truthfully reports its satellite's parameters and last verdict",
 "A record built from text or from elements, whatever it held before, holds the elements it was given, the mean motion recovered from them, the secular rates of anomaly, perigee and node, the sidereal angle at epoch, the operation mode, its class (near earth, or deep space for periods of 225 minutes or more; no, one-day or half-day resonance) and the verdict of its initialisation. Every later prediction, delivered or refused, records its time and its error code (0 for none) and leaves elements, epoch, class, mode, name and catalogue number as they were; initialisation from elements keeps name, number and epoch. A clone of a record holds all that the record holds.",
 ["inputs","histories","configurations"],"all element sets x both routes x both operation modes x sequences of predictions",
 "The tests look at positions, velocities and decoded text fields only.",
 ["src/io.rs","src/propogation/sgp4init.rs","src/propogation/sgp4.rs"],
 [("record set-up",PR+"sgp4init.rs sgp4init"),("time and error recorded",PR+"sgp4.rs sgp4")],
 ["public fields of Satrec after initialisation and after predictions"],
 [("no, mdot, argpdot, nodedot, gsto, irez, method, operationmode, t, error","parameters and last verdict","Satrec")])
p("C26","Every library call is a silent, repeatable computation",
 "Every call of the public interface returns the same result, to the last bit, for the same arguments, whenever, however often, in whatever order and on whatever thread it is made, and touches nothing outside its arguments: it writes no output, reads no file, environment variable or clock, starts no process and opens no connection.",
 ["inputs","histories","schedules"],"all calls x all orders of calls x threads",
 "No test repeats a call or looks at anything but its result.",
 ["src/lib.rs","src/io.rs","src/propogation/mod.rs","src/transforms.rs","src/ext.rs"],
 [("whole public interface","src/*.rs")],
 ["results of repeated calls; entry points of the C library used during a call"])
p("C27","Work and memory are bounded by what is asked",
 "Parsing takes time and memory at most proportional to the length of the text, whatever it contains. A prediction takes a bounded amount of memory and an amount of time that does not depend on how many predictions were made before and grows at most in proportion to its distance from epoch. Conversions take constant time and memory. No memory is held on to after a call's result is dropped.",
 ["inputs","histories"],"all texts x all numbers of records x all prediction histories and offsets",
 "Tests measure neither time nor memory and use texts of a few lines.",
 ["src/io.rs","src/propogation/sgp4.rs","src/propogation/dspace.rs","src/transforms.rs"],
 [("record stream scanning","src/io.rs parse_multiple"),("720-minute integrator",PR+"dspace.rs dspace")],
 ["bytes allocated and held, CPU time of the calling thread"])
p("C28","Answers do not depend on how the crate is compiled",
 "The same call gives the same verdict, text and numbers (up to rounding) whether the crate is built for debugging or for release: with or without optimisation, debug assertions and integer overflow checks. In particular no call panics in one build and returns in another.",
 ["configurations","inputs"],"all calls x build profiles",
 "The tests run in the debug profile only; users ship the release profile.",
 ["src/lib.rs","src/io.rs","src/propogation/mod.rs","src/transforms.rs","src/ext.rs"],
 [("whole public interface","src/*.rs")],
 ["results of the same call in three builds"])
p("C29","Every public function returns for every numeric argument",
 "Every function of the public interface that takes numbers or dates returns, without panicking and in bounded time, for every value of them: not-a-number, infinities, the largest and smallest numbers, nonsense combinations, every datetime that can be represented including leap seconds. The only documented exceptions are the range refusals of the latitude and longitude conversions. Initialising and predicting from any such elements either refuses with one of the documented error codes 1 to 6 or delivers, and what is delivered for finite, plausible elements (eccentricity from 0 up to 1, inclination zero or above 1e-9, positive mean motion) is finite.",
 ["inputs"],"all numbers as elements, offsets, angles, vectors, heights, dates and stage inputs (finite offsets up to 10,000,000 minutes; the saved time handed to the resonance integrator is a number)",
 "Tests use ordinary numbers only; whether a loop ends or an index stays in range depends on the value.",
 ["src/transforms.rs","src/ext.rs","src/propogation/sgp4.rs","src/propogation/dspace.rs","src/propogation/dsinit.rs","src/propogation/dpper.rs","src/propogation/dscom.rs","src/propogation/gstime.rs"],
 [("calendar split","src/ext.rs days2mdhms"),("longitude and latitude loops","src/transforms.rs eci_to_geodedic"),("Kepler iteration",PR+"sgp4.rs sgp4"),("720-minute integrator",PR+"dspace.rs dspace")],
 ["return or panic, CPU time, error codes, finiteness"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title'])); 
print(len(P))
