"""The properties: what properties.jsonl and MANIFEST.json say about each, and which module decides it.

`python3 analyzer/catalog.py` rewrites /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = 'src/propogation/'
GVN = 'abstract interpretation of MIR in a gated value-graph (global value numbering) domain, compared with reference equations'
REAL = 'floating-point numbers are treated as real numbers: rounding, overflow and NaN are outside the argument'
IDENT = 'equality of value graphs is decided by evaluation in a 127-bit prime field at seeded random points (error probability below 1e-30 per comparison)'
ANY = 'any number of integration steps up to a million (over a thousand years either side of epoch)'
LIB = 'the models of core/alloc/chrono functions in analyzer/models.py agree with those libraries'


class P:
    def __init__(self, id, module, title, statement, over, qtext, why, files, mech, technique=GVN, note='', expl='', assume=()):
        self.__dict__.update(locals())
        self.assume = list(assume)


def mech(*xs):
    return [{'name': n, 'where': w} for n, w in xs]


PROPS = [
    P('C01', 'prop_orbit', 'Near-Earth propagation follows the SGP4 equations',
      'For every initialised near-Earth element set and every time since epoch, the returned position (km) and velocity (km/s) are '
      'those the published SGP4 equations give with the WGS-84 constants: secular gravity and drag, long-period and short-period '
      'periodics, Kepler solution, orientation. This holds in both the simplified (low perigee) and the full drag model and in '
      'either operation mode.',
      ['inputs'], 'all values of the record coefficients, all times since epoch, both drag models, both operation modes',
      'The tests sample two times of one orbit to 0.1 km; a wrong term that is small there, or in the other drag model, passes.',
      [PR + 'sgp4.rs'], mech(('propagation', PR + 'sgp4.rs sgp4()')),
      expl='The propagation function is interpreted over its MIR with every record field and the time symbolic; joins are taken '
           'at every merge point. The six components are compared with the reference equations wherever the theory has a state.'),
    P('C02', 'prop_orbit', 'Deep-space propagation follows the SDP4 equations',
      'For every initialised deep-space element set, the returned position and velocity are those of the published SDP4 equations: '
      'secular lunar-solar rates, 12 h and 24 h resonance integration, lunar-solar periodics, then the same short-period and '
      'orientation steps as the near-Earth model. Times before and after epoch are covered alike.',
      ['inputs'], 'all record coefficients; non-resonant, 24 h and 12 h resonant classes; all times for the first, '
      + ANY + ' for the resonant ones; both operation modes',
      'One deep-space orbit is tested at two times to loose tolerances; resonance classes and negative times are not reached.',
      [PR + 'sgp4.rs', PR + 'dspace.rs', PR + 'dpper.rs'],
      mech(('propagation', PR + 'sgp4.rs sgp4()'), ('secular and resonance step', PR + 'dspace.rs dspace()'),
           ('periodics', PR + 'dpper.rs dpper()')),
      expl='As for the near-Earth model; the resonance integrator is treated by induction on its 720-minute steps in both '
           'directions (an arbitrary step from an arbitrary state keeps the reference state), and unrolled over enumerated windows near epoch '
           '(quick: up to 20 steps; thorough: all up to 64 and samples to 300).'),
    P('C03', 'prop_orbit', 'Initialisation derives the near-Earth coefficients as published',
      'Initialising a record from mean elements un-Kozais the mean motion and stores the secular, drag and periodic coefficients of '
      'the published SGP4 initialisation for every element set that yields a state. The deep-space model is selected exactly for '
      'periods of 225 minutes or more, and the simplified drag model exactly for perigees below 220 km or deep space.',
      ['inputs'], 'all element sets (eccentricity, inclination, angles, mean motion, drag term, epoch), both operation modes',
      'Tests compare one element set to the JavaScript library; perigee branches, the near-180-degree inclination guard and the 225-minute '
      'boundary are single points of a continuous space.',
      [PR + 'sgp4init.rs', PR + 'initl.rs', PR + 'gstime.rs'],
      mech(('initialisation', PR + 'sgp4init.rs sgp4init()'), ('un-Kozai and auxiliary quantities', PR + 'initl.rs initl()')),
      expl='Initialisation is interpreted with symbolic options over an arbitrary previous record; each stored coefficient is '
           'compared with the reference on the set of inputs for which the theory is defined.'),
    P('C04', 'prop_orbit', 'Deep-space initialisation derives the lunar-solar terms as published',
      'For every deep-space element set the stored coefficients of the lunar and solar periodics and secular effects, and the sidereal angle at '
      'epoch, are those of the published deep-space initialisation.',
      ['inputs'], 'all element sets with a period of 225 minutes or more, both operation modes',
      'One element set is compared in the tests; ascending-node sign branches and low inclinations are not.',
      [PR + 'dscom.rs', PR + 'sgp4init.rs', PR + 'initl.rs'], mech(('common deep-space terms', PR + 'dscom.rs dscom()')),
      expl='Each lunar-solar coefficient of the initialised record is compared with the reference equations for all deep-space inputs.'),
    P('C05', 'prop_orbit', 'Resonant orbits are recognised and integrated as published',
      'A deep-space orbit is treated as 24 h resonant, 12 h resonant or non-resonant exactly in the published bands of mean '
      'motion and eccentricity, with the published resonance coefficients, starting longitude and rates. From epoch, the resonance is integrated in '
      '720-minute steps towards the requested time, with the published second-order step for the remainder.',
      ['inputs'], 'all deep-space element sets for the classification and coefficients; ' + ANY,
      'The tests exercise a single resonance case; polynomial fits of the 12 h coefficients switch at several eccentricities.',
      [PR + 'dsinit.rs', PR + 'dspace.rs'], mech(('resonance initialisation', PR + 'dsinit.rs dsinit()'), ('integrator', PR + 'dspace.rs dspace()')),
      expl='Resonance flag and each coefficient are compared on all deep-space inputs; propagation of resonant records is compared by induction on the integration steps and per window near epoch.'),
    P('C06', 'prop_orbit', 'Lunar-solar periodics perturb the elements as published',
      'For a deep-space orbit the lunar-solar periodic corrections to eccentricity, inclination, node, perigee and mean '
      'anomaly at any time are those published, using the direct form at 0.2 rad inclination and above and the Lyddane form below. '
      'No correction is applied while initialising.',
      ['inputs'], 'all records, mean elements and times; both operation modes; both inclination forms',
      'The branches (node quadrant, mode, inclination) are selected by runtime values; the tests sample two points.',
      [PR + 'dpper.rs', PR + 'sgp4.rs'], mech(('periodics', PR + 'dpper.rs dpper()'), ('application', PR + 'sgp4.rs sgp4()')),
      expl='The corrections are compared as functions of an arbitrary record and arbitrary mean elements, then through the propagation.'),
    P('C07', 'prop_orbit', 'Propagation errors are reported exactly when the theory has no state',
      'A propagation returns a state exactly when mean motion, mean eccentricity, perturbed eccentricity and semi-latus rectum are valid and '
      'the radius is at least one Earth radius; otherwise it returns the error of the first failing condition. '
      'The numeric error code, on the error and on the record, is the published one (1-4 and 6) and 0 on success; initialisation '
      'returns the state or the error at epoch.',
      ['inputs'], 'all records and times (as for the propagation properties), all five conditions',
      'No test reaches an error; each is an open set of inputs with an exact boundary.',
      [PR + 'sgp4.rs', PR + 'sgp4init.rs'], mech(('error returns', PR + 'sgp4.rs sgp4()'), ('codes', PR + 'sgp4.rs SGP4Error::code()')),
      expl='The condition under which a value is returned, the error variant and the recorded code are compared as conditions over all inputs.'),
    P('C08', 'prop_orbit', 'A propagation does not depend on earlier propagations',
      'Propagating the same record to a time gives the same result whatever times it was propagated to before, in any order, '
      'and a propagation leaves the orbital elements of the record unchanged.',
      ['histories', 'inputs'], 'every record and every pair of earlier and later time (induction over histories); for resonant orbits ' + ANY + ' in either run',
      'Tests propagate forward at two times; leftover state shows only in particular orders or directions.',
      [PR + 'sgp4.rs', PR + 'dspace.rs'], mech(('scratch fields rewritten on each call', PR + 'sgp4.rs sgp4()')),
      technique='two-run (relational) abstract interpretation in a value-graph domain',
      expl='The record after one arbitrary propagation is propagated again and compared with propagating the original record; '
           'element fields are shown unchanged, so the argument extends to any history.'),
    P('C09', 'prop_code', 'Results depend on arguments only; records may be shared between threads',
      'Every function computes its result from its arguments (and the record it is given) alone: no hidden global or per-thread state, '
      'no files, environment, clock, randomness or output. All public data types can be sent to and shared by threads, and there is no unsafe code.',
      ['schedules', 'histories'], 'all functions of the library and everything they call; all schedules',
      'A race or hidden cache shows only under particular schedules or call orders.',
      ['src/lib.rs', 'src/io.rs', 'src/ext.rs', 'src/transforms.rs', 'src/constants.rs', PR + 'mod.rs'],
      mech(('immutable constants', 'src/constants.rs'), ('owned records', 'src/io.rs Satrec')),
      technique='effect and auto-trait analysis over MIR (statics, callees, unsafe blocks, Send/Sync/Freeze)',
      expl='Every static and constant, every call site of every local function body, every unsafe block and the auto traits of every data type are examined.'),
    P('C10', 'prop_parse', 'Every field is read from its columns of the two-line format',
      'Loading a well-formed two-line set takes each orbital element from its own columns of the format and converts it to the units of the '
      'record (radians, radians per minute, Earth radii), for all digits, leading blanks, signs, satellite numbers and designators. '
      'Other columns (designator, revolution, checksum, trailing carriage return) do not affect it.',
      ['inputs'], 'all digit values in all fields of the published layout and of the listed layout variants',
      'Tests parse two fixed sets; a column off by one, or a unit slip on one field, can go unseen when the digits there are blank or zero.',
      ['src/io.rs'], mech(('field extraction', 'src/io.rs parse_satrec()')),
      expl='Lines of known layout with symbolic digits are parsed; each field of the record is compared with the value of its columns.'),
    P('C11', 'prop_parse', 'Implied-decimal and exponent fields keep their value and sign',
      'The second derivative of mean motion, the drag term and the eccentricity, whose decimal point is implied, are read with their exact '
      'value for every digit string: leading zeros, either sign or none, either exponent sign, zero.',
      ['inputs'], 'all digits with each sign of mantissa and exponent, leading zeros',
      'The tested sets have few of the sign and zero combinations.',
      ['src/io.rs'], mech(('assumed decimal point', 'src/io.rs parse_satrec()')),
      expl='As for the columns, for each combination of signs and of leading zeros with the remaining digits symbolic.'),
    P('C12', 'prop_parse', 'No text makes loading panic',
      'Loading any two strings, or a document whatever its lines contain (empty, short, non-ASCII, garbage), returns a record or an '
      'error; it never panics and always returns.',
      ['inputs'], 'any two strings as lines; documents of up to 4 (thorough: 5) non-blank lines of any content',
      'The space of malformed text is unbounded; the tests contain only good text.',
      ['src/io.rs', 'src/ext.rs'], mech(('checked columns', 'src/io.rs columns()'), ('error returns', 'src/io.rs parse_satrec()')),
      technique='panic-reachability by abstract interpretation of MIR (string domain)',
      expl='Text is opaque: every slice, parse and index has both outcomes; each panic site reached must have an unsatisfiable path condition.'),
    P('C13', 'prop_parse', 'A document of many sets loads every set, in order, with its name',
      'Loading a document returns one record per loadable set in the order of the text, named by its title line when '
      'there is one, and one error (with the index of the set\'s first non-blank line) per set that does not load. A bad set affects no other, blank lines are '
      'ignored, sets with and without titles may be mixed, and an incomplete last set is an error.',
      ['inputs'], 'all sequences of up to 4 (thorough: 5) lines classified by first character, listed longer mixtures, up to 40 (130) sets; all outcomes of loading each set',
      'No enabled test loads more than one set; the outcome depends on the whole arrangement of lines.',
      ['src/io.rs'], mech(('segmentation', 'src/io.rs parse_multiple()')),
      expl='Documents are sequences of opaque lines of known first character; the loader of one set is uninterpreted with both outcomes; records and errors are compared element by element.'),
    P('C14', 'prop_parse', 'A document of one set is accepted only when it is one set',
      'Loading a single-set document succeeds only for two element lines in order, optionally preceded by one title line, blank lines aside; '
      'the title, without a leading "0 " marker and surrounding blanks, becomes the name and is absent otherwise. Any other number of lines, or lines in the wrong '
      'order, is refused with the corresponding error.',
      ['inputs'], 'all sequences of up to 4 lines classified by first character, listed blank-line arrangements; all contents otherwise',
      'Tests load two good documents; the refusals are never exercised.',
      ['src/io.rs'], mech(('line count and check characters', 'src/io.rs parse()')),
      expl='As for documents of many sets.'),
    P('C15', 'prop_geo', 'Epochs and Julian dates are calendar-exact',
      'The epoch of a set is the Julian date of its two-digit year (1957 to 2056) and fractional day of year; calendar dates and UTC instants convert to '
      'the Julian date of the Gregorian calendar including fractions of a second; a day of year converts to its month, day, hour, '
      'minute and second, leap years included.',
      ['inputs'], 'every year 1957-2056 with every day-of-year fraction; calendar dates of every month 1901-2099 and instants of every month 1957-2056 (thorough: 1901-2099), with any day and time',
      'Tests check a handful of dates; month boundaries, leap days and the century pivot are the risk.',
      ['src/ext.rs', 'src/io.rs'], mech(('day of year', 'src/ext.rs days2mdhms()'), ('Julian date', 'src/ext.rs jday()'), ('pivot', 'src/io.rs parse_satrec()')),
      technique='abstract interpretation of MIR in a value-graph domain against the proleptic Gregorian calendar',
      expl='Per year or month, with day fraction and time of day symbolic, compared with calendar arithmetic.'),
    P('C16', 'prop_geo', 'Sidereal time follows IAU-82 and lies in [0, 2 pi)',
      'The Greenwich mean sidereal angle of any Julian date is the IAU-82 polynomial reduced to [0, 2 pi), and that of a UTC instant is that of its Julian date, sub-second part included.',
      ['inputs'], 'all Julian dates; all instants 1957-2056 (thorough: 1901-2099)',
      'Two dates are tested; sign and wrap of the reduction depend on the date.',
      [PR + 'gstime.rs', 'src/ext.rs'], mech(('sidereal time', PR + 'gstime.rs gstime()')),
      expl='The returned angle is compared with the reduced polynomial for a symbolic date.'),
    P('C17', 'prop_geo', 'Inertial and Earth-fixed frames are inverse rotations',
      'Converting between inertial and Earth-fixed coordinates is a rotation by the sidereal angle about the polar axis, for every '
      'vector and angle: the two directions undo each other and lengths are preserved.',
      ['inputs'], 'all vectors, all angles',
      'The tests use a zero angle only.',
      ['src/transforms.rs'], mech(('rotations', 'src/transforms.rs eci_to_ecf(), ecf_to_eci()')),
      expl='Components, both compositions and the squared lengths are compared symbolically.'),
    P('C18', 'prop_geo', 'Geodetic conversions use the WGS-84 ellipsoid and normalise longitude',
      'Geodetic to Earth-fixed conversion is that of the WGS-84 ellipsoid for every latitude, longitude and height. The reverse gives longitude in [-pi, pi] relative to '
      'Greenwich, latitude by twenty rounds of the standard iteration and the height it implies, valid at the poles too.',
      ['inputs'], 'all positions and sidereal angles',
      'One forward conversion is tested indirectly; hemispheres, wrap-around and poles are not.',
      ['src/transforms.rs'], mech(('ellipsoid', 'src/transforms.rs geodedic_to_ecf()'), ('iteration', 'src/transforms.rs eci_to_geodedic()')),
      expl='Compared with the ellipsoid formulas; the twenty rounds are unrolled.'),
    P('C19', 'prop_geo', 'Look angles are those seen from the observer',
      'For every observer and satellite, the topocentric south/east/zenith components, range, elevation and azimuth (clockwise from north, in [0, 2 pi]) are those of the geometry on the WGS-84 ellipsoid.',
      ['inputs'], 'all observers, satellite positions and topocentric vectors',
      'One observation is tested; signs and quadrants depend on the geometry.',
      ['src/transforms.rs'], mech(('topocentric', 'src/transforms.rs topocentric()'), ('angles', 'src/transforms.rs topocentric_to_look_angles()')),
      expl='Each component is compared with the geometry for symbolic observer and satellite.'),
    P('C20', 'prop_geo', 'Degree and radian helpers convert exactly and reject only out-of-range angles',
      'Degree/radian conversions multiply by the exact ratio for every angle. The latitude and longitude variants do the same for every angle in range, bounds included, and '
      'refuse (panic) for every angle outside.',
      ['inputs'], 'all angles, all six helpers',
      'The helpers are not tested at all; bounds are single points.',
      ['src/transforms.rs'], mech(('range checks', 'src/transforms.rs degrees_lat() and the like')),
      expl='The condition for returning and the returned value are compared for a symbolic angle.'),
    P('C21', 'prop_geo', 'Doppler factor is one minus range rate over the speed of light',
      'The Doppler factor is 1 minus the rate of change of the range over one second divided by the speed of light in km/s, '
      'for every observer, position and velocity: below 1 for receding and above 1 for approaching satellites.',
      ['inputs'], 'all positions and velocities', 'One configuration would fix neither the sign nor the rate.',
      ['src/doppler_factor.rs'], mech(('Doppler', 'src/doppler_factor.rs doppler_factor()')),
      expl='Compared symbolically.'),
    P('C22', 'prop_geo', 'Vector helpers are the Euclidean operations',
      'Vector addition, subtraction and range are the componentwise and Euclidean operations on every pair of vectors.',
      ['inputs'], 'all pairs of vectors', 'They are only used with single values in tests.',
      ['src/lib.rs'], mech(('vectors', 'src/lib.rs Vec3')), expl='Compared symbolically.'),
    P('C23', 'prop_code', 'Every computation ends',
      'Propagation, initialisation, time, frame and look-angle computations return for every finite input: the Kepler iteration is bounded, angle and calendar reductions end, and the '
      'resonance integration ends.',
      ['inputs'], 'all inputs; for resonant orbits, ' + ANY,
      'Non-termination shows only on inputs no test contains.',
      [PR + 'sgp4.rs', PR + 'dspace.rs', PR + 'dpper.rs', 'src/transforms.rs', 'src/ext.rs'],
      mech(('iteration bound', PR + 'sgp4.rs sgp4()'), ('integration loop', PR + 'dspace.rs dspace()'), ('reduction', 'src/transforms.rs eci_to_geodedic()')),
      technique='loop-bound analysis by abstract interpretation of MIR (unrolling until the loop condition is unsatisfiable; induction on the steps of the integrator)',
      expl='For each entry point and input class every loop must be left on every path within the unrolling limit.'),
    P('C24', 'prop_geo', 'Published constants have their WGS-84 and unit-conversion values',
      'The public constants (Earth radius and gravity field, canonical time units, angle, time and length conversions, speed of light) have their WGS-84 '
      'or defined values, and derived ones agree with those they derive from.',
      ['inputs'], 'all public constants', 'Some constants are tested; a few are in no test.',
      ['src/constants.rs'], mech(('constants', 'src/constants.rs')),
      technique='compile-time constant evaluation (compiler const-eval of every static) against reference values',
      expl='The compiler-evaluated value of each constant is compared, to a relative 4e-16.'),
    P('C25', 'prop_geo', 'Propagating to an instant is propagating to its minutes since epoch',
      'Propagating a record to a UTC instant gives the result of propagating it by the difference of the Julian dates of instant and epoch in minutes, '
      'to the sub-second, before or after epoch, errors included, and leaves the record as it was.',
      ['inputs'], 'all records (near-Earth, deep-space, resonant) and all instants 1957-2056 (thorough: 1901-2099)',
      'No test propagates to an instant.',
      [PR + 'mod.rs', 'src/ext.rs'], mech(('propagation to an instant', PR + 'mod.rs propogate_datetime()')),
      expl='Both sides are interpreted and compared, for symbolic records and instants.'),
    P('C26', 'prop_code', 'No numeric input makes a computation panic',
      'Apart from the four helpers documented to refuse out-of-range angles, no record, element set, time, date, vector or angle makes a '
      'computation panic: no index, arithmetic overflow, unwrap or assertion can fail.',
      ['inputs'], 'all values of all arguments of every numeric entry point; for resonant orbits, ' + ANY,
      'Panics hide behind input combinations; tests only reach ordinary ones.',
      [PR + 'sgp4.rs', PR + 'sgp4init.rs', PR + 'dspace.rs', 'src/ext.rs', 'src/transforms.rs'],
      mech(('clamped arithmetic', 'src/ext.rs days2mdhms()'), ('error returns', PR + 'sgp4.rs sgp4()')),
      technique='panic-reachability by abstract interpretation of MIR',
      expl='Every entry point is interpreted with unconstrained arguments; each panic site met must have an unsatisfiable path condition.'),
    P('C27', 'prop_parse', 'A loaded record is its own elements, initialised',
      'Loading two lines succeeds exactly when they parse and a state exists at epoch; the record is then the parsed elements initialised in improved mode at the set\'s epoch, '
      'ready to propagate. Otherwise the parse error or the initialisation error is passed on.',
      ['inputs'], 'any two strings', 'Tests load good sets; the combination with initialisation errors is unexercised.',
      ['src/io.rs', PR + 'sgp4init.rs'], mech(('loading', 'src/io.rs twoline2satrec()')),
      technique='relational abstract interpretation of MIR in a value-graph domain',
      expl='The loader is compared field by field with parsing followed by initialisation.'),
    P('C28', 'prop_code', 'Re-initialising a record forgets what it held',
      'Initialising a record gives the same result, the same coefficients in every field and the same later propagations, whatever the record held before, '
      'apart from the catalogue fields that initialisation does not touch.',
      ['histories', 'inputs'], 'all element sets, any two previous records, any later time; for resonant orbits, ' + ANY,
      'Tests only initialise fresh records.',
      [PR + 'sgp4init.rs', 'src/io.rs'], mech(('initialisation', PR + 'sgp4init.rs sgp4init()')),
      technique='two-run (relational) abstract interpretation in a value-graph domain',
      expl='Two initialisations from unrelated records are compared, then propagated and compared.'),
    P('C29', 'prop_parse', 'Damaged element lines are refused, not misread',
      'A two-line set with a letter in a numeric field, a blank required field or a line cut before its last element column is refused with an error, whose reported columns and text, '
      'when it has them, are those of the damaged field; it never yields a record.',
      ['inputs'], 'one foreign character in the examined columns of each numeric field, each blank field, the examined cut lengths; all other digits',
      'No test feeds damaged lines.',
      ['src/io.rs'], mech(('checked parsing', 'src/io.rs parse_float(), parse_int(), columns()')),
      expl='As for the columns, with one damage at a time.'),
    P('C35', 'prop_parse', 'A record read but not initialised is blank but for its elements',
      'The blank record has zero in every number, no name, no satellite number, no error, the near-Earth method, improved mode and the initialising state. A record parsed from '
      'two lines without initialisation has that content in every field but those the lines determine: no coefficient, error or state is made up.',
      ['inputs'], 'the blank record; every accepted pair of lines of the forms examined for the columns',
      'Tests look at the fields of one initialised record.',
      ['src/io.rs'], mech(('blank record', 'src/io.rs Satrec::zero()'), ('record of the parse', 'src/io.rs parse_satrec()')),
      expl='Both functions are interpreted on symbolic text and every field of the record is compared.'),
    P('C33', 'prop_stage', 'Each stage of the theory used on its own is as published',
      'The stages of the theory are public and may be called directly: the auxiliary epoch quantities (initl), the common lunar-solar terms (dscom), the deep-space '
      'secular rates and resonance coefficients (dsinit) and the deep-space secular and resonance step (dspace) return, in every field of their results, the published '
      'functions of the options they are given (consistent where one repeats another, such as a square), elapsed time options included. The resonance step may also be resumed from the integrator state an earlier call returned, with the result '
      'of starting at epoch.',
      ['inputs', 'histories'], 'all options; for the resonant step, ' + ANY + ', and resumption after 1 and 2 (thorough: 3) steps in either direction towards times within the next steps or back across epoch',
      'The tests call each stage with one set of options, where most are zero; many results are not used by the propagation at all, so no end-to-end test sees them.',
      [PR + 'initl.rs', PR + 'dscom.rs', PR + 'dsinit.rs', PR + 'dspace.rs'],
      mech(('initl', PR + 'initl.rs initl()'), ('dscom', PR + 'dscom.rs dscom()'), ('dsinit', PR + 'dsinit.rs dsinit()'), ('dspace', PR + 'dspace.rs dspace()')),
      expl='Each stage is interpreted with every option symbolic and each field of its result is compared with the reference equations; fields that the theory leaves '
           'alone for a class of orbits are not compared for it.'),
    P('C34', 'prop_stage', 'Values are copied whole and equal exactly when their contents are',
      'A clone of a record has the content of the original in every field. Two vectors, positions, bearings, results, errors or modes compare equal exactly when they are of the same kind '
      'and every field is equal: no field is left out, and no tolerance is applied.',
      ['inputs'], 'all values of every public type that can be cloned or compared (nested errors by induction on depth)',
      'Tests compare values with themselves; a forgotten field or a tolerance shows only on values that differ there.',
      ['src/lib.rs', 'src/io.rs', PR + 'sgp4.rs', PR + 'initl.rs', PR + 'dpper.rs'],
      mech(('records', 'src/io.rs Satrec'), ('vectors and angles', 'src/lib.rs'), ('results', PR + 'sgp4.rs SGP4Result')),
      expl='Every implementation of Clone and PartialEq in the crate, derived or written, is interpreted on arbitrary values and compared with the field-by-field meaning.'),
]

NOT = [
    dict(id='C30', title='Rounding error of the propagation stays below published tolerances',
         statement='For every element set and time the computed position differs from the exact value of the published equations by less than a millimetre because of floating-point rounding.',
         over=['inputs'], text='all element sets and times',
         why='Two orbits are compared with published values to 100 m.', files=[PR + 'sgp4.rs'],
         mech=mech(('double precision throughout', PR + 'sgp4.rs sgp4()')),
         reason='Rounding error of a 400-operation trigonometric computation over unbounded inputs (cancellation, division by small '
                'quantities) has no useful static bound in reach; the value-graph domain treats numbers as reals.'),
    dict(id='C31', title='Iterations converge to the accuracy of the method',
         statement='For every orbit the solution of the eccentric longitude and the geodetic latitude iteration converge to within 1e-12 before their iteration limit.',
         over=['inputs'], text='all eccentricities below 1, all positions outside the Earth\'s core',
         why='Only a few points are iterated in tests.', files=[PR + 'sgp4.rs', 'src/transforms.rs'],
         mech=mech(('Kepler iteration', PR + 'sgp4.rs sgp4()'), ('latitude iteration', 'src/transforms.rs eci_to_geodedic()')),
         reason='Convergence is a metric property of real iterations at runtime values; the analysis shows that the iterations are the '
                'published ones with the published limits (C01, C18) but does not bound their residuals.'),
    dict(id='C32', title='Predictions agree with the observed motion of satellites',
         statement='Positions predicted from a current element set agree with the tracked position of the object within a few kilometres near epoch.',
         over=['inputs'], text='all catalogued objects', why='It needs tracking data.', files=[PR + 'sgp4.rs'],
         mech=mech(('SGP4 theory', PR + 'sgp4.rs sgp4()')),
         reason='An empirical statement about the theory and the data, not decidable from the source.'),
]


def properties():
    out = []
    for p in PROPS:
        out.append(dict(id=p.id, title=p.title, statement=p.statement, quantifier=dict(over=p.over, text=p.qtext),
                        why_tests_cant=p.why, anchors=dict(files=p.files, mechanism=p.mech)))
    for n in NOT:
        out.append(dict(id=n['id'], title=n['title'], statement=n['statement'], quantifier=dict(over=n['over'], text=n['text']),
                        why_tests_cant=n['why'], anchors=dict(files=n['files'], mechanism=n['mech'])))
    return sorted(out, key=lambda x: x['id'])


def assumptions(p):
    a = []
    if p.id not in ('C09', 'C24'):
        a = [REAL, IDENT, LIB]
    if p.id in ('C26', 'C12'):
        a[0] = 'float comparisons have both outcomes; integer arithmetic is exact; ' + REAL
    return a + p.assume


def manifest():
    cs = []
    for p in PROPS:
        cs.append(dict(property=p.id, quick_cmd='python3 check.py %s' % p.id, thorough_cmd='python3 check.py %s --thorough' % p.id,
                       evidence_file='evidence/%s.json' % p.id, technique=p.technique, level='other',
                       level_note='Static analysis of the compiled MIR of /repo, for all inputs of the stated domain: %s. %s' % (
                           p.qtext, ('Assumes: ' + '; '.join(assumptions(p)) + '.') if assumptions(p) else
                           'Trusts the compiler\'s MIR, trait solving and constant evaluation.')))
    return dict(version=1, setup_cmd='python3 analyzer/build.py', checks=cs,
                not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NOT],
                notes='Every check builds /repo with a rustc driver, dumps the type-checked MIR and interprets it abstractly; '
                      'nothing of /repo is executed. See DESIGN.md.')


if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in properties():
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest(), f, indent=1)
        f.write('\n')
