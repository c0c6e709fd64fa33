"""The properties, in one place: properties.jsonl and MANIFEST.json are generated from this file (tools/gen.py)."""
P = []
FORM = ('signed formats of 8, 16, 32 and 64 bits (Q8.4 in int8; 8 and 13 fraction bits in int16; 8, 16, 24 in int32; 16, 32, 48 in int64), rounding ones (4/int8, 8/int16, 16 and 24/int32, 32/int64) '
        'and unsigned ones (8/uint16, 16/uint32, 32/uint64)')


def prop(pid, title, statement, text, why, files, mech, over=('inputs',), state=(), bounds='', covers='', na=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=['include/eirin/' + f for f in files], mechanism=[dict(name=n, where='include/eirin/' + w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where='include/eirin/' + c) for a, b, c in state]),
                  _bounds=bounds, _covers=covers, _na=na))


prop('C01', 'Addition, subtraction, negation and increments are exact',
     'Whenever the mathematical result is representable, a+b, a-b, -a, ++, -- (prefix and postfix) and their compound and mixed fixed/integer forms return exactly that value; compound forms agree with the '
     'plain ones even when an operand is used on both sides, and the postfix forms return the old value.',
     'all operand values (full raw ranges; int8/int32/uint32/int64/uint64 on the integer side whenever the integer is representable) for ' + FORM,
     'the tests add and subtract a handful of decimal literals in two formats', ['fixed.hpp'],
     [('operator+ - += -= ++ -- and integer overloads', 'fixed.hpp')], bounds='no bound on the values: full width', covers='17 formats')
prop('C02', 'Multiplication is the exact product rounded once',
     'Whenever the rounded product is representable, a*b and a*=b return the exact real product rounded toward minus infinity (plain formats) or to nearest with ties away from zero (rounding formats), '
     'including a*=a; a product with a plain integer is exact.',
     'all pairs of operands for ' + FORM, 'the tests multiply two literals by 2; the product of two fixed numbers is never checked over a range', ['fixed.hpp'],
     [('operator* and *=', 'fixed.hpp')], bounds='full width', covers='17 formats')
prop('C03', 'Division is the exact quotient rounded once; checked forms report zero',
     'For a non-zero divisor and a representable result, a/b, a/=b, divide and divide_by all return the exact quotient truncated toward zero (plain formats) or rounded to nearest with ties away from zero '
     '(rounding formats), and division by or of an integer (int8, int32, uint32, int64) behaves likewise, truncating. divide and divide_by throw divide_by_zero for a zero fixed or integer divisor and leave '
     'the operand unchanged.',
     'all operand pairs for ' + FORM, 'the tests divide one literal by 2 and one by zero', ['fixed.hpp', 'error.hpp'],
     [('operator/, /=, divide, divide_by', 'fixed.hpp'), ('divide_by_zero', 'error.hpp')],
     bounds='full width', covers='17 formats')
prop('C04', 'Remainder obeys the truncated division law',
     'For every non-zero divisor (fixed or integer operand on either side) a % b is smaller in magnitude than b, is zero or has the sign of a, and a minus it is a whole multiple of b; no representable pair traps.',
     'all operand pairs with a non-zero divisor for ' + FORM, 'one literal remainder is tested', ['fixed.hpp'], [('operator%, %=', 'fixed.hpp')], bounds='full width', covers='17 formats')
prop('C05', 'Comparisons order numbers by value; nearly-comparisons use the tolerance',
     'Equality, the relational operators and the three-way comparison agree with the order of the represented values, and equal numbers hash equally. The nearly_* comparisons hold exactly when the difference '
     'of the values is within (eq, gt_eq, lt_eq) or beyond (ne, gt, lt) 5/65536 (truncated to the format).',
     'all operand pairs; ordering for ' + FORM + '; nearly-comparisons for the signed formats', 'the tests only use operator== on equal values', ['fixed.hpp'],
     [('operator==, <=>', 'fixed.hpp'), ('nearly_eq ... nearly_lt_eq', 'fixed.hpp'), ('fixed_hash', 'fixed.hpp')], bounds='full width', covers='17 formats')
prop('C06', 'Integer conversions are exact in and floor out',
     'Constructing from an integer that fits gives exactly that value, and converting a fixed number to an integer type gives the greatest integer not above it whenever that integer fits; an integer that '
     'fits survives the round trip, and the _f32 integer literal denotes its value.',
     'all int8/uint8/int16/int32/uint32/int64/uint64 values and all raw values for ' + FORM, 'the tests convert two literals', ['fixed.hpp'],
     [('integral constructor and conversion operator', 'fixed.hpp'), ('operator""_f32(unsigned long long)', 'fixed.hpp')], bounds='full width', covers='17 formats')
prop('C07', 'Floating point conversions are correctly rounded',
     'Constructing from a finite float or double whose scaled value fits truncates it toward zero to the format (rounding formats: from double, to nearest with ties away from zero, for scaled values below '
     '2^52 other than the one double just below half a unit). Converting to float or double gives a nearest representable floating value, with the right sign and zero for zero; a raw value below 2^53 (2^52 '
     'for rounding formats) survives fixed-to-double-to-fixed.',
     'all finite float/double values whose result fits and all raw values, for the signed formats (float only for the non-rounding ones)', 'the tests compare a few literals', ['fixed.hpp'],
     [('floating constructor and conversion operator', 'fixed.hpp')], bounds='full width; long double excluded', covers='14 signed formats')
prop('C08', 'Format conversions keep the value or round it as the target says',
     'Converting between fixed point formats is exact when the target has at least as many fraction bits, and otherwise truncates toward zero (rounding targets: to nearest, ties away from zero), whenever the '
     'result fits; widening and narrowing back is the identity.',
     'all raw values for 26 ordered pairs of formats across 8/16/32/64 bits, plain, rounding and unsigned', 'no test converts between formats', ['fixed.hpp'],
     [('converting constructor, from_fixed_num_value', 'fixed.hpp')], bounds='full width', covers='26 pairs')
prop('C09', 'Decomposition, abs, min and max',
     'A raw value round-trips through from_internal_value and internal_value; signbit tells negatives; integral_part is the whole part of the magnitude and fractional_part the signed remaining raw fraction, so '
     'that together they rebuild the number; raw_integral_part is the raw bits above the fraction with the sign bit cleared. abs (except of the minimum), min and max return what they say.',
     'all raw values (pairs) of the 14 signed formats', 'the tests decompose 0, 1, -1 and 0.5', ['fixed.hpp', 'math.hpp'],
     [('integral_part, fractional_part, raw_integral_part, signbit', 'fixed.hpp'), ('abs, min, max', 'math.hpp')], bounds='full width', covers='14 signed formats')
prop('C10', 'floor, ceil, trunc, round and modf',
     'floor is the greatest integer not above the number, ceil the least not below it (the largest value when that integer is not representable), trunc drops the fraction, round goes to the nearest integer '
     'with ties away from zero whenever that is representable, and modf splits a number into its floor and the non-negative rest.',
     'all raw values of the 14 signed formats', 'the tests round four literals', ['math.hpp'], [('floor, ceil, trunc, round, modf', 'math.hpp')], bounds='full width', covers='14 signed formats')
prop('C11', 'fmod is the dividend minus the floored quotient times the divisor',
     'For a non-zero divisor, whenever the quotient, the product and the result are representable, fmod(a,b) = a - b*floor(q) where q is the quotient a/b as division returns it; for a >= 0 and b > 0 it is the '
     'exact remainder in [0,b).',
     'the signed non-rounding formats: all pairs for 8 and 16 bits; for 32 and 64 bits all dividends against a list of divisors, and windows of both around small, unit and mixed magnitudes',
     'no test calls fmod', ['math.hpp'], [('fmod', 'math.hpp')], bounds='full width for 8/16 bits; constants and windows for 32/64', covers='9 formats')
prop('C12', 'Decimal text converts to the number it denotes',
     'Text of the form -?digits[.digits] becomes exactly its value truncated toward zero to the format, where only the leading fraction digits count (those up to and including the first one that makes the number '
     'they form exceed (2^f-1)/10); a value that does not fit is refused and leaves the target unchanged. The same holds for detail::parse, fixed_from_cstring, f32_from_cstring and the _f32/_f64 string literals.',
     'all digits of texts with up to one more integer digit than the format needs and up to two more fraction digits than count, with and without sign, for ' + FORM,
     'the tests parse about ten literals', ['fixed.hpp', 'io/parse.hpp'], [('detail::parse, fixed_from_cstring, f32_from_cstring, operator""', 'fixed.hpp')],
     bounds='text shapes (digit counts) fixed per query, every digit symbolic', covers='17 formats')
prop('C13', 'Parsing arbitrary bytes is safe and accepts only numbers',
     'For any byte sequence the parsers read only the given bytes, execute no undefined behaviour, accept exactly the well-formed representable texts (fixed_from_cstring: a well-formed prefix), and leave the '
     'target unchanged when they refuse.',
     'all byte values; lengths 0 to 7 and 9 (11 for the two main formats); 17 formats minus most rounding ones', 'no test feeds malformed text', ['fixed.hpp'],
     [('detail::parse, fixed_from_cstring, f32_from_cstring', 'fixed.hpp')], bounds='length <= 7 and 9, 11', covers='13 formats')
prop('C14', 'io::parse over views and terminated strings',
     'io::parse of a string_view reads exactly the view; of a pointer and a stop pointer it reads up to the first character equal to the one at the stop. When that text is a well-formed representable number (as for the other '
     'parsers) the value is stored and the position behind it is returned; otherwise the starting position is returned and the target is unchanged.',
     'all byte values, lengths 0 to 8; terminators NUL ; 5 . -; longer digit texts up to 14 characters', 'the tests parse a few literals', ['io/parse.hpp'], [('io::parse', 'io/parse.hpp')],
     bounds='length <= 8 arbitrary bytes, <= 14 digits', covers='fixed32')
prop('C15', 'Stream extraction takes the longest number and reports failure',
     'operator>> consumes exactly the longest prefix of the form -?digits*[.digits*], stores its value, and leaves the rest; when the number is not representable it sets failbit and leaves the target unchanged; '
     'an empty or not-good stream leaves the target unchanged; end of input sets eofbit; and if the stream throws on state changes, that exception reaches the caller.',
     'all byte contents up to length 6 (9 for the two main formats), digit texts of full length, every initial stream state, for 13 formats', 'the tests extract three literals', ['fixed.hpp'],
     [('operator>>', 'fixed.hpp')], bounds='length <= 6/9 over a model of basic_istream', covers='13 formats')
prop('C16', 'Printing is the exact positional expansion',
     'copy_as_chars_to and operator<< write an optional minus sign, the integer digits without leading zeros and, only when there is a fraction, a point and exactly the digits of the exact expansion without '
     'trailing zeros, in base 10, 16 (either case), 8 and 2; operator<< picks the base and case from the stream flags.',
     'values of 13 formats (unsigned 64-bit: lower half), split by number of integer digits and of trailing zero fraction bits; the 32 and 64-bit formats are covered on a selection of these classes '
     '(each class in full), the 8 and 16-bit ones completely', 'the tests print a few literals', ['fixed.hpp'], [('copy_as_chars_to, operator<<', 'fixed.hpp')],
     bounds='classes of (digit count, trailing zeros); all values within a class', covers='13 formats; operator<< for 3')
prop('C20', 'sqrt and hypot give the root to the last place',
     'sqrt of a non-negative fixed32 is the largest representable number whose square does not exceed the argument; in other formats it is within 1.5 units in the last place of the true root. sqrt of a negative '
     'number is -1 and of zero is zero. hypot (two and three arguments), when the sum of the squares is representable, is the root of that sum in the same sense.',
     'fixed32: all raw values below 2^16 and windows of 65536 raw values in every octave; fixed64 and a 24.8 format: windows (up to 2^20 raw values) in every octave; all negative values; hypot on windows of both arguments',
     'the tests take the root of one perfect square', ['math.hpp', 'fixed.hpp'], [('sqrt, hypot', 'math.hpp'), ('get_sqrt_init_value', 'fixed.hpp')],
     bounds='windows chosen by VERIF_SEED; Newton loop unrolled fully (5)', covers='fixed32, fixed64, 24.8')
prop('C21', 'sin and cos are accurate and periodic',
     'sin and cos are within 8 units in the last place for fixed32 and within 7.7e-6 for fixed64 of the true value on [-2pi, 2pi]; for every argument they equal the value at its remainder by 2pi (with the sign of '
     'the argument); and sin of a tiny argument is the argument itself.',
     'every raw value on [-2pi,2pi] for accuracy; every raw value for periodicity', 'the tests compare a few angles within 1e-2 or so', ['math.hpp', 'numbers.hpp'], [('sin, cos', 'math.hpp')],
     bounds='complete on [-2pi,2pi]', covers='fixed32, fixed64')
prop('C22', 'tan is the quotient of sine and cosine and accurate away from the poles',
     'tan(x) is sin(x)/cos(x) and throws domain_error exactly when the cosine is zero to within a unit in the last place; on [-1.5, 1.5] its error is at most 10 (fixed32) or 2000 (fixed64) units times 1+tan^2.',
     'every raw value for the quotient; every raw value of [-1.5,1.5] for fixed32 accuracy; windows of 2^21 raw values for fixed64 (thorough: all)', 'the tests check three angles', ['math.hpp'], [('tan', 'math.hpp')],
     bounds='accuracy on [-1.5,1.5]', covers='fixed32, fixed64')
prop('C23', 'Inverse trigonometric functions are accurate and guard their domain',
     'atan is within 20 units (fixed32) or 2.4e-4 (fixed64) of the true value for every argument and exactly odd. asin and acos throw domain_error exactly outside [-1,1], take their exact values at -1, 0 and 1, '
     'and inside are within 24 units (fixed32, acos through acos = pi/2 - asin) or 2.4e-4 (fixed64) of the true value.',
     'atan: every raw value; domain: every raw value; acos = pi/2 - asin: every raw value of fixed32; asin: |x| below 0.366 completely and windows above (fixed32), windows (fixed64); thorough: all', 'the tests check a few angles', ['math.hpp'],
     [('atan, asin, acos', 'math.hpp')], bounds='windows for fixed64 asin/acos', covers='fixed32, fixed64')
prop('C26', 'cbrt is accurate over the whole range and both signs',
     'cbrt of a number of at least five units (fixed64: epsilon()) is within 8 (fixed32) or 32 (fixed64) units in the last place of the true cube root, with the sign of its argument; smaller magnitudes give zero.',
     'fixed32: all raw values 5..63 and four windows in every octave, negative windows; fixed64: a window per octave and sign; tiny arguments: all', 'the tests take three perfect cubes', ['math.hpp'], [('cbrt', 'math.hpp')],
     bounds='windows chosen by VERIF_SEED', covers='fixed32, fixed64')
prop('C27', 'degrees and radians convert by 180/pi',
     'degrees(v), when the conversion fits the format, is within 183 units in the last place (365 in rounding formats) of v*180/pi, and radians(v) is within pi+2 units of v*pi/180, pi being the format\'s constant.',
     'every raw value whose conversion fits, for six formats', 'the tests convert a few angles', ['math.hpp', 'numbers.hpp'], [('degrees, radians', 'math.hpp')], bounds='full width', covers='q16.16 (plain, rounding), q24.8, q32.32, q48.16, q16.48')
prop('C30', 'The random engines are deterministic counters',
     'Output k of a pcg2014/pcg2014_64 engine is the documented mixing function of seed and k; discard(n) is n calls, also in two steps; seeding forgets the history and the default arguments agree; engines are equal exactly when at the same '
     'position of the same sequence and copies are independent; fixed_random_engine_adapter delivers the same words as raw values.',
     'all seeds, all positions (64-bit), all pairs of discard counts; call-by-call comparison for up to 8 calls (thorough 32)', 'the tests draw a few numbers from fixed seeds', ['random.hpp'],
     [('pcg2014, discard, seed, operator==', 'random.hpp'), ('fixed_random_engine_adapter', 'random.hpp')], over=('inputs', 'histories'), bounds='<= 8 (32) explicit calls; any position by discard', covers='both engines, three adapters')
prop('C31', 'Distribution adapters stay in range and keep their parameters',
     'For any generator and any underlying distribution that honours its range, the adapters return a fixed number within [a,b] that is the underlying draw with the same parameters; parameters given with a call hold for that call only, param() '
     'replaces them, reset changes nothing, and a(), b(), min(), max() and parameter equality report them.',
     'all parameter pairs, all generator words', 'the tests draw samples from one range', ['detail/distribution.hpp', 'random.hpp'],
     [('fixed_int_distribution_adapter, fixed_distribution_adapter', 'detail/distribution.hpp')], over=('inputs', 'histories'), bounds='four draws', covers='fixed32, fixed64; both adapters')
prop('C34', 'The portable 128-bit integer adds, narrows and holds its parts',
     'ext::int128 built from any integer, from parts or from a double with an exact value denotes it; sums are exact modulo 2^128; conversion to int64 saturates; high_bits and low_bits are the parts.',
     'all values of all integer types, all pairs of 128-bit values, all doubles k and k/256 with |k| <= 2^53', 'no test uses it', ['ext/builtin_ints.hpp'], [('int128', 'ext/builtin_ints.hpp')],
     bounds='full width', covers='-')
prop('C24', 'Logarithms are accurate, scale with doubling and reject non-positive numbers',
     'log2 of a positive number is within 7 (fixed32) or 8 (fixed64) units in the last place of the true value: within 5 (6) for mantissas in [1,2), and doubling the argument adds exactly one (above 2, up to the argument bit that falls off the '
     'mantissa). log and log10 are log2 divided by log2(e) and log2(10), to 5 (fixed32) or 12 (fixed64) units. All three throw domain_error exactly for arguments of zero or less.',
     'domain, doubling and the ratio of log and log10 to log2: every raw value; accuracy on [1,2): windows of 256 raw values of fixed32 (thorough: all of [1,2)), of 64 raw values of fixed64; doubling also for a 24.8 format',
     'the tests compare a handful of logarithms', ['math.hpp'], [('log2, log, log10', 'math.hpp')], bounds='digit loop unrolled fully; accuracy windows chosen by VERIF_SEED', covers='fixed32, fixed64, 24.8')
prop('C25', 'exp and pow follow the laws of powers',
     'exp is within a relative 6.6e-5 plus 3 units (fixed32) or 2e-6 plus 16 units (fixed64) of the true value wherever that fits, exp(0)=1 and arguments below -ln2*(integer bits) give 0. pow(b,0)=1, pow(b,1)=b, pow(b,2) is the product, pow(b,-1) the '
     'truncated reciprocal; powers of whole numbers are exact, reciprocals of such powers within 2 units; a whole exponent of fixed type equals the integer one; fractional powers of positive numbers are within a relative 2e-4 (fixed64 4e-6) plus 4 units, '
     'of negative numbers throw domain_error; powers of zero are 0 (or 1 for exponent 0).',
     'exp fixed32: every raw value; exp fixed64: windows in every unit interval (thorough: all); pow laws: every base (negative exponents: magnitude at least one), exponents up to 15 (30), reciprocals up to exponent 6; fractional powers: windows of bases',
     'the tests evaluate a few powers', ['math.hpp'], [('exp, exp_expand, pow', 'math.hpp')], bounds='exponents constant per query; windows chosen by VERIF_SEED', covers='fixed32, fixed64')
prop('C28', 'Constants and limits are what their names say in every format',
     'Every mathematical constant (eirin::numbers templates and named values, and the static ones of the class) is within one unit in the last place (plus 2^-52) of its true value in every format with room for it; numeric_limits '
     'gives the ends of the raw range as min, lowest and max, epsilon is 5/65536 cut to the format, and the traits and digit counts are right.',
     'all 18 constants in all 1..28 (32-bit), 1..60 (64-bit), 1..12 (16-bit) fraction bit formats, plain and rounding; all raw values for the limits', 'the tests look at pi in one format', ['numbers.hpp', 'fixed.hpp'],
     [('e_v ... phi_v', 'numbers.hpp'), ('epsilon, e, pi, pi_2, pi_4, double_pi', 'fixed.hpp'), ('numeric_limits', 'fixed.hpp')], bounds='format and constant are symbolic indices', covers='188 formats')
prop('C32', 'cordic_sine is accurate, odd and periodic',
     'cordic_sine is within 30 units in the last place of the true sine on [-2pi, 2pi], exactly odd, and takes at every argument the value at its remainder by 2pi.',
     'fixed32: oddness for every raw value, accuracy on windows of 1024 raw values inside and across the quadrants (thorough: all of [0,2pi]); fixed64: windows; periodicity: whole periods, the first three, the last and random ones', 'the tests sample a few angles with a loose tolerance',
     ['ext/cordic.hpp'], [('cordic, cordic_optimize_angel, cordic_sine', 'ext/cordic.hpp')], bounds='41 iterations unrolled fully; windows chosen by VERIF_SEED', covers='fixed32, fixed64')
P.sort(key=lambda p: p['id'])
prop('C18', 'Formatted numbers have the digits, sign, base, precision and padding asked for',
     'std::formatter with a well-formed specification writes: the sign as requested, the 0x/0X/0b/0B/0 prefix when # is given with a base, zeros up to the width when 0 is given, the integer digits in the base of the type (d x X o b B; ? is the raw magnitude in '
     'hex), for g/G/f/F a point and the fraction digits truncated to the precision (6 by default; f and F padded with zeros, g and G without digits once the expansion has ended, none for precision 0), and pads to the width with the fill '
     'character on the side(s) the alignment says.',
     'six formats; every number of the chosen classes (integer digit count x trailing zero fraction bits x sign) and every fill byte, for each of about 60 specifications (type, precision, sign, #, 0, width, alignment)',
     'the tests format a few literals with a few specifications', ['io/format.hpp', 'fixed.hpp'], [('fixed_num_formatter::format_to, output_aligned, zero_padded, int_to_string', 'io/format.hpp')],
     over=('inputs', 'configurations'), bounds='about 700 (specification, class) pairs, width <= 40, precision <= 20; 0 together with an alignment excluded', covers='q16.16, q32.32, q8.8, u16.16, rounding q16.16, q48.16')
prop('C19', 'Format specifications are parsed exactly',
     'For any bytes, parse accepts exactly [digits*:][[fill]align][sign][#][0][width][.precision][type] up to a closing brace or the end (a colon before an alignment is a fill, a brace never is), stops right there, throws format_error and nothing else otherwise, '
     'including for widths and precisions beyond int, and formatting obeys exactly what was parsed.',
     'all byte strings up to length 4 (thorough 6) for acceptance; up to length 2, and longer shapes with two or more arbitrary bytes, for the resulting output; up to 10 arbitrary width or precision digits', 'the tests use about ten valid specifications',
     ['io/format.hpp'], [('std::formatter<fixed_num>::parse', 'io/format.hpp')], over=('inputs', 'configurations'), bounds='length <= 4 arbitrary bytes; longer shapes', covers='fixed32, fixed64')
prop('C33', 'Vectorised angle reduction removes whole turns from every lane',
     'simd_reduce_angle and simd_reduce_angle_2 give, lane by lane and in the order of the lanes, the argument minus a whole number of turns of 2pi: the argument divided by 2pi rounded towards zero, give or take one turn, whatever the other lanes hold.',
     'every lane, every value of the other lanes; the lane itself over windows of 2^37 raw values around zero, the ends of the range and random places of every magnitude', 'the tests print four angles without looking at them',
     ['ext/simd_math.hpp'], [('simd_reduce_angle, simd_reduce_angle_2, avx_mm256_mullo_epi64, _mm256_fpint_epi64', 'ext/simd_math.hpp')], bounds='16 windows of 2^37 raw values per lane (thorough 206), chosen by VERIF_SEED; AVX2 code path, and the one compiled with AVX-512DQ/VL', covers='fixed64')
P.sort(key=lambda p: p['id'])
