"""Numbers with many digits: numerals, and the shortest numeral of the double that each of them is read as."""
import random
from fractions import Fraction


def parts(s):
    """Digits without zeros at the ends, and the exponent."""
    m, _, e = s.lower().partition("e")
    a, _, f = m.partition(".")
    d, e = a + f, int(e or 0) - len(f)
    d = d.lstrip("0")
    k = len(d) - len(d.rstrip("0"))
    return d[:len(d) - k], e + k


def shortest(s):
    return parts(repr(float(s)))


def numerals():
    r = random.Random(53)
    out = ["0.30000000000000004", "0.3333333333333333", "0.6666666666666666", "3.141592653589793", "2.718281828459045", "1.4142135623730951", "9007199254740992", "9007199254740993",
           "9007199254740991", "9007199254740995", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0.1000000000000000055511151231257827",
           "3.14159265358979323846264338327950288", "1.00000000000000001", "1.0000000000000002", "2.99999999999999999999", "2.9999999999999996", "0.99999999999999999", "0.9999999999999999",
           "123456789012345678", "1234567890123456789012345678", "4.9999999999999999", "16777217.000000001", "4294967296.0000001", "0.000000000000000012345678901234567", "1.7976931348623157e150",
           "5.0000000000000001e-150", "100000000000000000000001", "1.0000000000000000000000000000001e22", "12345678.123456789", "0.1234567890123456789", "1e22", "0.1", "2147483647.4999999999"]
    while len(out) < 90:
        x = r.uniform(0, 10 ** r.choice([0, 1, 3, 6, 12, 17, 25])) * r.choice([1, 1e-3, 1e-9, 1])
        s = repr(x)
        out.append(s)
        if "e" not in s:
            out.append(str(Fraction(x).limit_denominator(1).numerator) if x > 1e17 else "%.25f" % x if r.random() < 0.5 else "%.19f" % x)
    return sorted({s for s in out if len(parts(s)[0]) > 15 and float(s)})


NUMERALS = numerals()
BY_VALUE = {}
for _s in NUMERALS:
    BY_VALUE.setdefault(float(_s), []).append(_s)
VALUES = sorted(BY_VALUE)
# all of them in the way the specification looks at them
TABLE = sorted({(parts(s), shortest(s)) for s in NUMERALS} | {(shortest(s), shortest(s)) for s in NUMERALS if len(shortest(s)[0]) > 15})
