"""C26: float1024 is a correctly rounded 1024-bit float."""
import copy
import ctypes
import ctypes.util
import math
import operator as op
import pickle
import re
from fractions import Fraction

import mpmath
from harness import Sub, check, expect_raises, skip, st
from tnco_core import float1024 as F

P = 1024
LIBM = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6')
LIBM.pow.argtypes = [ctypes.c_double, ctypes.c_double]
LIBM.pow.restype = ctypes.c_double
NAN, INF = 'nan', 'inf'


# ---- reference: values are 'nan', ('inf', sign) or (sign, m, e) = m * 2^e -----
def fin(s, m, e):
    if m:
        k = (m & -m).bit_length() - 1
        return (s, m >> k, e + k)
    return (s, 0, 0)


def rnd(s, m, e, sticky=False):
    """Rounds m * 2^e (plus something below 2^e if sticky) to P bits."""
    if m == 0:
        return (s, 0, 0)
    if sticky:
        k = max(0, P + 2 - m.bit_length()) + 1
        m, e = m << k | 1, e - k
    k = m.bit_length() - P
    if k > 0:
        q, r, half = m >> k, m & (1 << k) - 1, 1 << k - 1
        q += r > half or (r == half and q & 1)
        m, e = q, e + k
    return fin(s, m, e)


def is_nan(a):
    return a == NAN


def is_inf(a):
    return a[0] == INF


def is_zero(a):
    return not is_nan(a) and not is_inf(a) and a[1] == 0


def sign(a):
    return a[1] if is_inf(a) else a[0]


def neg(a):
    if is_nan(a):
        return a
    return (INF, -a[1]) if is_inf(a) else (-a[0], *a[1:])


def add(a, b):
    if is_nan(a) or is_nan(b):
        return NAN
    if is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b):
            return a if a == b else NAN
        return a if is_inf(a) else b
    if is_zero(a) and is_zero(b):
        return (-1 if a[0] == b[0] == -1 else 1, 0, 0)
    if is_zero(a):
        return b
    if is_zero(b):
        return a
    top = [x[1].bit_length() + x[2] for x in (a, b)]
    if top[0] < top[1]:
        a, b, top = b, a, top[::-1]
    if top[0] - top[1] > 4000:
        # b is a tiny correction of a
        k = 2 * P + 10
        m = (a[1] << k) + (1 if a[0] == b[0] else -1)
        return rnd(a[0], m, a[2] - k)
    e = min(a[2], b[2])
    m = a[0] * (a[1] << a[2] - e) + b[0] * (b[1] << b[2] - e)
    return rnd(-1 if m < 0 else 1, abs(m), e)


def mul(a, b):
    if is_nan(a) or is_nan(b):
        return NAN
    s = sign(a) * sign(b)
    if is_inf(a) or is_inf(b):
        return NAN if is_zero(a) or is_zero(b) else (INF, s)
    return rnd(s, a[1] * b[1], a[2] + b[2])


def div(a, b):
    if is_nan(a) or is_nan(b):
        return NAN
    s = sign(a) * sign(b)
    if is_inf(a):
        return NAN if is_inf(b) else (INF, s)
    if is_inf(b):
        return (s, 0, 0)
    if is_zero(b):
        return NAN if is_zero(a) else (INF, s)
    if is_zero(a):
        return (s, 0, 0)
    k = max(0, P + 5 + b[1].bit_length() - a[1].bit_length())
    q, r = divmod(a[1] << k, b[1])
    return rnd(s, q, a[2] - b[2] - k, r != 0)


def to_mp(a):
    return mpmath.mpf((0 if a[0] > 0 else 1, mpmath.libmp.MPZ(a[1]), a[2],
                       a[1].bit_length()))


def to_py(a):
    """The special values as Python floats."""
    if is_nan(a):
        return math.nan
    if is_inf(a):
        return a[1] * math.inf
    return a[0] * math.ldexp(a[1], a[2])


def is_double(a):
    return is_nan(a) or is_inf(a) or (a[1].bit_length() <= 53 and
                                      a[2] >= -1074 and
                                      a[1].bit_length() + a[2] <= 1024)


def pow_(a, b):
    """a ** b, b a double (or wider); None if it cannot be decided."""
    special = (is_nan(a) or is_inf(a) or is_zero(a) or is_nan(b) or is_inf(b) or
               is_zero(b) or a == (1, 1, 0))
    if special:
        # The rules of C99 only depend on the sign of a, on a being 0, 1, inf
        # or in between, and on b being an odd integer
        x = to_py(a) if is_double(a) else a[0] * (
            4. if a[1].bit_length() + a[2] > 0 else .25)
        if not is_nan(a) and not is_inf(a) and a[1] and not is_double(a):
            x = a[0] * (1.5 if a[1].bit_length() + a[2] > 0 else .25)
        if is_double(b):
            y = to_py(b)
        else:
            odd = b[2] == 0 and b[1] & 1
            y = b[0] * (3. if odd else 2. if b[2] >= 0 else .5)
        return from_py(LIBM.pow(x, y))
    if a[0] < 0 and b[2] < 0:
        return NAN
    s = -1 if a[0] < 0 and b[2] == 0 and b[1] & 1 else 1
    # the exponent of the result
    with mpmath.workprec(80):
        est = mpmath.log(to_mp((1, *a[1:])), 2) * to_mp(b)
    if abs(est) > 2**28:
        return None
    if b[2] >= 0 and (b[1] << b[2]) <= 12:
        n = b[1] << b[2]
        if b[0] > 0:
            return rnd(s, a[1]**n, a[2] * n)
        return div((s, 1, 0), (1, a[1]**n, a[2] * n))
    with mpmath.workprec(3 * P):
        r = mpmath.power(to_mp((1, *a[1:])), to_mp(b))
        _, m, e, bc = r._mpf_
    m, e = int(m), int(e)
    k = bc - P
    if k > 0:
        tail = m & (1 << k) - 1
        d = abs(tail - (1 << k - 1))  # distance from a tie
        if k > 200 and d < 1 << max(0, k - 200):
            return None
    return rnd(s, m, e)


def from_py(x):
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return (INF, 1 if x > 0 else -1)
    s = -1 if math.copysign(1, x) < 0 else 1
    m, e = math.frexp(abs(x))
    return fin(s, int(m * 2**53), e - 53)


def cmp(a, b):
    """-1, 0, 1 or None."""
    if is_nan(a) or is_nan(b):
        return None

    def key(x):
        if is_inf(x):
            return (x[1] * 2, 0)
        return (0 if x[1] == 0 else x[0],
                0 if x[1] == 0 else x[0] * (x[1].bit_length() + x[2]))

    ka, kb = key(a), key(b)
    if ka != kb or is_inf(a) or a[1] == 0:
        return (ka > kb) - (ka < kb)
    e = min(a[2], b[2])  # same magnitude, thus similar exponents
    x, y = a[0] * (a[1] << a[2] - e), b[0] * (b[1] << b[2] - e)
    return (x > y) - (x < y)


def to_double(a):
    if is_nan(a) or is_inf(a) or a[1] == 0:
        return to_py(a)
    top = a[1].bit_length() + a[2]
    if top > 1100:
        return a[0] * math.inf
    if top < -1200:
        return a[0] * 0.
    if a[2] >= 0:
        try:
            return a[0] * float(a[1] << a[2])
        except OverflowError:
            return a[0] * math.inf
    try:
        return a[0] * (a[1] / (1 << -a[2]))
    except OverflowError:
        return a[0] * math.inf


def frac(a):
    return a[0] * a[1] * Fraction(2)**a[2]


# ---- the type under test -----------------------------------------------------
def make(a):
    """float1024 of a: integers in decimal and powers of two are exact."""
    if is_nan(a):
        return F(math.nan)
    if is_inf(a):
        return F(a[1] * math.inf)
    s, m, e = a
    if m == 0:
        return F(s * 0.)
    x = F(('-' if s < 0 else '') + str(m))
    two = F(2.)
    while e:
        k = max(-2**29, min(2**29, e))
        x *= two ** float(k)
        e -= k
    return x


def is_value(x, a, what):
    """x is exactly a."""
    check(type(x) is F, what, type(x))
    if is_nan(a):
        check(x.isnan() and not x.isinf() and x != x and not x == x, what,
              'is not NaN:', x if not x.isnan() else '')
        return
    y = make(a)
    ok = (not x.isnan() and x == y and not x != y and x <= y and x >= y and
          not x < y and not x > y and bool(x.isinf()) == is_inf(a))
    check(ok, what, 'got', show(x), 'expected', a)
    check(bool(x.signbit()) == (sign(a) < 0), what, 'sign', show(x), a)


def show(x):
    try:
        if abs(x) > F(1e300) or abs(x) < F(1e-300):
            return format(x, '.40e')
        return format(x, '.40g')
    except Exception as e:
        return repr(e)


# ---- generators -----------------------------------------------------------------
@st.composite
def mantissas(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.integers(1, 64))
    if k == 1:  # few bits set
        m = 0
        for b in draw(st.lists(st.integers(0, P - 1), min_size=1, max_size=4)):
            m |= 1 << b
        return m
    if k == 2:  # nearly all ones
        n = draw(st.integers(1, P))
        return (1 << n) - draw(st.integers(1, min(3, (1 << n) - 1) if n > 1
                                           else 1))
    if k == 3:
        return draw(st.integers(1, 2**53))
    n = draw(st.integers(1, P))
    return draw(st.integers(1, (1 << n) - 1))


EXPS = st.one_of(st.integers(-1100, 100), st.integers(-1030, -1020),
                 st.just(0), st.integers(-3000, 3000))
FAR = st.one_of(st.integers(-2**29, 2**29), st.integers(-10**5, 10**5))
SIGN = st.sampled_from([1, -1])
SPECIAL = st.sampled_from([NAN, (INF, 1), (INF, -1), (1, 0, 0), (-1, 0, 0),
                           (1, 1, 0), (-1, 1, 0), (1, 1, 1)])


@st.composite
def finite(draw, exps=EXPS):
    return fin(draw(SIGN), draw(mantissas()), draw(exps))


DOUBLES = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False).map(from_py),
    st.integers(-2**53, 2**53).map(float).map(from_py),
    st.sampled_from([.5, .25, 1.5, 2., 3., 10., .1, 1 / 3, 2.**-1074,
                     2.**1023]).map(from_py), SPECIAL)


def values(far=True):
    return st.one_of(finite(), finite(), SPECIAL, DOUBLES,
                     finite(FAR) if far else finite())


@st.composite
def near(draw, a):
    """Something close to a: a few units in the last place, or its tie."""
    if a == NAN or a[0] == INF or a[1] == 0:
        return draw(values())
    k = draw(st.integers(0, 3))
    sh = P - a[1].bit_length()
    m = (a[1] << sh) + draw(st.integers(-2, 2))
    b = rnd(a[0], m, a[2] - sh)
    if k == 0:
        return b
    if k == 1:
        return neg(b)
    if k == 2:  # half a unit in the last place, roughly
        e = a[2] - sh - 1
        return fin(draw(SIGN), draw(st.sampled_from([1, 2, 3, (1 << 40) + 1])),
                   e - draw(st.sampled_from([0, 0, 1, 40])))
    return a


@st.composite
def arith_cases(draw):
    a = draw(values())
    b = draw(st.one_of(values(), near(a), near(a)))
    return dict(a=a, b=b, c=draw(DOUBLES), int=draw(st.integers(-2**53, 2**53)))


def in_range(a):
    return is_nan(a) or is_inf(a) or a[1] == 0 or \
        abs(a[1].bit_length() + a[2]) < 2**30 - 5


def is_result(x, a, what):
    if in_range(a):
        is_value(x, a, what)
    else:
        big = a[1].bit_length() + a[2] > 0
        check(not x.isnan() and (abs(x) > F(2.)**float(2**30 - 8) if big else
                                 abs(x) < F(2.)**-float(2**30 - 8)),
              what, 'out of range', show(x))


BIN = {'+': (op.add, add), '-': (op.sub, lambda a, b: add(a, neg(b))),
       '*': (op.mul, mul), '/': (op.truediv, div)}
IN = {'+': op.iadd, '-': op.isub, '*': op.imul, '/': op.itruediv}
CMP = {'<': (op.lt, (-1,)), '<=': (op.le, (-1, 0)), '>': (op.gt, (1,)),
       '>=': (op.ge, (0, 1)), '==': (op.eq, (0,))}


def run_arith(case):
    a, b, c, n = case['a'], case['b'], case['c'], case['int']
    pc = to_py(c)
    pn = from_py(float(n))
    for k, (f, g) in BIN.items():
        is_result(f(make(a), make(b)), g(a, b), k)
        is_result(f(make(b), make(a)), g(b, a), k)
        is_result(f(make(a), pc), g(a, c), k + ' float')
        is_result(f(pc, make(a)), g(c, a), 'float ' + k)
        is_result(f(make(a), n), g(a, pn), k + ' int')
        is_result(f(n, make(a)), g(pn, a), 'int ' + k)
        is_result(IN[k](make(a), make(b)), g(a, b), k + '=')
        is_result(IN[k](make(a), pc), g(a, c), k + '= float')
        x = make(a)
        is_result(f(x, x), g(a, a), k + ' itself')
        is_value(x, a, k + ': the operand changed')
    is_value(-make(a), neg(a), 'neg')
    is_value(+make(a), a, 'pos')
    is_value(abs(make(a)), neg(a) if not is_nan(a) and sign(a) < 0 else a,
             'abs')
    x = make(a)
    is_value(F(x), a, 'copy')
    return dict(nontrivial=not is_double(a) or not is_double(b),
                tags=['special' if is_nan(a) or is_inf(a) or is_zero(a) else
                      'finite'])


def run_cmp(case):
    a, b, c = case['a'], case['b'], case['c']
    pc = to_py(c)
    r = cmp(a, b)
    for k, (f, want) in CMP.items():
        check(bool(f(make(a), make(b))) is (r in want), k, a, b)
        check(bool(f(make(a), pc)) is (cmp(a, c) in want), k, a, pc)
        check(bool(f(pc, make(a))) is (cmp(c, a) in want), k, pc, a)
        n = case['int']
        check(bool(f(make(a), n)) is (cmp(a, from_py(float(n))) in want), k, a)
    check(bool(make(a) != make(b)) is (r != 0), '!=', a, b)
    check(bool(make(a) != pc) is (cmp(a, c) != 0), '!=', a, pc)
    check(bool(pc != make(a)) is (cmp(c, a) != 0), '!=', pc, a)
    x = make(a)
    check(bool(x.isnan()) is is_nan(a), 'isnan', a)
    check(bool(x.isinf()) is (not is_nan(a) and is_inf(a)), 'isinf', a)
    if not is_nan(a):
        check(bool(x.signbit()) is (sign(a) < 0), 'signbit', a)
    d, e = float(x), to_double(a)
    check(type(d) is float and (d == e or d != d and e != e) and
          math.copysign(1, d) == math.copysign(1, e) or is_nan(a) and d != d,
          'float', a, d, e)
    check(x.prec == P and x.digits10 == 308, 'prec')
    return dict(nontrivial=not is_double(a) or not is_double(b),
                tags=['cmp:%s' % r])


# ---- float() is correctly rounded -----------------------------------------------
@st.composite
def ties(draw):
    """Close to the middle of two doubles, or to a 64-bit number there."""
    m = draw(st.integers(2**52, 2**53 - 1))
    e = draw(st.one_of(st.integers(-1090, 980), st.integers(-10, 10)))
    k = draw(st.integers(1, 900))
    t = draw(st.sampled_from([0, 1, -1, 2**(k - 1), 2**(k - 1) - 1,
                              2**(k - 1) + 1]))
    return dict(a=fin(draw(SIGN), (m << k) + t, e - k))


def run_float(case):
    a = case['a']
    x = make(a)
    check(float(x) == to_double(a), 'float', a, float(x).hex(),
          to_double(a).hex())
    d = to_double(a)
    is_value(F(d), from_py(d), 'from float')
    return dict(nontrivial=not is_double(a))


# ---- powers -----------------------------------------------------------------------
@st.composite
def pow_cases(draw):
    a = draw(st.one_of(values(), finite(st.integers(-1200, 200)),
                       st.integers(-20, 20).map(float).map(from_py)))
    b = draw(st.one_of(
        st.integers(-12, 12).map(float).map(from_py),
        st.integers(-2000, 2000).map(lambda x: from_py(x / 4)),
        st.floats(-50, 50).map(from_py), DOUBLES))
    return dict(a=a, b=b, wide=draw(st.booleans()), w=draw(
        finite(st.integers(-1030, -1000))))


def run_pow(case):
    a, b = case['a'], case['b']
    r = pow_(a, b)
    if r is None:
        skip()
    is_result(make(a)**to_py(b), r, 'pow float')
    is_result(pow(make(a), make(b)), r, 'pow float1024')
    if b[0] != INF and b != NAN and b[2] >= 0 and b[1] << b[2] < 2**53:
        is_result(make(a)**int(b[0] * (b[1] << b[2])), r, 'pow int')
    if case['wide']:
        r = pow_(a, case['w'])
        if r is not None:
            is_result(make(a)**make(case['w']), r, 'pow wide')
    return dict(nontrivial=not is_nan(r), tags=['wide'] * case['wide'])


# ---- text ---------------------------------------------------------------------------
def parse(s):
    """What a printed number means."""
    s = s.strip().replace(',', '').lower()
    pc = s.endswith('%')
    m = re.fullmatch(r'([+-]?)\s*0*(\d*)(\.\d*)?(e[+-]?\d+)?', s.rstrip('%'))
    check(m and (m[2] or m[3] or '0' in s), 'cannot be parsed', s[:100])
    d = m[3][1:] if m[3] else ''
    r = Fraction(int((m[2] + d) or '0'))
    e = int(m[4][1:]) if m[4] else 0
    r *= Fraction(10)**(e - len(d))
    return (-1 if m[1] == '-' else 1) * r / (100 if pc else 1)


@st.composite
def text_cases(draw):
    a = draw(st.one_of(values(False), DOUBLES, DOUBLES,
                       finite(st.integers(-1030, -1010)),
                       st.integers(-10**9, 10**9).map(
                           lambda x: from_py(x / 1024))))
    fill = draw(st.sampled_from(['', '', '*', '0', ' ', '_']))
    align = draw(st.sampled_from(['<', '>', '^', '='])) if fill else draw(
        st.sampled_from(['', '', '<', '>', '^', '=']))
    return dict(
        a=a, fill=fill, align=align,
        sign=draw(st.sampled_from(['', '', '+', '-', ' '])),
        alt=draw(st.sampled_from(['', '', '#'])),
        zero=draw(st.sampled_from(['', '', '0'])),
        width=draw(st.sampled_from([None, 1, 5, 8, 12, 20, 40, 700])),
        comma=draw(st.sampled_from(['', '', ','])),
        prec=draw(st.sampled_from([None, 0, 1, 2, 3, 6, 10, 17, 40, 320])),
        type=draw(st.sampled_from(['', 'f', 'f', 'F', 'e', 'E', 'g', 'G',
                                   '%'])))


def run_text(case):
    a = case['a']
    x = make(a)
    width, prec, typ = case['width'], case['prec'], case['type']
    # Default text
    for s in (str(x), repr(x), format(x), '%s' % x, f'{x}'):
        if is_nan(a) or is_inf(a):
            want = 'nan' if is_nan(a) else 'inf' if a[1] > 0 else '-inf'
            check(s == want, 'text', s, want)
        else:
            check(abs(parse(s) - frac(a)) <= Fraction(1, 2 * 10**308), 'text',
                  s[:60], a)
            check(s.startswith('-') == (a[0] < 0), 'sign', s[:60])
        if is_nan(a):
            check(F(s).isnan(), 'parse', s)
        else:
            y = F(s)
            check(y == x or abs(y - x) < F(1e-300), 'parse', s[:60])
    # Formats
    zero = case['zero'] if width else ''
    comma = case['comma']
    padded = zero or case['align'] == '='
    if comma and (padded or case['fill'] == '0'):
        comma = ''  # zeros would be grouped, too
    spec = (case['fill'] + case['align'] + case['sign'] + case['alt'] + zero +
            ('' if width is None else str(width)) + comma +
            ('' if prec is None else '.%d' % prec) + typ)
    s = format(x, spec)
    if typ and prec is not None and typ != '%' and is_double(a) and not (
            padded and (is_nan(a) or is_inf(a))) and not (
                is_nan(a) and case['sign']):
        ps = spec
        if not case['align'] and not zero:
            ps = '>' + spec
        want = format(to_py(a), ps)
        check(s == want, 'format', repr(spec), repr(s), repr(want), to_py(a))
    check(len(s) >= (width or 0), 'width', spec, s)
    if not spec:
        return dict(nontrivial=False)  # the default text
    if is_nan(a) or is_inf(a):
        check(('nan' if is_nan(a) else 'inf') in s.lower(), 'format', spec, s)
        return dict(nontrivial=True, tags=['special', typ or 'none'])
    body = s
    if case['fill'] and case['fill'] != '0':
        body = s.replace(case['fill'], '')
    elif case['fill'] == '0' and case['align'] in ('<', '^'):
        return dict(nontrivial=False)  # zeros behind the number
    elif zero and case['align'] in ('<', '^'):
        return dict(nontrivial=False)
    elif case['fill'] == '0' and case['align'] == '>':
        return dict(nontrivial=False)
    elif zero and case['align'] == '>':
        return dict(nontrivial=False)
    v, t = parse(body.replace(' ', '')), frac(a)
    p = 6 if prec is None else prec
    if typ in ('f', 'F'):
        tol = Fraction(1, 2 * 10**p)
    elif typ == '%':
        tol = Fraction(1, 200 * 10**p)
    else:
        digits = p + 1 if typ in ('e', 'E') else max(p, 1)
        m = abs(t)
        k = 0
        if m:
            # floor(log10(m)), exactly
            k = math.floor((a[1].bit_length() + a[2]) * 0.30103) - 2
            while Fraction(10)**(k + 1) <= m:
                k += 1
        tol = Fraction(10)**(k + 1 - digits) / 2
    check(abs(v - t) <= tol, 'format', repr(spec), s[:80], a)
    return dict(nontrivial=bool(width or prec), tags=[typ or 'none'] + (
        ['zero'] if zero else []) + (['comma'] if comma else []))


# ---- from text ------------------------------------------------------------------------
@st.composite
def decimals(draw):
    n = draw(st.sampled_from([1, 5, 20, 308, 310, 700]))
    digits = draw(st.text('0123456789', min_size=1, max_size=n))
    point = draw(st.one_of(st.none(), st.integers(0, len(digits))))
    exp = draw(st.one_of(st.none(), st.integers(-700, 700)))
    bad = draw(st.sampled_from([None] * 9 + ['x', '..', ' 1', 'e', '--', ',']))
    return dict(sign=draw(st.sampled_from(['', '-', ''])), digits=digits,
                point=point, exp=exp, e=draw(st.sampled_from('eE')), bad=bad,
                pos=draw(st.integers(0, 800)))


def run_decimal(case):
    d, p = case['digits'], case['point']
    s = case['sign'] + (d if p is None else d[:p] + '.' + d[p:])
    if case['exp'] is not None:
        s += case['e'] + str(case['exp'])
    if case['bad'] is not None:
        bad = s + case['bad'] if case['pos'] % 2 else case['bad'].join(
            [s[:1], s[1:]])
        try:
            float(bad.replace(' ', 'x'))
        except ValueError:
            pass
        else:
            skip()
        if case['pos'] % 7 == 0:
            bad = ('', 'abc', '0x', '-', '.', 'infx')[case['pos'] % 6]
        expect_raises(lambda: F(bad), Exception, repr(bad))
        return dict(tags=['malformed'])
    v = Fraction(int(d)) * Fraction(10)**(
        (case['exp'] or 0) - (0 if p is None else len(d) - p))
    sg = -1 if case['sign'] else 1
    if v == 0:
        r = (sg, 0, 0)
    else:
        k = max(0, P + 5 + v.denominator.bit_length() -
                v.numerator.bit_length())
        q, m = divmod(v.numerator << k, v.denominator)
        r = rnd(sg, q, -k, m != 0)
    is_value(F(s), r, 'from text ' + s[:60])
    return dict(nontrivial=len(d) > 16)


# ---- pickling and long calculations ------------------------------------------------
def run_pickle(case):
    a = case['a']
    x = make(a)
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        is_value(pickle.loads(pickle.dumps(x, p)), a, 'pickle')
    is_value(copy.copy(x), a, 'copy')
    is_value(copy.deepcopy([x])[0], a, 'deepcopy')
    is_value(x, a, 'the value itself')
    return dict(nontrivial=not is_double(a))


@st.composite
def programs(draw):
    vals = draw(st.lists(values(False), min_size=2, max_size=4))
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['+', '-', '*', '/', 'neg', 'abs', 'pickle', 'i+',
                         'i-', 'i*', 'i/']),
        st.integers(0, 20), st.integers(0, 20)), min_size=3, max_size=25))
    return dict(vals=vals, ops=ops)


def run_program(case):
    pool = [(make(a), a) for a in case['vals']]
    for k, i, j in case['ops']:
        (x, a), (y, b) = pool[i % len(pool)], pool[j % len(pool)]
        if k == 'neg':
            z, c = -x, neg(a)
        elif k == 'abs':
            z, c = abs(x), (a if is_nan(a) or sign(a) > 0 else neg(a))
        elif k == 'pickle':
            z, c = pickle.loads(pickle.dumps(x)), a
        elif k in BIN:
            z, c = BIN[k][0](x, y), BIN[k][1](a, b)
        else:
            z, c = IN[k[1]](F(x), y), BIN[k[1]][1](a, b)
        if not in_range(c):
            break
        pool.append((z, c))
    for x, a in pool:
        is_value(x, a, 'pool')
    return dict(nontrivial=len(pool) >= 6)


SUBS = [
    Sub('arithmetic', arith_cases(), run_arith, 3000, 200000,
        'an operand that is not a double', 3),
    Sub('comparison', arith_cases(), run_cmp, 3000, 200000,
        'an operand that is not a double', 2),
    Sub('float', ties(), run_float, 2500, 100000, 'not a double', 1),
    Sub('power', pow_cases(), run_pow, 2500, 100000, 'not NaN', 2),
    Sub('format', text_cases(), run_text, 5000, 300000, 'width or precision', 2),
    Sub('from-text', decimals(), run_decimal, 2500, 100000,
        'more than 16 digits', 1),
    Sub('pickle', arith_cases(), run_pickle, 1000, 50000, 'not a double', 1),
    Sub('programs', programs(), run_program, 1500, 60000,
        'four results or more', 1),
]
