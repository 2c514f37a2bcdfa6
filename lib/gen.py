"""Operand generators: values that sit on the edges the formats have."""
from vlib import FMT, mkfp, split, word


def from_me(t, s, m, e):
    """word of (-1)^s m 2^e when it is a value of the type, else None"""
    if m == 0:
        return mkfp(t, s, 0, 0)
    p, w = FMT[t]
    b = (1 << (w - 1)) - 1
    while m & 1 == 0:
        m >>= 1
        e += 1
    top = e + m.bit_length() - 1
    emin, emax = 1 - b, b
    if top > emax:
        return None
    lsb = max(top, emin) - p
    if e < lsb:
        return None
    m <<= e - lsb
    if top < emin:
        return mkfp(t, s, 0, m)
    return mkfp(t, s, top + b, m & ((1 << p) - 1))


def neigh(u, t):
    """the word and its two neighbours in magnitude"""
    p, w = FMT[t]
    sm = (1 << (p + w)) - 1
    s, mag = u & ~sm, u & sm
    lim = ((1 << w) - 1) << p
    return [s | x for x in (mag - 1, mag, mag + 1) if 0 <= x < lim]


SPECIALS = {}
for _t in "fd":
    _p, _w = FMT[_t]
    _E = (1 << _w) - 1
    l = []
    for _s in (0, 1):
        l += [mkfp(_t, _s, 0, 0), mkfp(_t, _s, _E, 0), mkfp(_t, _s, _E, 1 << (_p - 1)), mkfp(_t, _s, 0, 1),
              mkfp(_t, _s, 0, (1 << _p) - 1), mkfp(_t, _s, 1, 0), mkfp(_t, _s, _E - 1, (1 << _p) - 1),
              mkfp(_t, _s, _E // 2, 0), mkfp(_t, _s, _E // 2, 1), mkfp(_t, _s, _E // 2 - 1, (1 << _p) - 1),
              mkfp(_t, _s, _E // 2 + 1, 0), mkfp(_t, _s, 1, 1), mkfp(_t, _s, 0, 2), mkfp(_t, _s, _E - 1, 0)]
    SPECIALS[_t] = l


def rnd_any(rng, t):
    """uniform over bit patterns, NaN payloads avoided half of the time"""
    p, w = FMT[t]
    return rng.getrandbits(1 + p + w)


def rnd_mid(rng, t, lo=-20, hi=20, bits=None):
    p, w = FMT[t]
    b = (1 << (w - 1)) - 1
    m = rng.getrandbits(p)
    k = rng.random()
    if bits is None and k < 0.4:
        bits = rng.randint(0, p)
    if bits is not None:
        m &= ~((1 << (p - bits)) - 1)
    elif k < 0.5:
        m = (1 << p) - 1 - (m & ((1 << rng.randint(0, p)) - 1))
    return mkfp(t, rng.getrandbits(1), b + rng.randint(lo, hi), m)


def rnd_val(rng, t):
    k = rng.random()
    if k < 0.12:
        return rng.choice(SPECIALS[t])
    if k < 0.35:
        return rnd_any(rng, t)
    if k < 0.5:  # tiny
        p, w = FMT[t]
        return mkfp(t, rng.getrandbits(1), rng.choice([0, 0, 1, 2, rng.randint(0, p)]), rng.getrandbits(p) >> rng.randint(0, p - 1))
    if k < 0.6:  # huge
        p, w = FMT[t]
        return mkfp(t, rng.getrandbits(1), (1 << w) - 2 - rng.choice([0, 0, 1, rng.randint(0, p)]), rng.getrandbits(p))
    return rnd_mid(rng, t)


def near(rng, u, t):
    """a value related to u: close to it, its negation, or at a chosen exponent distance"""
    p, w = FMT[t]
    s, e, m = split(u, t)
    k = rng.random()
    if k < 0.3:
        v = neigh(u, t) or [u]
        v = rng.choice(v)
        return v ^ (rng.getrandbits(1) << (p + w))
    if k < 0.45:
        return u ^ (rng.getrandbits(1) << (p + w)) ^ rng.getrandbits(rng.randint(1, p))
    d = rng.choice([1, 2, p - 1, p, p + 1, p + 2, p + 3, rng.randint(1, 2 * p)])
    e2 = e + rng.choice([-d, d])
    if 0 <= e2 < (1 << w) - 1:
        return mkfp(t, rng.getrandbits(1), e2, rng.choice([m, 0, rng.getrandbits(p), (1 << p) - 1, 1]))
    return rnd_val(rng, t)


def boundary(rng, t, p, r, n=12):
    """values at the edges of the format of p fraction bits and r exponent bits, representable in type t"""
    P, W = FMT[t]
    emax = (1 << (r - 1)) - 1
    emin = 1 - emax
    out = []

    def put(m, e, around=True):
        s = rng.getrandbits(1)
        u = from_me(t, s, m, e)
        if u is not None:
            out.extend(neigh(u, t) if around else [u])
    # overflow: largest finite, half way to the next, the next
    big = (1 << (p + 1)) - 1
    put(big, emax - p)
    put(2 * big + 1, emax - p - 1)
    put(1, emax + 1)
    # smallest normal and the edges below it
    put(1, emin)
    put((1 << (p + 1)) - 1, emin - p - 1)
    put((1 << p) - 1, emin - p)
    # smallest subnormal: 1/4, 1/2, 3/4, 1, 5/4, 3/2, 2, 5/2
    for m, de in ((1, -2), (1, -1), (3, -2), (1, 0), (5, -2), (3, -1), (7, -2), (1, 1), (5, -1)):
        put(m, emin - p + de)
    # ties and near ties in random binades, odd and even
    for _ in range(n):
        sub = rng.random() < 0.35
        if sub and p > 1:
            bits = rng.randint(1, p)
            m = (1 << (bits - 1)) | rng.getrandbits(bits - 1) if bits > 1 else 1
            e = emin - p
        else:
            m = (1 << p) | rng.choice([0, (1 << p) - 1, rng.getrandbits(p), rng.getrandbits(p), (1 << p) - 1 - (1 << rng.randint(0, p)) if p else 0]) & ((1 << p) - 1)
            e = rng.choice([emin, emax, rng.randint(emin, emax), rng.randint(emin, emax)]) - p
        k = rng.randint(0, 3)
        if k == 0:
            put(2 * m + 1, e - 1)
        elif k == 1:
            put(m, e)
        else:
            x = max(1, P - p)
            mm = (m << x) | rng.getrandbits(x)
            put(mm, e - x, False)
    for _ in range(3):
        out.append(rnd_val(rng, t))
    out.append(rng.choice(SPECIALS[t]))
    # binades where an intermediate quantity of the emulation (half unit, carry) changes its own class
    B = (1 << (W - 1)) - 1
    for e in crit_exps(t, p, r):
        out.append(up_value(rng, t, p, e))
    return out


def crit_exps(t, p, r):
    """biased exponents of type t, inside the format's normal range, at distance about 0, p, P-p or P from its ends"""
    P, W = FMT[t]
    B = (1 << (W - 1)) - 1
    emax = (1 << (r - 1)) - 1
    lo, hi = max(1, 1 - emax + B), min((1 << W) - 2, emax + B)
    c = {lo + d for d in (0, 1, p - 1, p, p + 1, P - p, P)} | {hi - d for d in (0, 1, p, p + 1)} | {B, B + p, B - p}
    return sorted(e for e in c if lo <= e <= hi)


def up_value(rng, t, p, e):
    """a value with biased exponent e whose rounding to p bits goes up (or is a tie on an odd digit)"""
    P, W = FMT[t]
    x = P - p
    if x < 1:
        return mkfp(t, rng.getrandbits(1), e, rng.getrandbits(P))
    hi = rng.choice([(1 << p) - 1, rng.getrandbits(p) | 1, rng.getrandbits(p)])
    lo = rng.choice([1 << (x - 1), (1 << x) - 1, (1 << (x - 1)) | rng.getrandbits(x - 1)])
    return mkfp(t, rng.getrandbits(1), e, ((hi << x) | lo) & ((1 << P) - 1))
