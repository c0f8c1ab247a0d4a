"""Specification functions, written from the standards (FIPS 180-4, FIPS 202,
xxHash specification, RFC 4648, z-base-32), not from the code under proof.
Word-level functions build terms; on constant arguments they fold to numbers."""
from . import terms as t


# ---------------------------------------------------------------- constants
def _primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out if p * p <= k):
            out.append(k)
        k += 1
    return out


def _iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** k <= n:
            lo = mid
        else:
            hi = mid - 1
    return lo


def frac_root(p, k, bits):
    """first `bits` bits of the fractional part of the k-th root of p"""
    return _iroot(p << (k * bits), k) & ((1 << bits) - 1)


P80 = _primes(80)
K256 = [frac_root(p, 3, 32) for p in P80[:64]]
K512 = [frac_root(p, 3, 64) for p in P80]
IV = {
    'sha256': [frac_root(p, 2, 32) for p in P80[:8]],
    'sha512': [frac_root(p, 2, 64) for p in P80[:8]],
    'sha384': [frac_root(p, 2, 64) for p in P80[8:16]],
}
IV['sha224'] = [x & 0xffffffff for x in IV['sha384']]


class Sha2:
    """FIPS 180-4 section 4.1, 6.2, 6.4 for one word size"""

    def __init__(self, w):
        self.w = w
        if w == 32:
            self.K = K256
            self.S0, self.S1, self.s0, self.s1 = (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)
        else:
            self.K = K512
            self.S0, self.S1, self.s0, self.s1 = (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)
        self.rounds_n = len(self.K)
        self.block = 16 * w // 8

    def Sigma(self, x, r):
        return t.xorn(self.w, [t.rotr(x, r[0]), t.rotr(x, r[1]), t.rotr(x, r[2])])

    def sigma(self, x, r):
        return t.xorn(self.w, [t.rotr(x, r[0]), t.rotr(x, r[1]), t.lshr(x, r[2])])

    def schedule(self, m):
        W = list(m)
        for i in range(16, self.rounds_n):
            W.append(t.addn(self.w, [self.sigma(W[i - 2], self.s1), W[i - 7], self.sigma(W[i - 15], self.s0), W[i - 16]]))
        return W

    def compress(self, H, W):
        a, b, c, d, e, f, g, h = H
        for i in range(self.rounds_n):
            ch = t.xor(t.and_(e, f), t.and_(t.not_(e), g))
            maj = t.xorn(self.w, [t.and_(a, b), t.and_(a, c), t.and_(b, c)])
            T1 = t.addn(self.w, [h, self.Sigma(e, self.S1), ch, t.const(self.K[i], self.w), W[i]])
            T2 = t.add(self.Sigma(a, self.S0), maj)
            h, g, f, e, d, c, b, a = g, f, e, t.add(d, T1), c, b, a, t.add(T1, T2)
        return [t.add(x, y) for x, y in zip(H, (a, b, c, d, e, f, g, h))]

    def step(self, H, m):
        return self.compress(H, self.schedule(m))


# Keccak: FIPS 202 section 3.2, generated (not copied) constants
def _keccak_offsets():
    r = [[0] * 5 for _ in range(5)]
    x, y = 1, 0
    for tt in range(24):
        r[x][y] = ((tt + 1) * (tt + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    return r


def _rc_bit(tt):
    if tt % 255 == 0:
        return 1
    R = [1, 0, 0, 0, 0, 0, 0, 0]
    for _ in range(tt % 255):
        R = [0] + R
        R[0] ^= R[8]
        R[4] ^= R[8]
        R[5] ^= R[8]
        R[6] ^= R[8]
        R = R[:8]
    return R[0]


def _keccak_rc():
    out = []
    for ir in range(24):
        v = 0
        for j in range(7):
            v |= _rc_bit(j + 7 * ir) << ((1 << j) - 1)
        out.append(v)
    return out


KECCAK_OFF = _keccak_offsets()
KECCAK_RC = _keccak_rc()


def keccak_round(A, rc):
    """A[x][y] lanes"""
    C = [t.xorn(64, [A[x][y] for y in range(5)]) for x in range(5)]
    D = [t.xor(C[(x - 1) % 5], t.rotl(C[(x + 1) % 5], 1)) for x in range(5)]
    A = [[t.xor(A[x][y], D[x]) for y in range(5)] for x in range(5)]
    B = [[None] * 5 for _ in range(5)]
    for x in range(5):
        for y in range(5):
            # pi: A'[x][y] = A[(x + 3y) mod 5][x]
            sx, sy = (x + 3 * y) % 5, x
            B[x][y] = t.rotl(A[sx][sy], KECCAK_OFF[sx][sy])
    E = [[t.xor(B[x][y], t.and_(t.not_(B[(x + 1) % 5][y]), B[(x + 2) % 5][y])) for y in range(5)] for x in range(5)]
    E[0][0] = t.xor(E[0][0], t.const(rc, 64))
    return E


def keccak_f(lanes):
    """25 lanes, lane index x + 5y"""
    A = [[lanes[x + 5 * y] for y in range(5)] for x in range(5)]
    for rc in KECCAK_RC:
        A = keccak_round(A, rc)
    return [A[i % 5][i // 5] for i in range(25)]


# xxHash specification
class XX:
    def __init__(self, w):
        self.w = w
        if w == 32:
            self.P = [0x9E3779B1, 0x85EBCA77, 0xC2B2AE3D, 0x27D4EB2F, 0x165667B1]
            self.rr = 13
        else:
            self.P = [0x9E3779B185EBCA87, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0x85EBCA77C2B2AE63, 0x27D4EB2F165667C5]
            self.rr = 31
        self.block = 4 * w // 8

    def init(self, seed):
        w, P = self.w, self.P
        return [t.add(seed, t.const(P[0] + P[1], w)), t.add(seed, t.const(P[1], w)), seed, t.sub(seed, t.const(P[0], w))]

    def round(self, acc, lane):
        return t.mulc(t.rotl(t.add(acc, t.mulc(lane, self.P[1])), self.rr), self.P[0])

    def step(self, acc, lanes):
        return [self.round(a, l) for a, l in zip(acc, lanes)]

    def converge(self, a):
        r = t.addn(self.w, [t.rotl(a[0], 1), t.rotl(a[1], 7), t.rotl(a[2], 12), t.rotl(a[3], 18)])
        if self.w == 64:
            for x in a:
                r = t.add(t.mulc(t.xor(r, self.round(t.const(0, 64), x)), self.P[0]), t.const(self.P[3], 64))
        return r

    def remainder(self, acc, bs):
        """bs: list of byte terms, fewer than a block"""
        w, P = self.w, self.P
        i = 0
        n = len(bs)
        if w == 32:
            while n - i >= 4:
                lane = t.cat(bs[i:i + 4][::-1])
                acc = t.mulc(t.rotl(t.add(acc, t.mulc(lane, P[2])), 17), P[3])
                i += 4
            while i < n:
                acc = t.mulc(t.rotl(t.add(acc, t.mulc(t.zext(bs[i], 32), P[4])), 11), P[0])
                i += 1
            return acc
        while n - i >= 8:
            lane = t.cat(bs[i:i + 8][::-1])
            acc = t.add(t.mulc(t.rotl(t.xor(acc, self.round(t.const(0, 64), lane)), 27), P[0]), t.const(P[3], 64))
            i += 8
        if n - i >= 4:
            lane = t.zext(t.cat(bs[i:i + 4][::-1]), 64)
            acc = t.add(t.mulc(t.rotl(t.xor(acc, t.mulc(lane, P[0])), 23), P[1]), t.const(P[2], 64))
            i += 4
        while i < n:
            acc = t.mulc(t.rotl(t.xor(acc, t.mulc(t.zext(bs[i], 64), P[4])), 11), P[0])
            i += 1
        return acc

    def avalanche(self, h):
        w, P = self.w, self.P
        a, b, c = (15, 13, 16) if w == 32 else (33, 29, 32)
        h = t.mulc(t.xor(h, t.lshr(h, a)), P[1])
        h = t.mulc(t.xor(h, t.lshr(h, b)), P[2])
        return t.xor(h, t.lshr(h, c))


def be_words(bs, n):
    """byte terms -> big endian words of n bytes"""
    return [t.cat(bs[i:i + n]) for i in range(0, len(bs), n)]


def le_words(bs, n):
    return [t.cat(bs[i:i + n][::-1]) for i in range(0, len(bs), n)]


def be_bytes(x):
    n = x.w // 8
    return [t.ext(x, 8 * (n - 1 - i), 8) for i in range(n)]


def le_bytes(x):
    return [t.ext(x, 8 * i, 8) for i in range(x.w // 8)]


# ------------------------------------------------- concrete reference hashes
def cbytes(b):
    return [t.const(x, 8) for x in b]


def sha2_concrete(w, iv, data, out_bytes):
    S = Sha2(w)
    B = S.block
    n = len(data)
    p = data + b'\x80'
    p += b'\0' * ((-len(p) - w // 4) % B) + (8 * n).to_bytes(w // 4, 'big')
    H = [t.const(x, w) for x in iv]
    for i in range(0, len(p), B):
        H = S.step(H, be_words(cbytes(p[i:i + B]), w // 8))
    return b''.join(x.d.to_bytes(w // 8, 'big') for x in H)[:out_bytes]


def sha512t_iv(tbits):
    iv = [x ^ 0xa5a5a5a5a5a5a5a5 for x in IV['sha512']]
    d = sha2_concrete(64, iv, ('SHA-512/%d' % tbits).encode(), 64)
    return [int.from_bytes(d[8 * i:8 * i + 8], 'big') for i in range(8)]


def keccak_concrete(rate, suffix, data, out_bytes):
    p = bytearray(data)
    pad = rate - len(p) % rate
    p += bytes([suffix]) + bytes(pad - 1)
    p[-1] |= 0x80
    A = [t.const(0, 64)] * 25
    for i in range(0, len(p), rate):
        w = le_words(cbytes(p[i:i + rate]), 8) + [t.const(0, 64)] * ((200 - rate) // 8)
        A = keccak_f([t.xor(a, b) for a, b in zip(A, w)])
    out = b''
    while True:
        out += b''.join(x.d.to_bytes(8, 'little') for x in A[:rate // 8])
        if len(out) >= out_bytes:
            return out[:out_bytes]
        A = keccak_f(A)


def xx_concrete(w, data, seed=0):
    """plain integer implementation, independent of the term builders"""
    X = XX(w)
    m = (1 << w) - 1
    P = X.P
    rotl = lambda x, r: ((x << r) | (x >> (w - r))) & m
    wb = w // 8
    B = 4 * wb
    n = len(data)
    rnd = lambda a, l: rotl((a + l * P[1]) & m, X.rr) * P[0] & m
    i = 0
    if n >= B:
        v = [(seed + P[0] + P[1]) & m, (seed + P[1]) & m, seed & m, (seed - P[0]) & m]
        while i + B <= n:
            for k in range(4):
                v[k] = rnd(v[k], int.from_bytes(data[i + wb * k:i + wb * k + wb], 'little'))
            i += B
        h = (rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18)) & m
        if w == 64:
            for x in v:
                h = ((h ^ rnd(0, x)) * P[0] + P[3]) & m
    else:
        h = (seed + P[4]) & m
    h = (h + n) & m
    if w == 32:
        while i + 4 <= n:
            h = rotl((h + int.from_bytes(data[i:i + 4], 'little') * P[2]) & m, 17) * P[3] & m
            i += 4
        while i < n:
            h = rotl((h + data[i] * P[4]) & m, 11) * P[0] & m
            i += 1
        h ^= h >> 15
        h = h * P[1] & m
        h ^= h >> 13
        h = h * P[2] & m
        return h ^ (h >> 16)
    while i + 8 <= n:
        h = (rotl(h ^ rnd(0, int.from_bytes(data[i:i + 8], 'little')), 27) * P[0] + P[3]) & m
        i += 8
    if i + 4 <= n:
        h = (rotl(h ^ (int.from_bytes(data[i:i + 4], 'little') * P[0] & m), 23) * P[1] + P[2]) & m
        i += 4
    while i < n:
        h = rotl(h ^ (data[i] * P[4] & m), 11) * P[0] & m
        i += 1
    h ^= h >> 33
    h = h * P[1] & m
    h ^= h >> 29
    h = h * P[2] & m
    return h ^ (h >> 32)


def selfcheck():
    """the specification functions against independent implementations"""
    import hashlib
    n = 0
    for data in (b'', b'abc', b'a' * 55, b'b' * 56, b'c' * 111, b'd' * 112, b'e' * 130, bytes(range(256))):
        for name, w, ln in (('sha224', 32, 28), ('sha256', 32, 32), ('sha384', 64, 48), ('sha512', 64, 64)):
            assert sha2_concrete(w, IV[name], data, ln) == hashlib.new(name, data).digest(), name
            n += 1
    for data in (b'', b'abc', b'a' * 135, b'b' * 136, b'c' * 200):
        for name, rate, ln in (('sha3_224', 144, 28), ('sha3_256', 136, 32), ('sha3_384', 104, 48), ('sha3_512', 72, 64)):
            assert keccak_concrete(rate, 6, data, ln) == hashlib.new(name, data).digest(), name
            n += 1
        for name, rate in (('shake_128', 168), ('shake_256', 136)):
            assert keccak_concrete(rate, 0x1f, data, 400) == hashlib.new(name, data).digest(400), name
            n += 1
    try:
        for nm in (224, 256):
            assert sha2_concrete(64, sha512t_iv(nm), b'abc', nm // 8) == hashlib.new('sha512_%d' % nm, b'abc').digest()
            n += 1
    except ValueError:
        pass
    # published vectors of the xxHash specification / reference implementation
    assert xx_concrete(32, b'') == 0x02CC5D05 and xx_concrete(32, b'abc') == 0x32D153FF
    assert xx_concrete(64, b'') == 0xEF46DB3751D8E999 and xx_concrete(64, b'abc') == 0x44BC2CF5AD770999
    # term-level xxhash against the integer one
    for w in (32, 64):
        X = XX(w)
        for ln in range(0, 80):
            data = bytes((i * 37 + ln * 11) & 255 for i in range(ln))
            for seed in (0, 12345, (1 << w) - 1):
                s = t.const(seed, w)
                a = X.init(s)
                i = 0
                while i + X.block <= ln:
                    a = X.step(a, le_words(cbytes(data[i:i + X.block]), w // 8))
                    i += X.block
                h = X.converge(a) if ln >= X.block else t.add(s, t.const(X.P[4], w))
                h = t.add(h, t.const(ln, w))
                h = X.avalanche(X.remainder(h, cbytes(data[i:])))
                assert h.d == xx_concrete(w, data, seed), (w, ln, seed)
                n += 1
    return n
