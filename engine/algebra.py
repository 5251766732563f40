"""Concrete number theory used when analysing constants (never to run the
crates): edwards25519 decompression and group law, Miller-Rabin."""
import hashlib
P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = (-121665 * pow(121666, -1, P)) % P
SQRTM1 = pow(2, (P - 1) // 4, P)


def ed_x(y, sign):
    u = (y * y - 1) % P
    v = (D * y * y + 1) % P
    x = (u * pow(v, 3, P) * pow(u * pow(v, 7, P), (P - 5) // 8, P)) % P
    if (v * x * x - u) % P:
        if (v * x * x + u) % P:
            return None
        x = x * SQRTM1 % P
    if x & 1 != sign:
        x = (P - x) % P
    return x


def ed_decompress(b):
    n = int.from_bytes(b, 'little')
    sign = n >> 255
    y = (n & ((1 << 255) - 1)) % P
    x = ed_x(y, sign)
    if x is None:
        return None
    return (x, y)


def ed_decompress_ok(b):
    return ed_decompress(b) is not None


def ed_compress(p):
    return (p[1] | ((p[0] & 1) << 255)).to_bytes(32, 'little')


def ed_add(p, q):
    x1, y1 = p
    x2, y2 = q
    t = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * pow(1 + t, -1, P) % P, (y1 * y2 + x1 * x2) * pow(1 - t, -1, P) % P)


def ed_mul(p, n):
    r = (0, 1)
    while n:
        if n & 1:
            r = ed_add(r, p)
        p = ed_add(p, p)
        n >>= 1
    return r


def hkdf_sha256(salt, ikm, info, n):
    import hmac
    prk = hmac.new(salt, ikm, hashlib.sha256).digest()
    out, t, i = b'', b'', 1
    while len(out) < n:
        t = hmac.new(prk, t + info + bytes([i]), hashlib.sha256).digest()
        out += t
        i += 1
    return out[:n]


def arbitrary_element(seed):
    """python-spake2 / SPAKE2 draft 'arbitrary element' for Ed25519"""
    h = hkdf_sha256(b'', seed, b'SPAKE2 arbitrary element', 32 + 16)
    y = int.from_bytes(h, 'big') % P
    for plus in range(0, 1000):
        yy = (y + plus) % P
        x = ed_x(yy, 0)
        if x is None:
            continue
        # xrecover picks the even root
        if x & 1:
            x = P - x
        pt = (x, yy)
        p8 = ed_mul(pt, 8)
        if p8 == (0, 1):
            continue
        if ed_mul(p8, L) != (0, 1):
            continue
        return p8
    return None


def is_prime(n, rounds=24):
    if n < 4:
        return n in (2, 3)
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    import random
    rnd = random.Random(n & 0xffffffff)
    for i in range(rounds):
        a = rnd.randrange(2, n - 2)
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True
