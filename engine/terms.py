"""Value domain of the analysis.

Values are hash-consed terms (value numbering: equal terms are the same
object).  A value that depends on a branch is a decision diagram ('case' nodes
over condition atoms, ordered by atom creation) whose leaves are case-free
terms.  Everything here is syntactic normalisation; nothing is executed and no
solver is involved.
"""
import itertools

_tab = {}
_serial = itertools.count()


class T:
    __slots__ = ('op', 'a', 'n', 'h', '_deps')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = next(_serial)
        t.h = hash(k)
        t._deps = None
        _tab[k] = t
    return t


T.__hash__ = lambda s: s.h
T.__eq__ = lambda s, o: s is o

UNDEF = mk('undef')
TRUE = mk('true')
FALSE = mk('false')
UNIT = mk('tuple')


# ---------------------------------------------------------------- case nodes
BOOLDOM = (True, False)


def domain(atom):
    if atom.op == 'a_discr':
        return atom.a[1]
    return BOOLDOM


def is_case(v):
    return v.op == 'case'


_case_memo = {}


def case(atom, kids):
    """Decision node; kids is a tuple aligned with domain(atom)."""
    first = None
    same = True
    for k in kids:
        if k is UNDEF:
            continue
        if first is None:
            first = k
        elif first is not k:
            same = False
    if first is None:
        return UNDEF
    if same:
        return first
    key = (atom, kids)
    r = _case_memo.get(key)
    if r is not None:
        return r
    m = None
    for k in kids:
        if k.op == 'case' and (m is None or k.a[0].n < m.n):
            m = k.a[0]
    if m is None or m.n > atom.n:
        r = mk('case', atom, kids)
    elif m is atom:
        dom = domain(atom)
        r = case(atom, tuple(cof(k, atom, i) for i, k in enumerate(kids)))
    else:
        dom = domain(m)
        r = case(m, tuple(case(atom, tuple(cof(k, m, i) for k in kids)) for i in range(len(dom))))
    _case_memo[key] = r
    return r


def cof(v, atom, i):
    """Cofactor when `atom` is not below the top of v (ordered diagrams)."""
    if v.op == 'case' and v.a[0] is atom:
        return v.a[1][i]
    return v


def atom_bool(atom, pos=True):
    return case(atom, (TRUE, FALSE) if pos else (FALSE, TRUE))


class Budget(Exception):
    pass


def lift(f, *vs):
    """Apply f leafwise.  f gets case-free leaves and may return a case."""
    memo = {}
    count = [0]

    def rec(vs):
        m = None
        for v in vs:
            if v.op == 'case':
                if m is None or v.a[0].n < m.n:
                    m = v.a[0]
            elif v is UNDEF:
                return UNDEF
        if m is None:
            return f(*vs)
        r = memo.get(vs)
        if r is not None:
            return r
        count[0] += 1
        if count[0] > 20000:
            raise Budget('decision diagram too large')
        r = case(m, tuple(rec(tuple(cof(v, m, i) for v in vs)) for i in range(len(domain(m)))))
        memo[vs] = r
        return r
    return rec(tuple(vs))


def b_not(a):
    return lift(lambda x: FALSE if x is TRUE else TRUE, a)


_and_memo = {}


def b_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    k = (a, b)
    r = _and_memo.get(k)
    if r is None:
        r = lift(lambda x, y: TRUE if (x is TRUE and y is TRUE) else FALSE, a, b)
        _and_memo[k] = r
    return r


def b_or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return b_not(b_and(b_not(a), b_not(b)))


def b_xor(a, b):
    return lift(lambda x, y: FALSE if x is y else TRUE, a, b)


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    memo = {}

    def rec(c, x, y):
        if c is TRUE:
            return x
        if c is FALSE:
            return y
        if x is y:
            return x
        if c is UNDEF:
            return UNDEF
        k = (c, x, y)
        r = memo.get(k)
        if r is not None:
            return r
        m = c.a[0]
        for v in (x, y):
            if v.op == 'case' and v.a[0].n < m.n:
                m = v.a[0]
        r = case(m, tuple(rec(cof(c, m, i), cof(x, m, i), cof(y, m, i)) for i in range(len(domain(m)))))
        memo[k] = r
        return r
    return rec(c, x, y)


def restrict(v, c):
    """Simplify v under care set c (never introduces atoms of c into v)."""
    memo = {}

    def rec(v, c):
        if c is FALSE:
            return UNDEF
        if c is TRUE or v.op != 'case':
            return v
        k = (v, c)
        r = memo.get(k)
        if r is not None:
            return r
        va, ca = v.a[0], c.a[0]
        if ca.n < va.n:
            cc = FALSE
            for x in c.a[1]:
                cc = b_or(cc, x)
            r = rec(v, cc)
        else:
            r = case(va, tuple(rec(x, cof(c, va, i)) for i, x in enumerate(v.a[1])))
        memo[k] = r
        return r
    return rec(v, c)


def leaves(v, facts=()):
    """Yield (facts, leaf); facts is a tuple of (atom, label)."""
    if v.op == 'case':
        dom = domain(v.a[0])
        for i, k in enumerate(v.a[1]):
            yield from leaves(k, facts + ((v.a[0], dom[i]),))
    else:
        yield facts, v


def atoms_of(v):
    out = set()
    seen = set()

    def rec(v):
        if v.op != 'case' or v in seen:
            return
        seen.add(v)
        out.add(v.a[0])
        for k in v.a[1]:
            rec(k)
    rec(v)
    return out


# ------------------------------------------------------------------ integers
# integer terms are polynomials with integer coefficients over atoms
# poly: dict mono->coef ; mono: tuple of (atom, exp) sorted by atom serial
def I(n):
    return mk('int', n)


ZERO = I(0)
ONE = I(1)


def zpoly(t):
    if t.op == 'int':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'zp':
        return dict(t.a[0])
    return {((t, 1),): 1}


def zfrom(p):
    items = [(m, c) for m, c in p.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.n, e) for a, e in mc[0]))
    return mk('zp', tuple(items))


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].n))


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def zadd(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] + b.a[0])
    return zfrom(padd(zpoly(a), zpoly(b)))


def zsub(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] - b.a[0])
    return zfrom(padd(zpoly(a), zpoly(b), -1))


def zmul(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] * b.a[0])
    return zfrom(pmul(zpoly(a), zpoly(b)))


def zsum(xs):
    r = ZERO
    for x in xs:
        r = zadd(r, x)
    return r


# --------------------------------------------------------- ring Z_N (SRP)
# ring element: dict mono->coef, mono: tuple of (base atom, exponent Z-term)
def rmono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = zadd(d[a], e) if a in d else e
    return tuple(sorted(((a, e) for a, e in d.items() if e is not ZERO), key=lambda x: x[0].n))


def rmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = rmono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def rtuple(p):
    return tuple(sorted(p.items(), key=lambda mc: tuple((a.n, e.n) for a, e in mc[0])))


def ring(t, N):
    """Normal form of integer term t in Z_N (N a term)."""
    r = {}
    for m, c in zpoly(t).items():
        acc = {(): c}
        for a, e in m:
            f = ring_atom(a, N)
            for _ in range(e):
                acc = rmul(acc, f)
        for mm, cc in acc.items():
            r[mm] = r.get(mm, 0) + cc
    if N.op == 'int':
        r = {m: c % N.a[0] for m, c in r.items()}
    return {m: c for m, c in r.items() if c}


def ring_atom(a, N):
    if a is N:
        return {}
    if a.op == 'mod' and a.a[1] is N:
        return dict(a.a[0])
    return {((a, ONE),): 1}


def rpow(p, e):
    """p ** e in the ring; p ring dict, e Z-term."""
    if e is ZERO:
        return {(): 1}
    if e is ONE:
        return p
    if not p:
        return {((mk('rp', ()), e),): 1}
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1:
            mm = tuple((a, zmul(x, e)) for a, x in m)
            return {mm: 1}
        mm = rmono_mul(tuple((a, zmul(x, e)) for a, x in m), ((I(c), e),))
        return {mm: 1}
    if e.op == 'int' and 0 < e.a[0] <= 4:
        r = p
        for _ in range(e.a[0] - 1):
            r = rmul(r, p)
        return r
    return {((mk('rp', rtuple(p)), e),): 1}


def zmod(t, N):
    if t.op == 'int' and N.op == 'int':
        if N.a[0] == 0:
            return UNDEF
        return I(t.a[0] % N.a[0])
    return zring(ring(t, N), N)


def zring(p, N):
    if not p:
        return ZERO
    if len(p) == 1 and () in p and N.op == 'int':
        return I(p[()] % N.a[0])
    return mk('mod', rtuple(p), N)


def zpowmod(b, e, N):
    if b.op == 'int' and e.op == 'int' and N.op == 'int' and N.a[0]:
        return I(pow(b.a[0], e.a[0], N.a[0]))
    return zring(rpow(ring(b, N), e), N)


# ------------------------------------------------------------- curve scalars
ELL = 2**252 + 27742317777372353535851937790883648493


def spoly(t):
    if t.op == 'scint':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'sc':
        return dict(t.a[0])
    return {((t, 1),): 1}


def sfrom(p):
    items = [(m, c % ELL) for m, c in p.items() if c % ELL]
    if not items:
        return mk('scint', 0)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return mk('scint', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.n, e) for a, e in mc[0]))
    return mk('sc', tuple(items))


def sadd(a, b):
    return sfrom(padd(spoly(a), spoly(b)))


def ssub(a, b):
    return sfrom(padd(spoly(a), spoly(b), -1))


def smul(a, b):
    return sfrom(pmul(spoly(a), spoly(b)))


def sneg(a):
    return sfrom({m: -c for m, c in spoly(a).items()})


def sinv(a):
    p = spoly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return sfrom({tuple((x, -e) for x, e in m): pow(c, -1, ELL)})
    if not p:
        return mk('scint', 0)
    return mk('scinv', a)


SC0 = mk('scint', 0)
SC1 = mk('scint', 1)


# -------------------------------------------------------------------- points
def ptd(t):
    """point term -> dict atom -> scalar term"""
    if t.op == 'pt':
        return dict(t.a[0])
    return {t: SC1}


def ptfrom(d):
    items = [(a, s) for a, s in d.items() if s is not SC0]
    if len(items) == 1 and items[0][1] is SC1:
        return items[0][0]
    items.sort(key=lambda x: x[0].n)
    return mk('pt', tuple(items))


PT0 = mk('pt', ())


def padd_pt(a, b):
    d = ptd(a)
    for x, s in ptd(b).items():
        d[x] = sadd(d[x], s) if x in d else s
    return ptfrom(d)


def pmul_pt(p, s):
    return ptfrom({a: smul(c, s) for a, c in ptd(p).items()})


def pneg_pt(p):
    return ptfrom({a: sneg(c) for a, c in ptd(p).items()})


# --------------------------------------------------------------- byte strings
# byte string normal form: a single segment, or cat of >=2 (or 0) segments.
# segments: bytes const, zeros(len), slice(t,lo,hi), rev(t), byte(int term), opaque
def B(b):
    return mk('bytes', bytes(b))


EMPTY = B(b'')
KNOWN_LEN = {}


def blen(t):
    op = t.op
    if op == 'bytes':
        return I(len(t.a[0]))
    if op == 'cat':
        return zsum(blen(x) for x in t.a)
    if op == 'zeros':
        return t.a[0]
    if op == 'slice':
        return zsub(t.a[2], t.a[1])
    if op == 'byte':
        return ONE
    if op == 'rev' or op == 'xormask':
        return blen(t.a[0])
    if op in ('compress', 'scbytes'):
        return I(32)
    if op == 'H':
        n = KNOWN_LEN.get(t)
        if n is not None:
            return n
        return mk('outlen', t.a[0])
    if op in ('le', 'bei'):
        return I(t.a[1])
    if op == 'be' and t.a[0].op == 'int':
        return I(max(1, (t.a[0].a[0].bit_length() + 7) // 8))
    if op == 'lez':
        return blen(mk('be', *t.a))
    if op == 'okm':
        return t.a[-1]
    if op == 'draw' and t.a[0] == 'bytes':
        return t.a[2]
    if op == 'fold':
        return t.a[1]
    n = KNOWN_LEN.get(t)
    if n is not None:
        return n
    return mk('len', t)


def segs(t):
    if t.op == 'cat':
        return list(t.a)
    if t.op == 'bytes' and not t.a[0]:
        return []
    return [t]


def zeros(n):
    if n.op == 'int':
        return B(bytes(n.a[0])) if n.a[0] <= 1 << 16 else mk('zeros', n)
    return mk('zeros', n)


def byte_seg(i):
    """one byte with integer value i"""
    if i.op == 'int':
        return B(bytes([i.a[0] & 255]))
    if i.op == 'at':
        return bslice(i.a[0], i.a[1], zadd(i.a[1], ONE))
    return mk('byte', i)


def cat(*parts):
    out = []
    for p in parts:
        for s in segs(p):
            if out and out[-1].op == 'bytes' and s.op == 'bytes':
                out[-1] = B(out[-1].a[0] + s.a[0])
                continue
            if out and out[-1].op == 'zeros' and s.op == 'zeros':
                out[-1] = zeros(zadd(out[-1].a[0], s.a[0]))
                continue
            if out and out[-1].op == 'bytes' and s.op == 'zeros' and out[-1].a[0].strip(b'\0') == b'':
                out[-1] = mk('zeros', zadd(I(len(out[-1].a[0])), s.a[0]))
                continue
            if out and s.op == 'bytes' and out[-1].op == 'zeros' and s.a[0].strip(b'\0') == b'' and s.a[0]:
                out[-1] = mk('zeros', zadd(out[-1].a[0], I(len(s.a[0]))))
                continue
            if out and s.op == 'slice' and out[-1].op == 'slice' and s.a[0] is out[-1].a[0]:
                x, y = out[-1], s
                if x.a[2] is y.a[1]:
                    out[-1] = bslice(x.a[0], x.a[1], y.a[2])
                    if out[-1].op in ('cat',):
                        z = out.pop()
                        out.extend(z.a)
                    continue
            # descending single bytes / reversed runs
            if out:
                m = _rev_merge(out[-1], s)
                if m is not None:
                    out[-1] = m
                    continue
            out.append(s)
    # zero-length segments
    out = [s for s in out if blen(s) is not ZERO]
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def _asrev(s):
    """(base, lo, hi) if s is reverse of base[lo:hi] (single byte counts)"""
    if s.op == 'rev' and s.a[0].op == 'slice':
        return s.a[0].a
    if s.op == 'rev':
        return (s.a[0], ZERO, blen(s.a[0]))
    if s.op == 'slice' and zsub(s.a[2], s.a[1]) is ONE:
        return s.a
    return None


def _rev_merge(x, y):
    if x.op not in ('rev', 'slice') or y.op not in ('rev', 'slice'):
        return None
    a = _asrev(x)
    b = _asrev(y)
    if a is None or b is None or a[0] is not b[0]:
        return None
    if a[1] is b[2]:
        return brev(bslice(a[0], b[1], a[2]))
    return None


def brev(t):
    if t.op == 'bytes':
        return B(t.a[0][::-1])
    if t.op == 'zeros' or blen(t) is ONE:
        return t
    if t.op == 'rev':
        return t.a[0]
    if t.op == 'cat':
        return cat(*[brev(s) for s in reversed(t.a)])
    if t.op == 'le':
        return mk('bei', *t.a)
    if t.op == 'bei':
        return mk('le', *t.a)
    if t.op == 'be':
        return mk('lez', *t.a)
    if t.op == 'lez':
        return mk('be', *t.a)
    return mk('rev', t)


def bslice(t, lo, hi):
    """t[lo:hi] resolved structurally where segment boundaries are known."""
    if lo is hi:
        return EMPTY
    n = blen(t)
    if lo is ZERO and hi is n:
        return t
    if t.op == 'bytes' and lo.op == 'int' and hi.op == 'int':
        return B(t.a[0][lo.a[0]:hi.a[0]])
    if t.op == 'slice':
        return bslice(t.a[0], zadd(t.a[1], lo), zadd(t.a[1], hi))
    if t.op == 'rev':
        return brev(bslice(t.a[0], zsub(n, hi), zsub(n, lo)))
    if t.op == 'zeros':
        return zeros(zsub(hi, lo))
    if t.op == 'cat':
        pos = ZERO
        out = []
        state = 0
        for s in t.a:
            end = zadd(pos, blen(s))
            if state == 0:
                # lo is known to lie at or after pos
                if lo is end or _le_known(end, lo) is True:
                    st = False
                elif lo is pos or _le_known(lo, end):
                    st = True
                else:
                    return mk('slice', t, lo, hi)
                if st:
                    state = 1
                    if _le_known(end, hi) is True:
                        out.append(bslice(s, zsub(lo, pos), zsub(end, pos)))
                    elif _le_known(hi, end) is True:
                        out.append(bslice(s, zsub(lo, pos), zsub(hi, pos)))
                        return cat(*out)
                    else:
                        return mk('slice', t, lo, hi)
            elif state == 1:
                if hi is pos:
                    return cat(*out)
                if _le_known(end, hi) is True:
                    out.append(s)
                elif _le_known(hi, end) is True:
                    out.append(bslice(s, ZERO, zsub(hi, pos)))
                    return cat(*out)
                else:
                    return mk('slice', t, lo, hi)
            pos = end
        if state == 1 and hi is pos:
            return cat(*out)
        return mk('slice', t, lo, hi)
    return mk('slice', t, lo, hi)


# oracle for symbolic comparisons, installed by the fact base
ORACLE = [None]
ORACLE_BASE = [None]


def _le_known(a, b):
    """True/False/None: a <= b"""
    d = zsub(b, a)
    if d.op == 'int':
        return d.a[0] >= 0
    if ORACLE[0] is not None:
        return ORACLE[0](a, b)
    s = sign_nonneg(d)
    if s:
        return True
    if sign_nonneg(zsub(zsub(a, b), ONE)):
        return False
    return None


def _within(x, lo, hi):
    """lo <= x < hi"""
    a = _le_known(lo, x)
    b = _le_known(zadd(x, ONE), hi)
    if a is False or b is False:
        return False
    if a is None or b is None:
        return None
    return True


NONNEG = {'len', 'outlen', 'at', 'cparam', 'mod', 'frombe', 'fromle', 'bits', 'uarg', 'lz'}


def sign_nonneg(t):
    """Syntactic: all coefficients >= 0 over nonneg atoms."""
    for m, c in zpoly(t).items():
        if c < 0:
            return False
        for a, e in m:
            if a.op not in NONNEG:
                return False
    return True


def at(t, i):
    """integer value of byte i of byte string t"""
    s = bslice(t, i, zadd(i, ONE))
    if s.op == 'bytes' and len(s.a[0]) == 1:
        return I(s.a[0][0])
    if s.op == 'byte':
        return s.a[0]
    if s.op == 'slice' and blen(s) is ONE:
        return mk('at', s.a[0], s.a[1])
    return mk('at', t, i)


def bwrite(t, lo, hi, new):
    return cat(bslice(t, ZERO, lo), new, bslice(t, hi, blen(t)))


# --------------------------------------------------------------- aggregates
def adt(path, variant, *fields):
    return mk('adt', path, variant, tuple(fields))


OPTION = 'core::option::Option'
RESULT = 'core::result::Result'


def some(x):
    return lift(lambda v: adt(OPTION, 'Some', v), x)


NONE = adt(OPTION, 'None')


def ok(x):
    return lift(lambda v: adt(RESULT, 'Ok', v), x)


def err(x):
    return lift(lambda v: adt(RESULT, 'Err', v), x)


def tup(*xs):
    return lift(lambda *v: mk('tuple', *v), *xs) if xs else UNIT


# ------------------------------------------------------------------ deps etc
def children(t):
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    rec(t.a)
    return out


def deps(t):
    """All subterms (including t)."""
    if t._deps is None:
        stack = [t]
        order = []
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            stack.extend(children(x))
        t._deps = frozenset(seen)
    return t._deps


def subst(t, mp):
    """Structural substitution with re-normalisation of the common ops."""
    memo = {}

    def rec(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        if x in mp:
            return mp[x]
        r = memo.get(x)
        if r is not None:
            return r
        r = rebuild(x, rec)
        memo[x] = r
        return r
    return rec(t)


def rebuild(x, rec):
    op = x.op
    if op == 'cat':
        return cat(*[rec(y) for y in x.a])
    if op == 'slice':
        return bslice(*[rec(y) for y in x.a])
    if op == 'zeros':
        return zeros(rec(x.a[0]))
    if op == 'rev':
        return brev(rec(x.a[0]))
    if op == 'byte':
        return byte_seg(rec(x.a[0]))
    if op == 'at':
        return at(rec(x.a[0]), rec(x.a[1]))
    if op == 'len':
        return blen(rec(x.a[0]))
    if op == 'le_mod':
        import models
        return models.sc_le(rec(x.a[0]))
    if op == 'frombe':
        import models
        return models.frombe(rec(x.a[0]))
    if op == 'zp':
        r = ZERO
        for m, c in x.a[0]:
            tt = I(c)
            for a, e in m:
                aa = rec(a)
                for _ in range(e):
                    tt = zmul(tt, aa)
            r = zadd(r, tt)
        return r
    if op == 'mod':
        N = rec(x.a[1])
        acc = {}
        for m, c in x.a[0]:
            f = {(): c}
            for a, e in m:
                if a.op == 'rp':
                    base = {}
                    for mm, cc in a.a[0]:
                        g = {(): cc}
                        for aa, ee in mm:
                            g = rmul(g, rpow(ring(rec(aa), N), rec(ee)))
                        base = padd(base, g)
                else:
                    base = ring(rec(a), N)
                f = rmul(f, rpow(base, rec(e)))
            acc = padd(acc, f)
        if N.op == 'int':
            acc = {m: c % N.a[0] for m, c in acc.items() if c % N.a[0]}
        return zring(acc, N)
    if op == 'sc':
        r = SC0
        for m, c in x.a[0]:
            tt = mk('scint', c)
            for a, e in m:
                aa = rec(a)
                if e < 0:
                    aa = sinv(aa)
                for _ in range(abs(e)):
                    tt = smul(tt, aa)
            r = sadd(r, tt)
        return r
    if op == 'pt':
        r = PT0
        for a, s in x.a[0]:
            r = padd_pt(r, pmul_pt(rec(a), rec(s)))
        return r
    if op == 'case':
        kids = tuple(rec(y) for y in x.a[1])
        at_ = x.a[0]
        if at_.op in ('a_le0', 'a_eq0'):
            z = rec(at_.a[0])
            if z is not at_.a[0]:
                import facts
                return ite((facts.le0 if at_.op == 'a_le0' else facts.eq0)(z), kids[0], kids[1])
            return case(at_, kids)
        a = rec(at_)
        if a is TRUE:
            return kids[0]
        if a is FALSE:
            return kids[1]
        if a.op == 'case':
            return ite(a, kids[0], kids[1])
        if a.op == 'a_discr':
            s = a.a[0]
            if s.op == 'adt':
                return kids[list(a.a[1]).index(s.a[1])]
        return case(a, kids)
    na = tuple(rec(y) for y in x.a)
    if na == x.a:
        return x
    r = mk(op, *na)
    if x in KNOWN_LEN:
        KNOWN_LEN.setdefault(r, KNOWN_LEN[x])
    return r


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if depth == 0:
        return '…'
    d = depth - 1
    op, a = t.op, t.a
    if op == 'int':
        s = str(a[0])
        return s if len(s) < 24 else s[:8] + '…' + str(len(s)) + 'd'
    if op == 'bytes':
        return repr(a[0]) if len(a[0]) < 24 else 'bytes[%d]%s…' % (len(a[0]), a[0][:6].hex())
    if op == 'scint':
        return str(a[0])
    if op in ('zp', 'sc'):
        ms = []
        for m, c in a[0]:
            ms.append('*'.join(([str(c)] if c != 1 or not m else []) + [show(x, d) + ('' if e == 1 else '^%d' % e) for x, e in m]))
        return '(' + ' + '.join(ms) + ')'
    if op == 'mod' or op == 'rp':
        ms = []
        for m, c in a[0]:
            ms.append('*'.join(([str(c)] if c != 1 or not m else []) + [show(x, d) + ('' if e is ONE else '^' + show(e, d)) for x, e in m]))
        return '(' + ' + '.join(ms) + ')' + ('%' + show(a[1], d) if op == 'mod' else '')
    if op == 'pt':
        return '[' + ' + '.join('%s·%s' % (show(s, d), show(x, d)) for x, s in a[0]) + ']'
    if op == 'adt':
        return a[0].split('::')[-1] + '::' + a[1] + '{' + ', '.join(show(x, d) for x in a[2]) + '}'
    if op == 'case':
        return 'case(' + show(a[0], d) + ': ' + ' | '.join('%s→%s' % (l, show(x, d)) for l, x in zip(domain(a[0]), a[1])) + ')'
    if op == 'cat':
        return ' ‖ '.join(show(x, d) for x in a)
    if op == 'arg':
        return '$' + a[0]
    if op == 'a_discr':
        return 'variant(' + show(a[0], d) + ')'

    def sh(x):
        if isinstance(x, T):
            return show(x, d)
        if isinstance(x, tuple):
            return '(' + ', '.join(sh(y) for y in x) + ')'
        return str(x)
    return op + ('(' + ', '.join(sh(x) for x in a) + ')' if a else '')
