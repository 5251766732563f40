"""Linear facts about integer terms and implication between branch conditions
(interval + Fourier-Motzkin elimination on the few constraints of one path)."""
from math import gcd
from terms import *

MAXLEN = 2**63 - 1


def norm_sign(z):
    """canonical (z', flipped) for equality with 0"""
    p = zpoly(z)
    g = 0
    for m, c in p.items():
        g = gcd(g, abs(c))
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda mc: tuple((a.n, e) for a, e in mc[0]))
    if items and items[0][1] < 0:
        p = {m: -c for m, c in p.items()}
    if g > 1:
        p = {m: c // g for m, c in p.items()}
    return zfrom(p)


def zbounds(a):
    """syntactic bounds (lo, hi or None) of an integer atom"""
    op = a.op
    if op in ('len', 'outlen'):
        return 0, MAXLEN
    if op in ('at',):
        return 0, 255
    if op == 'cparam':
        return 0, 2**64 - 1
    if op == 'uarg':
        return 0, (1 << a.a[1]) - 1
    if op in ('mod', 'frombe', 'fromle', 'bits', 'lz'):
        return 0, None
    if op == 'draw' and a.a[0] == 'int':
        return 0, (1 << a.a[2].a[0]) - 1
    if op == 'proj' and found_at(a) is not None:
        return 0, MAXLEN
    return None, None


def found_at(a):
    """number of elements searched when a is the index found by position/rposition"""
    x = a.a[0]
    if a.a[1] == 'Some' and x.op == 'app' and isinstance(x.a[0], tuple) and x.a[0][0] in (
            'core::iter::traits::iterator::Iterator::position', 'core::iter::traits::iterator::Iterator::rposition'):
        it = x.a[1]
        if it.op == 'it_seq':
            return zsub(it.a[2], it.a[1])
    return None


def bitdiff0(z):
    """z == 0 for z the bitwise union of the differences of all bytes of two strings"""
    import models
    todo, leaves_ = [z], []
    while todo:
        x = todo.pop()
        if x.op == 'bin' and x.a[0] == 'BitOr':
            todo += x.a[1:]
        else:
            leaves_.append(x)
    pairs, r = {}, TRUE
    for x in leaves_:
        if x.op == 'xordiff':
            X, Y = x.a
            n, m = models.seqlen(X), models.seqlen(Y)
            e = models.beq(X, Y, 'a_cteq')
            r = b_and(r, e if n is m else ite(ints_eq(n, m), e, atom_bool(mk('a_eq0', x))))
        elif x.op == 'bin' and x.a[0] == 'BitXor' and x.a[1].op == 'at' and x.a[2].op == 'at' and x.a[1].a[1] is x.a[2].a[1] and x.a[1].a[1].op == 'int':
            k = tuple(sorted((x.a[1].a[0], x.a[2].a[0]), key=lambda v: v.n))
            pairs.setdefault(k, set()).add(x.a[1].a[1].a[0])
        elif x is z or x.op in ('mu', 'phi', 'app', 'bin'):
            return None
        else:
            r = b_and(r, eq0(x))
    for (X, Y), at_ in pairs.items():
        n, m = models.seqlen(X), models.seqlen(Y)
        if n is not m or n.op != 'int' or at_ != set(range(n.a[0])):
            return None
        r = b_and(r, models.beq(X, Y, 'a_cteq'))
    return r


def eq0(z):
    """boolean value: z == 0"""
    if z.op == 'int':
        return TRUE if z.a[0] == 0 else FALSE
    if z.op in ('bin', 'xordiff'):
        d = bitdiff0(z)
        if d is not None:
            return d
    p = zpoly(z)
    c = p.get((), 0)
    g = 0
    for m, k in p.items():
        if m != ():
            g = gcd(g, abs(k))
    if c % g:
        return FALSE
    if c and all(k > 0 for k in p.values()) and sign_nonneg(z):
        return FALSE
    if c and all(k < 0 for k in p.values()) and sign_nonneg(zsub(ZERO, z)):
        return FALSE
    if len(p) == 1 and not c:
        (m, k), = p.items()
        if len(m) == 1 and m[0][0].op == 'bits':
            return eq0(m[0][0].a[0])       # no bits: zero
        if len(m) == 1 and m[0][0].op == 'len' and m[0][0].a[0].op == 'digits':
            return eq0(m[0][0].a[0].a[0])  # no digits: zero
    if len(p) == 2 and c:
        (m, k), = [(m, k) for m, k in p.items() if m != ()]
        if len(m) == 1 and m[0][1] == 1:
            lo, hi = zbounds(m[0][0])
            v = -c // k
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                return FALSE
    return atom_bool(mk('a_eq0', norm_sign(z)))


def le0(z):
    """boolean value: z <= 0"""
    if z.op == 'int':
        return TRUE if z.a[0] <= 0 else FALSE
    if sign_nonneg(zsub(ZERO, z)):
        return TRUE
    if sign_nonneg(zsub(z, ONE)):
        return FALSE
    p = zpoly(z)
    # integer tightening
    g = 0
    for m, c in p.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        p = {m: (c // g if m != () else -((-c) // g)) for m, c in p.items()}
        p = {m: c for m, c in p.items() if c}
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda mc: tuple((a.n, e) for a, e in mc[0]))
    if len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1 and abs(items[0][1]) == 1:
        lo, hi = zbounds(items[0][0][0][0])
        c = p.get((), 0)
        if items[0][1] == 1:   # x + c <= 0
            if lo is not None and lo + c > 0:
                return FALSE
            if hi is not None and hi + c <= 0:
                return TRUE
            if lo is not None and lo + c == 0:
                return eq0(zfrom(p))
        else:                  # -x + c <= 0
            if lo is not None and c - lo <= 0:
                return TRUE
            if hi is not None and c - hi > 0:
                return FALSE
            if lo is not None and c - lo == 1:  # x >= lo+1
                return b_not(eq0(zsub(items[0][0][0][0], I(lo))))
    if items[0][1] < 0:
        # z <= 0  <=>  not (1 - z <= 0)
        q = {m: -c for m, c in p.items()}
        q[()] = q.get((), 0) + 1
        q = {m: c for m, c in q.items() if c}
        return atom_bool(mk('a_le0', zfrom(q)), False)
    return atom_bool(mk('a_le0', zfrom(p)))


def lt(a, b):
    return le0(zadd(zsub(a, b), ONE))


def le(a, b):
    return le0(zsub(a, b))


def ints_eq(a, b):
    return eq0(zsub(a, b))


class Facts:
    def __init__(self, facts=()):
        self.map = {}
        self.le = []      # polys <= 0
        self.eq = []
        self.ne = []
        for a, l in facts:
            self.add(a, l)

    def copy(self):
        f = Facts()
        f.map = dict(self.map)
        f.le = list(self.le)
        f.eq = list(self.eq)
        f.ne = list(self.ne)
        return f

    def add(self, a, l):
        self.map[a] = l
        if a.op == 'a_le0':
            p = zpoly(a.a[0])
            if l:
                p = dict(p)
            else:
                p = {m: -c for m, c in p.items()}
                p[()] = p.get((), 0) + 1
            neg = clean({m: -c for m, c in p.items()})
            if any(clean(q) == neg for q in self.le):
                self.eq.append(p)          # bounded from both sides
            self.le.append(p)
        elif a.op == 'a_eq0':
            p = zpoly(a.a[0])
            if l:
                self.eq.append(p)
            else:
                self.ne.append(p)
        return self

    def with_(self, a, l):
        return self.copy().add(a, l)

    def _base(self, extra):
        cons = [dict(p) for p in self.le + extra]
        for p in self.eq:
            cons.append(dict(p))
            cons.append({m: -c for m, c in p.items()})
        return cons

    def relevant(self, extra):
        """the facts connected to `extra` through shared atoms"""
        pool = [(k, p, poly_atoms(p)) for k in ('le', 'eq', 'ne') for p in getattr(self, k)]
        live = set()
        for p in extra:
            live |= poly_atoms(p)
        f = Facts()
        while True:
            rest = []
            for x in pool:
                if x[2] & live or not x[2]:
                    getattr(f, x[0]).append(x[1])
                    live |= x[2]
                else:
                    rest.append(x)
            if len(rest) == len(pool):
                return f
            pool = rest

    def infeasible(self, extra=(), strengthen=True):
        if extra and len(self.le) + len(self.eq) + len(self.ne) > 12:
            f = self.relevant(extra)
            if len(f.le) + len(f.eq) + len(f.ne) < len(self.le) + len(self.eq) + len(self.ne):
                # the others were found consistent when they were added
                return f.infeasible(extra, strengthen)
        cons = self._base(list(extra))
        monos = set()
        for p in cons:
            monos |= {m for m in p if m != ()}
        if strengthen:
            for p in self.ne:
                pm = {m for m in p if m != ()}
                if not pm & monos and cons:
                    continue
                monos |= pm
        # bounds for atoms
        todo = list(monos)
        seen = set(monos)
        while todo:
            m = todo.pop()
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                lo, hi = zbounds(a)
                if lo is not None:
                    cons.append({m: -1, (): lo} if lo else {m: -1})
                if hi is not None:
                    cons.append({m: 1, (): -hi})
                n = a.a[1] if a.op == 'mod' else found_at(a) if a.op == 'proj' else None
                if n is not None:
                    q = padd({m: 1, (): 1}, zpoly(n), -1)
                    cons.append(q)
                    for mm in q:
                        if mm != () and mm not in seen:
                            seen.add(mm)
                            todo.append(mm)
            elif all(a.op in NONNEG for a, e in m):
                cons.append({m: -1})
        if strengthen:
            for p in self.ne:
                f = Facts()
                f.le = cons
                pos = {m: -c for m, c in p.items()}
                pos[()] = pos.get((), 0) + 1      # 1 - p <= 0
                neg = dict(p)
                neg[()] = neg.get((), 0) + 1      # p + 1 <= 0
                if f._fm(cons + [clean(neg)]):
                    cons.append(clean(pos))
                elif f._fm(cons + [clean(pos)]):
                    cons.append(clean(neg))
        return self._fm(cons)

    def _fm(self, cons):
        """True if infeasible over the rationals (with integer tightening)."""
        cur = set()
        for p in cons:
            t = _tight(p)
            if t is True:
                continue
            if t is False:
                return True
            cur.add(t)
        for _ in range(40):
            monos = {}
            for c in cur:
                for m, k in c[0]:
                    x = monos.setdefault(m, [0, 0])
                    x[0 if k > 0 else 1] += 1
            if not monos:
                return False
            m = min(monos, key=lambda m: (monos[m][0] * monos[m][1], monos[m][0] + monos[m][1]))
            pos = [c for c in cur if dict(c[0]).get(m, 0) > 0]
            neg = [c for c in cur if dict(c[0]).get(m, 0) < 0]
            rest = {c for c in cur if m not in dict(c[0])}
            if len(pos) * len(neg) > 400:
                return False
            for a in pos:
                for b in neg:
                    da, db = dict(a[0]), dict(b[0])
                    ka, kb = da[m], -db[m]
                    q = {}
                    for mm, c in da.items():
                        q[mm] = q.get(mm, 0) + c * kb
                    for mm, c in db.items():
                        q[mm] = q.get(mm, 0) + c * ka
                    q[()] = a[1] * kb + b[1] * ka
                    t = _tight(clean(q))
                    if t is True:
                        continue
                    if t is False:
                        return True
                    rest.add(t)
            cur = rest
            if len(cur) > 600:
                return False
        return False

    def decide(self, atom):
        """label implied for atom, or None"""
        if atom in self.map:
            return self.map[atom]
        if atom.op == 'a_le0':
            p = zpoly(atom.a[0])
            q = {m: -c for m, c in p.items()}
            q[()] = q.get((), 0) + 1
            if self.infeasible([clean(q)]):
                return True
            if self.infeasible([p]):
                return False
            return None
        if atom.op == 'a_eq0':
            p = zpoly(atom.a[0])
            n = {m: -c for m, c in p.items()}
            if self.infeasible([p, n]):
                return False
            p1 = dict(p)
            p1[()] = p1.get((), 0) + 1
            n1 = dict(n)
            n1[()] = n1.get((), 0) + 1
            if self.infeasible([clean(p1)]) and self.infeasible([clean(n1)]):
                return True
            return None
        return None

    def le_known(self, a, b):
        d = zsub(a, b)
        p = zpoly(d)
        if d.op == 'int':
            return d.a[0] <= 0
        q = {m: -c for m, c in p.items()}
        q[()] = q.get((), 0) + 1
        if self.infeasible([clean(q)]):
            return True
        if self.infeasible([p]):
            return False
        return None

    def substitution(self):
        """equalities usable as rewriting atom -> term"""
        mp = {}
        for p in self.eq:
            for m, c in p.items():
                if m != () and len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    rest = {mm: (-cc if c == 1 else cc) for mm, cc in p.items() if mm != m}
                    t = zfrom(rest)
                    if m[0][0] not in deps(t):
                        mp[m[0][0]] = t
                        break
        for a, l in self.map.items():
            if a.op == 'a_eq' and l is True:
                x, y = a.a
                if y.op in ('int', 'bytes', 'scint'):
                    mp[x] = y
                elif x.op in ('int', 'bytes', 'scint'):
                    mp[y] = x
        return mp


def poly_atoms(p):
    """atoms of a polynomial, and those their bounds mention"""
    out = set()
    todo = [a for m in p if m != () for a, _ in m]
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out.add(a)
        n = a.a[1] if a.op == 'mod' else found_at(a) if a.op == 'proj' else None
        if n is not None:
            todo += [b for m in zpoly(n) if m != () for b, _ in m]
    return out


def clean(p):
    return {m: c for m, c in p.items() if c}


def _tight(p):
    """normalise p <= 0; True trivially holds, False contradiction, else tuple"""
    c0 = p.get((), 0)
    items = [(m, c) for m, c in p.items() if m != () and c]
    if not items:
        return c0 <= 0
    g = 0
    for m, c in items:
        g = gcd(g, abs(c))
    if g > 1:
        items = [(m, c // g) for m, c in items]
        c0 = -((-c0) // g)
    items.sort(key=lambda mc: tuple((a.n, e) for a, e in mc[0]))
    return (tuple(items), c0)


def simplify(v, facts):
    """Prune branches of v contradicted or implied by facts."""
    if v.op != 'case':
        return v
    a = v.a[0]
    d = facts.decide(a)
    dom = domain(a)
    if d is not None:
        return simplify(v.a[1][dom.index(d)], facts)
    kids = tuple(simplify(k, facts.with_(a, dom[i])) for i, k in enumerate(v.a[1]))
    return case(a, kids)


def paths(v, facts=None):
    """feasible (Facts, leaf) pairs"""
    facts = facts or Facts()
    if v.op != 'case':
        if v is not UNDEF:
            yield facts, v
        return
    a = v.a[0]
    dom = domain(a)
    d = facts.decide(a)
    for i, k in enumerate(v.a[1]):
        if d is not None and dom[i] != d:
            continue
        yield from paths(k, facts if d is not None else facts.with_(a, dom[i]))


def pathsets(pc, vs, facts=None):
    """feasible (Facts, leaf tuple) for several values under pc (pc True)"""
    v = lift(lambda c, *xs: mk('paths', *xs) if c is TRUE else UNDEF, pc, *vs)
    for f, leaf in paths(v, facts):
        if leaf.op == 'paths':
            yield f, leaf.a


def implied_false(cond, facts=None):
    """is boolean diagram cond unsatisfiable (w.r.t. linear reasoning)?"""
    for f, leaf in paths(cond, facts):
        if leaf is TRUE:
            return False
    return True


def norm_leaf(t, facts):
    mp = facts.substitution()
    ORACLE[0] = facts.le_known
    try:
        return subst(t, mp) if mp else t
    finally:
        ORACLE[0] = None
