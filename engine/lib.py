"""Scenario composition over the public API and the comparison walk."""
import os
import sys
import time
from terms import *
import terms
from facts import (Facts, eq0, le0, lt, le, ints_eq, norm_leaf)
import facts as F
import interp
import models
from interp import Program, Engine, Unsupported, field, undef_false, strip_ref, tykey

DUMPS = {}
HARVEST = []


def load_program(path):
    p = DUMPS.get(path)
    if p is None:
        p = DUMPS[path] = Program(path)
    return p


class AnchorMissing(Exception):
    """a construct the rule is anchored on no longer exists"""


# ---------------------------------------------------------------- API lookup
def impl_adt(f):
    t = f.get('impl_self')
    if not t:
        return None
    t = strip_ref(t)
    return t['p'] if t['k'] == 'adt' else None


def methods(prog, adt_last, name=None, trait=None):
    out = []
    for f in prog.d['fns']:
        if 'impl_self' not in f:
            continue
        p = impl_adt(f)
        if p is None or p.split('::')[-1] != adt_last:
            continue
        if (f.get('impl_trait') or None) is not None and trait is None:
            continue
        if trait is not None and not trait_last(f) == trait:
            continue
        if name is not None and f['name'] != name:
            continue
        out.append(f)
    return out


def trait_last(f):
    t = f.get('impl_trait')
    if not t:
        return None
    if isinstance(t, dict):
        t = t.get('path', '')
    return t.split('<')[0].split('::')[-1]


def method(prog, adt_last, name):
    fs = methods(prog, adt_last, name)
    if len(fs) != 1:
        raise AnchorMissing('%s::%s (%d found)' % (adt_last, name, len(fs)))
    if fs[0].get('inst') is None:
        raise AnchorMissing('%s::%s has no body' % (adt_last, name))
    return fs[0]


def has_method(prog, adt_last, name):
    return len(methods(prog, adt_last, name)) == 1


def adt_path(prog, last):
    c = [p for p in prog.adts if p.split('::')[-1] == last and p.split('::')[0] == prog.crate]
    if len(c) != 1:
        raise AnchorMissing('type ' + last)
    return c[0]


def where(prog, f):
    i = prog.insts[f['inst']] if f.get('inst') is not None else f
    sp = i['span']
    return '%s:%d %s' % (sp[0], sp[1], f['path'])


# ---------------------------------------------------------------- scenario
OKERR = ('Ok', 'Err')
NS = ('None', 'Some')


FIELD_TYPES = {
    'ssid': lambda t: t['k'] == 'adt' and t['p'].endswith('GenericArray'),
    'prs': lambda t: t['k'] == 'array',
}


class Scn:
    def __init__(self, prog, context=()):
        self.p = prog
        self.e = Engine(prog)
        if context:
            self.e.context = Facts(context)
        self.st = {}
        self.pc = TRUE
        self.called = []
        self.rejects = []
        self.cur = None

    def rng(self, name):
        """a caller-supplied generator passed by &mut"""
        return self.e.new_cell(self.st, mk('rng0', name))

    def cell(self, v):
        return self.e.new_cell(self.st, v)

    def call(self, adt_last, name, *args):
        f = method(self.p, adt_last, name)
        return self.call_fn(f, *args)

    def call_fn(self, f, *args):
        inst = self.p.insts[f['inst']]
        self.called.append(f['path'])
        self.cur = f
        n0 = len(self.e.oblig)
        if self.pc is FALSE:
            raise Unsupported('no feasible path reaches ' + f['path'])
        # a &mut self / by-value distinction is taken from the body
        body = inst['body']
        a2 = []
        for i, a in enumerate(args):
            t = body['locals'][i + 1]['ty']
            if t['k'] == 'ref' and t['m'] and not any(l.op == 'ref' for _, l in leaves(a)):
                a = self.cell(a)
            elif not (t['k'] == 'ref' and t['m']) and t['k'] != 'param':
                a = self.e.load(self.st, a)
            a2.append(a)
        if len(a2) != body['argc']:
            raise AnchorMissing('%s takes %d arguments, expected %d' % (f['path'], body['argc'], len(a2)))
        self.st, v, self.pc = self.e.run(inst, a2, self.st, self.pc)
        v = self.e.load_all(self.st, v) if v is not UNDEF else v
        for o in self.e.oblig[n0:]:
            o.descr = (o.descr, f['path'])
        for h in HARVEST:
            h.called(self, f, a2, v)
        return v

    def load(self, v):
        return self.e.load_all(self.st, v)

    # results ---------------------------------------------------------------
    def is_variant(self, v, path, names, want):
        def g(x):
            if x.op == 'adt':
                return TRUE if x.a[1] == want else FALSE
            return case(mk('a_discr', x, names), tuple(TRUE if n == want else FALSE for n in names))
        return lift(g, v)

    def payload(self, v, want, i=0):
        def g(x):
            if x.op == 'adt':
                return x.a[2][i] if x.a[1] == want and i < len(x.a[2]) else UNDEF
            return field(mk('as', x, want), i)
        return lift(g, v)

    def okcond(self, v):
        return self.is_variant(v, RESULT, OKERR, 'Ok')

    def ok(self, v):
        c = undef_false(self.okcond(v))
        self.rejects.append((b_and(self.pc, b_not(c)), v, self.cur))
        self.pc = b_and(self.pc, c)
        return restrict(self.payload(v, 'Ok'), self.pc)

    def okmaybe(self, v, ty):
        """unwrap when the function returns Result, else the value itself"""
        return self.ok(v) if any(l.op == 'adt' and l.a[0] == RESULT for _, l in leaves(v)) else v

    def some(self, v):
        c = undef_false(self.is_variant(v, OPTION, NS, 'Some'))
        self.pc = b_and(self.pc, c)
        return restrict(self.payload(v, 'Some'), self.pc)

    def f(self, v, i):
        return lift(lambda x: field(x, i), v)

    def fieldn(self, v, name):
        """named field of an ADT value"""
        def g(x):
            if x.op == 'adt':
                a = self.p.adts.get(x.a[0])
                for vv in a['variants']:
                    if vv['n'] == x.a[1]:
                        for i, ff in enumerate(vv['fields']):
                            if ff['n'] == name:
                                return x.a[2][i]
                        # a private field may have been renamed: take it by its type
                        k = FIELD_TYPES.get(name)
                        c = [i for i, ff in enumerate(vv['fields']) if k is not None and k(ff['ty'])]
                        if len(c) == 1:
                            return x.a[2][c[0]]
                raise AnchorMissing('field %s of %s' % (name, x.a[0]))
            return UNDEF
        return lift(g, v)

    def variant(self, v, name):
        """restrict v (an enum message) to variant `name`; the rest becomes UNDEF"""
        return lift(lambda x: x if x.op == 'adt' and x.a[1] == name else UNDEF, v)


# ---------------------------------------------------------------- comparison
class TooMany(Exception):
    pass


def walk(pc, vs, facts=None, limit=20000, skip=None):
    """All feasible (facts, leaves) with pc true; leaves are normalised under
    the facts.  UNDEF leaves are passed on, never dropped.  skip(facts) cuts off
    paths: it must stay true once true."""
    cnt = [0]
    seen = set()

    def rec(pc, vs, facts):
        while True:
            if pc is FALSE or pc is UNDEF:
                return
            m = pc.a[0] if pc.op == 'case' else None
            for v in vs:
                if v.op == 'case' and (m is None or v.a[0].n < m.n):
                    m = v.a[0]
            if m is None:
                cnt[0] += 1
                if cnt[0] > limit:
                    raise TooMany('more than %d paths' % limit)
                yield facts, vs
                return
            dom = domain(m)
            d = facts.decide(m)
            if d is None:
                d = decide_more(m, facts)
            if d is None:
                break
            i = dom.index(d)
            pc = cof(pc, m, i)
            vs = tuple(cof(v, m, i) for v in vs)
        for i in range(len(dom)):
            p2 = cof(pc, m, i)
            if p2 is FALSE:
                continue
            f2 = facts.with_(m, dom[i])
            if f2.infeasible() or (skip is not None and skip(f2)):
                continue
            yield from rec(p2, tuple(cof(v, m, i) for v in vs), f2)
    for facts_, vs_ in rec(pc, tuple(vs), facts or Facts()):
        yield facts_, tuple(norm(v, facts_) for v in vs_)


def natom(atom, facts):
    """the boolean/variant test rewritten with the equalities known on the path:
    (atom', {label' : label}) or a constant label"""
    op = atom.op
    if op == 'a_discr':
        x = norm(atom.a[0], facts)
        return mk('a_discr', x, *atom.a[1:]), None
    if op in ('a_eq0', 'a_le0', 'a_isid', 'a_sc0'):
        x = norm(atom.a[0], facts)
        if op == 'a_eq0':
            v = eq0(x)
        elif op == 'a_le0':
            v = le0(x)
        elif op == 'a_isid':
            v = models.isid(x)
        else:
            v = models.seq_sc(x, models.SC0)
    elif op in ('a_ltb', 'a_eq', 'a_cteq'):
        x, y = norm(atom.a[0], facts), norm(atom.a[1], facts)
        if op == 'a_ltb':
            v = FALSE if x is y else atom_bool(mk('a_ltb', x, y))
        else:
            v = models.beq(x, y, op)
            if v.op == 'case' and (v.a[1] not in ((TRUE, FALSE), (FALSE, TRUE))):
                v = TRUE if x is y else models.sorted_atom(op, x, y)
    else:
        return atom, None
    if v is TRUE:
        return True, None
    if v is FALSE:
        return False, None
    if v.a[1] == (TRUE, FALSE):
        return v.a[0], False
    return v.a[0], True


def nmap(facts):
    m = getattr(facts, '_nmap', None)
    if m is None or facts._nlen != len(facts.map):
        m = {}
        for a, l in facts.map.items():
            n, neg = natom(a, facts)
            if isinstance(n, bool):
                continue
            m[n] = (not l) if neg else l
        facts._nmap, facts._nlen = m, len(facts.map)
    return m


def decide_more(atom, facts):
    """decide an atom after rewriting it with the equalities known on the path"""
    n, neg = natom(atom, facts)
    if isinstance(n, bool):
        return n

    def out(l):
        return (not l) if neg else l
    m = nmap(facts)
    if n in m:
        return out(m[n])
    d = facts.decide(n)
    if d is not None:
        return out(d)
    if n.op == 'a_discr' and n.a[0].op == 'adt':
        return n.a[0].a[1]
    if n.op in ('a_ltb', 'a_eq', 'a_cteq'):
        # antisymmetry, trichotomy
        x, y = n.a
        for a, l in m.items():
            if a.op in ('a_eq', 'a_cteq') and l is True and set(a.a) == {x, y}:
                return out(n.op != 'a_ltb')
            if a.op == 'a_ltb' and l is True and set(a.a) == {x, y} and a is not n:
                return out(False)
    return None


_sub = {}


def subst_of(facts):
    mp = facts.substitution()
    for a, l in facts.map.items():
        if a.op == 'a_eq' and l is True:
            x, y = a.a
            if x in mp or y in mp:
                continue
            # later term rewritten to the earlier one
            if y.n < x.n:
                x, y = y, x
            if x.op not in ('int',) and y not in deps(x):
                mp[y] = x
        elif a.op == 'a_sc0' and l is True:
            # a linear scalar equation: the youngest atom in terms of the others
            p = terms.spoly(a.a[0])
            lin = [m for m in p if len(m) == 1 and m[0][1] == 1]
            for m in sorted(lin, key=lambda m: -m[0][0].n):
                v = m[0][0]
                rest = {mm: c for mm, c in p.items() if mm != m}
                k = (-pow(p[m], -1, terms.ELL)) % terms.ELL
                t = terms.smul(terms.sfrom(rest), mk('scint', k))
                if v not in deps(t) and v not in mp:
                    mp[v] = t
                    break
    return mp


def norm(t, facts):
    if t is UNDEF:
        return t
    mp = subst_of(facts)
    terms.ORACLE[0] = facts.le_known
    try:
        return subst(t, mp) if mp else renorm(t)
    finally:
        terms.ORACLE[0] = None


def renorm(t):
    """rebuild slices with the installed oracle"""
    if not any(x.op in ('slice', 'at') for x in deps(t)):
        return t
    return subst(t, {mk('nosuch'): UNDEF})


# ---------------------------------------------------------------- diffs
def first_diff(a, b, depth=0):
    """innermost differing pair of subterms"""
    if a is b:
        return None
    if a.op == b.op and depth < 12:
        if a.op in ('cat', 'list', 'tuple'):
            if len(a.a) == len(b.a):
                ds = [(x, y) for x, y in zip(a.a, b.a) if x is not y]
                if len(ds) == 1:
                    return first_diff(ds[0][0], ds[0][1], depth + 1)
            return a, b
        if a.op == 'adt' and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]):
            ds = [(x, y) for x, y in zip(a.a[2], b.a[2]) if x is not y]
            if len(ds) == 1:
                return first_diff(ds[0][0], ds[0][1], depth + 1)
        if a.op in ('H', 'compress', 'be', 'rev', 'b64', 'okm', 'le_mod', 'pt_uniform') and len(a.a) == len(b.a):
            ds = [(x, y) for x, y in zip(a.a, b.a) if x is not y]
            if len(ds) == 1 and isinstance(ds[0][0], T) and isinstance(ds[0][1], T):
                return first_diff(ds[0][0], ds[0][1], depth + 1)
    return a, b


def short(t, n=400):
    s = show(t, 7)
    return s if len(s) <= n else s[:n] + '…'


def showfacts(facts, n=6):
    out = []
    for a, l in list(facts.map.items())[:n]:
        out.append('%s=%s' % (short(a, 120), l))
    return '; '.join(out)


# ---------------------------------------------------------------- spec terms
def Hs(alg, *parts, n=None):
    """digest term H(alg, parts...)"""
    return lift_cat(lambda d: models.mkH(alg, d, n), parts)


def lift_cat(fn, parts):
    return lift(lambda *xs: fn(cat(*xs)), *parts)


def arg(name, length=None):
    t = mk('arg', name)
    if length is not None:
        KNOWN_LEN[t] = length
    return t
