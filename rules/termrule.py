"""C39: every exported operation ends."""
from common import *
import srp as srprule
import panicrule

ZERO_TESTS = ('a_sc0', 'a_eq0', 'a_isid')
FAR = 1 << 31
ENDLESS = ('it_repeat', 'it_cycle', 'it_from', 'it_repeat_with')
ENDLESS_LIB = ('cycle', 'repeat_with', 'successors', 'from_fn', 'once_with')
CONSUMERS = ('find', 'find_map', 'position', 'any', 'all', 'last', 'max', 'min', 'count', 'fold', 'for_each', 'collect', 'extend', 'try_fold',
             'try_for_each', 'sum', 'product', 'skip_while', 'nth')


def inside(t):
    return deps(t) | {t}


def only_when(bc, a, val):
    """another round is possible only when the atom has that value"""
    return restrict(bc, atom_bool(a, not val)) is FALSE


def linear(z, ph):
    """(c, rest) with z = c*ph + rest and rest free of ph"""
    p = zpoly(z)
    c = p.pop(((ph, 1),), 0)
    rest = zfrom(p)
    return (c, rest) if c and ph not in inside(rest) else None


def counted(ph, init, step, bc, phis):
    deltas = set()
    for _, l in leaves(step):
        if l is UNDEF:
            continue
        if l.op not in ('int', 'zp', 'phi'):
            return False
        d = zsub(l, ph)
        if d.op != 'int':
            return False
        deltas.add(d.a[0])
    if not deltas or not (min(deltas) > 0 or max(deltas) < 0):
        return False
    up = min(deltas) > 0
    for a in atoms_of(bc):
        if a.op not in ('a_le0', 'a_eq0'):
            continue
        l = linear(a.a[0], ph)
        if l is None or inside(l[1]) & phis:
            continue
        c, rest = l
        if rest.op == 'int' and abs(rest.a[0]) > FAR:
            continue            # the end of the integer type bounds nothing
        if a.op == 'a_le0':
            for val in (True, False):
                if ((c > 0) == up) == val and only_when(bc, a, val):
                    return True
        elif only_when(bc, a, False) and abs(c) == 1 and deltas <= {1, -1}:
            gap = zadd(init, zmul(I(c), rest))      # init - bound
            if le0(gap if up else zsub(ZERO, gap)) is TRUE:
                return True
    return False


def consumed(ph, init, step, bc):
    """an iterator with finitely many elements advanced every round, with a
    further round only after an element"""
    if not finite(init):
        return False
    nexts = set()
    for _, l in leaves(step):
        if l is UNDEF:
            continue
        if not (l.op == 'appmut' and ph in inside(l) and str(l.a[0]).find('::next') >= 0):
            return False
        nexts.add(l)
    if not nexts:
        return False
    for a in atoms_of(bc):
        if a.op == 'a_discr' and ph in inside(a):
            for i, d in enumerate(domain(a)):
                if d == 'None' and restrict(bc, case(a, tuple(TRUE if j == i else FALSE for j in range(len(domain(a)))))) is FALSE:
                    return True
    return False


def finite(it):
    """whether an iterator has finitely many elements"""
    if it.op in ('it_take', 'it_seq', 'it_list', 'it_once', 'it_chunks'):
        return True
    if it.op == 'it_zip':
        return finite(it.a[0]) or finite(it.a[1])
    if it.op in ENDLESS or it.op == 'adt' and it.a[1] == 'RangeFrom':
        return False
    return all(finite(x) for x in it.a if isinstance(x, T))


def shortened(ph, step):
    """a sequence replaced in every round by a shorter part of itself"""
    ls = [l for _, l in leaves(step) if l is not UNDEF]
    for l in ls:
        x = l
        while x.op == 'slice':
            x = x.a[0]
        if x is not ph or l is ph:
            return False
        d = zsub(blen(ph), blen(l))
        if not (d.op == 'int' and d.a[0] > 0):
            return False
    return bool(ls)


def redrawn(ph, step, bc, moved):
    """a generator drawn from in every round, with a further round only while
    the drawn value is zero"""
    ls = [l for _, l in leaves(step) if l is not UNDEF]
    if not ls or not all(l.op == 'rng+' and ph in inside(l) for l in ls):
        return False
    for a in atoms_of(bc):
        if a.op in ZERO_TESTS and any(x.op == 'draw' and ph in inside(x) for x in inside(subst(a, moved))) and only_when(bc, a, True):
            return True
    return False


def ends(ev):
    phis, inits, steps, bc, nouts = ev[2]
    ps = set(phis)
    for ph, i, s in zip(phis, inits, steps):
        if counted(ph, i, s, bc, ps):
            return 'counted'
        if consumed(ph, i, s, bc):
            return 'consumed'
        if shortened(ph, s):
            return 'shortened'
        if redrawn(ph, s, bc, {q: x for q, x in zip(phis, steps) if q is not ph}):
            return 'redrawn'
    return None


def is_it(t):
    return t.op.startswith('it_') or t.op == 'adt' and t.a[1] == 'RangeFrom'


def judge(r, s, f):
    seen = set()
    for ev in s.e.trace:
        if ev[0] == 'openloop':
            pos = ev[3]
            if pos in seen:
                continue
            seen.add(pos)
            how = ends(ev)
            if how:
                r.count('loops_' + how)
                r.held('loop at %s' % (pos,))
            else:
                w = '%s:%s' % tuple(pos[:2]) if isinstance(pos, tuple) else str(pos)
                r.violate('loop:' + f['name'], w, '%s runs a loop that nothing bounds: another round follows when %s' % (f['path'], short(ev[2][3], 300)))
        elif ev[0] == 'opaque' and ev[1] is not FALSE:
            last = ev[2].split('::')[-1]
            if last in ('repeat_with', 'successors') or last in CONSUMERS and ev[3] and isinstance(ev[3][0], T) and is_it(ev[3][0]) and not finite(ev[3][0]):
                r.violate('endless:' + f['name'], str(ev[4]), '%s consumes a source without end (%s)' % (f['path'], ev[2]))


def c39(r):
    r.rule = ('every exported operation interpreted on arbitrary arguments: each loop met is unrolled to its end, or counts towards a bound '
              'that does not move, or consumes a finite sequence, or redraws a random value only while it is zero; recursion is refused')
    for crate in ('srp', 'spake2', 'aucpace'):
        p = r.prog(crate)
        models.PRIME_ORDER[0] = crate == 'aucpace'
        ctx = srprule.context() if crate == 'srp' else ()
        for f in api_methods(p):
            s = Scn(p, ctx)
            vals = [panicrule.arbitrary(s, t, 'arg%d' % i) for i, t in enumerate(f['inputs'])]
            try:
                s.call_fn(f, *vals)
            except Unsupported as e:
                if not str(e).startswith('recursion at '):
                    raise
                r.violate('recursion:' + f['name'], str(e)[13:], '%s calls itself again (%s): nothing bounds the depth' % (f['path'], str(e)[13:]))
            judge(r, s, f)
            r.count('operations')
            r.count('loops', s.e.stats['loops'])
            r.used(s)
            r.held(f['path'] + ' ends')
    r.floor('operations', 60)
