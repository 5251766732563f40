"""Shared pieces of the rules."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from terms import *
import terms
import models
import interp
import algebra
from facts import Facts, eq0, le0, lt, le, ints_eq
from lib import (Scn, walk, norm, first_diff, short, showfacts, Hs, arg, AnchorMissing, method, methods,
                 has_method, adt_path, trait_last, impl_adt, where, load_program, OKERR, NS, undef_false)
from interp import Unsupported, field, strip_ref, tykey, seqlen

PHD = adt(models.PHANTOM, 'PhantomData')


def fn_where(s):
    return where(s.p, s.cur) if s.cur is not None else s.p.crate


def feasible(pc, facts):
    for _ in walk(pc, (), facts):
        return True
    return False


def same(r, s, key, got, want, what, pc=None, facts=None, accept=None, wh=None, skip=None):
    """got equals want on every feasible path; otherwise one violation naming
    the function and the innermost differing part.  Only the part of the path
    condition on which the two differ as they stand is enumerated."""
    w = wh or fn_where(s)
    pc = s.pc if pc is None else pc
    facts = facts or s.e.context
    if not feasible(pc, facts):
        r.violate(key, w, what + ': no feasible path')
        return False
    r.count('paths')
    undef = mk('undefined')
    g2, w2 = keep(got, undef), keep(want, undef)
    differ = b_and(undef_false(pc), lift(lambda g, x: TRUE if g is not x else FALSE, g2, w2))
    for f, (g, x) in walk(differ, (g2, w2), facts, skip=skip):
        r.count('paths')
        if g is x:
            continue
        if accept is not None and g is not undef and accept(f, g, x):
            continue
        if g is undef:
            r.violate(key, w, '%s: no defined value is produced when %s' % (what, showfacts(f) or 'always'))
            return False
        d = first_diff(g, x)
        r.violate(key, w, '%s: the code computes\n       %s\n     but it should be\n       %s\n     on the path %s\n     (whole value: %s)' % (
            what, short(d[0]), short(d[1]), showfacts(f) or '(all inputs)', short(g, 600)))
        return False
    r.held(what)
    return True


def keep(v, undef):
    """v with undefined leaves turned into a mark that lift does not drop"""
    memo = {}

    def go(x):
        if x is UNDEF:
            return undef
        if x.op != 'case':
            return x
        y = memo.get(x)
        if y is None:
            y = memo[x] = case(x.a[0], tuple(go(k) for k in x.a[1]))
        return y
    return go(v)


def holds(r, s, key, cond, what, pc=None, facts=None, wh=None, vs=()):
    """boolean value cond is true on every feasible path"""
    pc = s.pc if pc is None else pc
    facts = facts or s.e.context
    if not feasible(pc, facts):
        r.violate(key, wh or fn_where(s), what + ': no feasible path')
        return False
    r.count('paths')
    for f, _ in walk(b_and(undef_false(pc), b_not(undef_false(cond))), (), facts):
        r.count('paths')
        r.violate(key, wh or fn_where(s), '%s: does not hold on the path %s' % (what, showfacts(f) or '(all inputs)'))
        return False
    r.held(what)
    return True


def never(r, s, key, cond, what, facts=None, wh=None, only=None):
    """boolean diagram cond is unsatisfiable"""
    for f, _ in walk(undef_false(cond), (), facts or s.e.context):
        r.count('paths')
        r.violate(key, wh or fn_where(s), '%s, for example when %s' % (what, showfacts(f) or 'always'))
        return False
    r.held(what)
    return True


def panics(r, s, key, what):
    """no panic obligation was left open in this scenario"""
    r.obligations += s.e.proved
    r.discharged += s.e.proved
    r.count('panic_sites_proved', s.e.proved)
    ok = True
    for o in s.e.oblig:
        ok = False
        d = o.descr[0] if isinstance(o.descr, tuple) else o.descr
        r.violate('%s:%s:%s' % (key, o.kind, short_fn(o.fn)), '%s:%s' % (o.fn, o.line),
                  '%s: may panic (%s %s) when %s' % (what, o.kind, d or '', short(o.cond, 300)))
    return ok


def short_fn(p):
    return str(p).split('<')[0].split('::')[-1] or str(p)


def errname(v):
    """leaf description Result/Option constructors down to the error variant"""
    if v.op == 'adt' and v.a[1] in ('Ok', 'Err', 'Some', 'None'):
        if v.a[1] == 'Err':
            return 'Err(%s)' % errname(v.a[2][0])
        return v.a[1]
    if v.op == 'adt':
        return v.a[1]
    return '?'


def not_zero(z):
    a = eq0(z)
    return (a.a[0], False)


# ---------------------------------------------------------------- functions on arbitrary arguments
def sym(s, ty, name):
    """an arbitrary value of a type: local single-variant structs field by
    field, everything else one opaque symbol"""
    k = ty['k']
    if k == 'ref':
        v = sym(s, ty['t'], name)
        return s.cell(v) if ty['m'] else v
    if k == 'tuple':
        return tup(*[sym(s, t, '%s.%d' % (name, i)) for i, t in enumerate(ty['a'])])
    if k == 'adt':
        if ty['p'].endswith('PhantomData'):
            return PHD
        a = s.p.adts.get(ty['p'])
        if a is not None and ty['p'].split('::')[0] == s.p.crate and len(a['variants']) == 1:
            v = a['variants'][0]
            sub = {g['n']: t for g, t in zip([g for g in a.get('generics', []) if g['k'] != 'lt'], ty['a'])}
            return adt(ty['p'], v['n'], *[sym(s, substty(f['ty'], sub), '%s.%s' % (name, f['n'])) for f in v['fields']])
    # one symbol for every name and type: what is known of an array does not carry over to a slice
    key = (name, tykey(ty))
    if key not in LABELS:
        n = sum(1 for k in LABELS if k[0] == name)
        LABELS[key] = name + ("'" * n)
    return interp.typed(arg(LABELS[key]), ty, s.p)


LABELS = {}


def substty(t, sub):
    if isinstance(t, dict):
        if t.get('k') in ('param', 'cparam') and t.get('n') in sub:
            return sub[t['n']]
        return {k: substty(v, sub) for k, v in t.items()}
    if isinstance(t, list):
        return [substty(x, sub) for x in t]
    return t


def sym_call(s, f, given=None):
    """call f on arbitrary arguments; returns (argument values, result)"""
    names = f.get('params') or []
    vals, la = [], []
    for i, t in enumerate(f['inputs']):
        n = 'arg%d' % i
        v = (given or {}).get(i)
        if v is None:
            v = sym(s, t, n)
        vals.append(v)
        la.append(v)
    res = s.call_fn(f, *la)
    return vals, res


def is_adt(ty, last):
    t = strip_ref(ty)
    return t['k'] == 'adt' and t['p'].split('::')[-1] == last


def api_methods(prog):
    """exported functions with a body: inherent methods and free functions"""
    return [f for f in prog.d['fns'] if f['exported'] and f.get('inst') is not None]
