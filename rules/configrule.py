"""C36: an operation computes the same in every feature combination that has it
and in every build profile."""
import re
from common import *
from common import short_fn
import build
import srp as srprule
from panicrule import arbitrary, one
from lints import declared, combos

# generated serialization code lists the variants of its message type, which a feature may extend (C31)
DERIVED_SERDE = re.compile(r'::_::<impl serde::')
EFFECT_EVENTS = ('draw', 'rng-by-value', 'pwhash', 'traitcall', 'fmt', 'opaque')
NODBG = '-nodbg'


def code(d):
    out = {}
    for p, h in d['bodies']:
        out.setdefault(p, []).append(h)
    return {p: tuple(sorted(h)) for p, h in out.items() if not DERIVED_SERDE.search(p)}


def neighbours(fs, all_):
    have = set(fs)
    for gs in all_:
        if len(gs) == len(fs) + 1 and have < set(gs):
            yield gs


def key_of(f):
    return (f['path'], f['name'])


def enum_of(p, ty):
    t = strip_ref(ty)
    if t['k'] == 'adt' and t['p'].split('::')[0] == p.crate:
        a = p.adts.get(t['p'])
        if a is not None and len(a['variants']) > 1:
            return a
    return None


def shape(v):
    return (v['n'], tuple((f['n'], tykey(f['ty']) if isinstance(f['ty'], dict) else str(f['ty'])) for f in v['fields']))


def summaries(p, f, q, ctx):
    """what an operation does on arbitrary arguments: one summary for every combination of
    variants, common to both programs, of the enums whose variants differ"""
    pick = [{}]
    for i, t in enumerate(f['inputs']):
        a = enum_of(p, t)
        if a is None:
            continue
        b = q.adts.get(a['path'])
        common = [v for v in a['variants'] if b is None or shape(v) in [shape(w) for w in b['variants']]]
        if len(common) < max(len(a['variants']), len(b['variants']) if b else 0):
            pick = [dict(d, **{str(i): (a['path'], v)}) for d in pick for v in common]
    for sel in pick:
        s = Scn(p, ctx)
        vals = []
        for i, t in enumerate(f['inputs']):
            if str(i) in sel:
                path, v = sel[str(i)]
                vals.append(adt(path, v['n'], *[sym(s, x['ty'], 'arg%d.%s' % (i, x['n'])) if isinstance(x['ty'], dict) else arg('arg%d.%s' % (i, x['n']))
                                                  for x in v['fields']]))
                continue
            vals.append(arbitrary(s, t, 'arg%d' % i))
        res = s.call_fn(f, *vals)
        after = tuple(s.load(v) for i, v in enumerate(vals) if f['inputs'][i]['k'] == 'ref' and f['inputs'][i]['m'])
        yield ' and '.join(v['n'] for _, v in sel.values()), s, res, after, effects(s)


def effects(s):
    out = []
    for ev in s.e.trace:
        if ev[0] in EFFECT_EVENTS:
            data = ev[2:-1]
            if ev[0] == 'fmt':
                data = (ev[2][0], ev[2][1])
            out.append((ev[0], ev[1], data))
    return out


def c36(r):
    r.rule = ('the typed MIR of every function of the three crates compared between all feature combinations and with and without debug '
              'assertions; where the code of a function differs, every exported operation that both builds have is run symbolically in '
              'both: result, writes through references and effects (draws, password hashing, store lookups, formatting) are the same terms; arithmetic that panics or wraps depending on '
              'the profile is proved never to overflow')
    for crate in ('aucpace', 'spake2', 'srp'):
        feats, helper = declared(crate)
        cs = combos(feats)
        if len(cs) > 1024:
            cs = [c for c in cs if len(c) <= 2 or len(c) >= len(feats) - 2]
        nd = [tuple(c) + (NODBG,) for c in (cs if r.tier != 'quick' else [cs[0], cs[-1]])]
        every = cs + nd
        raw = build.light(crate, every)
        res = {}
        for fs in every:
            if isinstance(raw[fs], tuple):
                r.count('unbuildable')      # C28 reports it
                res[fs] = raw[fs]
                continue
            res[fs] = code(raw[fs])
            r.count('configurations')
            r.count('bodies', len(res[fs]))
        todo = {}
        for fs in every:
            if isinstance(res[fs], tuple):
                continue
            for gs in neighbours(fs, every):
                if isinstance(res[gs], tuple):
                    continue
                a, b = res[fs], res[gs]
                r.count('steps')
                diff = tuple(sorted((p, a[p], b[p]) for p in a if p in b and a[p] != b[p]))
                if diff:
                    todo.setdefault(diff, (fs, gs))
                    r.count('steps_with_different_code')
                else:
                    r.held('%s: adding %s to %s leaves the code of all %d shared functions as it is' % (
                        crate, '+'.join(set(gs) - set(fs)), '+'.join(fs) or 'no features', sum(1 for p in a if p in b)))
        for diff, (fs, gs) in sorted(todo.items(), key=lambda kv: (len(kv[1][0]), kv[1])):
            compare(r, crate, fs, gs, diff)
    wrapping(r)
    r.floor('arithmetic', 20)
    r.floor('configurations', 255)
    r.floor('steps', 1000)
    r.floor('bodies', 10000)


def wrapping(r):
    """unchecked arithmetic panics in one profile and wraps in the other: it must never overflow"""
    def conclude(r, s, f):
        bad = [o for o in s.e.oblig if o.kind.startswith('overflow')]
        for o in bad:
            r.violate('overflow:%s:%s' % (f['name'], short_fn(o.fn)), '%s:%s' % (o.fn, o.line),
                      '%s on arbitrary arguments: overflows, which panics or wraps depending on the profile (%s), when %s' % (
                          f['path'], o.kind, short(o.cond, 300)))
        r.count('arithmetic', s.e.proved)
        if not bad:
            r.held(f['path'] + ' does not overflow')
    for crate in ('aucpace', 'spake2', 'srp'):
        p = r.prog(crate)
        models.PRIME_ORDER[0] = crate == 'aucpace'
        ctx = srprule.context() if crate == 'srp' else ()
        for f in api_methods(p):
            one(r, p, f, ctx, conclude)


def load(r, crate, fs):
    feats = tuple(f for f in fs if f != NODBG)
    return r.prog(crate, build.custom(crate, feats, NODBG not in fs))


def compare(r, crate, fs, gs, diff):
    p, q = load(r, crate, fs), load(r, crate, gs)
    models.PRIME_ORDER[0] = crate == 'aucpace'
    ctx = srprule.context() if crate == 'srp' else ()
    other = {}
    for f in api_methods(q):
        other.setdefault(key_of(f), []).append(f)
    what = '+'.join(fs) or 'no features'
    step = '+'.join(set(gs) - set(fs))
    names = [d[0] for d in diff]
    n = 0
    for f in api_methods(p):
        if DERIVED_SERDE.search(f['path']):
            continue
        gl = other.get(key_of(f), [])
        if len(gl) != 1:
            continue            # C28: the interface only grows
        g = gl[0]
        try:
            A = list(summaries(p, f, q, ctx))
            B = list(summaries(q, g, p, ctx))
        except Unsupported as e:
            if f['path'] in names:
                raise
            r.count('not_compared')
            continue
        n += 1
        ok = True
        for (va, s, x, wa, ea), (vb, t, y, wb, eb) in zip(A, B):
            r.used(s)
            tag = f['path'] + (' on %s' % va if va else '')
            said = 'with %s and without' % step if step != NODBG else 'without debug assertions and with'
            pc = b_and(s.pc, t.pc)
            if s.pc is not t.pc and not feasible(pc, s.e.context):
                continue
            if s.pc is not t.pc:
                # one build panics where the other does not
                for c in (b_and(s.pc, b_not(undef_false(t.pc))), b_and(t.pc, b_not(undef_false(s.pc)))):
                    ok &= never(r, s, 'panics:' + f['name'], c, '%s panics in one of the builds only, %s (%s)' % (tag, said, what))
            s.cur, t.cur = f, g
            ok &= same(r, s, 'result:' + f['name'], x, y, '%s returns the same %s (%s)' % (tag, said, what), pc=pc)
            if len(wa) == len(wb):
                for a, b in zip(wa, wb):
                    if a is not b:
                        ok &= same(r, s, 'writes:' + f['name'], a, b, '%s leaves the same behind its references %s (%s)' % (tag, said, what), pc=pc)
            ea, eb = order(ea), order(eb)
            if ea != eb:
                i = next((i for i, (u, v) in enumerate(zip(ea, eb)) if u != v), min(len(ea), len(eb)))
                u = ea[i] if i < len(ea) else ('nothing', TRUE, ())
                v = eb[i] if i < len(eb) else ('nothing', TRUE, ())
                ok = False
                r.violate('effects:' + f['name'], where(p, f), '%s does not have the same effects %s (%s): %s %s against %s %s' % (
                    tag, said, what, u[0], str(u[2])[:200], v[0], str(v[2])[:200]))
        if ok:
            r.held('%s is the same %s' % (f['path'], 'with and without ' + step))
        r.count('operations_compared')
    if n == 0:
        r.violate('compare:' + crate, crate, 'no operation could be compared between %s and %s' % (what, '+'.join(gs)))


def order(es):
    return [(k, pc, d) for k, pc, d in es if pc is not FALSE]
