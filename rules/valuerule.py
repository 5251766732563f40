"""C40: refusals name their cause.  C41: comparing, copying and reading back are exact."""
from common import *
import fmtrule
import panicrule
import srp as srprule

CRATES = ('srp', 'spake2', 'aucpace')


def facts_list(f):
    return list(f.map.items())


def about(a, *ops):
    return any(x.op in ops for x in deps(a))


def measured(a):
    """values whose length the atom is about"""
    return [x.a[0] for x in deps(a) if x.op == 'len']


# cause of each kind of error: a predicate over one decided condition of the path
def c_point(a, l, e):
    return a.op in ('a_isid', 'a_sc0') and l is True


def c_auth(a, l, e):
    return a.op in ('a_cteq', 'a_eq') and l is False or a.op == 'a_eq0' and l is False and about(a, 'outlen', 'len')


def c_ssid(a, l, e):
    return a.op in ('a_le0', 'a_eq0') and any(x.op == 'arg' for x in measured(a))


def c_long(a, l, e):
    return a.op in ('a_le0', 'a_eq0') and about(a, 'cparam') and about(a, 'len')


def c_empty(a, l, e):
    return a.op == 'a_discr' and l == 'None' and about(a, 'pwhash')


def c_size(a, l, e):
    return a.op in ('a_eq0', 'a_le0', 'a_discr') and l is not True and about(a, 'pwhash') and about(a, 'len')


def c_hashing(a, l, e):
    """the error carried is that of a call that failed"""
    return a.op == 'a_discr' and l == 'Err' and a.a[0] in deps(e)


def c_store(a, l, e):
    return a.op == 'a_discr' and l == 'Err'


def c_length(a, l, e):
    return a.op in ('a_eq0', 'a_le0') and any(x.op == 'arg' for x in measured(a))


def c_side(a, l, e):
    return a.op in ('a_eq0', 'a_le0') and about(a, 'at')


def c_decode(a, l, e):
    return a.op == 'a_discr' and l == 'None' and about(a, 'decomp') or a.op == 'a_decomp' and l is False


def c_zero(a, l, e):
    return a.op == 'a_eq0' and l is True and about(a, 'mod', 'modn', 'rem', 'frombe')


CAUSES = {
    'IllegalPointError': (c_point, 'a neutral group element or a zero scalar'),
    'MutualAuthFail': (c_auth, 'an authenticator that differs'),
    'InsecureSsid': (c_ssid, 'the length of the identifier given'),
    'UsernameOrPasswordTooLong': (c_long, 'credentials exceeding the buffer'),
    'HashEmpty': (c_empty, 'a missing password hash'),
    'HashSizeInvalid': (c_size, 'the length of the password hash'),
    'PasswordHashing': (c_hashing, 'the failed call whose error is carried'),
    'UserNotRegistered': (c_store, 'a failed store'),
    'WrongLength': (c_length, 'the length of the message'),
    'BadSide': (c_side, 'the role byte of the message'),
    'CorruptMessage': (c_decode, 'an encoding that is no group element'),
    'IllegalParameter': (c_zero, 'a public value that is zero modulo N'),
    'BadRecordMac': (c_auth, 'a proof that differs'),
}
ROLE = {'A': 0x42, 'B': 0x41, 'Symmetric': 0x53}


def fine(kind, fc):
    """the quantity the error is about could be as it should be on this path"""
    fs = facts_list(fc)
    terms = {x for a, _ in fs for x in deps(a)}
    wants = []
    if kind == 'WrongLength':
        wants = [eq0(zsub(x, I(33))) for x in terms if x.op == 'len' and x.a[0].op == 'arg']
    elif kind == 'InsecureSsid':
        wants = [le(I(16), x) for x in terms if x.op == 'len' and x.a[0].op == 'arg']
    elif kind == 'HashSizeInvalid':
        wants = [eq0(zsub(x, I(n))) for x in terms if x.op == 'len' and about(x, 'pwhash') for n in (32, 64)]
    elif kind == 'BadSide':
        sides = {l for a, l in fs if a.op == 'a_discr' and l in ROLE}
        if len(sides) == 1:
            b = ROLE[min(sides)]
            wants = [eq0(zsub(x, I(b))) for x in terms if x.op == 'at' and x.a[1] is ZERO]
    return any(True for c in wants for _ in walk(c, (), fc))


# what the SRP errors name, by the side that reports them
NAMED = {('client', 'IllegalParameter'): b'b_pub', ('server', 'IllegalParameter'): b'a_pub',
         ('client', 'BadRecordMac'): b'server', ('server', 'BadRecordMac'): b'client'}


def c40(r):
    r.rule = ('every error result of every exported operation on arbitrary arguments: the path decides the condition its variant stands for, and its '
              'payload is the failed call\'s error, or the rejected parameter or side; every formatting of every error variant prints other text '
              'than that of the others, and the payload')
    for crate in CRATES:
        p = r.prog(crate)
        models.PRIME_ORDER[0] = crate == 'aucpace'
        ctx = srprule.context() if crate == 'srp' else ()
        errs = fmtrule.error_types(p)
        for f in api_methods(p):
            if f.get('impl_trait') or not any(e in str(f.get('output')) for e in errs):
                continue
            s = Scn(p, ctx)
            vals = [panicrule.arbitrary(s, t, 'arg%d' % i) for i, t in enumerate(f['inputs'])]
            res = s.call_fn(f, *vals)
            r.count('operations')
            bad = set()
            for fc, (v,) in walk(s.pc, (res,), s.e.context):
                r.count('paths')
                if v.op != 'adt' or v.a[1] != 'Err':
                    continue
                e = v.a[2][0]
                if e.op != 'adt' or e.a[0] not in errs or e.a[1] in bad:
                    continue
                r.count('refusals')
                kind = e.a[1]
                if kind not in CAUSES:
                    continue
                rule, text = CAUSES[kind]
                if not any(rule(a, l, e) for a, l in facts_list(fc)):
                    bad.add(kind)
                    r.violate('cause:%s:%s' % (f['name'], kind), where(p, f), '%s reports %s on a path that never tested for %s: %s'
                              % (f['path'], show(e, 4), text, showfacts(fc)))
                    continue
                if fine(kind, fc):
                    bad.add(kind)
                    r.violate('spurious:%s:%s' % (f['name'], kind), where(p, f), '%s reports %s although %s may be in order, on the path %s'
                              % (f['path'], show(e, 4), text, showfacts(fc)))
                    continue
                side = 'client' if '::client::' in f['path'] else 'server'
                want = NAMED.get((side, kind)) if crate == 'srp' else None
                if want is not None and e.a[2][0] is not B(want):
                    bad.add(kind)
                    r.violate('names:%s:%s' % (f['name'], kind), where(p, f), '%s reports %s(%s) where %s is at fault'
                              % (f['path'], kind, show(e.a[2][0], 4), want.decode()))
            if not bad:
                r.held(f['path'])
            r.used(s)
        texts(r, p, errs)
    r.floor('operations', 20)
    r.floor('refusals', 40)
    r.floor('texts', 20)


def constants(t, out):
    if isinstance(t, T):
        if t.op == 'bytes':
            out.append(t)
        for x in t.a:
            constants(x, out)
    elif isinstance(t, tuple):
        for x in t:
            constants(x, out)


def texts(r, p, errs):
    impls = fmtrule.fmt_impls(p)
    for path in sorted(errs):
        for f in impls.get(path, []):
            seen = {}
            how = str(f['impl_trait']).split('<')[0].split('::')[-1]
            for v in p.adts[path]['variants']:
                s = Scn(p)
                payload = [interp.typed(arg('payload%d' % i), g['ty'], p) for i, g in enumerate(v['fields'])]
                s.call_fn(f, adt(path, v['n'], *payload), s.cell(arg('formatter')))
                evs = [ev for ev in s.e.trace if ev[0] in ('fmt', 'opaque')]
                printed = [x for ev in evs for x in (ev[2][1] if ev[0] == 'fmt' else ev[3])]
                lits = []
                for x in printed:
                    constants(x, lits)
                key = tuple(dict.fromkeys(lits))
                r.count('texts')
                if key in seen:
                    r.violate('text:%s:%s' % (how, v['n']), where(p, f), '%s of %s::%s is the same text as that of %s' % (how, path, v['n'], seen[key]))
                    continue
                seen[key] = v['n']
                lost = [x for x in payload if not any(isinstance(y, T) and x in deps(y) for y in printed)]
                if lost:
                    r.violate('payload:%s:%s' % (how, v['n']), where(p, f), '%s of %s::%s does not print what it carries' % (how, path, v['n']))
                    continue
                r.held('%s of %s::%s' % (how, path, v['n']))
            r.used(s)


# ---------------------------------------------------------------- C41
def shapes(p, ty, name, depth=0):
    """arbitrary values of a type, one for each choice of variants of the
    local types in it: (description, value, leaves)"""
    t = strip_ref(ty)
    a = p.adts.get(t['p']) if t['k'] == 'adt' else None
    if a is None or t['p'].split('::')[0] != p.crate or depth > 4:
        if t['k'] == 'adt' and t['p'].endswith('PhantomData'):
            return [('', PHD, [])]
        v = interp.typed(arg(name), t, p)
        return [('', v, [v])]
    sub = {g['n']: x for g, x in zip([g for g in a.get('generics', []) if g['k'] != 'lt'], t['a'])}
    out = []
    for v in a['variants']:
        acc = [('', [], [])]
        for f in v['fields']:
            fs = shapes(p, substty(f['ty'], sub), '%s.%s' % (name, f['n']), depth + 1)
            acc = [(d1 + d2, vs + [x], ls + l2) for d1, vs, ls in acc for d2, x, l2 in fs]
        tag = v['n'] if len(a['variants']) > 1 else ''
        out += [('/'.join(x for x in (tag, d) if x), adt(t['p'], v['n'], *vs), ls) for d, vs, ls in acc]
    return out


def direct(atom, x, y):
    """the atom compares the two values as a whole: both occur entire, and it
    is certain when they are the same"""
    if atom.op in ('a_eq', 'a_cteq'):
        return {atom.a[0], atom.a[1]} == {x, y}
    if atom.op not in ('a_eq0', 'a_sc0', 'a_isid') or not {x, y} <= deps(atom) or about(atom, 'at', 'slice', 'len'):
        return False
    z = subst(atom.a[0], {y: x})
    return z is ZERO or z.op == 'scint' and z.a[0] == 0 or atom.op == 'a_isid' and models.isid(z) is TRUE


def c41(r):
    r.rule = ('every PartialEq, Clone and Deref implementation of the crates interpreted on every pair of variants with arbitrary contents: '
              'equal exactly when the variants agree and every part is equal; the clone is the original; what is read back is what was put in')
    for crate in CRATES:
        p = r.prog(crate)
        models.PRIME_ORDER[0] = crate == 'aucpace'
        for f in p.d['fns']:
            t = str(f.get('impl_trait') or '').split('<')[0]
            own = impl_adt(f)
            if not t or own is None or own.split('::')[0] != crate or f.get('inst') is None:
                continue
            if t == 'core::cmp::PartialEq' and f['name'] in ('eq', 'ne'):
                equality(r, p, f, f['name'] == 'ne')
            elif t == 'core::clone::Clone' and f['name'] == 'clone':
                clone(r, p, f)
            elif t == 'core::ops::deref::Deref' and p.adts.get(own, {}).get('variants') and own.split('::')[1] != 'groups':
                readback(r, p, f)
    r.floor('equalities', 6)
    r.floor('clones', 5)
    r.floor('readbacks', 2)


def equality(r, p, f, negated):
    xs = shapes(p, f['inputs'][0], 'x')
    ys = shapes(p, f['inputs'][1], 'y')
    name = impl_adt(f).split('::')[-1]
    r.count('equalities')
    good = True

    def bad(key, msg):
        r.violate('%s:%s' % (key, name), where(p, f), msg)
        return False
    for dx, x, lx in xs:
        for dy, y, ly in ys:
            s = Scn(p)
            c = s.call_fn(f, x, y)
            c = b_not(c) if negated else c
            r.count('pairs')
            if dx != dy:
                if restrict(c, s.pc) is not FALSE:
                    good = bad('variants', 'a %s %s compares equal to a %s %s when %s' % (name, dx, name, dy, short(c, 200)))
                continue
            for a, b in zip(lx, ly):
                if a is not b and not any(direct(t, a, b) and only_true(c, t) for t in atoms_of(c)):
                    good = bad('part', 'two values of %s %s can compare equal although %s differs' % (name, dx, show(a, 5)))
            rest = Scn(p).call_fn(f, x, x)
            rest = b_not(rest) if negated else rest
            if rest is not TRUE:
                good = bad('reflexive', 'two values of %s %s with equal parts can compare unequal, when %s' % (name, dx, short(rest, 200)))
            r.used(s)
    if good:
        r.held('equality of ' + name)


def only_true(c, a):
    return restrict(c, atom_bool(a, False)) is FALSE


def clone(r, p, f):
    name = impl_adt(f).split('::')[-1]
    r.count('clones')
    good = True
    for d, x, ls in shapes(p, f['inputs'][0], 'x'):
        s = Scn(p)
        v = s.call_fn(f, x)
        v = s.load(v)
        r.count('values')
        if v is not x:
            good = False
            r.violate('clone:' + name, where(p, f), 'the clone of a %s %s is %s instead of %s' % (name, d, short(v, 200), short(x, 200)))
        r.used(s)
    if good:
        r.held('clone of ' + name)


def readback(r, p, f):
    name = impl_adt(f)
    makers = [g for g in api_methods(p) if impl_adt(g) == name and not g.get('impl_trait') and len(g['inputs']) == 1
              and strip_ref(g['output'])['k'] == 'adt' and strip_ref(g['output'])['p'] == name]
    for g in makers:
        s = Scn(p)
        x = sym(s, g['inputs'][0], 'bytes')
        v = s.call_fn(g, x)
        y = s.load(s.call_fn(f, v))
        r.count('readbacks')
        if y is not s.load(x):
            r.violate('readback:%s:%s' % (name.split('::')[-1], g['name']), where(p, g), 'a %s made by %s reads back as %s' % (name, g['name'], short(y, 200)))
        else:
            r.held('%s reads back' % name)
        r.used(s)
