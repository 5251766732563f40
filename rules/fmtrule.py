"""C11: what the formatting implementations of the crates can print."""
from common import *
import lib
import aucpace as AU
import spake2 as SP
import srp as SR
from aucpace import Run, VARIANTS

MESSAGES = ('ClientMessage', 'ServerMessage')
HARMLESS_PAYLOAD = ('alloc::string::String', 'str', 'password_hash::errors::Error')


def fmt_impls(p):
    """{type path: [fmt functions]} of the crate's own formatting implementations"""
    out = {}
    for f in p.d['fns']:
        t = f.get('impl_trait')
        if f['name'] == 'fmt' and t and str(t).split('<')[0].startswith('core::fmt::') and f.get('inst') is not None:
            a = impl_adt(f)
            if a is not None and a.split('::')[0] == p.crate:
                out.setdefault(a, []).append(f)
    return out


def error_types(p):
    """local types that exported functions return as errors"""
    out = set()
    for f in p.d['fns']:
        def go(t):
            if isinstance(t, dict):
                if t.get('k') == 'adt':
                    if t['p'] == interp.RESULT and len(t['a']) > 1 and t['a'][1]['k'] == 'adt':
                        out.add(t['a'][1]['p'])
                for x in t.values():
                    go(x)
            elif isinstance(t, list):
                for x in t:
                    go(x)
        if f['exported']:
            go(f.get('output'))
    return {t for t in out if t.split('::')[0] == p.crate}


def adt_terms(v, crate, out, seen):
    if not isinstance(v, T) or v in seen:
        return
    seen.add(v)
    if v.op == 'case':
        for k in v.a[1]:
            adt_terms(k, crate, out, seen)
        return
    if v.op == 'adt':
        if v.a[0].split('::')[0] == crate:
            out.setdefault(v.a[0], set()).add(v)
        for x in v.a[2]:
            adt_terms(x, crate, out, seen)
    elif v.op in ('tuple', 'list'):
        for x in v.a:
            adt_terms(x, crate, out, seen)


class Harvest:
    """values of the crate's types that occur in symbolic runs"""

    def __init__(self, p):
        self.p = p
        self.found = {}
        self.public = set()
        self.secret = set()
        self.errors = []
        self.seen = set()
        self.trace = []

    def __enter__(self):
        lib.HARVEST.append(self)
        return self

    def __exit__(self, *a):
        lib.HARVEST.remove(self)

    def called(self, s, f, args, res):
        for v in list(args) + [res]:
            v = s.load(v) if v is not UNDEF else v
            adt_terms(v, self.p.crate, self.found, self.seen)
        for _, l in leaves(res):
            if l.op == 'adt' and l.a[0] == interp.RESULT and l.a[1] == 'Err':
                self.errors.append((f, l.a[2][0]))
            self.outbound(l)

    def outbound(self, l):
        """what goes over the wire is public"""
        if l.op == 'tuple' or l.op == 'adt' and l.a[1] in ('Ok', 'Some'):
            for x in (l.a if l.op == 'tuple' else l.a[2]):
                for _, y in leaves(x):
                    self.outbound(y)
        elif l.op == 'adt' and l.a[0].split('::')[-1] in MESSAGES and l.a[1] not in ('Registration', 'StrongRegistration'):
            for x in l.a[2]:
                for _, y in leaves(x):
                    self.makepublic(y)

    def makepublic(self, y):
        if not isinstance(y, T) or y is UNDEF:
            return
        self.public.add(y)
        if y.op == 'adt' and y.a[1] in ('Some', 'Ok'):
            for x in y.a[2]:
                for _, z in leaves(x):
                    self.makepublic(z)
        elif y.op == 'tuple':
            for x in y.a:
                self.makepublic(x)
        elif y.op == 'pt':
            self.public.add(models.tocomp(y, 'ristretto'))


def tainted(t, secrets, public):
    """secret symbols a value depends on, other than through public values"""
    out, seen = set(), set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen or x in public:
            return
        seen.add(x)
        if x in secrets or x.op == 'draw':
            out.add(x)
            return
        go(tuple(x.a))
    go(t)
    return out


def printed(p, impls, v, depth=0):
    """(path condition, value, place) for everything that formatting v can print"""
    out = []
    for _, x in leaves(v):
        if x is UNDEF:
            continue
        if x.op == 'adt' and x.a[0] in impls and depth < 8:
            for f in impls[x.a[0]]:
                out += fmt_run(p, impls, f, x, depth + 1)
        elif x.op in ('tuple', 'list') or x.op == 'adt':
            for y in (x.a if x.op != 'adt' else x.a[2]):
                out += printed(p, impls, y, depth + 1)
        else:
            out.append((TRUE, x, None))
    return out


def fmt_run(p, impls, f, v, depth=0):
    s = Scn(p)
    n0 = len(s.e.trace)
    fm = s.cell(arg('formatter'))
    s.call_fn(f, v, fm)
    out = []
    for ev in s.e.trace[n0:]:
        vals = []
        if ev[0] == 'fmt':
            vals = ev[2][1]
        elif ev[0] == 'opaque':
            vals = ev[3]
        for x in vals:
            for c, y, w in printed(p, impls, x, depth + 1):
                out.append((b_and(ev[1], c), y, w or where(p, f)))
    return out


def check_type(r, p, impls, path, v, h, where_, origin):
    bad = {}
    for c, x, w in printed(p, impls, v):
        for b in tainted(x, h.secret, h.public):
            bad.setdefault(b, (x, w))
        for a in path_atoms(c):
            for b in tainted(a, h.secret, h.public):
                bad.setdefault(b, (a, w))
    r.count('values_formatted')
    if bad:
        b, (x, w) = sorted(bad.items(), key=lambda kv: kv[0].n)[0]
        r.violate('fmt:' + path, w or where_, 'formatting a %s %s prints %s, which depends on the secret %s' % (path, origin, short(x, 200), short(b, 120)))
        return
    r.held('formatting %s %s' % (path, origin))


def path_atoms(c):
    out, seen = set(), set()

    def go(x):
        if x.op == 'case' and x not in seen:
            seen.add(x)
            out.add(x.a[0])
            for k in x.a[1]:
                go(k)
    go(c)
    return out


def aucpace_harvest(r, p):
    hs = []
    models.PRIME_ORDER[0] = True
    for variant in VARIANTS:
        for alloc in (False, True):
            h = Harvest(p)
            h.secret |= {AU.PW}
            with h:
                R = Run(p, variant, alloc, alloc)
                R.all()
            s = R.s
            h.secret |= {x for _, x in leaves(R.v['c_key']) if x is not UNDEF} | {x for _, x in leaves(R.v['s_key']) if x is not UNDEF}
            h.secret |= {x for _, x in leaves(R.v['c_prs']) if x is not UNDEF}
            h.trace = s.e.trace
            r.used(s)
            hs.append(h)
    return hs


def spake2_harvest(r, p):
    hs = []
    for side in SP.SIDES:
        h = Harvest(p)
        with h:
            s = Scn(p)
            d, pw, ids = SP.inputs(s)
            h.secret |= {d['pw']}
            st, m, _ = SP.start(s, side, pw, ids, 'one')
            for _, x in leaves(m):
                h.public.add(x)
                for c in deps(x):
                    if c.op == 'compress':
                        h.public |= {c, c.a[0]}
            k = s.call('Spake2', 'finish', st, arg('message'))
            h.trace = s.e.trace
            r.used(s)
        hs.append(h)
    return hs


def srp_harvest(r, p):
    hs = []
    for side in ('client', 'server'):
        h = Harvest(p)
        h.secret |= {SR.AS, SR.BS, SR.PW, arg('v')}
        with h:
            s, ver, ty, key, m1, m2, w = SR.verifier_pair(r, side)
            for m in (m1, m2):
                h.public |= {x for _, x in leaves(m) if x is not UNDEF}
            s.call(ty, 'verify_server' if side == 'client' else 'verify_client', ver, arg('reply'))
            h.trace = s.e.trace
            r.used(s)
        hs.append(h)
    return hs


def c11(r):
    r.rule = ('every Debug/Display/… implementation of the three crates run symbolically on the values its type takes in symbolic '
              'runs (arbitrary field values when it takes none): what reaches the formatter depends on no password, random draw, '
              'key or server secret except through what is sent on the wire; message types may print their own fields; error '
              'values and text printed or panicked with depend on no secret')
    for crate, harvest in (('aucpace', aucpace_harvest), ('spake2', spake2_harvest), ('srp', srp_harvest)):
        p = r.prog(crate)
        impls = fmt_impls(p)
        errs = error_types(p)
        r.count('formatting_impls', sum(len(x) for x in impls.values()))
        hs = harvest(r, p)
        for path, fs in sorted(impls.items()):
            last = path.split('::')[-1]
            a = p.adts.get(path)
            if last in MESSAGES:
                r.held('message ' + path)
                r.count('message_types')
                continue
            if path in errs:
                bad = [(v['n'], t) for v in a['variants'] for t in payload_types(v) if not harmless(p, t)]
                if bad:
                    r.violate('error-payload:' + path, path, 'the error type %s carries %s in %s' % (path, tykey(bad[0][1]), bad[0][0]))
                else:
                    r.held('error type ' + path)
                r.count('error_types')
                continue
            n = 0
            for h in hs:
                for v in sorted(h.found.get(path, ()), key=lambda t: t.n):
                    check_type(r, p, impls, path, v, h, where(p, fs[0]), 'met in a run')
                    n += 1
            if n == 0 and (a.get('exported') or a.get('reachable')):
                # never met: nothing is known about its fields, none may be printed
                s = Scn(p)
                h = Harvest(p)
                for v in a['variants']:
                    fv = [sym(s, x['ty'], 'field.' + x['n']) if isinstance(x['ty'], dict) else arg('field.' + x['n']) for x in v['fields']]
                    x = adt(path, v['n'], *fv)
                    h.secret = {y for q in fv for y in deps(q) | {q} if y.op in ('arg', 'proj')}
                    check_type(r, p, impls, path, x, h, where(p, fs[0]), 'with arbitrary fields')
        # error values and program output in the runs
        for h in hs:
            for f, e in h.errors:
                r.count('error_values')
                for b in tainted(errpay(e), h.secret, h.public):
                    r.violate('error-value:' + f['name'], where(p, f), 'the error %s depends on the secret %s' % (short(e, 200), short(b, 120)))
                    break
            for ev in h.trace:
                if ev[0] == 'opaque' and ('_print' in str(ev[2]) or '_eprint' in str(ev[2]) or 'dbg' in str(ev[2])):
                    bad = [b for x in ev[3] for b in tainted(x, h.secret, h.public)]
                    if bad:
                        r.violate('output', str(ev[4]), 'text written to the process output depends on the secret %s' % short(bad[0], 120))
        r.held('error values and output of ' + crate)
    r.floor('formatting_impls', 7)
    r.floor('message_types', 2)
    r.floor('error_types', 3)
    r.floor('values_formatted', 3)


def errpay(e):
    """what an error value carries, the password hasher's own error codes aside"""
    out = []

    def go(x):
        if x.op == 'adt':
            if x.a[0].split('::')[-1] == 'Error' and x.a[1] == 'PasswordHashing':
                return
            for y in x.a[2]:
                for _, z in leaves(y):
                    go(z)
        else:
            out.append(x)
    for _, x in leaves(e):
        go(x)
    return tuple(out)


def payload_types(v):
    return [f['ty'] for f in v['fields'] if isinstance(f['ty'], dict)]


def harmless(p, t):
    t = strip_ref(t)
    if t['k'] == 'prim':
        return True
    if t['k'] == 'adt':
        if t['p'] in HARMLESS_PAYLOAD or t['p'].endswith('::Error') or t['p'].endswith('PhantomData'):
            return True
        a = p.adts.get(t['p'])
        if a is not None and t['p'].split('::')[0] == p.crate:
            return all(harmless(p, x) for v in a['variants'] for x in payload_types(v))
    return t['k'] in ('never',) or t['k'] == 'tuple' and all(harmless(p, x) for x in t['a'])
