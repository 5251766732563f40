"""SRP rules: C01-C06."""
from common import *

N, G = mk('arg', 'N'), mk('arg', 'g')


def le_fact(a, b):
    """facts for a <= b"""
    c = le(a, b)
    if c is TRUE:
        return ()
    dom = domain(c.a[0])
    return ((c.a[0], dom[list(c.a[1]).index(TRUE)]),)


def context():
    # what a group is: a non-zero modulus, and a generator not longer than it
    return (not_zero(N),) + le_fact(seqlen(models.tobe(G)), seqlen(models.tobe(N)))


def group(prog):
    a = prog.adts[adt_path(prog, 'SrpGroup')]
    names = [f['n'] for f in a['variants'][0]['fields']]
    v = {'n': N, 'g': G}
    for n in names:
        if n not in v:
            raise AnchorMissing('SrpGroup has an unknown field ' + n)
    return adt(adt_path(prog, 'SrpGroup'), a['variants'][0]['n'], *[v[n] for n in names])


def setup(r):
    p = r.prog('srp')
    s = Scn(p, context())
    grp = group(p)
    c = s.call('SrpClient', 'new', grp)
    v = s.call('SrpServer', 'new', grp)
    return s, c, v


def k_spec():
    n, g = models.tobe(N), models.tobe(G)
    return models.frombe(Hs('$D', n, zeros(zsub(seqlen(n), seqlen(g))), g))


def x_spec(salt, user, pw):
    return models.frombe(Hs('$D', salt, Hs('$D', user, B(b':'), pw)))


def pw_n(b, e):
    return zpowmod(b, e, N)


def u_forms(A, B_):
    """(name, term) of the scrambling parameter: RFC form and the unpadded one"""
    n = seqlen(models.tobe(N))

    def pad(x):
        return cat(zeros(zsub(n, seqlen(x))), x)
    return [('padded', models.frombe(Hs('$D', pad(A), pad(B_)))), ('unpadded', models.frombe(Hs('$D', A, B_)))]


USER, PW, SALT, AS, BS = (arg(x) for x in ('username', 'password', 'salt', 'a', 'b'))


def c01(r):
    r.rule = ('symbolic composition of the public API (register, both ephemerals, both process_reply, both verify) '
              'over an arbitrary group, credentials and private values; keys compared as ring normal forms modulo N')
    s, cl, sv = setup(r)
    v = s.call('SrpClient', 'compute_verifier', cl, USER, PW, SALT)
    A = s.call('SrpClient', 'compute_public_ephemeral', cl, AS)
    Bp = s.call('SrpServer', 'compute_public_ephemeral', sv, BS, v)
    rc = s.call('SrpClient', 'process_reply', cl, AS, USER, PW, SALT, Bp)
    cv = s.ok(rc)
    wc = fn_where(s)
    rs = s.call('SrpServer', 'process_reply', sv, BS, v, A)
    sver = s.ok(rs)
    ws = fn_where(s)
    zeroA = lift(lambda x: eq0(zmod(models.frombe(x), N)), A)
    zeroB = lift(lambda x: eq0(zmod(models.frombe(x), N)), Bp)
    for cond, val, f in s.rejects:
        never(r, s, 'rejects:' + f['name'] + ':' + impl_adt(f).split('::')[-1], b_and(cond, b_not(b_or(zeroA, zeroB))),
              'an honest, non-degenerate exchange is refused', wh=where(s.p, f))
    kc = s.call('SrpClientVerifier', 'key', cv)
    ks = s.call('SrpServerVerifier', 'key', sver)
    same(r, s, 'key', kc, ks, 'client and server session keys', wh=wc + ' / ' + ws)
    pc_ = s.call('SrpClientVerifier', 'proof', cv)
    ps = s.call('SrpServerVerifier', 'proof', sver)
    r1 = s.call('SrpServerVerifier', 'verify_client', sver, pc_)
    holds(r, s, 'server-accepts', s.okcond(r1), 'the server accepts the honest client proof', wh=ws)
    r2 = s.call('SrpClientVerifier', 'verify_server', cv, ps)
    holds(r, s, 'client-accepts', s.okcond(r2), 'the client accepts the honest server proof', wh=wc)
    # the public value announced is the one the other side's view of the session is built on
    panics(r, s, 'panic', 'an honest run')
    r.count('operations', len(s.called))
    r.floor('operations', 12)
    r.used(s)


def c02(r):
    r.rule = ('for an arbitrary peer value X: process_reply returns Err(IllegalParameter) exactly when X = 0 mod N; every '
              'constructor of a verifier object is enumerated')
    for side in ('client', 'server'):
        s, cl, sv = setup(r)
        X = arg('peer_public')
        if side == 'client':
            res = s.call('SrpClient', 'process_reply', cl, AS, USER, PW, SALT, X)
        else:
            res = s.call('SrpServer', 'process_reply', sv, BS, arg('v'), X)
        z = eq0(zmod(models.frombe(X), N))
        n = 0
        for f, (v, zz) in walk(s.pc, (res, z), s.e.context):
            n += 1
            r.count('paths')
            got = errname(v)
            want = 'Err(IllegalParameter)' if zz is TRUE else 'Ok'
            if got != want:
                r.violate('%s:%s:%s' % (side, 'degenerate' if zz is TRUE else 'regular', got), fn_where(s),
                          'a peer value that is %s 0 modulo N yields %s instead of %s (path %s)' % (
                              'congruent to' if zz is TRUE else 'not congruent to', got, want, showfacts(f)))
            else:
                r.held('%s: X mod N %s 0 -> %s' % (side, '==' if zz is TRUE else '!=', got))
        panics(r, s, side + ':panic', 'processing the peer value')
        r.count('sides')
        r.used(s)
    r.floor('sides', 2)
    # a verifier object comes from process_reply only
    p = r.prog('srp')
    allowed = {('SrpClientVerifier', 'process_reply'), ('SrpServerVerifier', 'process_reply')}
    for f in p.d['fns']:
        for ty in returned_adts(f):
            last = ty.split('::')[-1]
            if last in ('SrpClientVerifier', 'SrpServerVerifier'):
                r.count('verifier_producers')
                if not f.get('reachable') and not f.get('exported'):
                    continue
                if (last, f['name']) not in allowed or impl_adt(f) is None or impl_adt(f).split('::')[-1] != last.replace('Verifier', ''):
                    r.violate('producer:' + f['path'], f['path'], 'a second public way to obtain a ' + last)
                else:
                    r.held(f['path'] + ' is the producer of ' + last)
    r.floor('verifier_producers', 2)
    for a in ('SrpClientVerifier', 'SrpServerVerifier'):
        ad = p.adts[adt_path(p, a)]
        for fl in ad['variants'][0]['fields']:
            if fl['vis'] == 'pub':
                r.violate('field:%s.%s' % (a, fl['n']), ad.get('path', a), 'public field: the object can be built without process_reply')
            else:
                r.held()


def returned_adts(f):
    out = []

    def go(t):
        if not isinstance(t, dict):
            return
        if t.get('k') == 'adt':
            out.append(t['p'])
            for x in t.get('a', []):
                go(x)
        elif t.get('k') in ('ref', 'ptr', 'slice', 'array'):
            go(t.get('t'))
        elif t.get('k') == 'tuple':
            for x in t.get('ts', t.get('a', [])):
                go(x)
    go(f.get('output'))
    return out


def verifier_pair(r, side):
    """a verifier obtained for an arbitrary peer value, with its A, B and expectations"""
    s, cl, sv = setup(r)
    X = arg('peer_public')
    if side == 'client':
        A = s.call('SrpClient', 'compute_public_ephemeral', cl, AS)
        res = s.call('SrpClient', 'process_reply', cl, AS, USER, PW, SALT, X)
        Bv = models.tobe(models.frombe(X))
    else:
        V = arg('v')
        Bv = s.call('SrpServer', 'compute_public_ephemeral', sv, BS, V)
        res = s.call('SrpServer', 'process_reply', sv, BS, V, X)
        A = models.tobe(models.frombe(X))
    ver = s.ok(res)
    w = fn_where(s)
    ty = 'SrpClientVerifier' if side == 'client' else 'SrpServerVerifier'
    key = s.call(ty, 'key', ver)
    m1 = lift(lambda a, b, k: Hs('$D', a, b, k, n=mk('outlen', 'D')), A, Bv, key)
    m2 = lift(lambda a, m, k: Hs('$D', a, m, k, n=mk('outlen', 'D')), A, m1, key)
    return s, ver, ty, key, m1, m2, w


def c03(r):
    r.rule = ('verify_* compared with "Ok iff reply == complete expected proof (one ct_eq over the whole value), else '
              'Err(BadRecordMac)" for an arbitrary reply of arbitrary length')
    for side in ('client', 'server'):
        s, ver, ty, key, m1, m2, w = verifier_pair(r, side)
        reply = arg('reply')
        fnn = 'verify_server' if side == 'client' else 'verify_client'
        res = s.call(ty, fnn, ver, reply)
        expect = m2 if side == 'client' else m1
        check_mac(r, s, side, res, expect, reply, 'BadRecordMac')
        panics(r, s, side + ':panic', 'verifying a reply')
        # the stored verifier is unchanged and nothing else decides
        r.count('verifications')
        r.used(s)
    r.floor('verifications', 2)


def check_mac(r, s, side, res, expect, reply, errv, okcheck=None):
    """res is Ok exactly when reply equals expect as a whole, decided by one
    constant-time comparison; Err(errv) otherwise"""
    cond = lift(lambda e, x: models.veq(e, x, 'bytes', 'a_cteq'), expect, reply)
    good = True
    for f, (v, c) in walk(s.pc, (res, cond), s.e.context):
        r.count('paths')
        got = errname(v)
        want = 'Ok' if c is TRUE else 'Err(%s)' % errv
        if got != want:
            good = False
            r.violate('%s:%s' % (side, 'accepts' if got == 'Ok' else 'refuses' if c is TRUE else got), fn_where(s),
                      'returns %s where %s is required (reply %s the expected value; path %s)' % (
                          got, want, 'equals' if c is TRUE else 'differs from', showfacts(f)))
            break
        if c is TRUE and okcheck:
            okcheck(f, v)
    # only whole-value constant-time comparisons (and length tests) may decide
    e, = {l for _, l in leaves(expect)} if len({l for _, l in leaves(expect)}) == 1 else (None,)
    atoms = set()

    def go(t):
        if t.op == 'case' and t not in seen:
            seen.add(t)
            atoms.add(t.a[0])
            for k in t.a[1]:
                go(k)
    seen = set()
    go(res)
    for a in atoms:
        if reply not in deps(a):
            continue
        if a.op == 'a_cteq' or a.op == 'a_eq0' and a.a[0].op in ('zp', 'len', 'outlen') and not any(x.op == 'at' for x in deps(a)):
            continue
        good = False
        r.violate(side + ':comparison:' + a.op, fn_where(s), 'the reply is compared by %s, not by one constant-time comparison of the whole value' % short(a, 200))
    if good:
        r.held('%s: Ok iff reply == %s' % (side, short(expect, 200)))


def c04(r):
    r.rule = 'proof terms compared with H(A|B|S) and H(A|M1|S), S being the exported key, for arbitrary peer values'
    for side in ('client', 'server'):
        s, ver, ty, key, m1, m2, w = verifier_pair(r, side)
        proof = s.call(ty, 'proof', ver)
        same(r, s, side + ':proof', proof, m1 if side == 'client' else m2, '%s proof' % side, wh=w)
        # the shared secret is the premaster secret of this session
        prem = prem_of(r, side)
        if prem is not None:
            same(r, s, side + ':key', key, prem, '%s exported key' % side, wh=w, accept=lambda f, g, x: prem_accept(side, f, g))
        r.count('proofs')
        r.used(s)
    r.floor('proofs', 2)


def prem_terms(side):
    X = arg('peer_public')
    out = []
    if side == 'client':
        A = models.tobe(pw_n(G, models.frombe(AS)))
        Bv = models.tobe(models.frombe(X))
        x = x_spec(SALT, USER, PW)
        for n, u in u_forms(A, Bv):
            base = zmod(zsub(models.frombe(X), zmul(k_spec(), pw_n(G, x))), N)
            out.append(models.tobe(zpowmod(base, zadd(models.frombe(AS), zmul(u, x)), N)))
    else:
        v = models.frombe(arg('v'))
        Bv = models.tobe(zmod(zadd(zmul(k_spec(), v), pw_n(G, models.frombe(BS))), N))
        A = models.tobe(models.frombe(X))
        for n, u in u_forms(A, Bv):
            base = zmod(zmul(models.frombe(X), pw_n(v, u)), N)
            out.append(models.tobe(zpowmod(base, models.frombe(BS), N)))
    return out


def prem_of(r, side):
    return prem_terms(side)[1]


def prem_accept(side, f, g):
    return any(g is norm(t, f) for t in prem_terms(side))


def c05(r):
    r.rule = ('each published computation evaluated on arbitrary inputs and compared with its RFC 5054 definition as ring '
              'normal forms modulo N')
    s, cl, sv = setup(r)
    w = None
    n = models.tobe(N)

    def chk(key, got, want, accept=None):
        same(r, s, key, got, want, key, accept=accept)
        r.count('definitions')
    if has_method(s.p, 'SrpClient', 'compute_identity_hash'):
        chk('compute_identity_hash', s.call('SrpClient', 'compute_identity_hash', USER, PW), Hs('$D', USER, B(b':'), PW))
    ih = arg('identity_hash')
    x = models.frombe(arg('x'))
    chk('compute_x', s.call('SrpClient', 'compute_x', ih, SALT), models.frombe(Hs('$D', SALT, ih)))
    chk('compute_v', s.call('SrpClient', 'compute_v', cl, x), pw_n(G, x))
    chk('compute_verifier', s.call('SrpClient', 'compute_verifier', cl, USER, PW, SALT), models.tobe(pw_n(G, x_spec(SALT, USER, PW))))
    ai, bi, k, u, Bi, v = (models.frombe(arg(t)) for t in ('ai', 'bi', 'k', 'u', 'B', 'v'))
    chk('compute_a_pub', s.call('SrpClient', 'compute_a_pub', cl, ai), pw_n(G, ai))
    chk('client public ephemeral', s.call('SrpClient', 'compute_public_ephemeral', cl, AS), models.tobe(pw_n(G, models.frombe(AS))))
    chk('compute_b_pub', s.call('SrpServer', 'compute_b_pub', sv, bi, k, v), zmod(zadd(zmul(k, v), pw_n(G, bi)), N))
    chk('server public ephemeral', s.call('SrpServer', 'compute_public_ephemeral', sv, BS, arg('v')),
        models.tobe(zmod(zadd(zmul(k_spec(), v), pw_n(G, models.frombe(BS))), N)))
    chk('client premaster secret', s.call('SrpClient', 'compute_premaster_secret', cl, Bi, k, x, ai, u),
        zpowmod(zmod(zsub(Bi, zmul(k, pw_n(G, x))), N), zadd(ai, zmul(u, x)), N))
    chk('server premaster secret', s.call('SrpServer', 'compute_premaster_secret', sv, Bi, v, u, bi),
        zpowmod(zmod(zmul(Bi, pw_n(v, u)), N), bi, N))
    p = s.p
    free = {f['name']: f for f in p.d['fns'] if f.get('isfn') and 'impl_self' not in f}
    if 'compute_k' in free:
        chk('compute_k', s.call_fn(free['compute_k'], group(p)), k_spec())
    if 'compute_u' in free:
        A, Bp = arg('A'), arg('Bp')
        f = free['compute_u']
        nargs = len(f['inputs'])
        args = [A, Bp] if nargs == 2 else None
        if args is None:
            for order in ([A, Bp, group(p)], [group(p), A, Bp], [A, Bp, n], [n, A, Bp]):
                pass
            tys = [tykey(strip_ref(t)) for t in f['inputs']]
            it = iter([A, Bp])
            args = [group(p) if 'SrpGroup' in t else (N if 'BigUint' in t else next(it)) for t in tys]
        got = s.call_fn(f, *args)
        pad, unpad = [t for _, t in u_forms(A, Bp)]
        known = [False]

        def acc(fc, g, want):
            if g is norm(unpad, fc):
                known[0] = True
                return True
            return False
        chk('compute_u', got, pad, accept=acc)
        if known[0]:
            r.violate('compute_u:unpadded', fn_where(s), 'u is computed as H(A | B) over the minimal encodings, without PAD to the length of N')
    panics(r, s, 'panic', 'a published computation')
    r.used(s)
    for side in ('client', 'server'):
        s, ver, ty, key, m1, m2, w = verifier_pair(r, side)
        same(r, s, side + ' session premaster', key, prem_terms(side)[0], side + ' premaster secret of process_reply', wh=w,
             accept=lambda f, g, x: prem_accept(side, f, g))
        r.count('definitions')
        r.used(s)
    r.floor('definitions', 12)


PI_BITS = 8400


def pi_scaled(bits):
    """floor(pi * 2^bits) by Machin's formula"""
    guard = 64
    one = 1 << (bits + guard)

    def arctan_inv(x):
        t = one // x
        s, n, sg = t, 3, -1
        xx = x * x
        while t:
            t //= xx
            s += sg * (t // n)
            n += 2
            sg = -sg
        return s
    return (4 * (4 * arctan_inv(5) - arctan_inv(239))) >> guard


# RFC 3526 formula constants, and sha256 of the big-endian modulus for the
# three groups RFC 5054 lists without a formula
FORMULA = {3072: 1690314, 4096: 240904, 6144: 929484, 8192: 4743158}
PINNED = {1024: '494b6a801b379f37c9ee25d5db7cd70ffcfe53d01b7c9e4470eaca46bda24b39',
          1536: '72af4a20e501a893b7dc85f4efac51845ab21c102d1e73f7000ec662df7e2069',
          2048: '91b71d6b40d439954568d412e883de5186f9381e25aef36e7a4607722f7e15ca'}
GEN = {1024: 2, 1536: 2, 2048: 2, 3072: 5, 4096: 5, 6144: 5, 8192: 19}


def groups(r):
    """(name, SrpGroup value) of every exported group, evaluated from its initialiser"""
    p = r.prog('srp')
    out = []
    for f in p.d['fns']:
        if f['name'] == 'deref' and trait_last(f) == 'Deref' and f.get('inst') is not None:
            ia = impl_adt(f)
            if ia is None or not any('SrpGroup' in t for t in map(str, [f.get('output')])):
                continue
            s = Scn(p)
            v = s.call_fn(f, mk('static', ia))
            out.append((ia.split('::')[-1], v, f, s))
    # plain statics / consts / functions returning a group would be listed by name as well
    names = {o[0] for o in out}
    for st in p.d['statics']:
        nm = st['path'].split('::')[-1]
        if nm.startswith('G_') and nm not in names:
            f = p.statics.get(st['path'])
            if f is not None:
                s = Scn(p)
                v = s.e.run_body(f['body'], [], {}, TRUE, f, f.get('promoted'))[1]
                if v.op == 'lazy' and len(v.a) == 1:
                    v = s.e.call_value(v.a[0], [], {}, TRUE)[1]
                out.append((nm, v, f, s))
                continue
            raise AnchorMissing('static %s is not readable by the group rule' % nm)
    return out


def c06(r):
    import hashlib
    r.rule = ('initialisers of all exported groups evaluated to integers; size, safe-primality (Miller-Rabin on N and (N-1)/2), '
              'equality with the RFC moduli and generators')
    gs = groups(r)
    pi = pi_scaled(8200)
    for name, v, f, s in gs:
        r.count('groups')
        w = where(s.p, f)
        try:
            bits = int(name.split('_')[-1])
        except ValueError:
            bits = None
        if v.op != 'adt' or any(x.op != 'int' for x in v.a[2]):
            r.violate(name + ':value', w, 'the initialiser does not evaluate to a constant group: ' + short(v, 200))
            continue
        n, g = s.fieldn(v, 'n').a[0], s.fieldn(v, 'g').a[0]
        checks = []
        if bits not in GEN:
            checks.append(('name', False, 'no RFC 5054 group of that size'))
        else:
            checks.append(('bits', n.bit_length() == bits, 'modulus has %d bits' % n.bit_length()))
            if bits in FORMULA:
                want = 2**bits - 2**(bits - 64) - 1 + 2**64 * ((pi >> (8200 - (bits - 130))) + FORMULA[bits])
                checks.append(('modulus', n == want, 'modulus is not the RFC 3526/5054 %d-bit MODP prime' % bits))
            else:
                h = hashlib.sha256(n.to_bytes((n.bit_length() + 7) // 8, 'big')).hexdigest()
                checks.append(('modulus', h == PINNED[bits], 'modulus is not the RFC 5054 %d-bit prime' % bits))
            checks.append(('generator', g == GEN[bits], 'generator is %d, the standard one is %d' % (g, GEN[bits])))
        std = all(c[1] for c in checks)
        rounds = 2 if std else 12
        if r.tier == 'thorough':
            rounds = 16
        checks.append(('prime', algebra.is_prime(n, rounds), 'modulus is composite'))
        checks.append(('safe', algebra.is_prime((n - 1) // 2, rounds), '(N-1)/2 is composite'))
        if n > 4:
            q = (n - 1) // 2
            checks.append(('order', g % n not in (0, 1, n - 1), 'the generator has small order'))
        for k, ok, d in checks:
            if ok:
                r.held('%s: %s' % (name, k))
            else:
                r.violate('%s:%s' % (name, k), w, '%s: %s' % (name, d))
        r.used(s)
    r.floor('groups', 7)
