"""Rules over all three crates: C11, C12, C23-C28, C31."""
from common import *
import aucpace as AU
import spake2 as SP
import srp as SR
from aucpace import Run, Decoy, VARIANTS, root_of, draws, fresh


# ---------------------------------------------------------------- C23
def coefficient(s, v, gen=None):
    """the scalar a point is multiplied with (of `gen`, or of its only atom)"""
    def g(x):
        if x is UNDEF:
            return UNDEF
        d = ptd(x)
        if gen is not None:
            return d.get(gen, models.SC0)
        if len(d) == 1:
            return next(iter(d.values()))
        return UNDEF
    return lift(g, v)


def loops_left(s, pc):
    """pc, knowing that every loop run so far was left through its only exit"""
    for c, x in s.e.assume:
        pc = b_and(pc, b_or(b_not(c), x))
    return pc


def distinct(r, key, items, wh):
    """the named draws are pairwise different"""
    seen = {}
    ok = True
    for name, v in items:
        for _, x in leaves(v):
            if x is UNDEF:
                continue
            for d in draws(x):
                o = seen.setdefault(d, name)
                if o != name:
                    ok = False
                    r.violate(key, wh, '%s and %s are the same random draw %s' % (o, name, short(d, 120)))
    if ok:
        r.held('distinct draws: ' + ', '.join(n for n, _ in items))


def c23(r):
    r.rule = ('every nonce, salt, exponent, private scalar, blinding value, decoy string and server secret, read off the messages and '
              'states of symbolic runs, is one complete draw of the required size from the generator supplied for that step; draws of '
              'one run and of successive sessions of one party are pairwise different')
    p = r.prog('aucpace')
    models.PRIME_ORDER[0] = True
    K1 = mk('cparam', 'K1')
    for variant in VARIANTS:
        for alloc in (False, True):
            R = Run(p, variant, alloc, alloc)
            s = R.s
            R.parties()
            sec = s.load(R.sv)
            R.register()
            wreg = fn_where(s)
            R.ssids()
            R.client_start()
            pc_start = loops_left(s, s.pc)
            R.server_info()
            R.client_cpace()
            R.public_keys()
            v = R.v
            T = variant + (':alloc' if alloc else '')
            items = []

            def chk(key, val, root, wrap, n, what, wh):
                items.append((what, val))
                fresh(r, s, key, val, root, wrap, n, what + ' (' + T + ')', wh=wh)
                r.count('secrets')
            chk('client-nonce', v['client_nonce'], 'C', None, K1, 'client nonce', R.w['client_nonce'])
            chk('server-nonce', v['server_nonce'], 'S', None, K1, 'server nonce', R.w['server_nonce'])
            if R.strong:
                chk('exponent', R.exponent, 'C', 'le_mod', 64, 'secret exponent', R.w['reg_res'])
                k = coefficient(s, R.blinded)
                chk('blinding', k, 'CB', 'le_mod', 64, 'blinding value', R.w['start_msg'])
                never(r, s, 'blinding-zero', b_and(pc_start, lift(lambda x: TRUE if x is UNDEF else models.seq_sc(x, models.SC0), k)),
                      'the blinding value may be zero', wh=R.w['start_msg'])
            else:
                chk('salt', R.salt, 'C', 'b64', 16, 'salt', R.w['reg_res'])
            x = coefficient(s, R.x_pub, AU.BASEPT)
            if R.partial:
                chk('long-term', x, 'S', 'le_mod', 64, 'long-term private key', wreg)
            else:
                chk('augmentation', x, 'SI', 'le_mod', 64, 'augmentation private key', R.w['info_res'])
            chk('client-key', coefficient(s, v['c_pub']), 'CK', 'le_mod', 64, 'client private key', R.w['c_pub'])
            chk('server-key', coefficient(s, v['s_pub']), 'SI', 'le_mod', 64, 'server private key', R.w['s_pub'])
            # the server secret
            sd = secret_draw(s, sec)
            if sd is None:
                r.violate('server-secret', wreg, 'the server object holds no complete draw of at least 8 bytes as its secret')
            else:
                items.append(('server secret', sd))
                r.held('server secret')
            distinct(r, 'distinct', items, R.w['s_pub'])
            r.count('runs')
            r.used(s)
    # a second session or registration of the same party draws anew
    for T in ('AuCPaceClient', 'AuCPaceServer'):
        s = Scn(p)
        me = s.cell(s.call(T, 'new', s.rng('R')))
        ns = [s.payload(s.f(s.call(T, 'begin', me), 1), 'Nonce') for _ in range(2)]
        distinct(r, 'reuse:' + T, [('first nonce', ns[0]), ('second nonce', ns[1])], fn_where(s))
        if T == 'AuCPaceServer' and has_method(p, T, 'generate_long_term_keypair'):
            ks = [s.f(s.call(T, 'generate_long_term_keypair', me), 0) for _ in range(2)]
            distinct(r, 'reuse:keypair', [('first key', ks[0]), ('second key', ks[1]), ('nonce', ns[1])], fn_where(s))
            fresh(r, s, 'long-term', ks[0], 'R', 'le_mod', 64, 'long-term private key')
        r.count('reuse')
    for name in ('register', 'register_strong', 'register_alloc', 'register_alloc_strong'):
        s = Scn(p)
        me = s.cell(s.call('AuCPaceClient', 'new', s.rng('R')))
        f = 'secret_exponent' if 'strong' in name else 'salt'
        vs = [s.fieldn(s.ok(s.call('AuCPaceClient', name, me, AU.USER, AU.PW, AU.PARAMS, AU.HASHER)), f) for _ in range(2)]
        distinct(r, 'reuse:' + name, [('first', vs[0]), ('second', vs[1])], fn_where(s))
        r.count('reuse')
    # decoy strings
    for D in AU.decoys(p):
        nm = D.variant + (':keypair' if D.keypair else '')
        fresh(r, D.s, 'decoy-prs:' + nm, D.prs, 'SI', None, 32, 'decoy password-related string (%s)' % nm, wh=D.where)
        its = [('decoy string', D.prs)]
        if not D.partial:
            its.append(('augmentation key', coefficient(D.s, D.x_pub, AU.BASEPT)))
        st = D.s.call('AuCPaceServerCPaceSubstep', 'generate_public_key', D.state, AU.CI)
        its.append(('private key', coefficient(D.s, D.s.payload(D.s.f(st, 1), 'PublicKey'))))
        distinct(r, 'distinct-decoy', its, D.where)
        r.count('decoys')
    # SPAKE2
    p = r.prog('spake2')
    for side in SP.SIDES:
        for os in (False, True):
            s = Scn(p)
            if os and not has_method(p, 'Spake2', 'start_' + side):
                continue
            d, pw, ids = SP.inputs(s)
            _, m1, w = SP.start(s, side, pw, ids, 'one', os)
            ks = []

            def scalar(m):
                def g(x):
                    for c in deps(x) | {x}:
                        if c.op == 'compress':
                            return ptd(c.a[0]).get(SP.BASEPT, models.SC0)
                    return UNDEF
                return lift(g, m)
            fresh(r, s, 'spake2:' + side, scalar(m1), 'OsRng' if os else 'one', 'le_mod', 64, 'SPAKE2 private scalar (%s)' % side, wh=w)
            _, m2, w = SP.start(s, side, pw, ids, 'two', os)
            distinct(r, 'spake2:reuse', [('first session', scalar(m1)), ('second session', scalar(m2))], w)
            r.count('sessions')
            r.used(s)
    r.floor('sessions', 6)
    r.floor('runs', 8)
    r.floor('secrets', 48)
    r.floor('decoys', 6)
    r.floor('reuse', 6)


def secret_draw(s, sv):
    """the server secret: a complete draw of at least 8 bytes stored at construction"""
    found = []

    def go(t):
        if t.op == 'case':
            for k in t.a[1]:
                go(k)
        elif t.op == 'adt':
            for x in t.a[2]:
                go(x)
        elif t.op in ('le', 'bei') and t.a[1] >= 8:
            go(t.a[0])
        elif t.op == 'draw':
            n = t.a[2]
            bits = n.a[0] if n.op == 'int' else 0
            if t.a[0] == 'bytes':
                bits *= 8
            if bits >= 64 and root_of(t.a[1]) is mk('rng0', 'S'):
                found.append(t)
    go(sv)
    return found[0] if found else None


# ---------------------------------------------------------------- C26
ONEWAY = {'H', 'pwhash', 'pt_uniform', 'base', 'ptc', 'okm', 'int', 'bytes', 'zeros', 'cparam', 'true', 'false', 'len', 'outlen'}


def exposed(t, secrets, ok=()):
    """secrets reachable in t without passing a hash, a password hash or an exponent"""
    out = []
    seen = set()

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
            return
        if x in seen or x in ok:
            return
        seen.add(x)
        if x in secrets:
            out.append(x)
            return
        if x.op in ONEWAY:
            return
        if x.op == 'draw':
            out.append(x)
            return
        if x.op == 'pt':
            for a, k in x.a[0]:
                go(a)
            return
        if x.op in ('mod', 'rp'):
            # a sum of products of powers: exponents are hidden by the power,
            # bases (and coefficients) are not
            for m, _ in x.a[0]:
                for a, _ in m:
                    go(a)
            return
        if x.op == 'zp':
            for m in zpoly(x):
                for a, e in m:
                    go(a)
                    go(e)
            return
        if x.op == 'case':
            for k in x.a[1]:
                go(k)
            return
        go(tuple(x.a))
    go(t)
    return out


def check_exposed(r, key, wh, what, v, secrets, ok=()):
    bad = []
    for _, x in leaves(v):
        if x is not UNDEF:
            bad += exposed(x, secrets, ok)
    r.count('messages')
    if bad:
        r.violate(key, wh, '%s reveals %s' % (what, ', '.join(sorted({(secrets.get(b, 'a random draw') if isinstance(secrets, dict) else 'a secret') + ' ' + short(b, 120) for b in bad}))))
        return False
    r.held(what)
    return True


def c26(r):
    r.rule = ('every outbound message, public value and proof of symbolic runs traversed: no password, private scalar, random draw, '
              'premaster or session key, password-related string or server secret is reachable except below a digest, a password '
              'hash or an exponent; authenticators and keys are different, non-nested derivations')
    p = r.prog('aucpace')
    models.PRIME_ORDER[0] = True
    for variant in VARIANTS:
        for alloc in (False, True):
            R = Run(p, variant, alloc, alloc)
            s = R.s
            R.all()
            v = R.v
            sec = {AU.PW: 'the password'}

            def add(val, what):
                for _, x in leaves(val):
                    if x is not UNDEF:
                        sec[x] = what
            add(v['c_prs'], 'the password-related string')
            for _, x in leaves(v['c_prs']):
                if x is not UNDEF and x.op == 'compress':
                    sec[x.a[0]] = 'the password-related element'
            add(v['c_key'], 'the session key')
            add(v['s_key'], 'the session key')
            for _, k in leaves(v['c_key']):
                if k is not UNDEF and k.op == 'H':
                    parts = k.a[1].a if k.a[1].op == 'cat' else (k.a[1],)
                    for q in parts:
                        if q.op == 'H' and q not in {x for _, x in leaves(v['c_ssid'])}:
                            sec[q] = 'the first session key'
                            for c in (q.a[1].a if q.a[1].op == 'cat' else ()):
                                if c.op == 'compress':
                                    sec[c] = sec[c.a[0]] = 'the shared element'
            nonce = lambda k: tuple(x for _, x in leaves(v[k]) if x is not UNDEF)
            check_exposed(r, 'client:start', R.w['start_msg'], 'first client message (%s)' % variant, v['start_msg'], sec)
            saltok = () if R.strong else tuple(x for _, x in leaves(R.salt) if x is not UNDEF)
            check_exposed(r, 'server:info', R.w['info_res'], 'augmentation reply (%s)' % variant, v['info'], sec, saltok)
            for k, n in (('c_pub', 'client public key'), ('s_pub', 'server public key'), ('c_auth', 'client authenticator'), ('s_auth', 'server authenticator')):
                check_exposed(r, k, R.w[k], '%s (%s)' % (n, variant), v[k], sec)
            regok = tuple(x for _, x in leaves(R.exponent if R.strong else R.salt) if x is not UNDEF)
            check_exposed(r, 'registration', R.w['reg'], 'registration message (%s)' % variant, v['reg'], sec, regok)
            # separate derivations
            for f, (a, b, k) in walk(s.pc, (v['c_auth'], v['s_auth'], v['c_key']), s.e.context):
                if a is b or a is k or b is k or k in deps(a) or k in deps(b) or a in deps(k) or b in deps(k) or a in deps(b) or b in deps(a):
                    r.violate('derivation', R.w['c_auth'], 'authenticators and session key share a derivation: %s / %s / %s' % (short(a, 120), short(b, 120), short(k, 120)))
                    break
            else:
                r.held('separate derivations (%s)' % variant)
            r.used(s)
    # replies built from stored records never carry the verifier or private parts
    for f in api_methods(p):
        if f.get('impl_trait') or not any('database::' in str(t) for t in f.get('preds', [])):
            continue
        s = Scn(p)
        W, q, kp = arg('W'), arg('q'), arg('kp_priv')
        s.e.traithook['lookup_verifier'] = lambda cx, la: some(tup(W, arg('stored_salt'), arg('stored_params')))
        s.e.traithook['lookup_verifier_strong'] = lambda cx, la: some(tup(W, q, arg('stored_params')))
        s.e.traithook['lookup_long_term_keypair'] = lambda cx, la: some(tup(kp, arg('kp_pub')))
        vals, res = sym_call(s, f, {1: AU.USER})
        t = s.okmaybe(res, None)
        m = s.f(t, 1)
        sec = {W: 'the stored verifier', q: 'the stored exponent', kp: 'the private key'}
        for _, st in leaves(vals[0]):
            for x in (st.a[2] if st.op == 'adt' else ()):
                sec.update({y: 'server state' for y in leaf_args(x)})
        check_exposed(r, 'stored:' + f['name'], where(p, f), 'reply of ' + f['name'], m, sec)
        r.used(s)
    for D in AU.decoys(p):
        sec = {d: 'the server secret' for d in D.secret_draws}
        for _, x in leaves(D.prs):
            sec[x] = 'the decoy password-related string'
        check_exposed(r, 'decoy:' + D.variant, D.where, 'decoy reply (%s)' % D.variant, D.msg, sec)
    # SPAKE2
    p = r.prog('spake2')
    for side in SP.SIDES:
        s = Scn(p)
        d, pw, ids = SP.inputs(s)
        st, m, w = SP.start(s, side, pw, ids, 'one')
        sec = {d['pw']: 'the password', SP.pw_scalar(d['pw']): 'the password scalar', SP.rand_scalar('one'): 'the private scalar'}
        check_exposed(r, 'spake2:' + side, w, 'SPAKE2 message (%s)' % side, m, sec)
        r.used(s)
    # SRP
    s, cl, sv = SR.setup(r)
    V = arg('v')
    sec = {SR.AS: 'the client secret', SR.BS: 'the server secret', SR.PW: 'the password'}
    A = s.call('SrpClient', 'compute_public_ephemeral', cl, SR.AS)
    check_exposed(r, 'srp:A', fn_where(s), 'SRP client public value', A, sec)
    Bv = s.call('SrpServer', 'compute_public_ephemeral', sv, SR.BS, V)
    check_exposed(r, 'srp:B', fn_where(s), 'SRP server public value', Bv, sec)
    ver = s.call('SrpClient', 'compute_verifier', cl, SR.USER, SR.PW, SR.SALT)
    check_exposed(r, 'srp:v', fn_where(s), 'SRP verifier', ver, sec)
    r.used(s)
    for side in ('client', 'server'):
        s, vf, ty, key, m1, m2, w = SR.verifier_pair(r, side)
        sec2 = dict(sec)
        for _, x in leaves(key):
            sec2[x] = 'the session key'
        pr = s.call(ty, 'proof', vf)
        check_exposed(r, 'srp:proof:' + side, w, 'SRP %s proof' % side, pr, sec2)
        r.used(s)
    r.floor('messages', 70)


def leaf_args(x):
    if x.op == 'adt':
        return [y for z in x.a[2] for y in leaf_args(z)]
    return [x] if x.op == 'arg' and not x.a[0].endswith('ssid') else []
