"""AuCPace: symbolic protocol runs shared by the AuCPace rules."""
from common import *

KIND = 'ristretto'
BASEPT = mk('base', KIND)
VARIANTS = ('plain', 'partial', 'strong', 'partial_strong')

USER, PW, PARAMS, HASHER, CI, SSID, DB = (arg(x) for x in ('username', 'password', 'params', 'hasher', 'ci', 'ssid', 'db'))


class Stop(Exception):
    pass


class Run:
    """one honest run of register + login, keeping every intermediate value"""

    def __init__(self, prog, variant='plain', reg_alloc=False, alloc=False, agreed=True, explicit=True):
        self.p = prog
        self.s = s = Scn(prog)
        models.PRIME_ORDER[0] = True
        self.variant, self.reg_alloc, self.alloc, self.agreed, self.explicit = variant, reg_alloc, alloc, agreed, explicit
        self.strong = 'strong' in variant
        self.partial = 'partial' in variant
        self.v = {}
        self.w = {}
        self.stored = None

    def note(self, k, v):
        self.v[k] = v
        self.w[k] = fn_where(self.s)
        return v

    def name(self):
        return '%s/%s/%s/%s/%s' % (self.variant, 'reg_alloc' if self.reg_alloc else 'reg_buf', 'alloc' if self.alloc else 'buf',
                                   'agreed' if self.agreed else 'preset', 'explicit' if self.explicit else 'implicit')

    # -- parties
    def parties(self):
        s = self.s
        self.cl = s.cell(s.call('AuCPaceClient', 'new', s.rng('C')))
        self.sv = s.cell(s.call('AuCPaceServer', 'new', s.rng('S')))

    def reg_name(self):
        return 'register' + ('_alloc' if self.reg_alloc else '') + ('_strong' if self.strong else '')

    def register(self):
        s = self.s
        self.note('reg_res', s.call('AuCPaceClient', self.reg_name(), self.cl, USER, PW, PARAMS, HASHER))
        m = self.note('reg', s.ok(self.v['reg_res']))
        g = lambda n: s.fieldn(m, n)
        self.verifier = g('verifier')
        self.salt = None if self.strong else g('salt')
        self.exponent = g('secret_exponent') if self.strong else None
        self.regparams = g('params')
        self.reguser = g('username')
        if self.partial:
            kp = s.call('AuCPaceServer', 'generate_long_term_keypair', self.sv)
            self.keypair = (s.f(kp, 0), s.f(kp, 1))
        self.store()

    def store(self):
        """the database answers with what was registered"""
        s = self.s

        def ans(*xs):
            v = lift(lambda *ys: some(tup(*ys)), *xs)
            return lambda cx, la: v
        if self.strong:
            s.e.traithook['lookup_verifier_strong'] = ans(self.verifier, self.exponent, self.regparams)
        else:
            s.e.traithook['lookup_verifier'] = ans(self.verifier, self.salt, self.regparams)
        if self.partial:
            s.e.traithook['lookup_long_term_keypair'] = ans(*self.keypair)

    # -- session identifier
    def ssids(self):
        s = self.s
        if self.agreed:
            t = s.call('AuCPaceClient', 'begin', self.cl)
            u = s.call('AuCPaceServer', 'begin', self.sv)
            c0, cm = s.f(t, 0), s.f(t, 1)
            s0, sm = s.f(u, 0), s.f(u, 1)
            self.note('client_nonce', s.payload(cm, 'Nonce'))
            self.note('server_nonce', s.payload(sm, 'Nonce'))
            self.c = s.call('AuCPaceClientSsidEstablish', 'agree_ssid', c0, self.v['server_nonce'])
            self.note('c_ssid', s.fieldn(self.c, 'ssid'))
            self.srv = s.call('AuCPaceServerSsidEstablish', 'agree_ssid', s0, self.v['client_nonce'])
            self.note('s_ssid', s.fieldn(self.srv, 'ssid'))
        else:
            self.c = s.ok(s.call('AuCPaceClient', 'begin_prestablished_ssid', self.cl, SSID))
            self.note('c_ssid', s.fieldn(self.c, 'ssid'))
            self.srv = s.ok(s.call('AuCPaceServer', 'begin_prestablished_ssid', self.sv, SSID))
            self.note('s_ssid', s.fieldn(self.srv, 'ssid'))

    # -- augmentation layer
    def client_start(self):
        s = self.s
        if self.strong:
            t = s.call('AuCPaceClientPreAug', 'start_augmentation_strong', self.c, USER, PW, s.rng('CB'))
        else:
            t = s.call('AuCPaceClientPreAug', 'start_augmentation', self.c, USER, PW)
        self.c, m = s.f(t, 0), s.f(t, 1)
        self.note('start_msg', m)
        if self.strong:
            self.sent_user = s.fieldn(m, 'username')
            self.blinded = s.fieldn(m, 'blinded')
        else:
            self.sent_user = s.payload(m, 'Username')

    SRV_INFO = {'plain': 'generate_client_info', 'partial': 'generate_client_info_partial_aug',
                'strong': 'generate_client_info_strong', 'partial_strong': 'generate_client_info_partial_strong'}

    def server_info(self, blinded=None, user=None):
        s = self.s
        a = [self.srv, self.sent_user if user is None else user]
        if self.strong:
            a.append(self.blinded if blinded is None else blinded)
        a += [DB, mk('rng0', 'SI')]
        res = self.note('info_res', s.call('AuCPaceServerAugLayer', self.SRV_INFO[self.variant], *a))
        t = s.ok(res) if self.strong else res
        self.srv = s.f(t, 0)
        m = self.note('info', s.f(t, 1))
        self.note('s_prs', s.fieldn(self.srv, 'prs'))
        self.x_pub = s.fieldn(m, 'x_pub')
        self.info_salt = s.fieldn(m, 'blinded_salt' if self.strong else 'salt')
        self.info_params = s.fieldn(m, 'pbkdf_params')

    def client_cpace(self, x_pub=None, salt=None, params=None):
        s = self.s
        ty = 'StrongAuCPaceClientAugLayer' if self.strong else 'AuCPaceClientAugLayer'
        fn = 'generate_cpace' + ('_alloc' if self.alloc else '')
        res = self.note('cpace_res', s.call(ty, fn, self.c, self.x_pub if x_pub is None else x_pub,
                                            self.info_salt if salt is None else salt, PARAMS if params is None else params, HASHER))
        self.c = s.ok(res)
        self.note('c_prs', s.fieldn(self.c, 'prs'))

    # -- CPace and key confirmation
    def public_keys(self):
        s = self.s
        t = s.call('AuCPaceClientCPaceSubstep', 'generate_public_key', self.c, CI, s.rng('CK'))
        self.c = s.f(t, 0)
        self.note('c_pub', s.payload(s.f(t, 1), 'PublicKey'))
        t = s.call('AuCPaceServerCPaceSubstep', 'generate_public_key', self.srv, CI)
        self.srv = s.f(t, 0)
        self.note('s_pub', s.payload(s.f(t, 1), 'PublicKey'))

    def finish(self):
        s = self.s
        if not self.explicit:
            self.note('c_key', s.ok(s.call('AuCPaceClientRecvServerKey', 'implicit_auth', self.c, self.v['s_pub'])))
            self.note('s_key', s.ok(s.call('AuCPaceServerRecvClientKey', 'implicit_auth', self.srv, self.v['c_pub'])))
            return
        t = s.ok(s.call('AuCPaceClientRecvServerKey', 'receive_server_pubkey', self.c, self.v['s_pub']))
        self.c = s.f(t, 0)
        self.note('c_auth', s.payload(s.f(t, 1), 'Authenticator'))
        self.srv = s.okmaybe(s.call('AuCPaceServerRecvClientKey', 'receive_client_pubkey', self.srv, self.v['c_pub']), None)
        t = s.ok(s.call('AuCPaceServerExpMutAuth', 'receive_client_authenticator', self.srv, self.v['c_auth']))
        self.note('s_key', s.f(t, 0))
        self.note('s_auth', s.payload(s.f(t, 1), 'Authenticator'))
        self.note('c_key', s.ok(s.call('AuCPaceClientExpMutAuth', 'receive_server_authenticator', self.c, self.v['s_auth'])))

    def all(self):
        self.parties()
        self.register()
        self.ssids()
        self.client_start()
        self.server_info()
        self.client_cpace()
        self.public_keys()
        self.finish()
        return self


def has(prog, adt_last, name):
    return has_method(prog, adt_last, name)


BUFSIZ = mk('cparam', 'BUFSIZ')


def too_long():
    """the credentials do not fit the buffer"""
    return b_not(le(zadd(zadd(seqlen(USER), seqlen(PW)), ONE), BUFSIZ))


def degenerate(f):
    """the path assumes that a random point or scalar is the neutral element / zero"""
    return any(a.op in ('a_isid', 'a_sc0') and l is True for a, l in f.map.items())


def rng_failed(f):
    return any(a.op == 'a_discr' and a.a[0].op == 'rngres' and l == 'Err' for a, l in f.map.items())


def combos(prog):
    for variant in VARIANTS:
        for reg_alloc in (False, True):
            for alloc in (False, True):
                for agreed in (True, False):
                    for explicit in (True, False):
                        yield variant, reg_alloc, alloc, agreed, explicit


def c14(r):
    r.rule = ('registration and login of client and server composed symbolically for every variant, buffered or allocating, with agreed '
              'or pre-established identifiers, explicit or implicit; refusals, identifiers, password-related strings, generators and '
              'keys compared on every path on which no random element is neutral')
    p = r.prog('aucpace')
    for c in combos(p):
        R = Run(p, *c)
        R.all()
        s, nm = R.s, R.name()
        v = R.v
        facts = s.e.context
        for cond, val, f in s.rejects:
            if f['name'].startswith('register'):
                continue
            if f['name'] == 'begin_prestablished_ssid':
                want = ints_lt(seqlen(SSID), 16)
                never(r, s, 'refused:' + f['name'], b_and(cond, b_not(want)), 'a long enough identifier is refused', wh=where(s.p, f))
                continue
            bad = None
            for fc, _ in walk(cond, (), facts, skip=degenerate):
                r.count('paths')
                if not R.alloc and R.reg_alloc and fc.decide(too_long().a[0]) is not None and walk_true(too_long(), fc):
                    continue
                bad = fc
                break
            if bad is not None:
                r.violate('refused:%s:%s' % (R.variant, f['name']), where(s.p, f),
                          'an honest run (%s) is refused by %s when %s' % (nm, f['name'], showfacts(bad, 10)))
            else:
                r.held('no refusal in %s (%s)' % (f['name'], nm))
        same(r, s, 'ssid:' + R.variant, v['c_ssid'], v['s_ssid'], 'session identifiers', skip=degenerate)
        same(r, s, 'username:' + R.variant, R.sent_user, R.reguser, 'username of login and registration', skip=degenerate)
        same(r, s, 'prs:' + R.variant, v['c_prs'], v['s_prs'], 'password-related strings (%s)' % nm, skip=degenerate, wh=R.w['cpace_res'] + ' / ' + R.w['info_res'])
        same(r, s, 'key:' + R.variant, v['c_key'], v['s_key'], 'session keys (%s)' % nm, skip=degenerate, wh=R.w['c_key'] + ' / ' + R.w['s_key'])
        panics(r, s, 'panic', 'an honest run')
        r.count('runs')
        r.used(s)
    r.floor('runs', 64)


def ints_lt(a, n):
    return lt(a, I(n))


def walk_true(v, f):
    a = v.a[0]
    d = f.decide(a)
    return d is not None and v.a[1][domain(a).index(d)] is TRUE


# ---------------------------------------------------------------- C13
def points_in(v):
    return is_adt(v, 'RistrettoPoint')


def message_points(res, deps_on):
    """point-valued fields of the Ok payload's messages that depend on the peer's points"""
    out = []

    def go(t):
        if t.op in ('adt', 'tuple'):
            for x in (t.a[2] if t.op == 'adt' else t.a):
                go(x)
        elif t.op in ('pt', 'pt_uniform', 'base', 'arg', 'proj') and any(d is t or d in deps(t) for d in deps_on):
            out.append(t)
    go(res)
    return out


def illegal_seen(f):
    return any(a.op in ('a_isid', 'a_sc0') and l is True for a, l in f.map.items())


def c13(r):
    r.rule = ('every exported function with a group-element parameter, on an arbitrary state and arbitrary arguments: the result is '
              'Err(IllegalPointError) on every path on which a parameter is the neutral element, is a success only if no message '
              'element derived from a parameter is neutral, and IllegalPointError is returned on no other path')
    p = r.prog('aucpace')
    models.PRIME_ORDER[0] = True
    for f in api_methods(p):
        if f.get('impl_trait') or not any(is_adt(t, 'RistrettoPoint') for t in f['inputs']):
            continue
        s = Scn(p)
        vals, res = sym_call(s, f)
        peers = [v for v, t in zip(vals, f['inputs']) if is_adt(t, 'RistrettoPoint')]
        peers = [s.load(v) for v in peers]
        key = '%s::%s' % (impl_adt(f).split('::')[-1] if impl_adt(f) else '', f['name'])
        w = where(p, f)
        ill = FALSE
        for x in peers:
            ill = b_or(ill, models.isid(x))
        good = True
        for fc, (v, c) in walk(s.pc, (res, ill), s.e.context):
            r.count('paths')
            e = errname(v)
            if c is TRUE:
                if e != 'Err(IllegalPointError)':
                    good = False
                    r.violate('neutral:' + key, w, 'a neutral group element gives %s instead of Err(IllegalPointError) on the path %s' % (e, showfacts(fc)))
                    break
                continue
            if e == 'Err(IllegalPointError)' and not illegal_seen(fc):
                good = False
                r.violate('refused:' + key, w, 'IllegalPointError although no group element is neutral, on the path %s' % showfacts(fc))
                break
            if e in ('Ok', '?') or not e.startswith('Err'):
                for m in message_points(v, peers):
                    d = models.isid(m)
                    bad = d is TRUE or (d.op == 'case' and any(True for _ in walk(d, (), fc)))
                    if bad:
                        good = False
                        r.violate('derived:' + key, w, 'a derived group element sent to the peer may be neutral: %s on the path %s' % (short(m, 200), showfacts(fc)))
                        break
                if not good:
                    break
        if good:
            r.held(key)
        r.count('entry_points')
        panics(r, s, 'panic:' + key, f['name'])
        r.used(s)
    r.floor('entry_points', 10)


# ---------------------------------------------------------------- terms of the protocol
def HD(n, *parts):
    return Hs(DALG[0], B(bytes([n, 0, 0, 0])), *parts, n=I(64))


DALG = [None]


def use_alg(*vs):
    """the digest the analysed instance is generic over, read off its values"""
    algs = set()
    for v in vs:
        for t in deps(v) | {v}:
            if t.op == 'H':
                algs.add(t.a[0])
    if len(algs) != 1:
        raise AnchorMissing('a single digest algorithm (%d found)' % len(algs))
    DALG[0], = algs


def comp(pt):
    return lift(lambda x: models.tocomp(x, KIND), pt)


def pmul(p, k):
    return lift(lambda a, b: pmul_pt(a, b), p, k)


def from_hash(h):
    return lift(lambda x: mk('pt_uniform', KIND, x), h)


def c15(r):
    r.rule = ('identifier of either role after agree_ssid with an arbitrary peer nonce compared with H(0|server nonce|client nonce); '
              'outcome of begin_prestablished_ssid on an arbitrary byte string compared with the 16-byte threshold')
    p = r.prog('aucpace')
    peer = arg('peer_nonce', mk('cparam', 'K1'))
    for side in ('client', 'server'):
        T = 'AuCPace' + side.capitalize()
        s = Scn(p)
        me = s.cell(s.call(T, 'new', s.rng('R')))
        t = s.call(T, 'begin', me)
        own = s.payload(s.f(t, 1), 'Nonce')
        n = s.call(T + 'SsidEstablish', 'agree_ssid', s.f(t, 0), peer)
        ssid = s.fieldn(n, 'ssid')
        use_alg(ssid)
        want = HD(0, own, peer) if side == 'server' else HD(0, peer, own)
        same(r, s, side + ':agreed', ssid, want, '%s: agreed session identifier' % side)
        panics(r, s, side + ':panic', 'begin and agree_ssid')
        r.used(s)
        # pre-established
        s = Scn(p)
        me = s.cell(s.call(T, 'new', s.rng('R')))
        res = s.call(T, 'begin_prestablished_ssid', me, SSID)
        outcome(r, s, side + ':preset', res, {'InsecureSsid': ints_lt(seqlen(SSID), 16)}, 'begin_prestablished_ssid')
        ssid = s.fieldn(s.ok(res), 'ssid')
        same(r, s, side + ':preset-hash', ssid, HD(0, SSID), '%s: identifier from a pre-established one' % side)
        panics(r, s, side + ':panic', 'begin_prestablished_ssid')
        r.count('roles')
        r.used(s)
    r.floor('roles', 2)


def outcome(r, s, key, res, conds, what, payload=None, first=(), facts=None):
    """res is Ok exactly when no failure condition holds, and an error names a
    failure condition that does hold (conditions in `first` take precedence)"""
    names = list(conds)
    w = fn_where(s)
    for f, vs in walk(s.pc, (res,) + tuple(undef_false(conds[n]) for n in names), facts or s.e.context):
        r.count('paths')
        v, cs = vs[0], dict(zip(names, vs[1:]))
        fails = [n for n in names if cs[n] is TRUE]
        e = errname(v)
        want = ['Err(%s)' % n.split('#')[0] for n in fails] or ['Ok']
        pre = ['Err(%s)' % n for n in fails if n in first]
        if pre:
            want = pre
        if e not in want:
            if e == 'Ok':
                k = '%s:unreported:%s' % (key, fails[0].split('#')[0] if fails else '')
            else:
                k = '%s:%s' % (key, e)
            r.violate(k, w, '%s returns %s where %s is required, on the path %s' % (what, e, ' or '.join(want), showfacts(f)))
            return False
        if payload is not None:
            d = payload(f, v, fails)
            if d:
                r.violate(key + ':payload', w, '%s: %s, on the path %s' % (what, d, showfacts(f)))
                return False
    r.held(what + ': outcome')
    return True


def c16(r):
    r.rule = ('result of receive_server_authenticator / receive_client_authenticator on arbitrary 64 bytes compared with whole-value '
              'equality to the other side\'s authenticator, the released key and reply with their definitions')
    p = r.prog('aucpace')
    models.PRIME_ORDER[0] = True
    auth = arg('authenticator', I(64))
    P = arg('peer_point')
    # client
    s = Scn(p)
    f = method(p, 'AuCPaceClientRecvServerKey', 'receive_server_pubkey')
    vals, res = sym_call(s, f, {1: P})
    t = s.ok(res)
    ssid, sk1, ta, tb = schedule(s, vals[0], P)
    sent = s.payload(s.f(t, 1), 'Authenticator')
    same(r, s, 'client:sent', sent, tb, 'authenticator sent by the client')
    res = s.call('AuCPaceClientExpMutAuth', 'receive_server_authenticator', s.f(t, 0), auth)

    def okc(f, v):
        k = v.a[2][0]
        if k is not norm(HD(5, ssid, sk1), f):
            r.violate('client:key', fn_where(s), 'the key released is %s' % short(k, 300))
    srp_check_mac(r, s, 'client', res, ta, auth, 'MutualAuthFail', okc)
    panics(r, s, 'client:panic', 'explicit authentication')
    r.count('verifications')
    r.used(s)
    # server
    s = Scn(p)
    f = method(p, 'AuCPaceServerRecvClientKey', 'receive_client_pubkey')
    vals, res = sym_call(s, f, {1: P})
    st = s.okmaybe(res, None)
    ssid, sk1, ta, tb = schedule(s, vals[0], P)
    res = s.call('AuCPaceServerExpMutAuth', 'receive_client_authenticator', st, auth)

    def oks(f, v):
        k, m = field(v.a[2][0], 0), field(v.a[2][0], 1)
        if k is not norm(HD(5, ssid, sk1), f):
            r.violate('server:key', fn_where(s), 'the key released is %s' % short(k, 300))
        if m.op != 'adt' or m.a[1] != 'Authenticator' or m.a[2][0] is not norm(ta, f):
            r.violate('server:reply', fn_where(s), 'the authenticator returned is %s' % short(m, 300))
    srp_check_mac(r, s, 'server', res, tb, auth, 'MutualAuthFail', oks)
    panics(r, s, 'server:panic', 'explicit authentication')
    r.count('verifications')
    r.used(s)
    r.floor('verifications', 2)
    other_exits(r, p)


def other_exits(r, p):
    """no further exported operation of the waiting states hands out anything
    computed from the first session key"""
    import lints
    for st, known in (('AuCPaceClientExpMutAuth', 'receive_server_authenticator'), ('AuCPaceServerExpMutAuth', 'receive_client_authenticator')):
        for f in p.d['fns']:
            if not f['isfn'] or 'inputs' not in f or f.get('inst') is None or not (f['exported'] or f.get('impl_trait')):
                continue
            if f.get('impl_trait') and trait_last(f) in lints.TRAITS_OK or f['name'] == known and not f.get('impl_trait'):
                continue
            at = [i for i, t in enumerate(f['inputs']) if lints.mentions(t, st)]
            if not at:
                continue
            s = Scn(p)
            vals, res = sym_call(s, f)
            secret = set()
            for i in at:
                v = s.load(vals[i]) if f['inputs'][i]['k'] == 'ref' and f['inputs'][i]['m'] else vals[i]
                for _, l in leaves(v):
                    if l.op == 'adt':
                        secret |= {x for n, x in zip(fieldnames(p, l), l.a[2]) if n != 'ssid'}
            r.count('other_operations')
            for _, v in leaves(res):
                if v is not UNDEF and (deps(v) | {v}) & secret and not lints.mentions(f['output'], st):
                    r.violate('exit:' + f['name'], fn_where(s), '%s gives away %s without an authenticator having been checked' % (f['path'], short(v, 200)))
                    break
            else:
                r.held(f['path'])


def fieldnames(p, v):
    a = p.adts.get(v.a[0])
    return [ff['n'] for ff in a['variants'][0]['fields']] if a and len(a['variants']) == 1 else []


def srp_check_mac(*a):
    import srp
    return srp.check_mac(*a)


def scalar_field(s, v):
    """the private scalar of a key-exchange state"""
    def g(x):
        a = s.p.adts.get(x.a[0])
        c = [i for i, ff in enumerate(a['variants'][0]['fields']) if is_adt(ff['ty'], 'Scalar')]
        if len(c) != 1:
            raise AnchorMissing('private scalar of ' + x.a[0])
        return x.a[2][c[0]]
    return lift(g, v)


def schedule(s, state, P):
    """(ssid, sk1, ta, tb) of a key-exchange state and a peer point"""
    ssid = s.fieldn(state, 'ssid')
    k = scalar_field(s, state)
    find_alg(s)
    sk1 = HD(2, ssid, comp(pmul(P, k)))
    return ssid, sk1, HD(3, ssid, sk1), HD(4, ssid, sk1)


def find_alg(s):
    """digest parameter of the crate's types, from a run of begin_prestablished_ssid"""
    c = Scn(s.p)
    me = c.cell(c.call('AuCPaceServer', 'new', c.rng('X')))
    use_alg(c.call('AuCPaceServer', 'begin_prestablished_ssid', me, SSID))


# ---------------------------------------------------------------- C17
def c17(r):
    r.rule = ('public keys, first session key, authenticators and session key of both roles, on arbitrary states and peer elements, '
              'compared with their definitions under domains 1 to 5; password-related strings compared with the encoded shared element')
    p = r.prog('aucpace')
    models.PRIME_ORDER[0] = True
    P = arg('peer_point')
    for side in ('client', 'server'):
        T = 'AuCPace' + side.capitalize()
        recv = T + ('RecvServerKey' if side == 'client' else 'RecvClientKey')
        for explicit in (True, False):
            s = Scn(p)
            find_alg(s)
            f = method(p, T + 'CPaceSubstep', 'generate_public_key')
            vals, t = sym_call(s, f, {1: CI})
            st0 = vals[0]
            ssid, prs = s.fieldn(st0, 'ssid'), s.fieldn(st0, 'prs')
            pub = s.payload(s.f(t, 1), 'PublicKey')
            gen = from_hash(HD(1, ssid, prs, CI))
            state = s.f(t, 0)
            k = scalar_field(s, state)
            if explicit:
                same(r, s, side + ':generator', pub, pmul(gen, k), '%s: public key is the session generator to the private scalar' % side)
                same(r, s, side + ':ssid', s.fieldn(state, 'ssid'), ssid, '%s: identifier carried to the next step' % side)
            sk1 = HD(2, ssid, comp(pmul(P, k)))
            key = HD(5, ssid, sk1)
            ta, tb = HD(3, ssid, sk1), HD(4, ssid, sk1)
            if not explicit:
                got = s.ok(s.call(recv, 'implicit_auth', state, P))
                same(r, s, side + ':implicit-key', got, key, '%s: session key (implicit)' % side)
            elif side == 'client':
                t = s.ok(s.call(recv, 'receive_server_pubkey', state, P))
                same(r, s, 'client:tb', s.payload(s.f(t, 1), 'Authenticator'), tb, 'client: authenticator sent')
                got = s.ok(s.call(T + 'ExpMutAuth', 'receive_server_authenticator', s.f(t, 0), ta))
                same(r, s, 'client:key', got, key, 'client: session key')
            else:
                t = s.okmaybe(s.call(recv, 'receive_client_pubkey', state, P), None)
                t = s.ok(s.call(T + 'ExpMutAuth', 'receive_client_authenticator', t, tb))
                same(r, s, 'server:ta', s.payload(s.f(t, 1), 'Authenticator'), ta, 'server: authenticator sent')
                same(r, s, 'server:key', s.f(t, 0), key, 'server: session key')
            panics(r, s, side + ':panic', 'key schedule')
            r.count('schedules')
            r.used(s)
    # strong variants: element blinded at login and salt element at registration
    for c in combos(p):
        R = Run(p, *c)
        if not (R.agreed and R.explicit) or R.reg_alloc != R.alloc:
            continue
        s = R.s
        R.parties()
        R.ssids()
        R.client_start()
        z = from_hash(HD(1, USER, PW))
        if R.strong:
            b = R.blinded
            good = True
            for f, (x,) in walk(s.pc, (b,), s.e.context):
                d = ptd(x) if x is not UNDEF else {}
                if list(d) != [z]:
                    good = False
                    r.violate('blinded', R.w['start_msg'], 'the blinded element is %s, not a multiple of from_hash(H1(user|password))' % short(x, 300))
                    break
            if good:
                r.held('blinded element of %s' % R.name())
        X, SP = arg('x_pub'), arg('blinded_salt' if R.strong else 'salt')
        R.client_cpace(X, SP)
        pw = [mk('pwhash', *e[2]) for e in s.e.trace if e[0] == 'pwhash']
        w = lift(hash_scalar, pw[-1]) if pw else UNDEF
        same(r, s, 'client:prs', R.v['c_prs'], comp(pmul(X, w)), 'client: password-related string (%s)' % R.name())
        r.count('strings')
        r.used(s)
    r.floor('schedules', 4)
    r.floor('strings', 8)


def hash_scalar(pw):
    """the scalar a complete password hash stands for"""
    h = hash_bytes(pw)
    return models.sc_le(h)


def hash_opt(pw):
    return field(mk('as', pw, 'Ok') if pw.op != 'adt' else pw, 0)


def hash_bytes(pw):
    x = field(field(mk('as', pw, 'Ok'), 0), HASH_FIELD)
    return field(mk('as', x, 'Some'), 0)


HASH_FIELD = 4        # password_hash::PasswordHash { algorithm, version, params, salt, hash }


# ---------------------------------------------------------------- C18, C19
def root_of(rng):
    """the generator a stream state comes from"""
    rs = {x for x in deps(rng) | {rng} if x.op == 'rng0'}
    return next(iter(rs)) if len(rs) == 1 else rng


def draws(t):
    return {x for x in deps(t) | {t} if x.op == 'draw'}


class Decoy:
    """one login attempt for a username with no stored verifier"""

    def __init__(self, p, variant, keypair, sv=None, s=None, tag='', blinded=None):
        self.s = s = s or Scn(p)
        models.PRIME_ORDER[0] = True
        self.variant, self.keypair = variant, keypair
        self.strong, self.partial = 'strong' in variant, 'partial' in variant
        self.sv = sv or s.cell(s.call('AuCPaceServer', 'new', s.rng('S')))
        # the server secret is what construction drew
        self.secret_draws = set()
        for _, l in leaves(s.load(self.sv)):
            self.secret_draws |= {d for d in draws(l) if d.a[0] == 'int' or d.a[0] == 'bytes'}
        s.e.traithook['lookup_verifier'] = lambda cx, la: NONE
        s.e.traithook['lookup_verifier_strong'] = lambda cx, la: NONE
        if keypair is None:
            s.e.traithook['lookup_long_term_keypair'] = lambda cx, la: NONE
        else:
            s.e.traithook['lookup_long_term_keypair'] = lambda cx, la: some(tup(*keypair))
        st = s.ok(s.call('AuCPaceServer', 'begin_prestablished_ssid', self.sv, SSID))
        self.blinded = blinded or arg('blinded')
        a = [st, USER] + ([self.blinded] if self.strong else []) + [DB, mk('rng0', 'SI' + tag)]
        self.res = s.call('AuCPaceServerAugLayer', Run.SRV_INFO[variant], *a)
        self.where = fn_where(s)
        t = s.ok(self.res) if self.strong else self.res
        self.state, self.msg = s.f(t, 0), s.f(t, 1)
        self.prs = s.fieldn(self.state, 'prs')
        self.x_pub = s.fieldn(self.msg, 'x_pub')
        self.salt = s.fieldn(self.msg, 'blinded_salt' if self.strong else 'salt')
        self.params = s.fieldn(self.msg, 'pbkdf_params')
        self.group = s.fieldn(self.msg, 'group')


def decoys(p, **kw):
    for v in VARIANTS:
        if 'partial' in v:
            yield Decoy(p, v, None, **kw)
            yield Decoy(p, v, (arg('kp_priv'), arg('kp_pub')), **kw)
        else:
            yield Decoy(p, v, None, **kw)


def free_atoms(t):
    """leaf symbols a value depends on"""
    return {x for x in deps(t) | {t} if x.op in ('arg', 'draw', 'lookup', 'const', 'proj', 'app', 'opaque', 'cell')}


def complete_in_hash(t, whole):
    """some hash input inside t has `whole` as one complete segment next to the
    server secret, itself complete"""
    for h in deps(t) | {t}:
        if h.op == 'H':
            segs = h.a[1].a if h.a[1].op == 'cat' else (h.a[1],)
            if whole in segs:
                yield h, segs


def draw_bits(d):
    n = d.a[2]
    if n.op != 'int':
        return 64           # a size the type fixes: not bounded here
    return n.a[0] * (8 if d.a[0] == 'bytes' else 1)


def secret_segment(x, secrets):
    """x encodes a whole server secret"""
    return x in secrets or x.op in ('le', 'bei', 'be', 'lez') and x.a[0] in secrets and (len(x.a) < 2 or x.a[1] is None or width(x.a[1]) >= 8)


def width(n):
    return n.a[0] if isinstance(n, T) and n.op == 'int' else n if isinstance(n, int) else 0


def decoy_value(r, key, w, t, secrets, extra, what, minlen=16):
    """t is a function of the server secret and the complete username only
    (plus `extra` symbols), through a hash of both"""
    bad = {a for a in free_atoms(t) if a is not USER and a not in secrets and a not in extra
           and not (a.op == 'draw' and a in secrets)}
    bad = {a for a in bad if a.op in ('draw', 'lookup', 'arg', 'app', 'opaque')}
    if bad:
        r.violate(key + ':depends', w, '%s depends on more than the server secret and the username: %s' % (what, ', '.join(short(x, 80) for x in sorted(bad, key=lambda x: x.n))))
        return False
    ok = [h for h, segs in complete_in_hash(t, USER) if any(secret_segment(x, secrets) for x in segs)]
    if not ok:
        r.violate(key + ':derivation', w, '%s is not derived from a hash of the complete server secret and username: %s' % (what, short(t, 300)))
        return False
    r.held(what)
    return True


def unguessable_bytes(t, n):
    """t is (an encoding of) at least n bytes of hash output"""
    if t.op == 'b64':
        t = t.a[0]
    segs = t.a if t.op == 'cat' else (t,)
    tot = 0
    for x in segs:
        L = seqlen(x)
        if L.op != 'int':
            return False
        base = x.a[0] if x.op == 'slice' else x
        if base.op in ('H', 'draw', 'le_mod', 'scbytes', 'compress'):
            tot += L.a[0]
    return tot >= n


def c18(r):
    r.rule = ('reply of all four generate_client_info functions when a lookup returns None: same message variant and group as for a '
              'registered user, salt (or salt exponent) a function of the server secret and the complete username through a hash of '
              'both, password-related string a full 32-byte fresh draw, and no error other than for a neutral blinded element')
    p = r.prog('aucpace')
    genuine = {}
    for v in VARIANTS:
        R = Run(p, v)
        R.parties()
        R.register()
        R.ssids()
        R.client_start()
        R.server_info()
        genuine[v] = (R.v['info'], R.s)
    for D in decoys(p):
        s, w = D.s, D.where
        nm = '%s%s' % (D.variant, ':keypair' if D.keypair else '')
        secrets = D.secret_draws
        if not secrets:
            r.violate('secret:' + nm, w, 'the server object holds no random secret')
            continue
        if not any(draw_bits(d) >= 64 for d in secrets):
            r.violate('secret:short:' + nm, w, 'the server secret behind the decoys has fewer than 64 random bits: %s' % ', '.join(short(d, 80) for d in secrets))
        # no distinguishable failure
        if D.strong:
            for f, (v, c) in walk(TRUE, (D.res, models.isid(D.blinded)), s.e.context):
                if errname(v) != 'Ok' and not illegal_seen(f):
                    r.violate('error:' + nm, w, 'a failed lookup is answered with %s on the path %s' % (errname(v), showfacts(f)))
                    break
        g, gs = genuine[D.variant]
        gv = {(x.a[0], x.a[1]) for _, x in leaves(g) if x is not UNDEF}
        ok = True
        for f, (m, prs, salt, xp, grp) in walk(s.pc, (D.msg, D.prs, D.salt, D.x_pub, D.group), s.e.context):
            r.count('paths')
            if degenerate(f):
                continue
            if m is UNDEF or m.op != 'adt' or (m.a[0], m.a[1]) not in gv:
                r.violate('variant:' + nm, w, 'the reply for an unknown user is %s, for a registered one %s' % (short(m, 120), gv))
                ok = False
                break
            gg = {x for _, x in leaves(gs.fieldn(g, 'group'))}
            if grp not in gg:
                r.violate('group:' + nm, w, 'group name %s differs from the one in genuine replies' % short(grp))
            # password-related string
            d = prs
            if not (d.op == 'draw' and d.a[0] == 'bytes' and d.a[2] is I(32)):
                r.violate('prs:' + nm, w, 'the password-related string of an unknown user is %s, not 32 fresh random bytes' % short(d, 200))
                ok = False
            # salt
            if D.strong:
                dd = ptd(salt)
                if list(dd) != [D.blinded]:
                    r.violate('salt:' + nm, w, 'the blinded decoy salt is %s' % short(salt, 200))
                    ok = False
                else:
                    q = dd[D.blinded]
                    ok &= decoy_value(r, 'salt:' + nm, w, q, secrets, (), 'decoy salt exponent (%s)' % nm)
                    if q.op == 'scint' or not any(x.op in ('le_mod', 'H') for x in deps(q) | {q}):
                        r.violate('salt:const:' + nm, w, 'the decoy salt exponent is %s' % short(q))
            else:
                ok &= decoy_value(r, 'salt:' + nm, w, salt, secrets, (), 'decoy salt (%s)' % nm)
                if not unguessable_bytes(salt, 16):
                    r.violate('salt:short:' + nm, w, 'the decoy salt has fewer than 16 bytes of hash output: %s' % short(salt, 200))
                    ok = False
            # ephemeral public key: fresh, or repeatable and derived like the salt
            if D.partial and D.keypair is None:
                ok &= decoy_value(r, 'x_pub:' + nm, w, xp, secrets, (), 'decoy public key (%s)' % nm)
                if xp in (D.prs,) or xp.op in ('base',):
                    r.violate('x_pub:const:' + nm, w, 'constant decoy public key')
                if models.isid(xp) is TRUE:
                    r.violate('x_pub:const:' + nm, w, 'the decoy public key is the neutral element')
            elif D.partial:
                if xp is not D.keypair[1]:
                    r.violate('x_pub:' + nm, w, 'the stored public key is not the one sent: %s' % short(xp, 200))
                    ok = False
            else:
                if not any(x.a[1].op and root_of(x.a[1]) is mk('rng0', 'SI') for x in draws(xp)):
                    r.violate('x_pub:' + nm, w, 'the ephemeral key for an unknown user is %s, not fresh' % short(xp, 200))
                    ok = False
        # the handshake continues
        k = s.call('AuCPaceServerCPaceSubstep', 'generate_public_key', D.state, CI)
        if not undecided_none(k):
            r.held('handshake continues (%s)' % nm)
        panics(r, s, 'panic:' + nm, 'a failed lookup')
        r.count('decoys')
        r.used(s)
    r.floor('decoys', 6)


def undecided_none(v):
    return v is UNDEF


def multiplier(v, pt):
    """the scalar pt is multiplied with in v; the value itself when v is no
    multiple of pt"""
    def g(x):
        if x is UNDEF:
            return x
        d = ptd(x)
        return d[pt] if list(d) == [pt] else x
    return lift(g, v)


def c19(r):
    r.rule = ('two login attempts for the same username in two sessions of one server, registered and unregistered: fields of the reply '
              'that are equal across attempts for a registered user are equal for an unregistered one and conversely; shapes of salt '
              'and parameters compared with registration output')
    p = r.prog('aucpace')
    models.PRIME_ORDER[0] = True
    for variant in VARIANTS:
        strong, partial = 'strong' in variant, 'partial' in variant
        vals = {}
        for kind in ('genuine', 'decoy'):
            s = Scn(p)
            sv = s.cell(s.call('AuCPaceServer', 'new', s.rng('S')))
            if kind == 'genuine':
                rec = (arg('W'), arg('q' if strong else 'stored_salt'), arg('stored_params'))
                s.e.traithook['lookup_verifier_strong' if strong else 'lookup_verifier'] = lambda cx, la, rec=rec: some(tup(*rec))
                s.e.traithook['lookup_long_term_keypair'] = lambda cx, la: some(tup(arg('kp_priv'), arg('kp_pub')))
            else:
                for h in ('lookup_verifier_strong', 'lookup_verifier', 'lookup_long_term_keypair'):
                    s.e.traithook[h] = lambda cx, la: NONE
            out = []
            for i in (1, 2):
                st = s.ok(s.call('AuCPaceServer', 'begin_prestablished_ssid', sv, arg('ssid%d' % i)))
                bl = arg('blinded%d' % i)
                a = [st, USER] + ([bl] if strong else []) + [DB, mk('rng0', 'SI%d' % i)]
                t = s.call('AuCPaceServerAugLayer', Run.SRV_INFO[variant], *a)
                w = fn_where(s)
                if strong:
                    t = s.ok(t)
                m = s.f(t, 1)
                o = {n: s.fieldn(m, n) for n in ('group', 'x_pub', 'pbkdf_params')}
                if strong:
                    # the client knows its blinded element and can send a
                    # different one each time: what repeats is the multiplier
                    o['salt exponent'] = multiplier(s.fieldn(m, 'blinded_salt'), bl)
                else:
                    o['salt'] = s.fieldn(m, 'salt')
                out.append(o)
            fixed = {}
            for n in out[0]:
                eq = set()
                for f, (x, y) in walk(s.pc, (out[0][n], out[1][n]), s.e.context):
                    r.count('paths')
                    if degenerate(f):
                        continue
                    eq.add(x is y)
                fixed[n] = eq
            vals[kind] = (fixed, out, w)
            r.used(s)
        for n in vals['genuine'][0]:
            g, d = vals['genuine'][0][n], vals['decoy'][0][n]
            r.count('fields')
            if g != d:
                r.violate('varies:%s:%s' % (variant, n), vals['decoy'][2],
                          'repeated for one username, the field %s of the reply is %s for a registered user and %s for an unregistered one' % (
                              n, 'fixed' if g == {True} else 'fresh', 'fixed' if d == {True} else 'fresh' if d == {False} else 'sometimes fixed'))
            else:
                r.held('%s of %s' % (n, variant))
        # shapes
        s0 = vals['decoy'][1][0]
        w = vals['decoy'][2]
        if not strong:
            R = Run(p, variant)
            R.parties()
            R.register()
            gl = {repr(show(seqlen(x))) for _, x in leaves(R.salt) if x is not UNDEF}
            dl = {repr(show(seqlen(x))) for _, x in leaves(s0['salt']) if x is not UNDEF}
            if gl != dl:
                r.violate('shape:salt:' + ','.join(sorted(dl)).strip("'"), w, 'decoy salts have %s characters, the salts registration generates %s' % (','.join(dl), ','.join(gl)))
            else:
                r.held('salt length of ' + variant)
        ps = {x for _, x in leaves(s0['pbkdf_params'])}
        if not any(x.op in ('arg', 'proj', 'app', 'as') and not (x.op == 'const') for x in ps):
            r.violate('shape:params:' + ','.join(short(x, 40) for x in sorted(ps, key=lambda x: x.n)), w, 'the hasher parameters of a decoy reply are always %s, those of a registered user the ones stored' % ', '.join(short(x, 80) for x in ps))
    r.floor('fields', 16)


# ---------------------------------------------------------------- credential hashing
class Hashing:
    """one of the eight functions that hash credentials, on arbitrary credentials"""

    def __init__(self, p, kind, variant, alloc):
        models.PRIME_ORDER[0] = True
        R = self.R = Run(p, variant, alloc, alloc)
        s = self.s = R.s
        R.parties()
        self.alloc, self.kind, self.strong = alloc, kind, R.strong
        self.illegal = FALSE
        self.salt_in = None
        if kind == 'register':
            n0 = len(s.e.trace)
            self.pc0 = s.pc
            self.res = s.call('AuCPaceClient', R.reg_name(), R.cl, USER, PW, PARAMS, HASHER)
            self.fn = R.reg_name()
        else:
            c = s.ok(s.call('AuCPaceClient', 'begin_prestablished_ssid', R.cl, SSID))
            R.c = c
            R.client_start()
            X = self.X = arg('x_pub')
            self.salt_in = S = arg('blinded_salt' if R.strong else 'salt')
            n0 = len(s.e.trace)
            ty = 'StrongAuCPaceClientAugLayer' if R.strong else 'AuCPaceClientAugLayer'
            self.fn = 'generate_cpace' + ('_alloc' if alloc else '')
            self.pc0 = s.pc
            self.res = s.call(ty, self.fn, R.c, X, S, PARAMS, HASHER)
            self.illegal = models.isid(X)
            if R.strong:
                self.illegal = b_or(self.illegal, models.isid(S))
                self.ty = ty
        self.where = fn_where(s)
        self.trace = s.e.trace[n0:]
        self.events = [e for e in self.trace if e[0] == 'pwhash']
        self.name = '%s%s' % ('strong ' if R.strong else '', self.fn)
        self.key = ('strong:' if R.strong else '') + self.fn
        self.pw = None
        if self.events:
            self.pw = interp.lift_small(lambda *x: mk('pwhash', *x), self.events[-1][2]) if hasattr(interp, 'lift_small') else models.lift_small(lambda *x: mk('pwhash', *x), self.events[-1][2])

    def long(self):
        return FALSE if self.alloc else too_long()

    def conds(self):
        """failure conditions of the operation, in terms of inputs and library results"""
        pw = self.pw
        good = FALSE if pw is None else lift(lambda x: case(mk('a_discr', x, OKERR), (TRUE, FALSE)), pw)
        hopt = lift(lambda x: field(field(mk('as', x, 'Ok'), 0), HASH_FIELD), pw)
        has_hash = lift(lambda x: case(mk('a_discr', x, NS), (FALSE, TRUE)), hopt)
        L = lift(lambda x: seqlen(field(mk('as', x, 'Some'), 0)), hopt)
        size = lift(lambda n: b_or(ints_eq(n, I(32)), ints_eq(n, I(64))), L)
        c = {'UsernameOrPasswordTooLong': self.long(),
             'PasswordHashing': b_not(good),
             'HashEmpty': b_and(good, b_not(has_hash)),
             'HashSizeInvalid': b_and(good, b_and(has_hash, b_not(size)))}
        if self.kind == 'register':
            pt = mk('params_try', PARAMS)
            c['PasswordHashing#params'] = case(mk('a_discr', pt, OKERR), (FALSE, TRUE))
        else:
            c['IllegalPointError'] = b_or(self.illegal, self.zero_blinding())
        return c

    def zero_blinding(self):
        if not self.strong:
            return FALSE
        z = FALSE
        for _, b in leaves(self.R.blinded):
            for a, k in ptd(b).items():
                z = b_or(z, models.seq_sc(k, models.SC0))
        return z


def hashings(p):
    for kind in ('register', 'login'):
        for variant in ('plain', 'strong'):
            for alloc in (False, True):
                yield Hashing(p, kind, variant, alloc)


def c20(r):
    r.rule = ('argument of every password-hasher call reached from the four registration and four login functions compared with '
              'username | ":" | password; too-long error of the buffered functions compared with length + 1 > BUFSIZ')
    p = r.prog('aucpace')
    for h in hashings(p):
        s = h.s
        if len(h.events) == 0:
            r.violate('nohash:' + h.key, h.where, 'no call of the password hasher')
            continue
        want = cat(USER, B(b':'), PW)
        for _, pc, a, here in h.events:
            same(r, s, 'input:' + h.key, a[1], want, 'input of the password hasher in ' + h.name, pc=b_and(pc, s.pc) if pc is not TRUE else s.pc, wh=h.where)
            same(r, s, 'alg:' + h.key, tup(a[2], a[3]), tup(NONE, NONE), 'algorithm and version overrides in ' + h.name, pc=pc, wh=h.where)
            same(r, s, 'params:' + h.key, a[4], PARAMS, 'parameters passed to the hasher in ' + h.name, pc=pc, wh=h.where)
            r.count('hasher_calls')
        good = True
        for f, (v, c, ill) in walk(s.pc, (h.res, h.long(), h.illegal), s.e.context):
            r.count('paths')
            e = errname(v)
            tl = e == 'Err(UsernameOrPasswordTooLong)'
            if tl and c is not TRUE:
                good = False
                r.violate('refused:' + h.key, h.where, 'refuses credentials that fit the buffer, on the path %s' % showfacts(f))
                break
            if c is TRUE and not tl and not (ill is TRUE or e == 'Err(IllegalPointError)'):
                good = False
                r.violate('long:' + h.key, h.where, 'returns %s for credentials longer than the buffer, on the path %s' % (e, showfacts(f)))
                break
        if good:
            r.held('too-long outcome of ' + h.name)
        panics(r, s, 'panic:' + h.key, h.name)
        r.used(s)
    r.floor('hasher_calls', 4)


def c21(r):
    r.rule = ('outcome of the eight credential-hashing functions as a function of the hasher result: Ok exactly for a present hash of '
              '32 or 64 bytes, and then the verifier or password-related string uses the little-endian reduction of all bytes')
    p = r.prog('aucpace')
    for h in hashings(p):
        s = h.s
        if h.pw is None:
            r.violate('nohash:' + h.key, h.where, 'no call of the password hasher')
            continue
        c = h.conds()
        outcome(r, s, h.key, h.res, c, h.name, first=())
        v = s.payload(h.res, 'Ok')
        okc = undef_false(s.okcond(h.res))
        pc = b_and(s.pc, okc)
        w = lift(hash_scalar, h.pw)
        if h.kind == 'register':
            got, want = s.fieldn(restrict(v, pc), 'verifier'), lift(lambda k: pmul_pt(BASEPT, k), w)
        else:
            got, want = s.fieldn(restrict(v, pc), 'prs'), comp(pmul(h.X, w))
        same(r, s, 'scalar:' + h.key, got, want, 'value derived from the password hash in ' + h.name, pc=pc, wh=h.where)
        panics(r, s, 'panic:' + h.key, h.name)
        r.count('conversions')
        r.used(s)
    r.floor('conversions', 3)


def c30(r):
    r.rule = ('outcome of the eight credential-hashing functions: for each failing library call the result is the documented error, '
              'the PasswordHashing variant carries the error value of that very call, and success needs every call to have succeeded')
    p = r.prog('aucpace')
    for h in hashings(p):
        s = h.s
        if h.pw is None:
            r.violate('nohash:' + h.key, h.where, 'no call of the password hasher')
            continue

        def payload(f, v, fails):
            if errname(v) != 'Err(PasswordHashing)':
                return None
            e = v.a[2][0].a[2][0]
            allowed = []
            if 'PasswordHashing' in fails:
                allowed += [norm(field(mk('as', x, 'Err'), 0), f) for _, x in leaves(h.pw)]
            if 'PasswordHashing#params' in fails:
                allowed.append(norm(field(mk('as', mk('params_try', PARAMS), 'Err'), 0), f))
            if e not in allowed:
                return 'the error value is %s, not that of the call that failed' % short(e, 200)
        outcome(r, s, h.key, h.res, h.conds(), h.name, payload=payload)
        # the hasher gets the given parameters and a salt that encodes without error
        r.count('operations')
        panics(r, s, 'panic:' + h.key, h.name)
        r.used(s)
    # the hasher's own error is kept in the Display text and no Result is dropped
    r.floor('operations', 8)


def c37(r):
    r.rule = ('registration and login of each variant through the buffered and through the allocating operation, run symbolically on the '
              'same arguments and draws: wherever user | ":" | password fits the buffer both succeed or both fail, with the same result and '
              'client state, from the same draws and hasher calls, or with the same error when only one thing is wrong')
    p = r.prog('aucpace')
    models.PRIME_ORDER[0] = True
    fits = b_not(too_long())
    for kind in ('register', 'login'):
        for variant in ('plain', 'strong'):
            a, b = Hashing(p, kind, variant, False), Hashing(p, kind, variant, True)
            s, t = a.s, b.s
            name = '%s and %s' % (a.name, b.name)
            pc = b_and(b_and(s.pc, t.pc), fits)
            conds = list(a.conds().values())

            def accept(f, g, x):
                if errname(g).startswith('Err(') and errname(x).startswith('Err('):
                    return sum(norm(c, f) is not FALSE for c in conds) > 1
                return False
            same(r, s, 'result:' + a.key, a.res, b.res, 'outcome of %s' % name, pc=pc, wh=b.where, accept=accept)
            ok = b_and(pc, undef_false(s.okcond(a.res)))
            same(r, s, 'state:' + a.key, s.load(a.R.cl), t.load(b.R.cl), 'client after %s' % name, pc=ok, wh=b.where)
            for ev in ('pwhash', 'draw'):
                ea = [tup(*e[2]) if isinstance(e[2], (tuple, list)) else e[2] for e in a.trace if e[0] == ev and b_and(e[1], ok) is not FALSE]
                eb = [tup(*e[2]) if isinstance(e[2], (tuple, list)) else e[2] for e in b.trace if e[0] == ev and b_and(e[1], ok) is not FALSE]
                if len(ea) != len(eb):
                    r.violate('effects:%s:%s' % (ev, a.key), b.where, '%s: %d against %d %s' % (
                        name, len(ea), len(eb), 'calls of the password hasher' if ev == 'pwhash' else 'draws from the generator'))
                    continue
                for xa, xb in zip(ea, eb):
                    same(r, s, 'effects:%s:%s' % (ev, a.key), xa, xb, '%s of %s' % (
                        'call of the password hasher' if ev == 'pwhash' else 'draw', name), pc=ok, wh=b.where)
            r.used(s)
            r.used(t)
            r.count('pairs')
    r.floor('pairs', 4)


def c22(r):
    r.rule = ('fields of the four registration messages: username as given, verifier the base point to the scalar of the hash computed '
              'under exactly the salt (or the salt from the stated exponent) and parameters of the message, salt or exponent a full draw; '
              'login functions recompute the same scalar under the salt and parameters they are given')
    p = r.prog('aucpace')
    for h in hashings(p):
        s = h.s
        if h.pw is None:
            r.violate('nohash:' + h.key, h.where, 'no call of the password hasher')
            continue
        a = h.events[-1][2]
        salt_used = a[5]
        okc = undef_false(s.okcond(h.res))
        pc = b_and(s.pc, okc)
        v = restrict(s.payload(h.res, 'Ok'), pc)
        w = lift(hash_scalar, h.pw)
        z = None
        if h.strong:
            c = Scn(p)
            find_alg(c)
            z = from_hash(HD(1, USER, PW))
        if h.kind == 'register':
            same(r, s, 'username:' + h.key, s.fieldn(v, 'username'), USER, 'username in the message of ' + h.name, pc=pc, wh=h.where)
            same(r, s, 'verifier:' + h.key, s.fieldn(v, 'verifier'), lift(lambda k: pmul_pt(BASEPT, k), w), 'verifier of ' + h.name, pc=pc, wh=h.where)
            same(r, s, 'params:' + h.key, s.fieldn(v, 'params'), field(mk('as', mk('params_try', PARAMS), 'Ok'), 0), 'parameters in the message of ' + h.name, pc=pc, wh=h.where)
            same(r, s, 'params-used:' + h.key, a[4], PARAMS, 'parameters used by ' + h.name, pc=pc, wh=h.where)
            if h.strong:
                q = s.fieldn(v, 'secret_exponent')
                same(r, s, 'salt:' + h.key, salt_used, lift(models.mkb64, comp(pmul(z, q))), 'salt used by ' + h.name, pc=pc, wh=h.where)
                fresh(r, s, 'fresh:' + h.key, q, 'C', 'le_mod', 64, 'secret exponent of ' + h.name, pc, h.where)
            else:
                m = s.fieldn(v, 'salt')
                same(r, s, 'salt:' + h.key, salt_used, m, 'salt used and stated by ' + h.name, pc=pc, wh=h.where)
                fresh(r, s, 'fresh:' + h.key, m, 'C', 'b64', 16, 'salt of ' + h.name, pc, h.where)
        else:
            same(r, s, 'params-used:' + h.key, a[4], PARAMS, 'parameters used by ' + h.name, pc=pc, wh=h.where)
            same(r, s, 'prs:' + h.key, s.fieldn(v, 'prs'), comp(pmul(h.X, w)), 'password-related string of ' + h.name, pc=pc, wh=h.where)
            if h.strong:
                # unblinding: the salt is the received point to the inverse of the blinding value
                bl = [(x, k) for _, b in leaves(h.R.blinded) for x, k in ptd(b).items()]
                k = bl[0][1]
                want = lift(models.mkb64, comp(pmul(h.salt_in, terms.sinv(k))))
                same(r, s, 'salt:' + h.key, salt_used, want, 'salt recovered by ' + h.name, pc=pc, wh=h.where)
            else:
                same(r, s, 'salt:' + h.key, salt_used, h.salt_in, 'salt used by ' + h.name, pc=pc, wh=h.where)
        r.count('operations')
        panics(r, s, 'panic:' + h.key, h.name)
        r.used(s)
    r.floor('operations', 8)


def fresh(r, s, key, v, root, wrap, n, what, pc=None, wh=None):
    """v is wrap(draw of n bytes from the named generator) on every path"""
    for f, (x,) in walk(s.pc if pc is None else pc, (v,), s.e.context):
        d = x
        if wrap and x.op == wrap:
            d = x.a[0]
        if d.op != 'draw' or wrap and x.op != wrap:
            r.violate(key, wh or fn_where(s), '%s is %s, not a fresh draw from the given generator' % (what, short(x, 200)))
            return False
        ln = d.a[2]
        if (n is not None) and ln is not (n if isinstance(n, T) else I(n)):
            r.violate(key, wh or fn_where(s), '%s is drawn with %s bytes, %s expected' % (what, short(ln), n))
            return False
        rt = root_of(d.a[1])
        if rt is not mk('rng0', root):
            r.violate(key, wh or fn_where(s), '%s is drawn from %s instead of the supplied generator' % (what, short(rt)))
            return False
    r.held(what)
    return True


# ---------------------------------------------------------------- C29
def c29(r):
    r.rule = ('calls of the crate\'s database traits reached from each exported function: only lookups, keyed by exactly the username '
              'argument; the reply and the password-related string use the components of the record returned for it')
    p = r.prog('aucpace')
    models.PRIME_ORDER[0] = True
    seen = 0
    for f in api_methods(p):
        if f.get('impl_trait'):
            continue
        uses = [t for t in f.get('preds', []) if 'database::' in str(t)]
        if not uses:
            continue
        s = Scn(p)
        given = {}
        # arguments after self: username, [blinded element], database, generator
        names = [i for i, t in enumerate(f['inputs'])]
        given[1] = USER
        vals, res = sym_call(s, f, given)
        w = where(p, f)
        ev = [e for e in s.e.trace if e[0] == 'traitcall']
        looked = {}
        for _, pc, name, la, here in ev:
            if pc is FALSE:
                continue
            r.count('database_calls')
            if not name.startswith('lookup_'):
                r.violate('write:%s:%s' % (f['name'], name), w, 'the credential store is modified (%s) while authenticating' % name)
                continue
            for fc, (u,) in walk(b_and(pc, s.pc), (la[1],), s.e.context):
                if u is not USER:
                    r.violate('key:%s:%s' % (f['name'], name), w, '%s is called for %s instead of the username presented' % (name, short(u, 200)))
                    break
            else:
                r.held('%s in %s' % (name, f['name']))
            looked[name] = models.lift_small(lambda *xs: mk('lookup', name, *xs), la)
        if not looked:
            r.violate('nolookup:' + f['name'], w, 'no lookup in the credential store')
            continue
        strong, partial = 'lookup_verifier_strong' in looked, 'lookup_long_term_keypair' in looked
        lk = looked.get('lookup_verifier_strong') or looked.get('lookup_verifier')
        if lk is None:
            r.violate('nolookup:' + f['name'], w, 'the verifier of the user is never looked up')
            continue
        rec = field(mk('as', lk, 'Some'), 0)
        kp = field(mk('as', looked['lookup_long_term_keypair'], 'Some'), 0) if partial else None
        found = case(mk('a_discr', lk, NS), (FALSE, TRUE))
        if partial:
            found = b_and(found, case(mk('a_discr', looked['lookup_long_term_keypair'], NS), (FALSE, TRUE)))
        isres = any(l.op == 'adt' and l.a[0] == interp.RESULT for _, l in leaves(res)) if hasattr(interp, 'RESULT') else any(l.op == 'adt' and l.a[1] in OKERR for _, l in leaves(res))
        t = s.ok(res) if isres else res
        pc = b_and(s.pc, found)
        t = restrict(t, pc)
        st, m = s.f(t, 0), s.f(t, 1)
        prs = s.fieldn(st, 'prs')
        xp = s.fieldn(m, 'x_pub')
        blind = [v for v, ty in zip(vals, f['inputs']) if is_adt(ty, 'RistrettoPoint')]
        n = f['name']
        same(r, s, 'params:' + n, s.fieldn(m, 'pbkdf_params'), field(rec, 2), 'parameters in the reply of ' + n, pc=pc, wh=w)
        if strong:
            same(r, s, 'salt:' + n, s.fieldn(m, 'blinded_salt'), pmul(blind[0], field(rec, 1)), 'blinded salt in the reply of ' + n, pc=pc, wh=w)
        else:
            same(r, s, 'salt:' + n, s.fieldn(m, 'salt'), field(rec, 1), 'salt in the reply of ' + n, pc=pc, wh=w)
        if partial:
            same(r, s, 'x_pub:' + n, xp, field(kp, 1), 'public key in the reply of ' + n, pc=pc, wh=w)
            x = field(kp, 0)
        else:
            x = UNDEF
            for fc, (q,) in walk(pc, (xp,), s.e.context):
                d = ptd(q)
                x = d.get(BASEPT, UNDEF) if len(d) == 1 else UNDEF
                break
            if x is UNDEF:
                r.violate('x_pub:' + n, w, 'the ephemeral public key is not a multiple of the base point')
        if x is not UNDEF:
            same(r, s, 'prs:' + n, prs, comp(pmul(field(rec, 0), x)), 'password-related string of ' + n, pc=pc, wh=w)
        panics(r, s, 'panic:' + n, n)
        r.count('functions')
        r.used(s)
    r.floor('functions', 4)
    r.floor('database_calls', 3)
