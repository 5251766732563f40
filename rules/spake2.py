"""SPAKE2 rules: C07-C10."""
from common import *

KIND = 'ed25519'
ROLE = {'a': 0x41, 'b': 0x42, 'symmetric': 0x53}
PEER = {'a': 'b', 'b': 'a', 'symmetric': 'symmetric'}
SEED = {'a': b'M', 'b': b'N', 'symmetric': b'symmetric'}
_el = {}


def element(side):
    """the published role element, recomputed from its seed"""
    if side not in _el:
        p = algebra.arbitrary_element(SEED[side])
        _el[side] = mk('ptc', KIND, algebra.ed_compress(p))
    return _el[side]


BASEPT = mk('base', KIND)


def pw_scalar(pw):
    return mk('le_mod', brev(mk('okm', 'sha256', EMPTY, pw, B(b'SPAKE2 pw'), I(48))))


def fresh_scalar(draw_term):
    return draw_term


def inputs(s, names=('pw', 'idA', 'idB', 'idS')):
    d = {}
    for n in names:
        d[n] = arg(n)
    pw = s.call('Password', 'new', d['pw'])
    ids = {n: s.call('Identity', 'new', d[n]) for n in names if n != 'pw'}
    return d, pw, ids


def start(s, side, pw, ids, rng, os=False):
    name = 'start_' + side + ('' if os else '_with_rng')
    a = [ids['idS']] if side == 'symmetric' else [ids['idA'], ids['idB']]
    if not os:
        a.append(s.rng(rng))
    v = s.call('Spake2', name, pw, *a)
    w = fn_where(s)
    return s.f(v, 0), s.f(v, 1), w


def scalar_of(s, msg, side, d):
    """the private scalar of a session: read off the point it announced"""
    pws = pw_scalar(d['pw'])
    out = []
    for f, (m,) in walk(s.pc, (msg,), s.e.context):
        out.append((f, m))
    return out


X = {}


def rand_scalar(rng, i=0):
    return mk('le_mod', mk('draw', 'bytes', mk('rng0', rng), I(64)))


def outbound(side, d, x):
    P = padd_pt(pmul_pt(BASEPT, x), pmul_pt(element(side), pw_scalar(d['pw'])))
    return models.tocomp(P, KIND)


def sha(x):
    return Hs('sha256', x, n=I(32))


def key_spec(side, d, mine, theirs, x):
    """expected key for a received 32-byte encoding `theirs`"""
    peer = PEER[side]

    def leaf(t):
        Q = models.decompress(t, KIND)

        def g(o):
            if o.a[1] == 'None':
                return UNDEF
            K = pmul_pt(padd_pt(o.a[2][0], pneg_pt(pmul_pt(element(peer), pw_scalar(d['pw'])))), x)
            Kb = models.tocomp(K, KIND)
            if side == 'a':
                return sha(cat(sha(d['pw']), sha(d['idA']), sha(d['idB']), mine, t, Kb))
            if side == 'b':
                return sha(cat(sha(d['pw']), sha(d['idA']), sha(d['idB']), t, mine, Kb))
            lo_mine = sha(cat(sha(d['pw']), sha(d['idS']), mine, t, Kb))
            lo_their = sha(cat(sha(d['pw']), sha(d['idS']), t, mine, Kb))
            return ite(models.bytes_lt(mine, t), lo_mine, lo_their)
        return lift(g, Q)
    return lift(leaf, theirs)


SIDES = ('a', 'b', 'symmetric')


def c07(r):
    r.rule = ('both sides composed symbolically over arbitrary password, identities and independent private scalars; both finish '
              'with Ok and identical key terms on every feasible path, for either order of the messages')
    p = r.prog('spake2')
    for pair in (('a', 'b'), ('symmetric', 'symmetric')):
        for os in (False, True):
            s = Scn(p)
            if os and not has_method(p, 'Spake2', 'start_a'):
                continue
            d, pw, ids = inputs(s)
            s1, m1, w1 = start(s, pair[0], pw, ids, 'one', os)
            s2, m2, w2 = start(s, pair[1], pw, ids, 'two', os)
            k1 = s.call('Spake2', 'finish', s1, m2)
            k2 = s.call('Spake2', 'finish', s2, m1)
            holds(r, s, pair[0] + ':ok', s.okcond(k1), 'side %s accepts the honest message' % pair[0])
            holds(r, s, pair[1] + ':ok2', s.okcond(k2), 'side %s accepts the honest message' % pair[1])
            k1, k2 = s.ok(k1), s.ok(k2)
            same(r, s, '%s-%s:key' % pair, k1, k2, 'keys of the two sides (%s/%s%s)' % (pair + (', OS generator' if os else '',)))
            panics(r, s, 'panic', 'an honest exchange')
            r.count('exchanges')
            r.used(s)
    r.floor('exchanges', 4)


def decodable(t):
    return lift(lambda b: lift(lambda o: TRUE if o.a[1] == 'Some' else FALSE, models.decompress(b, KIND)), t)


def c08(r):
    r.rule = ('finish evaluated on an arbitrary byte string of arbitrary length for each role; outcome on every feasible path '
              'compared with the required outcome; every panic obligation on the path proved unreachable')
    p = r.prog('spake2')
    for side in SIDES:
        s = Scn(p)
        d, pw, ids = inputs(s)
        sess, m, _ = start(s, side, pw, ids, 'one')
        msg = arg('inmsg')
        n0 = len(s.e.oblig)
        res = s.call('Spake2', 'finish', sess, msg)
        ln = ints_eq(seqlen(msg), I(33))
        rb = ints_eq(at(msg, ZERO), I(ROLE[PEER[side]]))
        # decodability refers to the trailing 32 bytes; expressed under len == 33
        tail = bslice(msg, ONE, I(33))
        dec = decodable(tail)
        bad = False
        for f, (v, l, b, q) in walk(s.pc, (res, ln, rb, dec), s.e.context):
            r.count('paths')
            got = errname(v)
            if l is FALSE:
                want = ['Err(WrongLength)']
                if b is FALSE:
                    want.append('Err(BadSide)')
            else:
                want = []
                if b is FALSE:
                    want.append('Err(BadSide)')
                if q is FALSE:
                    want.append('Err(CorruptMessage)')
                if not want:
                    want = ['Ok']
            if got not in want:
                bad = True
                r.violate('%s:%s-not-%s' % (side, got, want[0]), fn_where(s), 'role %s returns %s, required: %s; path %s' % (
                    side, got, ' or '.join(want), showfacts(f)))
            elif l is FALSE and b is FALSE and got == 'Err(BadSide)' and ZERO_LEN(f, msg):
                bad = True
                r.violate('%s:empty' % side, fn_where(s), 'an empty message is reported as a wrong role')
        if not bad:
            r.held('finish for role %s accepts exactly the well-formed messages' % side)
        panics(r, s, 'panic', 'finishing with an arbitrary message')
        r.count('roles')
        r.used(s)
    r.floor('roles', 3)


def ZERO_LEN(f, msg):
    return f.decide(eq0(seqlen(msg)).a[0]) is True


def peer_fact(msg, side):
    """facts of a well-formed inbound message"""
    t = bslice(msg, ONE, I(33))
    facts = [(ints_eq(seqlen(msg), I(33)).a[0], True)]
    return facts, t


def c09(r):
    r.rule = ('the key term returned for an arbitrary accepted message compared with SHA-256 over the fixed-length transcript, '
              'including the whole-string order of the two messages in the symmetric case')
    p = r.prog('spake2')
    for side in SIDES:
        s = Scn(p)
        d, pw, ids = inputs(s)
        sess, m, _ = start(s, side, pw, ids, 'one')
        x = session_scalar(s, m, side, d)
        mine = lift(lambda t: bslice(t, ONE, I(33)), m)
        msg = arg('inmsg')
        res = s.call('Spake2', 'finish', sess, msg)
        k = s.ok(res)
        theirs = bslice(msg, ONE, I(33))
        want = key_spec(side, d, mine, theirs, x)
        facts = s.e.context.copy().add(ints_eq(seqlen(msg), I(33)).a[0], True)
        same(r, s, side + ':key', k, want, 'key of role ' + side, facts=facts)
        r.count('keys')
        r.used(s)
    r.floor('keys', 3)


def session_scalar(s, m, side, d):
    """private scalar = the coefficient of the base point in the announced point"""
    def g(t):
        if t.op == 'cat':
            for e in t.a:
                if e.op == 'compress':
                    c = ptd(e.a[0]).get(BASEPT)
                    if c is not None:
                        return c
        if t.op == 'slice' and False:
            return UNDEF
        return rand_scalar('one')
    return lift(g, m)


def c10(r):
    r.rule = ('outbound messages of every start function compared with role byte | encoding of base*x + element*pw, pw being the '
              'wide reduction of HKDF-SHA256; role elements recomputed from their published seeds')
    p = r.prog('spake2')
    for side in SIDES:
        for os in (False, True):
            if os and not has_method(p, 'Spake2', 'start_' + side):
                continue
            s = Scn(p)
            d, pw, ids = inputs(s)
            sess, m, w = start(s, side, pw, ids, 'one', os)
            x = session_scalar(s, m, side, d)
            want = lift(lambda q: cat(B(bytes([ROLE[side]])), outbound(side, d, q)), x)
            same(r, s, 'start_%s:message' % side, m, want, 'outbound message of start_%s%s' % (side, '' if os else '_with_rng'))
            # x is a full-width draw of this session's generator
            def isdraw(t):
                return t.op == 'le_mod' and t.a[0].op == 'draw' and t.a[0].a[0] == 'bytes' and t.a[0].a[2] is I(64)
            for f, (q,) in walk(s.pc, (x,), s.e.context):
                if isdraw(q):
                    r.held('start_%s: private scalar is a fresh 64-byte draw reduced modulo the order' % side)
                else:
                    r.violate('start_%s:scalar' % side, w, 'the private scalar is ' + short(q))
            panics(r, s, 'panic', 'starting a session')
            r.count('messages')
            r.used(s)
    # published constants, also through the public Group trait
    for nm, side in (('const_m', 'a'), ('const_n', 'b'), ('const_s', 'symmetric')):
        fs = [f for f in p.d['fns'] if f['name'] == nm and trait_last(f) == 'Group' and impl_adt(f) and impl_adt(f).endswith('Ed25519Group')]
        if len(fs) != 1:
            raise AnchorMissing('Ed25519Group::' + nm)
        s = Scn(p)
        v = s.call_fn(fs[0])
        same(r, s, nm, v, element(side), 'Ed25519Group::' + nm)
        r.count('constants')
        r.used(s)
    hs = [f for f in p.d['fns'] if f['name'] == 'hash_to_scalar' and trait_last(f) == 'Group']
    for f in hs:
        s = Scn(p)
        v = s.call_fn(f, arg('pw'))
        same(r, s, 'hash_to_scalar', v, pw_scalar(arg('pw')), 'password scalar')
        r.count('constants')
        r.used(s)
    r.floor('messages', 6)
    r.floor('constants', 4)
