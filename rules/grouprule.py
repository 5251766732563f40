"""C43: a SPAKE2 session over any group is the published session over that
group. The generic code is evaluated with its group parameter left open; the
trait's operations are known only by their contract."""
from common import *
from spake2 import ROLE, PEER, SIDES, inputs, start, sha
from models import GKIND, genc, gdec

CONST = {'a': 'm', 'b': 'n', 'symmetric': 's'}
BASE = mk('base', GKIND)


def const(side):
    return mk('gconst', CONST[side])


def pw_scalar(d):
    return mk('ghash', d['pw'])


def outbound(side, d, x):
    return genc(padd_pt(pmul_pt(BASE, x), pmul_pt(const(side), pw_scalar(d))))


def scalar_of(t):
    """the session's private scalar: the coefficient of the base point"""
    for e in (t.a if t.op == 'cat' else (t,)):
        if e.op == 'genc':
            c = ptd(e.a[0]).get(BASE)
            if c is not None:
                return c
    return UNDEF


def key_spec(side, d, mine, theirs, x):
    def g(o):
        if o.a[1] == 'None':
            return UNDEF
        K = genc(pmul_pt(padd_pt(o.a[2][0], pneg_pt(pmul_pt(const(PEER[side]), pw_scalar(d)))), x))
        if side == 'a':
            return sha(cat(sha(d['pw']), sha(d['idA']), sha(d['idB']), mine, theirs, K))
        if side == 'b':
            return sha(cat(sha(d['pw']), sha(d['idA']), sha(d['idB']), theirs, mine, K))
        return ite(models.bytes_lt(mine, theirs), sha(cat(sha(d['pw']), sha(d['idS']), mine, theirs, K)),
                   sha(cat(sha(d['pw']), sha(d['idS']), theirs, mine, K)))
    return lift(g, gdec(theirs))


def encoding(n):
    t = mk('arg', 'encoding%s' % ('' if n.op != 'int' else n.a[0]))
    KNOWN_LEN[t] = n
    return t


def begin(p, side, os=False, facts=()):
    s = Scn(p, facts)
    d, pw, ids = inputs(s)
    sess, m, w = start(s, side, pw, ids, 'one', os)
    return s, d, sess, m, w


def starts(r, p, side, os):
    s, d, sess, m, w = begin(p, side, os)
    x = lift(scalar_of, m)
    for f, (q,) in walk(s.pc, (x,), s.e.context):
        if q.op == 'gscalar' and q.a[0].op == 'draw':
            r.held('start_%s: private scalar drawn by the group' % side)
        else:
            r.violate('start_%s:scalar' % side, w, 'the private scalar is not one draw of the group: ' + short(q))
    want = lift(lambda q: cat(B(bytes([ROLE[side]])), outbound(side, d, q)), x)
    same(r, s, 'start_%s:message' % side, m, want, 'outbound message of start_%s%s' % (side, '' if os else '_with_rng'))
    panics(r, s, 'panic', 'starting a session over any group')
    r.count('messages')
    r.used(s)


def lengths(r, p, side):
    """arbitrary messages: refused for their length exactly when it is wrong"""
    s, d, sess, m, _ = begin(p, side)
    msg = arg('inmsg')
    res = s.call('Spake2', 'finish', sess, msg)
    n = zadd(models.GLEN[0], ONE)
    ln = ints_eq(seqlen(msg), n)
    rb = ints_eq(at(msg, ZERO), I(ROLE[PEER[side]]))
    bad = False
    for f, (v, l, b) in walk(s.pc, (res, ln, rb), s.e.context):
        r.count('paths')
        got = errname(v)
        if l is FALSE:
            good = got == 'Err(WrongLength)' or got == 'Err(BadSide)' and b is FALSE
        else:
            good = got != 'Err(WrongLength)'
        if not good:
            bad = True
            r.violate('%s:length:%s' % (side, got), fn_where(s), 'role %s returns %s for a message of %s length; path %s' % (
                side, got, 'another' if l is FALSE else 'the right', showfacts(f)))
    if not bad:
        r.held('finish for role %s refuses exactly the lengths other than 1 + element length' % side)
    r.used(s)
    return s


def wellformed(r, p, side, n):
    """messages of the right length: outcome and key"""
    old = models.GLEN[0]
    models.GLEN[0] = n
    try:
        other = n.op != 'int'
        s, d, sess, m, _ = begin(p, side, facts=[(ints_eq(n, I(32)).a[0], False)] if other else ())
        nst = len(s.e.oblig)
        x = lift(scalar_of, m)
        mine = lift(lambda t: bslice(t, ONE, zadd(n, ONE)), m)
        b0, theirs = mk('byte', mk('arg_int', 'role')), encoding(n)
        msg = cat(b0, theirs)
        res = s.call('Spake2', 'finish', sess, msg)
        w = fn_where(s)
        rb = ints_eq(at(msg, ZERO), I(ROLE[PEER[side]]))
        dec = lift(lambda o: TRUE if o.a[1] == 'Some' else FALSE, gdec(theirs))
        what = 'role %s over a group with %s elements' % (side, 'other than 32-byte' if other else '32-byte')
        key = '%s:elements-not-32' % side if other else side
        bad = False
        for f, (v, b, q) in walk(s.pc, (res, rb, dec), s.e.context):
            r.count('paths')
            got = errname(v)
            want = (['Err(BadSide)'] if b is FALSE else []) + (['Err(CorruptMessage)'] if q is FALSE else []) or ['Ok']
            if got not in want:
                bad = True
                r.violate('%s:%s-not-%s' % (key, got, want[0]), w, '%s returns %s, required: %s; path %s' % (
                    what, got, ' or '.join(want), showfacts(f)))
        if not bad:
            r.held('outcome of finish for ' + what)
        r.obligations += s.e.proved
        r.discharged += s.e.proved
        for i, o in enumerate(s.e.oblig):
            k = key + (':panic' if i >= nst else ':start-panic')
            r.violate(k, '%s:%s' % (o.fn, o.line), '%s: %s panics (%s)' % (what, 'finish' if i >= nst else 'start', o.kind))
        ok = b_and(s.pc, undef_false(s.okcond(res)))
        if ok is not FALSE:
            k = s.ok(res)
            same(r, s, key + ':key', k, lift(lambda q: key_spec(side, d, mine, theirs, q), x), 'key of ' + what)
            r.count('keys')
        r.used(s)
    finally:
        models.GLEN[0] = old


def c43(r):
    r.rule = ('the generic session code evaluated with the group left open (operations known only by the contract of the Group '
              'trait, element length symbolic): outbound message, acceptance, panics and key for every group')
    p = r.prog('spake2', 'generic')
    for side in SIDES:
        for os in (False, True):
            if not os or has_method(p, 'Spake2', 'start_' + side):
                starts(r, p, side, os)
        lengths(r, p, side)
        wellformed(r, p, side, I(32))
        wellformed(r, p, side, models.GLEN[0])
    r.floor('messages', 3)
    r.floor('keys', 3)
