"""C35: no branch, index, loop bound or variable-time comparison of SPAKE2 and
AuCPace depends on the contents of a secret."""
from common import *
import aucpace as AU
import spake2 as SP
from aucpace import VARIANTS
from fmtrule import Harvest, path_atoms

# what may be known about a secret value without knowing its contents
CUT = {'len', 'outlen', 'cparam', 'rngres', 'rng0', 'rngmut'}


def secrets_in(t, secrets, public):
    """secret symbols whose contents a term depends on, other than through what is sent"""
    out, seen = set(), set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen or x in public:
            return
        seen.add(x)
        if x.op in CUT:
            return
        if x in secrets or x.op in ('draw', 'pwhash'):
            out.add(x)
            return
        go(tuple(x.a))
    go(t)
    return out


def hasher_result(x):
    """the password hasher's own outcome: success, presence and length of its output"""
    while x.op in ('as', 'field', 'proj'):
        x = x.a[0]
    return x.op == 'pwhash'


def random_scalar(x):
    """a scalar that is exactly one random draw"""
    return x.op == 'draw' or x.op == 'le_mod' and x.a[0].op == 'draw'


def allowed(a):
    if a.op in ('a_cteq', 'a_isid'):
        return True             # C16: authenticator comparison, C13: refusal of the neutral element
    if a.op == 'a_sc0':
        return random_scalar(a.a[0])
    if a.op == 'a_discr':
        return hasher_result(a.a[0])
    return False


class Watch(Harvest):
    def errorfree(self):
        pass


def judge(r, s, h, what, start=0):
    """every recorded branch, index and comparison of a run"""
    bad = {}
    atoms = {}
    for ev in s.e.trace[start:]:
        if ev[0] == 'branch':
            c = restrict(ev[2], ev[1]) if ev[1] is not TRUE else ev[2]
            r.count('branches')
            for a in path_atoms(c):
                if a not in atoms:
                    atoms[a] = () if allowed(a) else secrets_in(a, h.secret, h.public)
                if atoms[a]:
                    bad.setdefault((ev[3], 'branches on'), (a, atoms[a]))
        elif ev[0] == 'index':
            r.count('indices')
            for x in secrets_in(ev[2], h.secret, h.public):
                bad.setdefault((ev[3], 'indexes with'), (ev[2], (x,)))
        elif ev[0] == 'compare':
            r.count('comparisons')
            both = [secrets_in(x, h.secret, h.public) for x in ev[2]]
            if both[0] or both[1]:
                bad.setdefault((ev[3], 'compares, other than in constant time,'), (ev[2][0] if both[0] else ev[2][1], both[0] or both[1]))
    for (loc, verb), (t, xs) in sorted(bad.items(), key=lambda kv: str(kv[0])):
        fn, line = loc
        r.violate('flow:%s:%s' % (verb.split()[0], short_fn(fn)), '%s:%s' % (fn, line),
                  '%s %s %s, which depends on the contents of the secret %s (%s)' % (
                      fn, verb, short(t, 300), ', '.join(short(x, 120) for x in list(xs)[:2]), what))
    if not bad:
        r.held(what)
    r.count('runs')
    r.used(s)


def stored(s, strong, partial):
    """a store that knows some users and not others"""
    W, q, kp = arg('stored_verifier'), arg('stored_exponent'), arg('stored_private')

    def ans(*xs):
        known = atom_bool(mk('a_eq0', mk('arg', 'user_is_unknown')))
        v = ite(known, NONE, some(tup(*xs)))
        return lambda cx, la: v
    s.e.traithook['lookup_verifier'] = ans(W, arg('stored_salt'), arg('stored_params'))
    s.e.traithook['lookup_verifier_strong'] = ans(W, q, arg('stored_params'))
    s.e.traithook['lookup_long_term_keypair'] = ans(kp, arg('stored_public'))
    return {W, q, kp}


def client_runs(p):
    """a client that meets arbitrary server messages"""
    for strong in (False, True):
        for alloc in (False, True):
            for preset in (False, True):
                for implicit in (False, True):
                    h = Watch(p)
                    h.secret |= {AU.PW}
                    with h:
                        s = Scn(p)
                        cl = s.cell(s.call('AuCPaceClient', 'new', s.rng('C')))
                        if preset:
                            c = s.ok(s.call('AuCPaceClient', 'begin_prestablished_ssid', cl, AU.SSID))
                        else:
                            t = s.call('AuCPaceClient', 'begin', cl)
                            c = s.call('AuCPaceClientSsidEstablish', 'agree_ssid', s.f(t, 0), arg('peer_nonce', mk('cparam', 'K1')))
                        if strong:
                            t = s.call('AuCPaceClientPreAug', 'start_augmentation_strong', c, AU.USER, AU.PW, s.rng('CB'))
                        else:
                            t = s.call('AuCPaceClientPreAug', 'start_augmentation', c, AU.USER, AU.PW)
                        c = s.f(t, 0)
                        ty = 'StrongAuCPaceClientAugLayer' if strong else 'AuCPaceClientAugLayer'
                        c = s.ok(s.call(ty, 'generate_cpace' + ('_alloc' if alloc else ''), c, arg('peer_x'), arg('peer_salt'), AU.PARAMS, AU.HASHER))
                        t = s.call('AuCPaceClientCPaceSubstep', 'generate_public_key', c, AU.CI, s.rng('CK'))
                        c = s.f(t, 0)
                        if implicit:
                            s.call('AuCPaceClientRecvServerKey', 'implicit_auth', c, arg('peer_key'))
                        else:
                            t = s.ok(s.call('AuCPaceClientRecvServerKey', 'receive_server_pubkey', c, arg('peer_key')))
                            s.call('AuCPaceClientExpMutAuth', 'receive_server_authenticator', s.f(t, 0), arg('peer_auth', I(64)))
                    yield s, h, 'client login (%s)' % ', '.join(n for n, b in (('strong', strong), ('alloc', alloc), ('preset', preset), ('implicit', implicit)) if b) or 'plain'


def server_runs(p):
    """a server that meets arbitrary client messages, about known and unknown users"""
    for variant in VARIANTS:
        for implicit in (False, True):
            h = Watch(p)
            with h:
                s = Scn(p)
                h.secret |= stored(s, 'strong' in variant, 'partial' in variant)
                sv = s.cell(s.call('AuCPaceServer', 'new', s.rng('S')))
                if implicit:
                    c = s.ok(s.call('AuCPaceServer', 'begin_prestablished_ssid', sv, AU.SSID))
                else:
                    t = s.call('AuCPaceServer', 'begin', sv)
                    c = s.call('AuCPaceServerSsidEstablish', 'agree_ssid', s.f(t, 0), arg('peer_nonce', mk('cparam', 'K1')))
                a = [c, AU.USER] + ([arg('peer_blinded')] if 'strong' in variant else []) + [AU.DB, mk('rng0', 'SI')]
                res = s.call('AuCPaceServerAugLayer', AU.Run.SRV_INFO[variant], *a)
                t = s.ok(res) if 'strong' in variant else res
                t = s.call('AuCPaceServerCPaceSubstep', 'generate_public_key', s.f(t, 0), AU.CI)
                c = s.f(t, 0)
                if implicit:
                    s.call('AuCPaceServerRecvClientKey', 'implicit_auth', c, arg('peer_key'))
                else:
                    c = s.okmaybe(s.call('AuCPaceServerRecvClientKey', 'receive_client_pubkey', c, arg('peer_key')), None)
                    s.call('AuCPaceServerExpMutAuth', 'receive_client_authenticator', c, arg('peer_auth', I(64)))
            yield s, h, 'server login (%s%s)' % (variant, ', implicit' if implicit else '')


def register_runs(p):
    for name in ('register', 'register_strong', 'register_alloc', 'register_alloc_strong'):
        h = Watch(p)
        h.secret |= {AU.PW}
        with h:
            s = Scn(p)
            cl = s.cell(s.call('AuCPaceClient', 'new', s.rng('C')))
            s.call('AuCPaceClient', name, cl, AU.USER, AU.PW, AU.PARAMS, AU.HASHER)
        yield s, h, name


def spake2_runs(p):
    for side in SP.SIDES:
        h = Watch(p)
        with h:
            s = Scn(p)
            d, pw, ids = SP.inputs(s)
            h.secret |= {d['pw']}
            st, m, _ = SP.start(s, side, pw, ids, 'one')
            for _, x in leaves(m):
                h.public.add(x)
                for c in deps(x):
                    if c.op == 'compress':
                        h.public |= {c, c.a[0]}
            s.call('Spake2', 'finish', st, arg('message'))
        yield s, h, 'SPAKE2 session (%s)' % side


def c35(r):
    r.rule = ('every branch condition, index, loop condition and byte-string comparison met in symbolic runs of both roles against arbitrary '
              'peer messages: none depends on a password, random draw, stored secret, password hash or anything derived from one, '
              'except through what was sent, through lengths, and through the constant-time authenticator comparison, the refusal of a '
              'neutral element, the redraw of a zero random scalar and the outcome of the password hasher')
    p = r.prog('aucpace')
    # a neutral product stays one test: its factors are not looked at separately
    models.PRIME_ORDER[0] = False
    for runs in (client_runs, server_runs, register_runs):
        for s, h, what in runs(p):
            judge(r, s, h, what)
    for s, h, what in spake2_runs(r.prog('spake2')):
        judge(r, s, h, what)
    r.floor('runs', 31)
    r.floor('branches', 60)
