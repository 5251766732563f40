"""C25: panic obligations of every exported operation on arbitrary arguments."""
from common import *
import srp as srprule
import serderule

# library operations without a summary that panic on some arguments
PANICKY = ('copy_within', 'select_nth_unstable', 'as_chunks', 'array_chunks', 'from_slice', 'from_mut_slice', 'clone_from_slice',
           'unwrap', 'expect', 'unwrap_err', 'expect_err', 'unreachable', 'remove', 'swap_remove', 'drain', 'split_off', 'splice',
           'insert_str', 'replace_range', 'div_floor', 'div_ceil', 'div_mod_floor', 'isqrt', 'ilog2', 'ilog10', 'to_radix_le', 'to_radix_be',
           'from_digit', 'to_digit', 'borrow_mut', 'borrow', 'block_on', 'try_from_slice_unchecked', 'windows', 'rchunks', 'step_by')


def provide(p, ty, name):
    """types with invariants that hold by construction for the published values"""
    t = strip_ref(ty)
    if t['k'] == 'adt' and t['p'].split('::')[-1] == 'SrpGroup':
        return srprule.group(p)
    if t['k'] == 'adt' and t['p'] == 'num_bigint::biguint::BigUint':
        return models.frombe(arg(name))
    return None


def arbitrary(s, ty, name):
    v = provide(s.p, ty, name)
    if v is not None:
        return v
    t = strip_ref(ty)
    a = s.p.adts.get(t['p']) if t['k'] == 'adt' and t['p'].split('::')[0] == s.p.crate else None
    if a is not None and len(a['variants']) == 1 and any(provide(s.p, f['ty'], '') is not None for f in a['variants'][0]['fields']):
        x = a['variants'][0]
        v = adt(t['p'], x['n'], *[arbitrary(s, f['ty'], '%s.%s' % (name, f['n'])) for f in x['fields']])
        return s.cell(v) if ty['k'] == 'ref' and ty['m'] else v
    return sym(s, ty, name)


def receiver(f):
    """path of the local type a method is called on"""
    if not f['inputs']:
        return None
    t = strip_ref(f['inputs'][0])
    return t['p'] if t['k'] == 'adt' and t['p'] == impl_adt(f) else None


def pick(v, path):
    """the value of type `path` inside a result"""
    def g(x):
        if x.op == 'adt':
            if x.a[0] == path:
                return x
            for y in x.a[2]:
                z = lift(g, y)
                if any(l is not UNDEF for _, l in leaves(z)):
                    return z
        if x.op == 'tuple':
            for y in x.a:
                z = lift(g, y)
                if any(l is not UNDEF for _, l in leaves(z)):
                    return z
        return UNDEF
    return lift(g, v)


def states(p, ctx, path, seen=()):
    """scenarios that end with a state of type `path`: through every chain of
    exported steps that produces one, on arbitrary arguments"""
    for f in api_methods(p):
        if path not in srprule.returned_adts(f) or f.get('impl_trait') or receiver(f) in seen + (path,):
            continue
        if f.get('inst') is None:
            continue
        rc = receiver(f)
        prior = states(p, ctx, rc, seen + (path,)) if rc and needs_history(p, rc) else [(Scn(p, ctx), None)]
        for s, st in prior:
            tag = f['name'] + '.'
            vals = [st if i == 0 and st is not None else arbitrary(s, t, tag + str(i)) for i, t in enumerate(f['inputs'])]
            v = s.call_fn(f, *vals)
            s.e.oblig.clear()
            x = pick(v, path)
            if all(l is UNDEF for _, l in leaves(x)):
                continue
            s.pc = b_and(s.pc, lift(lambda y: FALSE if y is NONE_ else TRUE, keep(x, NONE_)))
            yield s, x


NONE_ = mk('undefined')


def needs_history(p, path):
    a = p.adts.get(path)
    return a is not None and len(a['variants']) == 1 and any(not f['pub'] for f in a['variants'][0]['fields'])


def opaque_panics(r, s, f):
    for e in s.e.trace:
        if e[0] != 'opaque' or e[1] is FALSE:
            continue
        last = e[2].split('::')[-1]
        if e[2].split('::')[0] in ('serde', 'serde_byte_array', s.p.crate):
            continue
        if last in PANICKY:
            r.violate('opaque:%s:%s' % (f['name'], last), '%s:%s' % e[4] if isinstance(e[4], tuple) else str(e[4]),
                      '%s calls %s, which panics on some arguments, and nothing shows that these are excluded' % (f['path'], e[2]))
        else:
            r.count('library_calls_assumed_total')


def one(r, p, f, ctx, conclude=None):
    conclude = conclude or reachable_panics
    s = Scn(p, ctx)
    vals = [arbitrary(s, t, 'arg%d' % i) for i, t in enumerate(f['inputs'])]
    s.call_fn(f, *vals)
    if conclude is reachable_panics:
        opaque_panics(r, s, f)
    rc = receiver(f)
    if s.e.oblig and rc and needs_history(p, rc):
        # not for every conceivable content of the state: only for states that steps produce
        n = 0
        for s2, st in states(p, ctx, rc):
            n += 1
            vals = [arbitrary(s2, t, 'arg%d' % i) for i, t in enumerate(f['inputs'])]
            vals[0] = st
            s2.call_fn(f, *vals)
            conclude(r, s2, f)
            r.count('state_histories')
        if n:
            return
    conclude(r, s, f)


def reachable_panics(r, s, f):
    r.used(s)
    if panics(r, s, 'panic:' + f['name'], f['path'] + ' on arbitrary arguments'):
        r.held(f['path'] + ' does not panic')


def c25(r):
    r.rule = ('every exported operation called on arbitrary arguments and states (published groups for SRP): each index, slice, '
              'arithmetic, unwrap, assertion and length-mismatch site on any path is proved unreachable; deserializers are also played '
              'against malformed messages')
    for crate in ('srp', 'spake2', 'aucpace'):
        p = r.prog(crate)
        models.PRIME_ORDER[0] = crate == 'aucpace'
        ctx = srprule.context() if crate == 'srp' else ()
        for f in api_methods(p):
            one(r, p, f, ctx)
            r.count('operations')
        r.count('crates')
    malformed(r)
    r.floor('operations', 60)
    r.floor('panic_sites_proved', 40)
    r.floor('crates', 3)


def malformed(r):
    """deserialization of messages that no serializer wrote"""
    p = r.prog('aucpace')
    for M in serderule.MESSAGES:
        path = adt_path(p, M)
        fser, fde = serderule.local_fn(p, path, 'serialize'), serderule.local_fn(p, path, 'deserialize')
        if fde is None or fser is None:
            raise AnchorMissing('serde implementation of ' + M)
        toks = []
        for v in p.adts[path]['variants']:
            s = Scn(p)
            F = serderule.Format(s)
            s.e.callhook = F.hook
            fields = [sym(s, f['ty'], f['n']) for f in v['fields']]
            k = F.new(F.slots, [])
            try:
                s.call_fn(fser, adt(path, v['n'], *fields), mk('ser', I(k)))
            except serderule.Broken:
                continue        # C31 reports it
            out = F.slots[k]
            if len(out) != 1 or out[0][0] != 'enum':
                continue
            toks.append(serderule.frozen(out[0]))
        for t in toks:
            for u in mutants(t, toks):
                for mode in serderule.MODES:
                    try:
                        s2, got = serderule.read_all(p, u, mode, fde)
                    except Unsupported as ex:
                        if 'deserializer call' in str(ex):
                            continue
                        raise
                    r.count('malformed_messages')
                    panics(r, s2, 'deserialize:' + M, 'reading a malformed ' + M)
    r.floor('malformed_messages', 100)


def mutants(t, all_):
    yield ('bytes', arg('junk'), 'bytes')
    yield t[:1] + (9999, 'NoSuchVariant') + t[3:]
    for o in all_:
        if o is not t:
            yield t[:1] + (o[1], o[2]) + t[3:]           # another variant's tag
    for i in range(len(t[4])):
        yield t[:4] + (t[4][:i],) + t[5:]                # truncated
        for junk in (('bytes', arg('junk'), 'bytes'), ('str', arg('text'), 'str'), ('seq-of-u8', arg('junk'), 'x'), ('bytearray', arg('junk'), '[u8; 5]')):
            fs = list(t[4])
            fs[i] = (fs[i][0], junk)
            yield t[:4] + (fs,) + t[5:]
        yield t[:4] + (t[4] + [t[4][i]],) + t[5:]        # duplicated
