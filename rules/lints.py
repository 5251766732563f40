"""Type, ownership and effect queries over the type-checked crates: C12, C24, C27, C28."""
import itertools
import re
from common import *
import build

AUC_FEATURES = ('alloc', 'getrandom', 'partial_augmentation', 'scrypt', 'serde', 'sha2', 'strong_aucpace', 'zeroize')
SPAKE_FEATURES = ('getrandom', 'std')

# ---------------------------------------------------------------- C12
# handshake state -> what an operation that yields it must consume by value
# ('&X': an operation on the long-lived party object X)
STEPS = {
    'aucpace': {
        'AuCPaceClientSsidEstablish': ('&AuCPaceClient',),
        'AuCPaceClientPreAug': ('AuCPaceClientSsidEstablish', '&AuCPaceClient'),
        'AuCPaceClientAugLayer': ('AuCPaceClientPreAug',),
        'StrongAuCPaceClientAugLayer': ('AuCPaceClientPreAug',),
        'AuCPaceClientCPaceSubstep': ('AuCPaceClientAugLayer', 'StrongAuCPaceClientAugLayer'),
        'AuCPaceClientRecvServerKey': ('AuCPaceClientCPaceSubstep',),
        'AuCPaceClientExpMutAuth': ('AuCPaceClientRecvServerKey',),
        'AuCPaceServerSsidEstablish': ('&AuCPaceServer',),
        'AuCPaceServerAugLayer': ('AuCPaceServerSsidEstablish', '&AuCPaceServer'),
        'AuCPaceServerCPaceSubstep': ('AuCPaceServerAugLayer',),
        'AuCPaceServerRecvClientKey': ('AuCPaceServerCPaceSubstep',),
        'AuCPaceServerExpMutAuth': ('AuCPaceServerRecvClientKey',),
    },
    'spake2': {'Spake2': ('start',)},
}
PARTIES = {'aucpace': ('AuCPaceClient', 'AuCPaceServer'), 'spake2': ()}
# traits that neither copy, forge nor expose a value
TRAITS_OK = ('Debug', 'Display', 'Drop', 'Zeroize', 'ZeroizeOnDrop', 'PartialEq', 'Eq', 'StructuralPartialEq', 'ConstantTimeEq',
             'Send', 'Sync', 'Unpin', 'UnwindSafe', 'RefUnwindSafe')


def mentions(ty, last):
    """how a type mentions a local type: set of 'val', 'ref', 'mut'"""
    out = set()

    def go(t, how):
        if isinstance(t, dict):
            k = t.get('k')
            if k == 'ref':
                go(t['t'], 'mut' if t['m'] and how != 'ref' else 'ref')
                return
            if k == 'ptr':
                go(t['t'], 'mut')
                return
            if k == 'adt':
                if t['p'].split('::')[-1] == last:
                    out.add(how)
                for x in t['a']:
                    go(x, how)
                return
            for x in t.values():
                go(x, how)
        elif isinstance(t, list):
            for x in t:
                go(x, how)
    go(ty, 'val')
    return out


def quiet_output(ty):
    """a result that carries nothing of the object"""
    k = ty['k']
    if k == 'tuple':
        return all(quiet_output(t) for t in ty['a'])
    if k == 'prim':
        return ty['n'] in ('bool', '!')
    if k == 'adt' and ty['p'] == interp.RESULT:
        return quiet_output(ty['a'][0])
    return k == 'adt' and ty['p'].split('::')[-1] in ('Choice', 'Ordering', 'Error')


def self_generic(t):
    return t.get('k') == 'param' and t.get('n') == 'Self'


def c12(r):
    r.rule = ('signatures, implementations and fields of every handshake state: operations take it by value, it is yielded only by an '
              'operation consuming the preceding state, no field is public, no implementation copies, builds or exposes it')
    for cfg in ('all', 'default') if r.tier == 'quick' else ('all', 'all-nodbg', 'default', 'bare'):
        for crate in ('aucpace', 'spake2'):
            p = r.prog(crate, cfg)
            fns = [f for f in p.d['fns'] if f['isfn'] and 'inputs' in f]
            gated = set(STEPS[crate])
            if cfg == 'default' or cfg == 'bare':
                gated = {s for s in gated if any(a['path'].split('::')[-1] == s for a in p.d['adts'])}
            for st in sorted(gated | set(PARTIES[crate])):
                path = adt_path(p, st)
                a = p.adts[path]
                r.count('types')
                for v in a['variants']:
                    for f in v['fields']:
                        r.count('fields')
                        if f['pub']:
                            r.violate('pubfield:%s.%s' % (st, f['n']), path, 'field %s of %s is public: its contents can be read and a state can be forged' % (f['n'], st))
                        else:
                            r.held()
                for i in p.d['impls']:
                    t = i['self']
                    if t['k'] != 'adt' or t['p'] != path or not i['trait']:
                        # a trait implemented for another type in terms of the state
                        if i['trait'] and i.get('traitref') and re.search(r'\b%s\b' % re.escape(st), str(i['traitref']).split(' as ', 1)[-1]) and t.get('p') != path:
                            tl = i['trait'].split('<')[0].split('::')[-1]
                            if tl in ('From', 'TryFrom', 'AsRef', 'Borrow', 'Deref'):
                                r.violate('impl:%s:%s' % (tl, st), span(i), 'the implementation %s gives access to a %s' % (i['traitref'], st))
                        continue
                    tl = i['trait'].split('<')[0].split('::')[-1]
                    r.count('impls')
                    if tl in TRAITS_OK or local_marker(p, i):
                        r.held('%s: %s' % (st, tl))
                    else:
                        why = ('can be duplicated' if tl in ('Clone', 'Copy', 'TrivialClone') else
                               'can be built without the preceding steps' if tl in ('Default', 'Deserialize', 'From', 'TryFrom', 'FromStr', 'FromIterator') else
                               'can be read or changed from outside')
                        if tl == 'TrivialClone':
                            continue
                        r.violate('impl:%s:%s' % (tl, st), span(i), 'implements %s: a %s %s' % (i['trait'], st, why))
                if st in PARTIES[crate]:
                    continue
                pred = STEPS[crate][st]
                made = 0
                for f in fns:
                    if not (f['exported'] or f.get('impl_trait')):
                        continue
                    tl = trait_last(f) if f.get('impl_trait') else None
                    if tl in TRAITS_OK or f.get('derived'):
                        continue
                    hows = set().union(*[mentions(t, st) for t in f['inputs']] or [set()])
                    out = mentions(f['output'], st)
                    if hows & {'ref', 'mut'}:
                        r.count('operations')
                        if 'mut' in hows or not quiet_output(f['output']):
                            r.violate('borrow:%s:%s' % (st, f['name']), where_fn(p, f), '%s takes a %s by reference: the step can be repeated or the state observed' % (f['path'], st))
                            continue
                    if 'val' in hows:
                        r.count('operations')
                        r.held('%s consumes %s' % (f['name'], st))
                    if out and f['exported']:
                        made += 1
                        r.count('producers')
                        if 'ref' in out or 'mut' in out:
                            r.violate('lend:%s:%s' % (st, f['name']), where_fn(p, f), '%s hands out a reference to a %s' % (f['path'], st))
                        elif not any(consumes(f, q) for q in pred):
                            r.violate('producer:%s:%s' % (st, f['name']), where_fn(p, f), '%s yields a %s without consuming %s' % (f['path'], st, ' or '.join(pred)))
                        else:
                            r.held('%s yields %s' % (f['name'], st))
                if made == 0:
                    r.violate('unreachable:' + st, path, 'no operation yields a ' + st)
                # constants of the type
                for f in p.d['fns']:
                    if not f['isfn'] and f['exported'] and 'output' in f and mentions(f['output'], st):
                        r.violate('const:%s' % st, where_fn(p, f), 'the constant %s is a ready-made %s' % (f['path'], st))
    r.floor('types', 20)
    r.floor('fields', 30)
    r.floor('producers', 12)
    r.floor('operations', 24)


def consumes(f, q):
    if q == 'start':
        return f['name'].startswith('start_')
    if q[0] == '&':
        # an operation of the long-lived party object
        return bool(f['inputs']) and bool(mentions(f['inputs'][0], q[1:]))
    return any('val' in mentions(t, q) for t in f['inputs'])


def local_marker(p, i):
    """a trait of the crate itself with nothing to call from outside"""
    return i['trait'].split('::')[0] == p.crate and not i['items']


def span(i):
    sp = i['span']
    return '%s:%s' % (sp[0], sp[1]) if sp else '?'


def where_fn(p, f):
    return '%s:%s %s' % (f['span'][0], f['span'][1], f['path'])


# ---------------------------------------------------------------- bodies
def bodies(p):
    """every body of the crate: functions, closures, constants, promoted values"""
    for i in p.d['insts']:
        if i.get('local') and i.get('body'):
            yield i, i['body']
            for b in i.get('promoted') or ():
                if b:
                    yield i, b


def calls(b):
    for bl in b['blocks']:
        t = bl['t']
        if t['t'] == 'call':
            fn = t['f'].get('fn')
            if fn is not None:
                yield t, fn, (fn.get('res') or fn)
            else:
                yield t, None, None


def walk_json(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk_json(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk_json(v)


# ---------------------------------------------------------------- C24
LAZIES = ('lazy_static::lazy::Lazy', 'std::sync::lazy_lock::LazyLock', 'once_cell::sync::Lazy', 'std::sync::LazyLock')
ONCES = ('std::sync::once_lock::OnceLock', 'std::sync::OnceLock', 'once_cell::sync::OnceCell')
INTERIOR = re.compile(r'(^|::)(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|OnceLock|LazyCell|LazyLock|Mutex|RwLock|Condvar|Once|Lazy|'
                      r'Atomic\w+|LocalKey|ReentrantLock)$')
EFFECTS = re.compile(r'^(std::(env|time|fs|io|net|process|thread|os|hash::random|sync::(mpsc|mpmc|poison|barrier|once::|rwlock|mutex))\b|'
                     r'core::sync::atomic\b|std::sync::atomic\b|getrandom::|rand::|libc::|core::arch::|std::arch::|std::random)')


def c24(r):
    r.rule = ('every static of the crates immutable, or a write-once lazy value with a closed, type-independent initialiser; no type '
              'with interior mutability among fields; no call into the environment, clock, file system, threads or atomics; the '
              'long-lived party objects unchanged by every operation except for their generator')
    for crate in ('srp', 'spake2', 'aucpace'):
        p = r.prog(crate)
        once = set()
        for st in p.d['statics']:
            r.count('statics')
            w = '%s:%s %s' % (st['span'][0], st['span'][1], st['path'])
            tp = st['ty'].get('p', '') if st['ty']['k'] == 'adt' else ''
            if st['mut']:
                r.violate('static-mut:' + st['path'], w, 'static mut %s' % st['path'])
            elif st['tls']:
                r.violate('thread-local:' + st['path'], w, 'thread-local state %s' % st['path'])
            elif st['freeze']:
                r.held('immutable static ' + st['path'])
            elif tp in LAZIES:
                r.held('write-once static ' + st['path'])
            elif tp in ONCES:
                once.add(st['path'])
            else:
                r.violate('static:' + st['path'], w, 'static %s has interior mutability (%s)' % (st['path'], tykey(st['ty'])))
        bad_once = dict(once_uses(p)) if once else {}
        for o in sorted(once):
            if bad_once:
                k, (w, why) = sorted(bad_once.items())[0]
                r.violate('once:' + o, w, 'the value of static %s is fixed by its first user: %s' % (o, why))
            else:
                r.held('write-once static ' + o)
        # constants that hide state (thread_local!, const Cell is copied and harmless)
        for f in p.d['fns']:
            if not f['isfn'] and f.get('output') and 'LocalKey' in tykey(f['output']):
                r.violate('thread-local:' + f['path'], where_fn(p, f), 'thread-local state %s' % f['path'])
        for a in p.d['adts']:
            if a['path'].split('::')[0] != crate or not a.get('local', True):
                continue
            for v in a['variants']:
                for f in v['fields']:
                    if not isinstance(f['ty'], dict):
                        continue
                    r.count('fields')
                    for t in walk_json(f['ty']):
                        if t.get('k') == 'adt' and INTERIOR.search(t['p']):
                            r.violate('interior:%s.%s' % (a['path'], f['n']), a['path'], 'field %s of %s has interior mutability (%s)' % (f['n'], a['path'], t['p']))
        for i, b in bodies(p):
            r.count('bodies')
            for t, fn, res in calls(b):
                r.count('calls')
                if fn is None:
                    continue
                for q in (fn['path'], res['path']):
                    if EFFECTS.match(q) and not once_ok(q):
                        r.violate('effect:%s:%s' % (short_fn(i['path']), q), '%s:%s %s' % (b_span(t, i) + (i['path'],)), 'calls %s: the result depends on something other than the arguments' % q)
            if crate != 'spake2':
                for x in walk_json(b):
                    if x.get('k') == 'adt' and x['p'].split('::')[-1] in ('OsRng', 'ThreadRng', 'StdRng'):
                        r.violate('rng:%s' % short_fn(i['path']), i['path'], 'uses %s instead of the generator it was given' % x['p'])
                        break
        r.held('effects of ' + crate)
    carried(r)
    r.floor('statics', 4)
    r.floor('bodies', 100)
    r.floor('calls', 400)
    r.floor('party_operations', 8)


def once_ok(q):
    return bool(re.match(r'std::sync::(once_lock|lazy_lock|OnceLock|LazyLock)', q))


def b_span(t, i):
    sp = i['span']
    return (sp[0], sp[1])


def once_uses(p):
    """uses of write-once cells whose stored value depends on the caller"""
    for i, b in bodies(p):
        for t, fn, res in calls(b):
            if fn is None or not re.search(r'(OnceLock|OnceCell|once_lock|once_cell)', fn['path'] + res['path']):
                continue
            n = fn['name']
            w = '%s:%s %s' % (b_span(t, i) + (i['path'],))
            if n in ('get_or_init', 'get_or_try_init', 'get_mut_or_init'):
                clo = [x for a in t['aty'] for x in walk_json(a) if x.get('k') in ('closure', 'fndef')]
                if not clo:
                    yield i['path'], (w, 'its initialiser is not known')
                for c in clo:
                    if c['k'] == 'closure' and c.get('up'):
                        yield i['path'], (w, 'the initialiser captures %s' % ', '.join(tykey(u) for u in c['up']))
                    elif any(a.get('k') in ('param', 'cparam', 'alias') for a in (c.get('a') or c.get('f', {}).get('args', []))):
                        yield i['path'], (w, 'the initialiser depends on the type parameters of %s, the stored value does not' % i['path'])
            elif n in ('set', 'take', 'get_mut', 'try_insert', 'into_inner'):
                yield i['path'], (w, 'it is written with OnceLock::%s' % n)


def carried(r):
    """operations on the long-lived AuCPace parties leave everything but the generator as it was"""
    import aucpace as AU
    p = r.prog('aucpace')
    for T in ('AuCPaceClient', 'AuCPaceServer'):
        path = adt_path(p, T)
        gen = rng_fields(p, path)
        for f in methods(p, T):
            if not f['exported'] or not f['inputs'] or f['inputs'][0]['k'] != 'ref':
                continue
            s = Scn(p)
            me = s.cell(s.call(T, 'new', s.rng('R')))
            ref = next(l for _, l in leaves(me))
            before = s.e.load(s.st, me)
            vals = {0: me}
            for i, t in enumerate(f['inputs'][1:], 1):
                vals[i] = AU.HASHER if t.get('k') == 'param' and i == len(f['inputs']) - 1 else None
            try:
                sym_call(s, f, {k: v for k, v in vals.items() if v is not None})
            except AnchorMissing:
                raise
            after = s.e.load(s.st, ref)
            r.count('party_operations')
            ok = True
            for c, a, b in pairs(before, after):
                if a.op != 'adt' or b.op != 'adt':
                    r.violate('carried:' + f['name'], where_fn(p, f), '%s replaces the whole %s' % (f['name'], T))
                    ok = False
                    break
                for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                    if x is not y and i not in gen:
                        ok = False
                        n = p.adts[path]['variants'][0]['fields'][i]['n']
                        r.violate('carried:%s.%s' % (f['name'], n), where_fn(p, f), '%s changes the field %s of the long-lived %s: later sessions depend on earlier ones (%s)' % (f['path'], n, T, short(y, 200)))
            if ok:
                r.held('%s::%s leaves the object unchanged' % (T, f['name']))
            r.used(s)


def pairs(a, b):
    for c, x in leaves(a):
        for d, y in leaves(b):
            if x is not UNDEF and y is not UNDEF:
                yield (c, d), x, y


def rng_fields(p, path):
    a = p.adts[path]
    return {i for i, f in enumerate(a['variants'][0]['fields']) if f['ty'].get('k') == 'param' and 'RNG' in f['ty']['n'].upper() or f['ty'].get('k') == 'ref' and f['ty']['m']}


# ---------------------------------------------------------------- C27
def tokens(src):
    """(token, line) of Rust source without comments; strings and characters become '""'"""
    i, n, line = 0, len(src), 1
    while i < n:
        c = src[i]
        if c == '\n':
            line += 1
            i += 1
        elif c.isspace():
            i += 1
        elif src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
        elif src.startswith('/*', i):
            d, i = 1, i + 2
            while i < n and d:
                if src.startswith('/*', i):
                    d, i = d + 1, i + 2
                elif src.startswith('*/', i):
                    d, i = d - 1, i + 2
                else:
                    line += src[i] == '\n'
                    i += 1
        elif re.match(r'(b|c|br|cr|r)?#*"', src[i:i + 8]) and (c in 'bcr"' ):
            m = re.match(r'(b|c)?(r)(#*)"', src[i:])
            if m:
                j = src.find('"' + m.group(3), i + m.end())
                j = n if j < 0 else j + 1 + len(m.group(3))
            else:
                j = src.index('"', i) + 1
                while j < n and src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                j += 1
            yield '""', line
            line += src.count('\n', i, j)
            i = j
        elif c == "'" or (c == 'b' and src[i + 1:i + 2] == "'"):
            m = re.match(r"b?'(\\(x..|u\{[^}]*\}|.)|[^\\'])'", src[i:])
            if m:
                yield "''", line
                i += m.end()
            else:
                i += 1
        elif c.isalpha() or c == '_':
            m = re.match(r'(r#)?\w+', src[i:])
            yield m.group(0), line
            i += m.end()
        else:
            yield c, line
            i += 1


UNSAFE_ATTR = ('no_mangle', 'export_name', 'link_section', 'naked', 'target_feature')
ASM = ('asm', 'global_asm', 'naked_asm', 'llvm_asm')


def c27(r):
    r.rule = ('all function bodies of the three crates as compiled under several feature sets: no unsafe block, function, impl, foreign '
              'block, union, assembly or exported symbol; all source tokens regardless of configuration: no unsafe construct; '
              'unsafe_code at level forbid in aucpace and spake2')
    for cfg in ('all', 'default', 'bare'):
        for crate in ('aucpace', 'spake2', 'srp'):
            if cfg == 'bare' and crate == 'srp':
                continue
            d = r.prog(crate, cfg).d
            judge_unsafe(r, crate, d, '+'.join(x for x in d['cfg'] if 'feature=' in x and 'target' not in x) or cfg)
    if r.tier != 'quick':
        for crate, feats in (('aucpace', AUC_FEATURES), ('spake2', SPAKE_FEATURES)):
            for fs, d in build.light(crate, combos(feats)).items():
                if not isinstance(d, tuple):
                    judge_unsafe(r, crate, d, '+'.join(fs))
    for crate in ('aucpace', 'spake2', 'srp'):
        base = os.path.join(build.REPO, crate, 'src')
        for root, _, files in os.walk(base):
            for f in sorted(files):
                if not f.endswith('.rs'):
                    continue
                path = os.path.join(root, f)
                r.count('source_files')
                ts = list(tokens(open(path, encoding='utf8').read()))
                r.count('tokens', len(ts))
                w = os.path.relpath(path, build.REPO)
                for k, (t, line) in enumerate(ts):
                    nx = ts[k + 1][0] if k + 1 < len(ts) else ''
                    pv = ts[k - 1][0] if k else ''
                    what = None
                    if t == 'unsafe':
                        what = 'the keyword unsafe'
                    elif t == 'extern' and (nx == '""' or nx == '{'):
                        what = 'a foreign block or ABI'
                    elif t in ASM and nx == '!':
                        what = 'inline assembly'
                    elif t in UNSAFE_ATTR and pv in ('[', '(', ','):
                        what = 'the attribute ' + t
                    elif t in ('allow', 'warn', 'deny', 'expect') and nx == '(' and any(x == 'unsafe_code' for x, _ in ts[k:k + 8]) and t in ('allow', 'warn', 'expect'):
                        what = 'a relaxed unsafe_code lint'
                    elif t == 'union' and re.match(r'[A-Z]\w*$', nx):
                        what = 'a union'
                    if what:
                        r.violate('token:%s:%s' % (w, t), '%s:%d' % (w, line), 'contains ' + what)
                r.held(w)
    r.floor('bodies_scanned', 8)
    r.floor('source_files', 6)
    r.floor('tokens', 6000)


def judge_unsafe(r, crate, d, cfg):
    r.count('bodies_scanned')
    ok = True
    for u in d['unsafe']:
        w = u['what']
        sp = u['span']
        if w == 'unsafe block (CompilerGenerated)' or w == 'unsafe impl' and u.get('trait') == 'core::clone::TrivialClone' and sp[3]:
            continue            # the standard library's own derive and formatting macros
        ok = False
        r.violate('unsafe:%s:%s' % (crate, w), '%s:%s' % (sp[0], sp[1]), '%s contains an %s (features %s)' % (crate, w, cfg))
    lv = d['unsafe_code_level']
    if crate != 'srp' and 'level: Forbid' not in lv:
        ok = False
        r.violate('level:%s' % crate, crate + '/src/lib.rs', 'unsafe_code is not forbidden in %s (%s), features %s' % (crate, lv.split(',')[0], cfg))
    if ok:
        r.held('%s without unsafe constructs, features %s' % (crate, cfg))


# ---------------------------------------------------------------- C28
def combos(feats):
    return [c for k in range(len(feats) + 1) for c in itertools.combinations(sorted(feats), k)]


def declared(crate):
    """(features, helper features): a helper is an optional dependency that only another feature switches on"""
    import tomllib
    t = tomllib.load(open(os.path.join(build.REPO, crate, 'Cargo.toml'), 'rb'))
    fs = t.get('features', {})
    main = {f for f in fs if f != 'default'}
    helper = set()
    for n, d in t.get('dependencies', {}).items():
        if isinstance(d, dict) and d.get('optional') and n not in main:
            if any('dep:' + n in v for v in fs.values()):
                continue
            used = any(n == x.split('/')[0].rstrip('?') for f, v in fs.items() if f != 'default' for x in v)
            (helper if used else main).add(n)
    return tuple(sorted(main)), tuple(sorted(helper))


def c28(r):
    r.rule = ('cargo type-checks the library under every subset of its features; for every pair of subsets differing in one feature the '
              'exported interface (paths, signatures, bounds, fields, variants, implementations) of the smaller is contained in that of '
              'the larger; each operation is there whenever the features it is named after are enabled; '
              'the crate graph without the std feature has no std, aucpace names alloc only under its alloc feature')
    for crate, need in (('aucpace', AUC_FEATURES), ('spake2', SPAKE_FEATURES), ('srp', ())):
        feats, helper = declared(crate)
        if set(need) - set(feats) - set(helper):
            r.violate('features:' + crate, crate + '/Cargo.toml', 'features %s are no longer declared' % ', '.join(sorted(set(need) - set(feats))))
        cs = combos(feats)
        if len(cs) > 1024:
            cs = [c for c in cs if len(c) <= 2 or len(c) >= len(feats) - 2]
        if r.tier != 'quick' and helper:
            feats = tuple(sorted(feats + helper))
            cs = combos(feats)
        res = build.light(crate, cs)
        for fs in cs:
            d = res[fs]
            name = '+'.join(fs) or 'no features'
            r.count('combinations')
            if isinstance(d, tuple):
                m = re.search(r'error(\[E\d+\])?:.*(\n.*){0,6}', d[1])
                r.violate('build:' + crate, '%s with %s' % (crate, name), 'does not compile: ' + (m.group(0) if m else d[1][-400:]))
                continue
            r.held('%s compiles with %s' % (crate, name))
            if crate != 'srp' and 'std' not in fs:
                if 'std' in d['crates'] or 'std' in d['externs']:
                    r.violate('std:' + crate, '%s with %s' % (crate, name), 'links the standard library' + (' by an extern crate item' if 'std' in d['externs'] else ' through a dependency'))
                else:
                    r.held()
                if crate == 'aucpace' and 'alloc' not in fs and 'alloc' in d['externs']:
                    r.violate('alloc:' + crate, '%s with %s' % (crate, name), 'links the allocator without the alloc feature')
        for fs in cs:
            d = res[fs]
            if isinstance(d, tuple):
                continue
            api = set(d['api'])
            r.count('interface_items', len(api))
            for f in feats:
                if f in fs:
                    continue
                e = res.get(tuple(sorted(fs + (f,))))
                if e is None or isinstance(e, tuple):
                    continue
                r.count('feature_steps')
                gone = api - set(e['api'])
                if gone:
                    r.violate('additive:%s:%s' % (crate, f), '%s: %s' % (crate, '+'.join(fs) or 'no features'), 'enabling %s removes or changes %s' % (f, '; '.join(sorted(gone)[:3])))
                else:
                    r.held()
        # an operation needs the feature it is named after and no other
        for fs in cs:
            d = res[fs]
            if isinstance(d, tuple):
                continue
            have = {api_name(a) for a in d['api'] if a.startswith('fn ')}
            for op, req in OPERATIONS[crate].items():
                if req <= set(fs):
                    r.count('availability')
                    if op in have:
                        r.held()
                    else:
                        r.violate('missing:%s' % '.'.join(op), '%s with %s' % (crate, '+'.join(fs) or 'no features'),
                                  '%s::%s is missing although %s enabled' % (op[0], op[1], ('+'.join(sorted(req)) + ' is') if req else 'no feature is needed, but others are' if fs else 'it needs no feature; none is'))
    r.floor('combinations', 261)
    r.floor('feature_steps', 1028)
    r.floor('availability', 2000)


def api_name(a):
    """(type, function) of an interface line"""
    x = a[3:].split(': ')[0]
    x = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', x))
    x = [y for y in x.split('::') if y]
    return tuple(x[-2:])


def _ops():
    C, S = 'AuCPaceClient', 'AuCPaceServer'
    al, st, pa = {'alloc'}, {'strong_aucpace'}, {'partial_augmentation'}
    o = {(C, 'new'): set(), (C, 'begin'): set(), (C, 'begin_prestablished_ssid'): set(), (C, 'register'): set(),
         (C, 'register_alloc'): al, (C, 'register_strong'): st, (C, 'register_alloc_strong'): al | st,
         (C + 'SsidEstablish', 'agree_ssid'): set(), (C + 'PreAug', 'start_augmentation'): set(),
         (C + 'PreAug', 'start_augmentation_strong'): st, (C + 'AugLayer', 'generate_cpace'): set(),
         (C + 'AugLayer', 'generate_cpace_alloc'): al, ('Strong' + C + 'AugLayer', 'generate_cpace'): st,
         ('Strong' + C + 'AugLayer', 'generate_cpace_alloc'): st | al, (C + 'CPaceSubstep', 'generate_public_key'): set(),
         (C + 'RecvServerKey', 'receive_server_pubkey'): set(), (C + 'RecvServerKey', 'implicit_auth'): set(),
         (C + 'ExpMutAuth', 'receive_server_authenticator'): set(),
         (S, 'new'): set(), (S, 'begin'): set(), (S, 'begin_prestablished_ssid'): set(), (S, 'generate_long_term_keypair'): pa,
         (S + 'SsidEstablish', 'agree_ssid'): set(), (S + 'AugLayer', 'generate_client_info'): set(),
         (S + 'AugLayer', 'generate_client_info_partial_aug'): pa, (S + 'AugLayer', 'generate_client_info_strong'): st,
         (S + 'AugLayer', 'generate_client_info_partial_strong'): st | pa, (S + 'CPaceSubstep', 'generate_public_key'): set(),
         (S + 'RecvClientKey', 'receive_client_pubkey'): set(), (S + 'RecvClientKey', 'implicit_auth'): set(),
         (S + 'ExpMutAuth', 'receive_client_authenticator'): set()}
    k = {('Spake2', n): {'getrandom'} for n in ('start_a', 'start_b', 'start_symmetric')}
    k.update({('Spake2', n): set() for n in ('start_a_with_rng', 'start_b_with_rng', 'start_symmetric_with_rng', 'finish')})
    k.update({('Password', 'new'): set(), ('Identity', 'new'): set()})
    s = {('SrpClient', n): set() for n in ('new', 'compute_verifier', 'compute_public_ephemeral', 'process_reply')}
    s.update({('SrpServer', n): set() for n in ('new', 'compute_public_ephemeral', 'process_reply')})
    s.update({('SrpClientVerifier', n): set() for n in ('key', 'proof', 'verify_server')})
    s.update({('SrpServerVerifier', n): set() for n in ('key', 'proof', 'verify_client')})
    return {'aucpace': o, 'spake2': k, 'srp': s}


OPERATIONS = _ops()


# ---------------------------------------------------------------- C38
def c38(r):
    """what is announced is what is used"""
    import aucpace as auc
    r.rule = ('the ready-made AuCPace instantiations are the advertised types (SHA-512, scrypt, the operating system generator, nonces of '
              '16 bytes) in every feature combination that has them; every server reply announces ristretto255; '
              'the SPAKE2 group names itself Ed25519 and the length it states is that of its encoding')
    want = {'Server': (['AuCPaceServer<', 'Sha512', 'OsRng'], r', 16(usize|_usize)?>$'),
            'Client': (['AuCPaceClient<', 'Sha512', 'scrypt::', 'OsRng'], r', 16(usize|_usize)?>$')}
    need = {'Server': {'sha2', 'getrandom'}, 'Client': {'sha2', 'getrandom', 'scrypt'}}
    feats, helper = declared('aucpace')
    for fs in (tuple(sorted(set(feats) | set())), ('getrandom', 'sha2'), ('getrandom', 'scrypt', 'sha2')):
        if not set(fs) <= set(feats):
            r.violate('feature', 'aucpace/Cargo.toml', 'the documented features sha2, getrandom and scrypt are not all declared')
            continue
        p = r.prog('aucpace', build.custom('aucpace', fs, True))
        names = {}
        for a in p.d['api']:
            m = re.match(r'alias (\S+) = (.*)$', a)
            if m:
                names[m.group(1).split('::')[-1]] = (m.group(1), m.group(2))
        for n, (parts, end) in want.items():
            if not need[n] <= set(fs):
                continue
            path, ty = names.get(n, (None, None))
            r.count('instantiations')
            if ty is None:
                r.violate('alias:' + n, 'aucpace/src/lib.rs', 'no ready-made %s with features %s' % (n, '+'.join(fs)))
            elif path != 'aucpace::' + n and 'name aucpace::%s = Some("%s")' % (n, path) not in p.d['api']:
                r.violate('alias:' + n, 'aucpace/src/lib.rs', 'the ready-made %s is not exported at the crate root' % n)
            elif not all(x in ty for x in parts) or not re.search(end, ty):
                r.violate('alias:' + n, 'aucpace/src/lib.rs', 'the ready-made %s is %s, not the advertised one (%s, nonces of 16 bytes)' % (n, ty, ', '.join(parts)))
            else:
                r.held('ready-made %s (%s)' % (n, '+'.join(fs)))
    p = r.prog('aucpace')
    G = B(b'ristretto255')
    for v in auc.VARIANTS:
        R = auc.Run(p, v, True, True)
        R.parties()
        R.register()
        R.ssids()
        R.client_start()
        R.server_info()
        s = R.s
        same(r, s, 'group:' + v, s.fieldn(R.v['info'], 'group'), G, 'group announced to a registered user (%s)' % v,
             pc=b_and(s.pc, undef_false(s.okcond(R.v['info_res']))) if R.strong else None, wh=R.w['info'])
        r.used(s)
        r.count('replies')
    for d in auc.decoys(p):
        s = d.s
        same(r, s, 'group:decoy:' + d.variant, d.group, G, 'group announced to an unknown user (%s)' % d.variant,
             pc=b_and(s.pc, undef_false(s.okcond(d.res))) if d.strong else None, wh=d.where)
        r.used(s)
        r.count('replies')
    p = r.prog('spake2')
    models.PRIME_ORDER[0] = False
    s = Scn(p)
    fn = {f['name']: f for f in p.d['fns'] if f.get('inst') is not None and trait_last(f) == 'Group' and impl_adt(f) and impl_adt(f).endswith('Ed25519Group')}
    same(r, s, 'name', s.call_fn(fn['name']), B(b'Ed25519'), 'name of the SPAKE2 group')
    enc = s.call_fn(fn['element_to_bytes'], arg('element'))
    same(r, s, 'length', s.call_fn(fn['element_length']), lift(seqlen, enc), 'stated length of an encoded element')
    r.used(s)
    r.floor('instantiations', 3)
    r.floor('replies', 8)


def c44(r):
    r.rule = ('every exported type of the three crates, in several feature sets: Send and Sync hold under the type checker whenever '
              'its type parameters are Send and Sync; an offending type is reported with the fields that lack the trait')
    for cfg in ('all', 'default', 'bare'):
        for crate in ('aucpace', 'spake2', 'srp'):
            if cfg == 'bare' and crate == 'srp':
                continue
            d = r.prog(crate, cfg).d
            for a in d['adts']:
                if not a or not a['local'] or not (a['reachable'] or a['exported']):
                    continue
                r.count('types')
                for tr in ('Send', 'Sync'):
                    if a['auto'].get(tr) is True:
                        r.held('%s is %s (%s)' % (a['path'], tr, cfg))
                    else:
                        fields = ', '.join('%s: %s' % (f['n'], tyshort(f['ty'])) for v in a['variants'] for f in v['fields'])
                        r.violate('%s:%s' % (a['path'], tr), '%s:%s' % (a['span'][0], a['span'][1]),
                                  '%s is not %s although its type parameters are (%s); fields: %s' % (a['path'], tr, cfg, fields))
    r.floor('types', 60)


def tyshort(t):
    if not isinstance(t, dict):
        return str(t)
    k = t.get('k')
    if k == 'adt':
        return t['p'].split('::')[-1] + ('<%s>' % ', '.join(tyshort(x) for x in t['a']) if t.get('a') else '')
    if k in ('ref', 'ptr'):
        return ('&' if k == 'ref' else '*') + ('mut ' if t['m'] else '') + tyshort(t['t'])
    if k in ('array', 'slice'):
        return '[%s]' % tyshort(t['t'])
    if k == 'tuple':
        return '(%s)' % ', '.join(tyshort(x) for x in t['a'])
    return str(t.get('n') or t.get('s') or k)
