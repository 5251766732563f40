"""Gated value-flow over the dumped MIR.

Every function body is evaluated once per calling context in control-flow
order; at joins, values are merged into decision diagrams guarded by branch
conditions.  Nothing is executed: inputs are opaque symbols, library calls are
interpreted by the algebraic models in models.py, and loops are either unrolled
over constant bounds or closed as fixpoint ('mu') terms.
"""
import itertools
import json
import os
import sys
from terms import *
from facts import (Facts, eq0, le0, lt, le, ints_eq, implied_false, simplify, paths)
import facts as F

sys.setrecursionlimit(20000)

INTBITS = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0),
           'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1),
           'char': (32, 0)}

TRANSPARENT = {
    'curve25519_dalek::edwards::CompressedEdwardsY', 'curve25519_dalek::ristretto::CompressedRistretto',
    'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop',
    'core::mem::maybe_dangling::MaybeDangling',
    'core::ptr::unique::Unique', 'alloc::boxed::BoxRaw', 'core::ptr::non_null::NonNull', 'alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc',
    'zeroize::Zeroizing', 'core::num::wrapping::Wrapping',
}


LOOPDBG = os.environ.get('VERIF_LOOPDBG')


class Unsupported(Exception):
    pass


def tykey(t):
    """Canonical short name of a type."""
    k = t['k']
    if k == 'prim':
        return t['n']
    if k == 'adt':
        return t['p'] + ('<' + ','.join(tykey(x) for x in t['a']) + '>' if t['a'] else '')
    if k == 'ref':
        return '&' + ('mut ' if t['m'] else '') + tykey(t['t'])
    if k == 'ptr':
        return '*' + tykey(t['t'])
    if k == 'slice':
        return '[' + tykey(t['t']) + ']'
    if k == 'array':
        return '[' + tykey(t['t']) + ';' + tykey(t['n']) + ']'
    if k == 'tuple':
        return '(' + ','.join(tykey(x) for x in t['a']) + ')'
    if k in ('param', 'cparam'):
        return '$' + t['n']
    if k == 'cval':
        return str(t['v'])
    if k == 'fndef':
        return 'fn#' + t['f']['path']
    if k == 'closure':
        return 'closure#' + str(t.get('id'))
    return k + ':' + str(t.get('s'))


def strip_body(b):
    """a function body without source positions and instance numbers"""
    if isinstance(b, dict):
        return {k: strip_body(v) for k, v in b.items() if k not in ('span', 'inst', 'id', 'n') or (k == 'n' and not isinstance(v, str) and v is not None) or (k == 'n' and b.get('k') in ('prim', 'param', 'cparam'))}
    if isinstance(b, list):
        return [strip_body(x) for x in b]
    return b


def strip_ref(t):
    while t['k'] in ('ref', 'ptr'):
        t = t['t']
    return t


def tyname(t):
    t = strip_ref(t)
    if t['k'] == 'adt':
        return t['p']
    return tykey(t)


def is_u8(t):
    return t['k'] == 'prim' and t['n'] == 'u8'


def typenum(t):
    """value of a typenum type (UInt<UInt<UTerm,B1>,B0>) or None"""
    if t['k'] != 'adt':
        return None
    n = t['p'].split('::')[-1]
    if n == 'UTerm':
        return 0
    if n == 'UInt':
        hi = typenum(t['a'][0])
        b = t['a'][1]
        if hi is None or b['k'] != 'adt':
            return None
        return hi * 2 + (1 if b['p'].endswith('::B1') else 0)
    return None


def cst_term(c):
    if c['k'] == 'cval':
        return I(c['v'])
    if c['k'] == 'cparam':
        return mk('cparam', c['n'])
    try:
        return I(int(eval(c.get('s', ''), {'__builtins__': {}}, {})))
    except Exception:
        return mk('cparam', c.get('s', '?'))


def seq_len_of_type(t):
    """statically known length (term) of a byte-sequence type, or None"""
    t = strip_ref(t)
    if t['k'] == 'array':
        return cst_term(t['n'])
    if t['k'] == 'adt' and t['p'].endswith('generic_array::GenericArray') or t['k'] == 'adt' and t['p'] == 'generic_array::GenericArray':
        n = typenum(t['a'][1])
        if n is not None:
            return I(n)
        return mk('outlen', tykey(t['a'][1]))
    if t['k'] == 'adt' and t['p'] in ('curve25519_dalek::edwards::CompressedEdwardsY', 'curve25519_dalek::ristretto::CompressedRistretto'):
        return I(32)
    return None


POINTERS = ('alloc::boxed::Box', 'alloc::borrow::Cow', 'alloc::rc::Rc', 'alloc::sync::Arc', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc')


def is_bytes_type(t):
    t = strip_ref(t)
    k = t['k']
    if k == 'prim':
        return t['n'] == 'str'
    if k in ('slice', 'array'):
        return is_u8(t['t'])
    if k == 'adt':
        if t['p'] in ('alloc::vec::Vec', 'generic_array::GenericArray') + POINTERS:
            x = strip_ref(t['a'][0])
            return is_u8(x) or (t['p'] in POINTERS and is_bytes_type(x))
        return t['p'] in ('alloc::string::String',
                          'curve25519_dalek::edwards::CompressedEdwardsY', 'curve25519_dalek::ristretto::CompressedRistretto')
    return False


# ------------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.closures = {}
        self.d = d
        self.crate = d['crate']
        self.insts = {i['i']: i for i in d['insts']}
        self.fns = {f['id']: f for f in d['fns']}
        self.adts = {a['path']: a for a in d['adts'] if a}
        self.byname = {}
        for f in d['fns']:
            self.byname.setdefault(f['path'], []).append(f)
        # statics whose value is fixed by their initialiser
        fixed = {s['path'] for s in d.get('statics', ()) if not s['mut'] and not s['tls'] and (
            s['freeze'] or s['ty'].get('p', '').split('::')[-1] in ('LazyLock', 'LazyCell'))}
        self.normalise_fields()
        self.statics = {f['path']: f for f in d['fns'] if not f['isfn'] and 'body' in f and f['path'] in fixed and f['kind'].startswith('Static')}

    def normalise_fields(self):
        """declared field types name projections (`<D as …>::OutputSize`); where
        every access in the crate sees one and the same normalised type, the
        field has that type"""
        want = {}
        for a in self.adts.values():
            if a['local']:
                for v in a['variants']:
                    for f in v['fields']:
                        if isinstance(f['ty'], dict) and f['ty'].get('p', '').endswith('GenericArray') and '"alias"' in json.dumps(f['ty']):
                            want[a['path'], f['n']] = (f, {})
        if not want:
            return
        names = {p for p, _ in want}

        def scan(x):
            if isinstance(x, list):
                for y in x:
                    scan(y)
            elif isinstance(x, dict):
                if x.get('k') == 'field' and x.get('adt') in names and (x['adt'], x.get('n')) in want and 'ty' in x:
                    want[x['adt'], x['n']][1].setdefault(json.dumps(x['ty'], sort_keys=True), x['ty'])
                for y in x.values():
                    if isinstance(y, (list, dict)):
                        scan(y)
        for i in self.insts.values():
            if i.get('local') and i.get('body'):
                scan(i['body']['blocks'])
        for f, tys in want.values():
            if len(tys) == 1:
                f['ty'], = tys.values()

    def variants(self, p):
        a = self.adts.get(p)
        if a is None:
            return None
        return [v['n'] for v in a['variants']]

    def discr(self, p, v):
        for x in self.adts[p]['variants']:
            if x['n'] == v:
                d = x['discr']
                if d >= 1 << 63:
                    d -= 1 << 64
                return -1 if p == 'core::cmp::Ordering' and d == 255 else d
        return None


class Oblig:
    __slots__ = ('kind', 'fn', 'stack', 'line', 'cond', 'descr')


class Frame:
    __slots__ = ('uid', 'inst', 'body', 'locals', 'prom')


class Result_:
    pass


_uid = itertools.count(1)
FNTAB = {}


def fnval(ref):
    k = ref['path'] + '|' + ','.join(tykey(a) for a in ref.get('args', [])) + '|' + str(ref.get('inst'))
    FNTAB.setdefault(k, ref)
    return mk('fn', k)


def unpeel(ph, inits, steps):
    """a loop whose first round was written out before it: with a state s and
    values v, init s = F(p), v = G(p) and step s' = F(s), v' = G(s), what leaves
    the loop is F(M) and G(M) for M the state of the loop started from p"""
    for j in range(len(ph)):
        var = mk('muvar', j)
        others = {mk('muvar', i) for i in range(len(ph)) if i != j}
        if any(others & (deps(x) | {x}) for x in steps):
            continue
        if var not in deps(steps[j]) or any(x is UNDEF for x in inits + steps):
            continue
        pred = match(steps[j], inits[j], var)
        if pred is None:
            continue
        if all(subst(steps[i], {var: pred}) is inits[i] for i in range(len(ph))):
            if len(ph) == 1:
                return None
            one = mk('muvar', 0)
            m = mk('mu', 0, (pred,), (subst(steps[j], {var: one}),))
            return {p: subst(steps[i], {var: m}) for i, p in enumerate(ph)}
    return None


def match(pat, t, var):
    """the term x with pat[var := x] = t, when there is one"""
    if pat is var:
        return t
    if pat is t:
        return None
    if pat.op != t.op or len(pat.a) != len(t.a):
        return None
    for x, y in zip(pat.a, t.a):
        if x is y:
            continue
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for u, v in zip(x, y):
                if u is not v and isinstance(u, type(pat)) and isinstance(v, type(pat)):
                    r = match(u, v, var)
                    if r is not None:
                        return r
        elif isinstance(x, type(pat)) and isinstance(y, type(pat)):
            r = match(x, y, var)
            if r is not None:
                return r
    return None


def moving(i, k):
    """(i at k = 0, +1 or -1) for a position that moves by one each round"""
    p = zpoly(i)
    c = p.get(((k, 1),), 0)
    base = zfrom({m: x for m, x in p.items() if m != ((k, 1),)})
    if c not in (1, -1) or k in deps(base):
        return None
    return base, c


def run_piece(X, k, N):
    """the pieces X(0) … X(N-1), one byte each, one after the other"""
    if X.op == 'bytes' and not X.a[0].strip(b'\0'):
        return zeros(zmul(I(len(X.a[0])), N))
    if X.op == 'slice' and blen(X) is ONE and k not in deps(X.a[0]):
        mv = moving(X.a[1], k)
        if mv is None:
            return None
        b, c = mv
        if c == 1:
            return bslice(X.a[0], b, zadd(b, N))
        return brev(bslice(X.a[0], zadd(zsub(b, N), ONE), zadd(b, ONE)))
    return None


def run_bytes(ph, init, step, k, N, phis):
    """the byte string ph after N rounds of ph := step(ph, k), from init"""
    s = segs(step)
    if s[-1] is ph and len(s) > 1:
        X = cat(*s[:-1])
        if any(p in deps(X) for p in phis):
            return None
        r = run_piece(X, k, N)
        return None if r is None else cat(brev(r) if blen(X) is ONE else r, init)
    if s[0] is ph:
        X = cat(*s[1:])
        if any(p in deps(X) for p in phis):
            return None
        r = run_piece(X, k, N)
        return None if r is None else cat(init, r)
    if len(s) == 3 and s[0].op == 'slice' and s[2].op == 'slice' and s[0].a[0] is ph and s[2].a[0] is ph:
        X = s[1]
        if blen(X) is not ONE or any(p in deps(X) for p in phis) or s[0].a[1] is not ZERO or s[2].a[2] is not blen(ph):
            return None
        if s[2].a[1] is not zadd(s[0].a[2], ONE):
            return None
        mv = moving(s[0].a[2], k)
        r = run_piece(X, k, N)
        if mv is None or r is None:
            return None
        b, c = mv
        if c == 1:
            return bwrite(init, b, zadd(b, N), r)
        lo = zadd(zsub(b, N), ONE)
        return bwrite(init, lo, zadd(b, ONE), brev(r))
    return None


def run_split(ph, init, step, k, N, phis, shown):
    """the value of ph after N rounds; a step that is one thing before some round and
    another from it on is two loops one after the other"""
    if step is ph:
        return init
    if step.op == 'case' and step.a[0].op == 'a_le0' and k in deps(step.a[0].a[0]) and ph not in deps(step.a[0]) and \
            not (ph in KNOWN_LEN and k in deps(KNOWN_LEN[ph])):
        p = zpoly(step.a[0].a[0])
        c = p.get(((k, 1),), 0)
        r = zfrom({m: x for m, x in p.items() if m != ((k, 1),)})
        if c in (1, -1) and k not in deps(r) and not any(x in deps(r) for x in phis):
            t = zsub(ONE, r) if c == 1 else r
            first, second = step.a[1] if c == 1 else (step.a[1][1], step.a[1][0])
            if shown(le(ZERO, t)):
                mid = run_split(ph, init, first, k, t, phis, shown)
                if mid is None:
                    return None
                r = run_split(ph, mid, subst(second, {k: zadd(k, t)}), k, zsub(N, t), phis, shown)
                if r is None or shown(le(t, N)):
                    return r
                whole = run_split(ph, init, first, k, N, phis, shown)
                return None if whole is None else ite(le(t, N), r, whole)
        return None
    return run_diff(ph, init, step, k, N, phis) or run_bytes(ph, init, step, k, N, phis)


def difference(v, ph):
    """(x, y) when v is ph | (x ^ y)"""
    if v.op != 'bin' or v.a[0] != 'BitOr' or ph not in v.a[1:]:
        return None
    d = v.a[2] if v.a[1] is ph else v.a[1]
    if d.op != 'bin' or d.a[0] != 'BitXor' or ph in deps(d):
        return None
    return d.a[1], d.a[2]


def run_diff(ph, init, step, k, N, phis):
    """ph := ph | (X[k] ^ Y[k]) over N rounds"""
    d = difference(step, ph)
    if d is None:
        return None
    parts = []
    for x in d:
        if x.op != 'at' or any(p in deps(x) for p in phis) or k in deps(x.a[0]) or x.a[1] is not k:
            return None
        n = blen(x.a[0])
        whole = n is N or ORACLE[0] is not None and ORACLE[0](n, N) is True and ORACLE[0](N, n) is True
        parts.append(x.a[0] if whole else bslice(x.a[0], ZERO, N))
    return lift(lambda i: joined(i, mk('xordiff', *sorted(parts, key=lambda v: v.n))), init)


def joined(i, d):
    return d if i is ZERO else mk('bin', 'BitOr', *sorted((i, d), key=lambda v: v.n))


NEXT = 'core::iter::traits::iterator::Iterator::next'


def zip_diff(j, ph, inits, steps, exitc):
    """for (x, y) in a.zip(b) { v |= x ^ y } over whole strings, left only when
    the iterator is exhausted"""
    d = difference(steps[j], mk('muvar', j))
    if d is None or d[0].op != 'proj' or d[1].op != 'proj':
        return None
    u, w = d[0].a[0], d[1].a[0]
    if u is not w or u.op != 'proj' or u.a[1] != 'Some' or {d[0].a[2], d[1].a[2]} != {0, 1}:
        return None
    nx = u.a[0]
    if nx.op != 'app' or nx.a[0][0] != NEXT or len(nx.a) != 2 or nx.a[1].op != 'muvar':
        return None
    i = nx.a[1].a[0]
    it, st = inits[i], steps[i]
    if it.op != 'it_zip' or st.op != 'appmut' or st.a[0] != nx.a[0] or st.a[1] != 0 or st.a[2] is not nx.a[1]:
        return None
    if exitc is not case(mk('a_discr', nx, ('None', 'Some')), (TRUE, FALSE)):
        return None
    parts = []
    for x in it.a:
        if x.op != 'it_seq' or x.a[3] != 'ref' or x.a[0].op == 'list':
            return None
        parts.append(bslice(x.a[0], x.a[1], x.a[2]))
    return lift(lambda a: joined(a, mk('xordiff', *sorted(parts, key=lambda v: v.n))), inits[j])


def held_refs(v):
    """the references to mutable places inside a value"""
    if v.op == 'ref':
        return []
    return sorted((x for x in deps(v) if x.op == 'ref'), key=lambda x: x.n) if v.op != 'case' else [
        x for _, l in leaves(v) for x in held_refs(l)]


class Engine:
    def __init__(self, prog, assume_overflow=True):
        self.p = prog
        self.traithook = {}      # trait method -> value of an answer under study
        self.oblig = []          # unproved panic obligations
        self.proved = 0
        self.callhook = None
        self.stats = {'calls': 0, 'inlined': set(), 'models': {}, 'opaque': {}, 'blocks': 0, 'loops': 0}
        self.stack = []
        self.assume = []         # (pc0, exitcond) of single-exit loops
        self.trace = []          # effect log: (kind, pc, data)
        self.loopinfo = {}
        self._factcache = {}
        self.maxdepth = 60
        self.on_draw = None
        self.context = Facts()

    # ------------------------------------------------------------- state ops
    def facts_of(self, pc):
        r = self._factcache.get(pc)
        if r is None:
            f = self.context.copy()
            for a in sorted(atoms_of(pc), key=lambda a: a.n):
                dom = domain(a)
                poss = []
                for i, l in enumerate(dom):
                    lit = case(a, tuple(TRUE if j == i else FALSE for j in range(len(dom))))
                    if b_and(pc, lit) is not FALSE:
                        poss.append(l)
                if len(poss) == 1:
                    f.add(a, poss[0])
            r = self._factcache[pc] = f
        return r

    def feasible(self, c):
        return not implied_false(c, self.context.copy())

    def merge(self, ins):
        """[(pc, state)] -> (pc, state)"""
        if len(ins) == 1:
            return ins[0]
        pc = FALSE
        for c, _ in ins:
            pc = b_or(pc, c)
        keys = {}
        for _, s in ins:
            for k in s:
                keys[k] = 1
        out = {}
        for k in keys:
            v = None
            same = True
            first = ins[0][1].get(k)
            for _, s in ins[1:]:
                if s.get(k) is not first:
                    same = False
                    break
            if same:
                out[k] = first
                continue
            v = UNDEF
            for c, s in ins:
                x = s.get(k)
                if x is None or x is UNDEF:
                    continue
                v = x if v is UNDEF else ite(c, x, v)
            out[k] = restrict(v, pc) if v.op == 'case' else v
        return pc, out

    # ------------------------------------------------------------------ places
    def local_ty(self, fr, l):
        return fr.body['locals'][l]['ty']

    def place(self, st, fr, p):
        """-> list of (cond or None, cell, path)"""
        locs = [(None, (fr.uid, p['l']), ())]
        for e in p['pr']:
            k = e['k']
            if k == 'deref':
                out = []
                for c, cell, path in locs:
                    v = self.read_loc(st, cell, path)
                    for f, leaf in self._groups(v):
                        cc = f if c is None else (c if f is None else b_and(c, f))
                        if leaf.op == 'ref':
                            out.append((cc, leaf.a[0], leaf.a[1]))
                        else:
                            out.append((cc, cell, path))
                # merge identical locations
                m = {}
                for c, cell, path in out:
                    if (cell, path) in m:
                        a = m[(cell, path)]
                        m[(cell, path)] = None if a is None or c is None else b_or(a, c)
                    else:
                        m[(cell, path)] = c
                if len(m) == 1:
                    (cell, path), = m
                    locs = [(None, cell, path)]
                else:
                    locs = [(c, cell, path) for (cell, path), c in m.items()]
                continue
            if k == 'field':
                step = ('f', e['i'], e.get('adt'), e['ty'])
                if e.get('adt') in TRANSPARENT:
                    continue
            elif k == 'downcast':
                step = ('v', e['n'], e.get('adt'))
            elif k == 'index':
                step = ('i', self.read_loc(st, (fr.uid, e['l']), ()))
                if step[1].op != 'int':
                    self.trace.append(('index', TRUE, step[1], self.here()))
            elif k == 'cindex':
                step = ('c', e['off'], e['end'])
            elif k == 'subslice':
                step = ('ss', e['from'], e['to'], e['end'])
            else:
                raise Unsupported('projection ' + str(e))
            locs = [(c, cell, path + (Step(step),)) for c, cell, path in locs]
        return locs

    def _groups(self, v):
        """[(cond or None, leaf)] grouping ref leaves"""
        if v.op != 'case':
            return [(None, v)]
        refs = set()
        for _, leaf in leaves(v):
            if leaf.op == 'ref':
                refs.add(leaf)
        if not refs:
            return [(None, v)]
        out = []
        for r in sorted(refs, key=lambda t: t.n):
            out.append((lift(lambda x: TRUE if x is r else FALSE, v), r))
        rest = lift(lambda x: FALSE if x in refs else TRUE, v)
        if rest is not FALSE:
            out.append((rest, lift(lambda x: UNDEF if x in refs else x, v)))
        return out

    def read_loc(self, st, cell, path):
        v = st.get(cell)
        if v is None:
            return UNDEF
        for s in path:
            v = self.step_read(v, s.s)
        return v

    def step_read(self, v, s):
        k = s[0]
        if k == 'f':
            return lift(lambda x: field(x, s[1], s[3] if len(s) > 3 else None, s[2] if len(s) > 2 else None), v)
        if k == 'v':
            def f(x):
                if x.op == 'adt':
                    return x if x.a[1] == s[1] else UNDEF
                if x.op in ('as',):
                    return x
                return mk('as', x, s[1])
            return lift(f, v)
        if k == 'i':
            return lift(self.elem, v, s[1])
        if k == 'c':
            def f(x):
                n = seqlen(x)
                i = I(s[1]) if not s[2] else zsub(n, I(s[1]))
                return self.elem(x, i)
            return lift(f, v)
        if k == 'ss':
            def f(x):
                n = seqlen(x)
                hi = I(s[2]) if not s[3] else zsub(n, I(s[2]))
                return self.sub(x, I(s[1]), hi)
            return lift(f, v)
        if k == 's':
            return lift(self.sub, v, s[1], s[2])
        raise Unsupported('step ' + str(s))

    def elem(self, x, i):
        if x.op == 'list':
            if i.op == 'int':
                if 0 <= i.a[0] < len(x.a):
                    return x.a[i.a[0]]
                return UNDEF
            return mk('elem', x, i)
        if x.op == 'oplist':
            return mk('elem', x, i)
        return at(x, i)

    def sub(self, x, lo, hi):
        if x.op == 'list':
            if lo.op == 'int' and hi.op == 'int':
                return mk('list', *x.a[lo.a[0]:hi.a[0]])
            return mk('lslice', x, lo, hi)
        return bslice(x, lo, hi)

    def write_path(self, v, path, new):
        if not path:
            return new
        s = path[0].s
        k = s[0]
        rest = path[1:]
        if v is None:
            v = UNDEF
        if k == 'f':
            inner = self.write_path(self.step_read(v, s), rest, new) if rest else new
            if v is UNDEF:
                return lift(lambda n: mk('upd', mk('undefagg'), s[1], n), inner)
            return lift(lambda x, n: setfield(x, s[1], n), v, inner)
        if k == 'v':
            return self.write_path(v, rest, new)
        if k == 'i':
            i = s[1]
            inner = self.write_path(self.step_read(v, s), rest, new) if rest else new

            def f(x, i, n):
                if x.op == 'list':
                    if i.op == 'int' and i.a[0] < len(x.a):
                        return mk('list', *(x.a[:i.a[0]] + (n,) + x.a[i.a[0] + 1:]))
                    return mk('lupd', x, i, n)
                return bwrite(x, i, zadd(i, ONE), byte_seg(n))
            return lift(f, v, i, inner)
        if k == 'c':
            def g(x, n):
                L = seqlen(x)
                i = I(s[1]) if not s[2] else zsub(L, I(s[1]))
                return self.write_path(x, (Step(('i', i)),) + rest, n)
            return lift(g, v, new)
        if k in ('s', 'ss'):
            if k == 'ss':
                def rng(x):
                    return I(s[1]), (I(s[2]) if not s[3] else zsub(seqlen(x), I(s[2])))
            else:
                def rng(x):
                    return s[1], s[2]

            def h(x, n):
                lo, hi = rng(x)

                def w(lo, hi):
                    inner = self.write_path(self.sub(x, lo, hi), rest, n) if rest else n

                    def ww(inner):
                        if x.op == 'list':
                            return mk('list', *(x.a[:lo.a[0]] + inner.a + x.a[hi.a[0]:]))
                        return bwrite(x, lo, hi, inner)
                    return lift(ww, inner)
                return lift(w, lo, hi)
            return lift(h, v, new)
        raise Unsupported('write step ' + str(s))

    def read(self, st, fr, p):
        locs = self.place(st, fr, p)
        v = None
        for c, cell, path in locs:
            x = self.read_loc(st, cell, path)
            if v is None or v is UNDEF:
                v = x if c is None else ite(c, x, UNDEF)
            else:
                v = ite(c, x, v) if c is not None else x
        return v

    def write_locs(self, st, locs, val, pc):
        for c, cell, path in locs:
            old = st.get(cell)
            if not path:
                nv = val
            else:
                nv = self.write_path(old, path, val)
            if c is not None and old is not None:
                nv = ite(c, nv, old)
            st[cell] = nv

    def ref_to(self, locs):
        v = UNDEF
        for c, cell, path in locs:
            r = mk('ref', cell, path)
            v = r if c is None else ite(c, r, v)
        return v

    def load(self, st, v):
        """read through mutable references"""
        n = 0
        while True:
            has = any(l.op == 'ref' for _, l in leaves(v)) if v.op == 'case' else v.op == 'ref'
            if not has or n > 8:
                return v
            v = lift(lambda x: self.read_loc(st, x.a[0], x.a[1]) if x.op == 'ref' else x, v)
            n += 1

    def deepest(self, st, v):
        """follow reference chains to the innermost reference value"""
        n = 0
        while n < 8:
            if v.op == 'ref':
                w = self.read_loc(st, v.a[0], v.a[1])
                if w.op == 'ref' or (w.op == 'case' and any(l.op == 'ref' for _, l in leaves(w))):
                    v = w
                    n += 1
                    continue
            return v
        return v

    def store(self, st, ref, val, pc):
        """write val through a (possibly conditional) mutable reference value"""
        for c, r in self._groups(ref):
            if r.op != 'ref':
                continue
            self.write_locs(st, [(c, r.a[0], r.a[1])], val, pc)

    def load_all(self, st, v, depth=0):
        """Replace references nested in v by the values they point to."""
        v = self.load(st, v)

        def f(x):
            if x.op == 'adt':
                return lift(lambda *fs: adt(x.a[0], x.a[1], *fs), *[self.load_all(st, y, depth + 1) for y in x.a[2]]) if x.a[2] else x
            if x.op in ('tuple', 'list') and x.a:
                return lift(lambda *fs: mk(x.op, *fs), *[self.load_all(st, y, depth + 1) for y in x.a])
            return x
        if depth > 6:
            return v
        return lift(f, v)

    def new_cell(self, st, v):
        c = ('heap', next(_uid))
        st[c] = v
        return mk('ref', c, ())

    # ------------------------------------------------------------------ operands
    def operand(self, st, fr, o, pc):
        k = o['o']
        if k in ('copy', 'move'):
            v = self.read(st, fr, o['p'])
            if v is None:
                return UNDEF
            return v
        if k == 'const':
            return self.const(st, fr, o, pc)
        if k == 'rtchecks':
            return FALSE
        raise Unsupported('operand ' + k)

    def const(self, st, fr, o, pc):
        t = o['ty']
        if 'fn' in o:
            return fnval(o['fn'])
        if 'bytes' in o and is_bytes_type(t):
            return B(o['bytes'])
        if 'bits' in o and t['k'] == 'prim':
            n = t['n']
            if n == 'bool':
                return TRUE if o['bits'] else FALSE
            b, s = INTBITS.get(n, (64, 0))
            v = o['bits'] & ((1 << b) - 1)
            if s and v >> (b - 1):
                v -= 1 << b
            return I(v)
        if 'bits' in o and t['k'] == 'ref' and t['t']['k'] == 'prim':
            pass
        if 'promoted' in o:
            ps = fr.prom
            if ps and ps[o['promoted']]:
                return self.run_body(ps[o['promoted']], [], {}, TRUE, fr.inst, fr.prom)[1]
        if 'tyconst' in o and o['tyconst']['k'] in ('cparam', 'cval'):
            return cst_term(o['tyconst'])
        if t['k'] == 'adt' and (o.get('zst') or not self.p.adts.get(t['p'], {}).get('variants', [{}])[0].get('fields', [1])):
            a = self.p.adts.get(t['p'])
            if a and a['kind'] == 'struct' and not (o.get('path') and len(a['variants'][0]['fields'])):
                return adt(t['p'], a['variants'][0]['n'], *[adt('core::marker::PhantomData', 'PhantomData') for _ in a['variants'][0]['fields']])
        if t['k'] == 'tuple' and not t['a']:
            return UNIT
        if t['k'] == 'adt' and 'bits' in o:
            a = self.p.adts.get(t['p'])
            if a and a['kind'] == 'enum':
                for v in a['variants']:
                    if v['discr'] == o['bits'] and not v['fields']:
                        return adt(t['p'], v['n'])
        if 'static' in o:
            fs = self.p.statics.get(o['static'])
            if fs is not None and not o.get('static_mut'):
                return self.run_body(fs['body'], [], {}, TRUE, fs, fs.get('promoted'))[1]
            return mk('static', o['static'])
        pth = o.get('path')
        if pth:
            import models
            r = models.const(self, pth, t, o)
            if r is not None:
                return r
            fs = self.p.fns.get(o.get('id'))
            if fs and 'body' in fs and not fs['isfn']:
                return self.run_body(fs['body'], [], {}, TRUE, fs, fs.get('promoted'))[1]
            if is_bytes_type(t) and seq_len_of_type(t) is not None:
                v = mk('const', pth)
                KNOWN_LEN[v] = seq_len_of_type(t)
                return v
            return mk('const', pth)
        return mk('const', o.get('s', '?'))

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, pc):
        k = r['r']
        if k == 'use':
            return self.operand(st, fr, r['a'], pc)
        if k in ('ref', 'rawptr'):
            locs = self.place(st, fr, r['p'])
            if r['m']:
                return self.ref_to(locs)
            return self.read(st, fr, r['p'])
        if k == 'bin':
            a = self.operand(st, fr, r['a'], pc)
            b = self.operand(st, fr, r['b'], pc)
            return self.binop(r['op'], a, b, r['ty'], st)
        if k == 'un':
            a = self.operand(st, fr, r['a'], pc)
            if r['op'] == 'Not':
                if r['ty']['k'] == 'prim' and r['ty']['n'] == 'bool':
                    return b_not(a)
                bits = INTBITS.get(r['ty'].get('n'), (64, 0))[0]
                return lift(lambda x: zsub(I((1 << bits) - 1), x), a)
            if r['op'] == 'Neg':
                return lift(lambda x: zsub(ZERO, x), a)
            if r['op'].startswith('PtrMetadata'):
                return lift(seqlen, self.load(st, a))
            return lift(lambda x: mk('un', r['op'], x), a)
        if k == 'cast':
            a = self.operand(st, fr, r['a'], pc)
            ck = r['ck']
            if ck.startswith('IntToInt'):
                f, t = r['from'], r['ty']
                if f['k'] == 'prim' and f['n'] == 'bool':
                    return lift(lambda x: ONE if x is TRUE else ZERO, a)
                tb = INTBITS.get(t.get('n'))
                fb = INTBITS.get(f.get('n'))
                if f['k'] == 'adt':
                    return a
                if tb and fb:
                    def c(x):
                        if x.op == 'int':
                            v = x.a[0] & ((1 << tb[0]) - 1)
                            if tb[1] and v >> (tb[0] - 1):
                                v -= 1 << tb[0]
                            return I(v)
                        if (tb[0] > fb[0] and not fb[1]) or tb == fb:
                            return x
                        lo, hi = F.zbounds(x)
                        if lo is not None and lo >= 0 and hi is not None and hi < (1 << (tb[0] - tb[1])):
                            return x
                        return mk('trunc', x, tb[0])
                    return lift(c, a)
                return a
            if ck.startswith(('PointerCoercion', 'PtrToPtr', 'FnPtrToPtr', 'BoxDeref')):
                return a
            if ck.startswith('Transmute') or ck.startswith('Subtype'):
                if r['ty']['k'] in ('ptr', 'ref', 'adt') or is_bytes_type(r['ty']):
                    return a
            return lift(lambda x: mk('cast', ck.split('(')[0], x), a)
        if k == 'discr':
            v = self.read(st, fr, r['p'])
            return self.discr_of(st, v, r['ty'])
        if k == 'agg':
            vs = [self.operand(st, fr, x, pc) for x in r['a']]
            kk = r['k']
            if kk == 'array':
                if is_u8(r['ty']):
                    return lift(lambda *xs: cat(*[byte_seg(x) for x in xs]), *vs) if vs else EMPTY
                return lift_small(lambda *xs: mk('list', *xs), vs)
            if kk == 'tuple':
                return lift_small(lambda *xs: mk('tuple', *xs), vs)
            if kk == 'adt':
                if r['p'] in TRANSPARENT and vs:
                    return vs[0]
                if r.get('active') is not None and not r['enum'] and vs:
                    return vs[0]
                return lift_small(lambda *xs: adt(r['p'], r['v'], *xs), vs)
            if kk == 'closure':
                return lift_small(lambda *xs: mk('closure', r['inst'], tuple(xs)), vs)
            return mk('agg?', *vs)
        if k == 'repeat':
            a = self.operand(st, fr, r['a'], pc)
            n = cst_term(r['n'])

            def rep(x):
                if x.op == 'int' and 0 <= x.a[0] < 256:
                    if x is ZERO:
                        return zeros(n)
                    if n.op == 'int':
                        return B(bytes([x.a[0]]) * n.a[0])
                v = None
                if n.op == 'int' and n.a[0] <= 4096 and x.op != 'at':
                    v = mk('list', *([x] * n.a[0]))
                else:
                    v = mk('fill', x, n)
                    KNOWN_LEN[v] = n
                return v
            return lift(rep, a)
        if k == 'tls':
            return mk('static', r['path'])
        raise Unsupported('rvalue ' + k)

    def discr_of(self, st, v, ty):
        v = self.load(st, v)
        t = strip_ref(ty)
        p = t.get('p')

        def f(x):
            if x.op == 'adt':
                return I(self.p.discr(x.a[0], x.a[1]) if x.a[0] in self.p.adts else models_discr(x))
            if x.op == 'as':
                x0 = x.a[0]
            vs = self.p.variants(p) if p else None
            if vs is None:
                return mk('discr', x)
            a = mk('a_discr', x, tuple(vs))
            return case(a, tuple(I(self.p.discr(p, n)) for n in vs))
        return lift(f, v)

    def binop(self, op, a, b, ty, st):
        n = ty.get('n') if ty['k'] == 'prim' else None
        if n == 'bool':
            if op == 'Eq':
                return b_not(b_xor(a, b))
            if op in ('Ne', 'BitXor'):
                return b_xor(a, b)
            if op == 'BitAnd':
                return b_and(a, b)
            if op == 'BitOr':
                return b_or(a, b)
            if op == 'Lt':
                return b_and(b_not(a), b)
            if op == 'Gt':
                return b_and(a, b_not(b))
            if op == 'Le':
                return b_or(b_not(a), b)
            if op == 'Ge':
                return b_or(a, b_not(b))
        bits, signed = INTBITS.get(n, (64, 0))
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

        def f(x, y):
            if op in ('Eq', 'Ne'):
                if n is None and ty['k'] != 'prim':
                    r = TRUE if x is y else atom_bool(mk('a_eq', *sorted((x, y), key=lambda t: t.n)))
                else:
                    r = ints_eq(x, y)
                return r if op == 'Eq' else b_not(r)
            if op == 'Lt':
                return lt(x, y)
            if op == 'Le':
                return le(x, y)
            if op == 'Gt':
                return lt(y, x)
            if op == 'Ge':
                return le(y, x)
            if op == 'Cmp':
                O = 'core::cmp::Ordering'
                return ite(lt(x, y), adt(O, 'Less'), ite(ints_eq(x, y), adt(O, 'Equal'), adt(O, 'Greater')))
            if op.endswith('WithOverflow'):
                z = arith(op[:-12], x, y)
                if z is None:
                    return mk('tuple', mk('bin', op, x, y), FALSE)
                bad = b_or(lt(z, I(lo)), lt(I(hi), z))
                return lift(lambda bb: mk('tuple', z, bb), bad)
            base = op[:-9] if op.endswith('Unchecked') else op
            if base in ('Add', 'Sub', 'Mul'):
                z = arith(base, x, y)
                if z.op == 'int':
                    v = z.a[0] & ((1 << bits) - 1)
                    if signed and v >> (bits - 1):
                        v -= 1 << bits
                    return I(v)
                return z
            if x.op == 'int' and y.op == 'int':
                u, v = x.a[0], y.a[0]
                if base == 'Div' and v:
                    return I(abs(u) // abs(v) * (1 if (u < 0) == (v < 0) else -1))
                if base == 'Rem' and v:
                    return I(abs(u) % abs(v) * (1 if u >= 0 else -1))
                m = (1 << bits) - 1
                if base == 'BitAnd':
                    return I(u & v & m)
                if base == 'BitOr':
                    return I((u | v) & m)
                if base == 'BitXor':
                    return I((u ^ v) & m)
                if base == 'Shl':
                    return I((u << v) & m)
                if base == 'Shr':
                    return I(u >> v)
            if base == 'BitXor':
                if x is y:
                    return ZERO
                if x is ZERO:
                    return y
                if y is ZERO:
                    return x
            if base in ('BitOr', 'BitAnd'):
                if x is y:
                    return x
                if x is ZERO:
                    return y if base == 'BitOr' else ZERO
                if y is ZERO:
                    return x if base == 'BitOr' else ZERO
            if base in ('Shl', 'Shr') and y is ZERO:
                return x
            if base in ('BitXor', 'BitOr', 'BitAnd') and y.n < x.n:
                x, y = y, x
            return mk('bin', base, x, y)
        return lift(f, self.load(st, a) if a.op in ('ref', 'case') else a, self.load(st, b) if b.op in ('ref', 'case') else b)

    # ------------------------------------------------------------------ panics
    def here(self):
        for name, line, local, _ in reversed(self.stack):
            if local:
                return name, line
        return (self.stack[-1][0], self.stack[-1][1]) if self.stack else ('?', 0)

    def here_at(self, bl):
        self._line(bl)
        return self.here()

    def obligation(self, bad, pc, kind, descr=None):
        """bad: diagram of the panic condition; returns continuing pc."""
        c = b_and(pc, bad)
        if c is FALSE:
            self.proved += 1
            return pc
        if implied_false(c, self.context.copy()):
            self.proved += 1
            return pc
        o = Oblig()
        o.kind = kind
        o.fn, o.line = self.here()
        o.stack = tuple(n for n, _, l, _ in self.stack if l)
        o.cond = c
        o.descr = descr
        self.oblig.append(o)
        return b_and(pc, b_not(bad))

    # ------------------------------------------------------------------ bodies
    def run_body(self, body, args, st, pc, inst, prom):
        """-> (state, value, pc of normal return)"""
        fr = Frame()
        fr.uid = next(_uid)
        fr.inst = inst
        fr.body = body
        fr.prom = prom
        st = dict(st)
        spread = body.get('spread')
        argc = body['argc']
        for i in range(argc):
            if i < len(args):
                st[(fr.uid, i + 1)] = args[i]
        cfg = cfg_of(body)
        exits = self.region(fr, cfg, cfg.all, 0, pc, st, None)
        rets = exits.get('ret', [])
        rets = [(c, s) for c, s in rets if c is not FALSE]
        if not rets:
            return st, UNDEF, FALSE
        c, s = self.merge(rets)
        v = s.get((fr.uid, 0), UNIT)
        s = {k: x for k, x in s.items() if k[0] != fr.uid}
        return s, v, c

    def region(self, fr, cfg, nodes, entry, pc, st, loop):
        """Evaluate blocks `nodes` from entry; edges back to entry (if loop)
        and edges leaving the region are returned."""
        pend = {entry: [(pc, st)]}
        exits = {}
        for b in cfg.rpo:
            if b not in nodes or b not in pend:
                continue
            ins = [(c, s) for c, s in pend.pop(b) if c is not FALSE]
            if not ins:
                continue
            c, s = self.merge(ins)
            if b in cfg.loops and b != (loop if loop is not None else -1):
                outs = self.run_loop(fr, cfg, b, c, s)
            else:
                outs = self.block(fr, b, c, dict(s))
            for tgt, cc, ss in outs:
                if cc is FALSE:
                    continue
                if tgt == 'ret':
                    exits.setdefault('ret', []).append((cc, ss))
                elif loop is not None and tgt == loop:
                    exits.setdefault('back', []).append((cc, ss))
                elif tgt in nodes:
                    pend.setdefault(tgt, []).append((cc, ss))
                else:
                    exits.setdefault(tgt, []).append((cc, ss))
        return exits

    def run_loop(self, fr, cfg, h, pc, st):
        self.stats['loops'] += 1
        import models
        for key, v in st.items():
            if key[0] == fr.uid and v.op.startswith('it_') and key[1] in loop_locals(fr.body, cfg, h):
                old = ORACLE[0]
                ORACLE[0] = self.facts_of(pc).le_known
                try:
                    parts = models.it_split(v)
                finally:
                    ORACLE[0] = old
                if parts is None:
                    continue
                # a loop over one sequence after another: two loops
                outs = self.run_loop(fr, cfg, h, pc, {**st, key: parts[0]})
                if len(set(t for t, _, _ in outs)) == 1 and all(models.it_done(s.get(key)) for _, _, s in outs):
                    c, s = self.merge([(c, s) for _, c, s in outs])
                    s = {k: v for k, v in s.items() if k in st or k[0] != fr.uid}
                    return self.run_loop(fr, cfg, h, c, {**s, key: parts[1]})
                if LOOPDBG:
                    print([(t, show(s.get(key), 9)) for t, _, s in outs])
                raise Unsupported('loop over a chain left early')
        nodes = cfg.loops[h]
        it = 0
        cur = (pc, st)
        branchy = 0
        sofar = []
        while True:
            ex = self.region(fr, cfg, nodes, h, cur[0], cur[1], h)
            back = ex.pop('back', [])
            o = [(t, c, s) for t, l in ex.items() for c, s in l]
            back = [(c, s) for c, s in back if c is not FALSE]
            if back:
                bc, bs = self.merge(back)
                if it > 0 and not self.feasible(bc):
                    back = []
            sofar += o
            if not back:
                return sofar
            it += 1
            if bc is not cur[0]:
                branchy += 1
                new = atoms_of(bc) - atoms_of(cur[0])
                if new and all(a.op in ('a_le0', 'a_eq0') and not any(x.op == 'at' for x in deps(a)) for a in new):
                    branchy += 20          # symbolic trip count
            # progress: the loop's own cells hold concrete, changing values
            if it >= 3 and not self.concrete_progress(cur[1], bs, cfg, fr) or it > 400 or branchy > 70:
                snap = (len(self.oblig), self.proved, len(self.trace))
                try:
                    return self.closed_form(fr, cfg, h, pc, st)
                except (Unsupported, Budget) as e:
                    del self.oblig[snap[0]:]
                    del self.trace[snap[2]:]
                    self.proved = snap[1]
                    if LOOPDBG:
                        print('loop at', self.stack[-1][:2] if self.stack else '?', ':', e)
                return self.havoc_loop(fr, cfg, h, pc, st)
            cur = (bc, bs)

    def concrete_progress(self, s0, s1, cfg, fr):
        for k in s1:
            a, b = s0.get(k), s1[k]
            if a is not None and b is not None and advanced(a, b):
                return True
        return False

    def closed_form(self, fr, cfg, h, pc, st):
        """A counted loop whose state is made of counters (advancing by a constant)
        and byte strings (one piece written at, or appended after, a position that
        moves with the counter): the state after k rounds is written in closed form,
        and the loop is left after the N rounds its bound gives.  None when the loop
        is of another kind."""
        nodes = cfg.loops[h]
        snap = (len(self.oblig), self.proved, len(self.trace))

        def rewind():
            del self.oblig[snap[0]:]
            del self.trace[snap[2]:]
            self.proved = snap[1]
        uid = next(_uid)
        k = mk('uarg', 'round%d' % uid, 62)
        phis = {}                   # leaf variable -> initial value
        shape = {}                  # changed cells

        def general(a, b, init):
            if a is b or a in phis:
                return a
            if a.op == b.op and len(a.a) == len(b.a) and a.op in ('adt', 'tuple', 'hs') or (a.op == b.op and a.op.startswith('it_')):
                if a.op == 'adt' and a.a[:2] != b.a[:2]:
                    return None
                return mk(a.op, *[general_arg(x, y) for x, y in zip(a.a, b.a)])
            ph = mk('phi', uid, len(phis))
            phis[ph] = a
            if a.op not in ('int', 'zp', 'true', 'false', 'list', 'case', 'ref', 'adt', 'tuple', 'phi'):
                try:
                    n0 = blen(a)
                    if all(l is not UNDEF and blen(l) is n0 for _, l in leaves(b)):
                        KNOWN_LEN[ph] = n0
                except Exception:
                    pass
            return ph

        def general_arg(x, y):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    raise Unsupported('loop shape')
                return tuple(general_arg(u, v) for u, v in zip(x, y))
            if isinstance(x, T) and isinstance(y, T):
                g = general(x, y, None)
                if g is None:
                    raise Unsupported('loop shape')
                return g
            if x != y:
                raise Unsupported('loop shape')
            return x

        def region(start, pc=pc):
            rewind()
            ex = self.region(fr, cfg, nodes, h, pc, start, h)
            back = [(c, x) for c, x in ex.pop('back', []) if c is not FALSE]
            return [(t, c, x) for t, l in ex.items() for c, x in l], back

        for rnd in range(12):
            outs, back = region({**st, **shape})
            if not back:
                raise Unsupported('loop form 1')
            bc, bs = self.merge(back)
            new = False
            for key, v in bs.items():
                cur = shape.get(key, st.get(key, UNDEF))
                if key not in st or v is UNDEF or cur is UNDEF:
                    continue
                v = restrict(v, bc)
                if key in shape and self.instance(shape[key], v, phis) is not None or v is cur:
                    continue
                shape[key] = general(cur, v, None)
                if shape[key] is None:
                    raise Unsupported('loop form 2')
                new = True
            if not new:
                break
        else:
            raise Unsupported('loop form 3')

        def steps():
            m = {}
            for key, sh in shape.items():
                g = self.instance(sh, restrict(bs[key], bc), phis)
                if g is None:
                    return None
                for ph, v in g.items():
                    if m.setdefault(ph, v) is not v:
                        return None
            return m
        st1 = steps()
        if not st1:
            raise Unsupported('loop form 4')
        # counters
        fold = {}
        for ph, v in st1.items():
            d = zsub(v, ph) if ph not in KNOWN_LEN and (v.op == 'zp' or v.op == 'int' or v is ph) else None
            if d is not None and d.op == 'int' and d.a[0] and phis[ph].op in ('int', 'zp') + tuple(NONNEG):
                fold[ph] = zadd(phis[ph], zmul(d, k))
        if not fold:
            # strings that grow by so many bytes a round
            import models
            for ph, v in st1.items():
                if ph in KNOWN_LEN or v is ph or phis[ph].op not in models.BYTEOPS:
                    continue
                d = zsub(blen(v), blen(ph))
                if d.op == 'int' and d.a[0]:
                    g = mk('phi', uid, len(phis))
                    phis[g] = phis[ph]
                    KNOWN_LEN[g] = zadd(blen(phis[ph]), zmul(d, k))
                    fold[ph] = g
        if LOOPDBG and not fold:
            print('   steps', [(show(phis[p], 4), show(v, 4)) for p, v in st1.items()])
        if not fold:
            raise Unsupported('loop form 5')
        shape = {key: subst(sh, fold) for key, sh in shape.items()}
        outs, back = region({**st, **shape})
        if not back or not outs:
            raise Unsupported('loop form 6')
        bc, bs = self.merge(back)
        rest = {ph: x for ph, x in phis.items() if ph not in fold}
        nxt = zadd(k, ONE)
        # number of rounds: the least bound among the exit conditions
        N = None
        exitc = FALSE
        for _, c, _ in outs:
            exitc = b_or(exitc, c)
        cands = []
        for a in sorted(atoms_of(exitc), key=lambda a: a.n):
            if a.op in ('a_le0', 'a_eq0') and k in deps(a.a[0]):
                p = zpoly(a.a[0])
                ck = p.get(((k, 1),), 0)
                if ck not in (1, -1):
                    continue
                e = zfrom({m: c for m, c in p.items() if m != ((k, 1),)})
                b = e if ck == -1 else zsub(ZERO, e)
                cands += [b, zadd(b, ONE), zsub(b, ONE)]
        for b in cands:
            if k in deps(b) or any(ph in deps(b) for ph in phis):
                continue
            if self.feasible(b_and(pc, lt(b, ZERO))):
                continue
            if self.feasible(b_and(exitc, lt(k, b))) or self.feasible(b_and(bc, eq0(zsub(k, b)))):
                continue
            N = b
            break
        if N is None:
            raise Unsupported('loop form 9')
        # once more, with what the number of rounds says about the counter
        outs, back = region({**st, **shape}, b_and(pc, le(k, N)))
        if not back or not outs:
            raise Unsupported('loop form 6')
        bc, bs = self.merge(back)
        S = {}
        for key, sh in shape.items():
            v = restrict(bs[key], bc)
            g = self.instance(subst(sh, {k: nxt}), v, rest)
            if g is None:
                raise Unsupported('loop form 7')
            for ph, x in g.items():
                if S.setdefault(ph, x) is not x:
                    raise Unsupported('loop form 8')
        inr = self.facts_of(b_and(pc, lt(k, N)))
        ORACLE[0] = inr.le_known
        try:
            final = {}
            for ph, init in rest.items():
                if ph in S:
                    if ph in KNOWN_LEN and any(blen(l) is not subst(KNOWN_LEN[ph], {k: nxt}) for _, l in leaves(S[ph])):
                        raise Unsupported('loop form 11')
                    final[ph] = run_split(ph, init, S[ph], k, N, rest, lambda c: not self.feasible(b_and(pc, b_not(c))))
                    if LOOPDBG and final[ph] is None:
                        print('    var', show(init, 9), '->', show(S[ph], 9))
                    if final[ph] is None:
                        raise Unsupported('loop form 10')
        finally:
            ORACLE[0] = ORACLE_BASE[0]
        final[k] = N
        res = []
        for t, c, s in outs:
            c2 = subst(c, final)
            s2 = {key: subst(v, final) if v is not st.get(key) else v for key, v in s.items()}
            res.append((t, pc if len(outs) == 1 else c2, s2))
        return res

    def instance(self, sh, v, phis):
        """the values of the variables for which the shape equals v, or None"""
        m = {}

        def rec(x, y):
            if isinstance(x, tuple):
                return isinstance(y, tuple) and len(x) == len(y) and all(rec(a, b) for a, b in zip(x, y))
            if x is y:
                # the variables in it keep their values
                return not isinstance(x, T) or all(m.setdefault(p, p) is p for p in phis if p is x or p in deps(x))
            if not isinstance(x, T) or not isinstance(y, T):
                return x == y
            if x in phis:
                return m.setdefault(x, y) is y
            if x.op != y.op or len(x.a) != len(y.a) or not any(p in deps(x) for p in phis):
                return False
            return all(rec(a, b) for a, b in zip(x.a, y.a))
        if not rec(sh, v):
            return None
        return m

    def havoc_loop(self, fr, cfg, h, pc, st):
        nodes = cfg.loops[h]
        changed = {}
        uid = next(_uid)
        snap = (len(self.oblig), self.proved, len(self.trace))
        for rnd in range(12):
            del self.oblig[snap[0]:]
            del self.trace[snap[2]:]
            self.proved = snap[1]
            s = dict(st)
            for k, ph in changed.items():
                s[k] = ph
            ex = self.region(fr, cfg, nodes, h, pc, s, h)
            back = [(c, x) for c, x in ex.pop('back', []) if c is not FALSE]
            if not back:
                break
            bc, bs = self.merge(back)
            new = False
            for k, v in bs.items():
                if k in changed or k not in s:
                    continue
                if s[k] is not v and v is not UNDEF and s[k] is not UNDEF:
                    ph = mk('phi', uid, len(changed))
                    changed[k] = ph
                    if s[k].op not in ('list', 'adt', 'tuple', 'case', 'ref'):
                        n = None
                        try:
                            n0, n1 = blen(s[k]), blen(v)
                            if n0 is n1:
                                n = n0
                        except Exception:
                            pass
                        if n is not None and s[k].op not in ('int', 'zp', 'true', 'false'):
                            KNOWN_LEN[ph] = n
                    new = True
            if not new:
                break
        else:
            raise Unsupported('loop fixpoint')
        outs = [(t, c, s) for t, l in ex.items() for c, s in l]
        if back and not changed:
            self.trace.append(('openloop', pc, ((), (), (), bc, len(outs)), self.here_at(fr.body['blocks'][h])))
        if not changed or not back:
            return outs
        inits = tuple(st.get(k, UNDEF) for k in changed)
        steps = tuple(bs.get(k, UNDEF) for k in changed)
        ph = list(changed.values())
        # for the rule on termination: a loop that is neither counted nor unrolled
        self.trace.append(('openloop', pc, (tuple(ph), inits, steps, bc, len(outs)), self.here_at(fr.body['blocks'][h])))
        canon = {p: mk('muvar', i) for i, p in enumerate(ph)}
        exitc = FALSE
        for t, c, s in outs:
            exitc = b_or(exitc, c)
        rel = b_not(b_and(bc, TRUE))
        steps_c = tuple(subst(x, canon) for x in steps)
        mus = unpeel(ph, inits, steps_c) or {p: mk('mu', i, inits, steps_c) for i, p in enumerate(ph)}
        for j, p in enumerate(ph):
            z = zip_diff(j, p, inits, steps_c, subst(restrict(exitc, pc), canon))
            if z is not None:
                mus[p] = z
        for p, m in mus.items():
            if p in KNOWN_LEN:
                KNOWN_LEN[m] = KNOWN_LEN[p]
        res = []
        exits = set(t for t, c, s in outs)
        total = subst(exitc, mus)
        for t, c, s in outs:
            c2 = subst(c, mus)
            s2 = {k: subst(v, mus) if v is not st.get(k) else v for k, v in s.items()}
            if len(exits) == 1 and len(outs) == 1:
                self.assume.append((pc, c2))
                self.loopinfo[c2] = s2
                c2 = pc
            res.append((t, c2, s2))
        return res

    def block(self, fr, b, pc, st):
        old = ORACLE_BASE[0]
        memo = []

        def oracle(x, y):
            if not memo:
                memo.append(self.facts_of(pc))
            return memo[0].le_known(x, y)
        ORACLE[0] = ORACLE_BASE[0] = oracle
        try:
            return self.block_(fr, b, pc, st)
        finally:
            ORACLE[0] = ORACLE_BASE[0] = old

    def block_(self, fr, b, pc, st):
        self.stats['blocks'] += 1
        bl = fr.body['blocks'][b]
        self._line(bl)
        for s in bl['st']:
            if s['s'] == 'assign':
                if self.stack:
                    self.stack[-1][1] = s['span'][1]
                v = self.rvalue(st, fr, s['rv'], pc)
                if v.op == 'case':
                    v = restrict(v, pc)
                self.assign(st, fr, s['p'], v, pc)
            elif s['s'] == 'setdiscr':
                raise Unsupported('setdiscr')
        self._line(bl)
        t = bl['t']
        k = t['t']
        if k == 'goto':
            return [(t['to'], pc, st)]
        if k == 'return':
            return [('ret', pc, st)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'drop':
            return [(t['to'], pc, st)]
        if k == 'switch':
            v = self.operand(st, fr, t['d'], pc)
            isb = t['ty']['k'] == 'prim' and t['ty']['n'] == 'bool'
            outs = []
            rest = TRUE
            if v is UNDEF:
                return []
            for val, to in t['cases']:
                if isb:
                    c = b_not(v) if val == 0 else v
                else:
                    bits, sg = INTBITS.get(t['ty'].get('n'), (64, 0))
                    if sg and val >> (bits - 1):
                        val -= 1 << bits
                    c = lift(lambda x: ints_eq(x, I(val)), v)
                c = undef_false(c)
                if c.op == 'case':
                    self.trace.append(('branch', pc, c, self.here_at(bl)))
                cc = b_and(pc, b_and(rest, c))
                rest = b_and(rest, b_not(c))
                outs.append((to, cc))
            outs.append((t['else'], b_and(pc, rest)))
            m = {}
            for to, c in outs:
                m[to] = b_or(m[to], c) if to in m else c
            res = []
            for to, c in m.items():
                if c is FALSE:
                    continue
                if c is not pc and not self.feasible(c):
                    continue
                res.append((to, c, st if len(m) == 1 else dict(st)))
            return res
        if k == 'assert':
            v = self.operand(st, fr, t['c'], pc)
            bad = b_not(v) if t['e'] else v
            if bad.op == 'case':
                self.trace.append(('branch', pc, undef_false(bad), self.here_at(bl)))
            pc2 = self.obligation(undef_false(bad), pc, t['k'])
            return [(t['to'], pc2, st)] if pc2 is not FALSE else []
        if k == 'call':
            return self.call(fr, t, pc, st)
        if k == 'other' and t.get('s', '').startswith('InlineAsm'):
            raise Unsupported('asm')
        raise Unsupported('terminator ' + k)

    def _line(self, bl):
        if self.stack:
            self.stack[-1][1] = bl['span'][1]

    def assign(self, st, fr, p, v, pc):
        if not p['pr']:
            st[(fr.uid, p['l'])] = v
            return
        self.write_locs(st, self.place(st, fr, p), v, pc)

    # ------------------------------------------------------------------ calls
    def call(self, fr, t, pc, st):
        args = [self.operand(st, fr, a, pc) for a in t['a']]
        f = t['f']
        st2, v, pc2 = None, None, None
        if f['o'] == 'const' and 'fn' in f:
            ref = f['fn']
            st2, v, pc2 = self.call_ref(ref, args, st, pc, t['dty'], t['aty'], t['to'] is None)
        else:
            fv = self.operand(st, fr, f, pc)
            st2, v, pc2 = self.call_value(fv, args, st, pc, t['dty'])
        if t['to'] is None or pc2 is FALSE:
            return []
        if v.op == 'case':
            v = restrict(v, pc2)
        st2 = dict(st2)
        self.assign(st2, fr, t['d'], v, pc2)
        return [(t['to'], pc2, st2)]

    def call_ref(self, ref, args, st, pc, dty, aty=None, diverges=False):
        import models
        self.stats['calls'] += 1
        if 'ctor' in ref:
            p, v = ref['ctor']
            if p in TRANSPARENT:
                return st, args[0], pc
            return st, lift_small(lambda *xs: adt(p, v, *xs), args), pc
        inst = self.p.insts.get(ref.get('inst'))
        local = inst is not None and inst['local']
        if self.callhook is not None and not local:
            cx = Call(self, ref, args, st, pc, dty, aty)
            r = self.callhook(cx)
            if r is not None:
                return cx.st, r, cx.pc
        if not local:
            cx = Call(self, ref, args, st, pc, dty, aty)
            r = models.dispatch(cx)
            if r is not None:
                nm = ref['path']
                self.stats['models'][nm] = self.stats['models'].get(nm, 0) + 1
                return cx.st, r, cx.pc
        if inst is not None and 'body' in inst and (local or models.may_inline(inst['path'])):
            return self.inline(inst, args, st, pc)
        if diverges:
            pc2 = self.obligation(TRUE, pc, 'panic', ref['path'])
            return st, UNDEF, FALSE
        return self.opaque(ref, args, st, pc, dty, aty)

    def inline(self, inst, args, st, pc):
        if len(self.stack) > self.maxdepth or sum(1 for s in self.stack if s[3] == inst['i']) > 3:
            raise Unsupported('recursion at ' + inst['path'])
        self.stack.append([inst['path'], 0, inst['local'], inst['i']])
        try:
            if inst['local']:
                self.stats['inlined'].add(inst['path'])
            return self.run_body(inst['body'], self.abi(inst, args), st, pc, inst, inst.get('promoted'))
        finally:
            self.stack.pop()

    def abi(self, inst, args):
        body = inst['body']
        if body['argc'] and len(args) == 2 and strip_ref(body['locals'][1]['ty'])['k'] == 'closure':
            # closure bodies take their arguments one by one, callers pass a tuple
            n = body['argc'] - 1
            return [args[0]] + [lift(lambda x, i=i: field(x, i, None), args[1]) for i in range(n)]
        if len(args) == body['argc']:
            return args
        # rust-call: last argument is a tuple
        if len(args) == 2 and body['argc'] != 2:
            n = body['argc'] - 1
            return [args[0]] + [lift(lambda x, i=i: field(x, i, None), args[1]) for i in range(n)]
        return args

    def call_value(self, fv, args, st, pc, dty=None):
        """call a function value (fn item, closure) with untupled args"""
        fv = self.load(st, fv)
        if fv.op == 'case':
            outs = []
            vs = {}
            for c, leaf in leaf_groups(fv):
                s2, v, p2 = self.call_value(leaf, args, dict(st), b_and(pc, c), dty)
                outs.append((p2, s2, v))
            key = ('tmp', next(_uid))
            ins = []
            for p2, s2, v in outs:
                if p2 is FALSE:
                    continue
                s2 = dict(s2)
                s2[key] = v
                ins.append((p2, s2))
            if not ins:
                return st, UNDEF, FALSE
            p2, s2 = self.merge(ins)
            v = s2.pop(key)
            return s2, v, p2
        if fv.op == 'fn':
            ref = FNTAB[fv.a[0]]
            return self.call_ref(ref, list(args), st, pc, dty or {'k': 'other', 's': '?'})
        if fv.op == 'closure':
            inst = self.p.insts.get(fv.a[0])
            if inst is None or 'body' not in inst:
                raise Unsupported('closure body')
            # environment: by value or by reference, both transparent
            return self.inline_closure(inst, fv, args, st, pc)
        if fv.op == 'pyfn':
            return PYFN[fv.a[0]](self, fv, args, st, pc)
        return self.opaque({'path': 'call_value', 'args': []}, [fv] + list(args), st, pc, dty, None)

    def inline_closure(self, inst, fv, args, st, pc):
        env = mk('tuple', *fv.a[1])
        st = dict(st)
        a1 = inst['body']['locals'][1]['ty'] if inst['body']['argc'] else None
        e = env
        if a1 is not None and a1['k'] == 'ref' and a1['m']:
            e = self.new_cell(st, env)
        body = inst['body']
        if len(self.stack) > self.maxdepth:
            raise Unsupported('recursion')
        self.stack.append([inst['path'], 0, inst['local'], inst['i']])
        try:
            return self.run_body(body, [e] + list(args), st, pc, inst, inst.get('promoted'))
        finally:
            self.stack.pop()

    def canon(self, st, v):
        """closures named by their body and captured values, so that the same
        code given to a library function twice is the same value"""
        cs = [x for x in deps(v) | {v} if x.op == 'closure'] if v.op not in ('int', 'bytes') else []
        if not cs:
            return v
        mp = {}
        for c in cs:
            inst = self.p.insts.get(c.a[0])
            if inst is None or 'body' not in inst:
                continue
            k = self.p.closures.get(c.a[0])
            if k is None:
                import hashlib
                k = self.p.closures[c.a[0]] = hashlib.sha256(repr(strip_body(inst['body'])).encode()).hexdigest()[:16]
            mp[c] = mk('code', k, tuple(self.load_all(st, y) for y in c.a[1]))
        return subst(v, mp)

    def opaque(self, ref, args, st, pc, dty, aty):
        nm = ref['path']
        self.stats['opaque'][nm] = self.stats['opaque'].get(nm, 0) + 1
        st = dict(st)
        la = [self.canon(st, self.load_all(st, a)) for a in args]
        key = (nm, tuple('closure' if x['k'] == 'closure' else tykey(x) for x in ref.get('args', [])))

        def ap(*xs):
            return mk('app', key, *xs)
        for i, a in enumerate(args):
            for c, r in self._groups(a):
                if r.op == 'ref':
                    self.write_locs(st, [(c, r.a[0], r.a[1])], lift_small(lambda *xs: mk('appmut', key, i, *xs), la), pc)
            # what it can reach through an iterator, a closure or a structure
            for r in held_refs(a):
                self.write_locs(st, [(None, r.a[0], r.a[1])], lift_small(lambda *xs: mk('appmut', key, (i, r), *xs), la), pc)
        v = lift_small(ap, la)
        if dty is not None:
            v = typed(v, dty, self.p)
        self.trace.append(('opaque', pc, nm, la, self.here()))
        return st, v, pc

    # ------------------------------------------------------------------ entry
    def root_args(self, fn, inst, names=None, st=None):
        """opaque symbolic arguments for a function"""
        body = inst['body']
        out = []
        for i in range(body['argc']):
            l = body['locals'][i + 1]
            nm = (names or {}).get(i) or l['n'] or ('arg%d' % i)
            out.append(self.sym(nm, l['ty'], st))
        return out

    def sym(self, name, ty, st):
        k = ty['k']
        if k == 'ref' and ty['m']:
            return self.new_cell(st, self.sym(name, ty['t'], st))
        if k in ('ref', 'ptr'):
            return self.sym(name, ty['t'], st)
        if k == 'tuple':
            return mk('tuple', *[self.sym('%s.%d' % (name, i), t, st) for i, t in enumerate(ty['a'])])
        if k == 'prim' and ty['n'] in INTBITS:
            return mk('uarg', name, INTBITS[ty['n']][0])
        if k == 'prim' and ty['n'] == 'bool':
            return atom_bool(mk('a_arg', name))
        v = mk('arg', name)
        n = seq_len_of_type(ty)
        if n is not None:
            KNOWN_LEN[v] = n
        return v

    def run(self, inst, args, st=None, pc=TRUE):
        st = dict(st or {})
        return self.inline(inst, args, st, pc)


PYFN = {}


class Call:
    """A library call being modelled."""
    __slots__ = ('e', 'ref', 'args', 'st', 'pc', 'dty', 'aty', 'path', 'name')

    def __init__(self, e, ref, args, st, pc, dty, aty):
        self.e = e
        self.ref = ref
        self.args = args
        self.st = dict(st)
        self.pc = pc
        self.dty = dty
        self.aty = aty
        self.path = ref['path']
        self.name = ref.get('name') or ref['path'].split('::')[-1]

    def ld(self, i):
        return self.e.load(self.st, self.args[i])

    def selfty(self):
        return self.ref.get('self') or self.ref.get('impl_self')

    def set(self, i, v):
        """write through &mut argument i"""
        self.e.store(self.st, self.e.deepest(self.st, self.args[i]), v, self.pc)

    def panic_if(self, bad, kind, descr=None):
        self.pc = self.e.obligation(undef_false(bad), self.pc, kind, descr or self.path)

    def facts(self):
        return self.e.facts_of(self.pc)

    def with_oracle(self, fn):
        f = self.facts()
        ORACLE[0] = f.le_known
        try:
            return fn()
        finally:
            ORACLE[0] = ORACLE_BASE[0]

    def call(self, fv, args, dty=None):
        self.st, v, self.pc = self.e.call_value(fv, args, self.st, self.pc, dty)
        return v


_steps = {}


class Step:
    __slots__ = ('s', 'k')

    def __new__(cls, s):
        k = (s[0],) + tuple(x if not isinstance(x, dict) else tykey(x) for x in s[1:])
        r = _steps.get(k)
        if r is None:
            r = object.__new__(cls)
            r.s = s
            r.k = k
            _steps[k] = r
        return r

    def __repr__(self):
        return str(self.k)


def undef_false(c):
    if c.op != 'case' and c is not TRUE and c is not FALSE:
        return FALSE if c is UNDEF else TRUE
    if c.op == 'case':
        memo = {}

        def rec(v):
            if v.op != 'case':
                return v if v is TRUE or v is FALSE else FALSE
            r = memo.get(v)
            if r is None:
                r = memo[v] = case(v.a[0], tuple(rec(k) for k in v.a[1]))
            return r
        return rec(c)
    return c


def lift_small(f, vs):
    return lift(f, *vs) if vs else f()


def leaf_groups(v):
    m = {}
    for _, leaf in leaves(v):
        if leaf is not UNDEF:
            m[leaf] = 1
    return [(undef_false(lift(lambda x: TRUE if x is l else FALSE, v)), l) for l in m]


def conc(v):
    if v.op in ('int', 'true', 'false'):
        return True
    if v.op in ('adt',):
        return any(conc(x) for x in v.a[2])
    if v.op == 'tuple':
        return any(conc(x) for x in v.a)
    if v.op in ('list',):
        return True
    if v.op.startswith('it_'):
        return any(isinstance(x, T) and conc(x) for x in v.a)
    return False


def advanced(a, b):
    """a concrete part of a differs in b"""
    if a is b or not conc(a):
        return False
    if a.op == 'int':
        return True
    if not conc(b):
        return False
    if a.op != b.op or a.op in ('int', 'true', 'false', 'list'):
        return True
    if a.op == 'adt':
        return a.a[:2] != b.a[:2] or any(advanced(x, y) for x, y in zip(a.a[2], b.a[2]))
    xs, ys = [[z for z in t.a if isinstance(z, T)] for t in (a, b)]
    return len(xs) != len(ys) or any(advanced(x, y) for x, y in zip(xs, ys)) or \
        [z for z in a.a if not isinstance(z, T)] != [z for z in b.a if not isinstance(z, T)]


def arith(op, x, y):
    if op == 'Add':
        return zadd(x, y)
    if op == 'Sub':
        return zsub(x, y)
    if op == 'Mul':
        return zmul(x, y)
    return None


def seqlen(x):
    if x.op == 'list':
        return I(len(x.a))
    if x.op == 'lslice':
        return zsub(x.a[2], x.a[1])
    return blen(x)


def typed(v, ty, prog=None):
    n = seq_len_of_type(ty)
    if n is not None and v.op not in ('bytes', 'cat', 'case') and v not in KNOWN_LEN:
        KNOWN_LEN[v] = n
    if ty['k'] == 'prim' and ty['n'] == 'bool' and v.op not in ('true', 'false', 'case'):
        return atom_bool(mk('a_app', v))
    if ty['k'] == 'tuple' and not ty['a']:
        return UNIT
    return v


def field(x, i, ty=None, ad=None):
    if x.op == 'adt':
        return x.a[2][i] if i < len(x.a[2]) else UNDEF
    if x.op == 'tuple':
        return x.a[i] if i < len(x.a) else UNDEF
    if x.op == 'closure':
        return x.a[1][i]
    if x.op == 'upd':
        if x.a[1] == i:
            return x.a[2]
        return field(x.a[0], i, ty, ad)
    if x.op == 'undefagg':
        return UNDEF
    if ad in TRANSPARENT:
        return x
    if ad == 'subtle::Choice':
        return lift(lambda b: ONE if b is TRUE else ZERO, x)
    if x.op in ('true', 'false'):
        return ONE if x is TRUE else ZERO
    if x.op == 'as':
        r = mk('proj', x.a[0], x.a[1], i)
    else:
        r = mk('proj', x, '', i)
    if ty is not None:
        if ty['k'] == 'tuple':
            return mk('tuple', *[field(r, j, t) for j, t in enumerate(ty['a'])])
        if ty['k'] == 'prim' and ty['n'] == 'bool':
            return atom_bool(mk('a_app', r))
        n = seq_len_of_type(ty)
        if n is not None and r not in KNOWN_LEN:
            KNOWN_LEN[r] = n
    return r


def setfield(x, i, n):
    if x.op == 'adt':
        fs = list(x.a[2])
        fs[i] = n
        return adt(x.a[0], x.a[1], *fs)
    if x.op == 'tuple':
        fs = list(x.a)
        fs[i] = n
        return mk('tuple', *fs)
    if x.op == 'closure':
        fs = list(x.a[1])
        fs[i] = n
        return mk('closure', x.a[0], tuple(fs))
    if x.op == 'upd' and x.a[1] == i:
        return mk('upd', x.a[0], i, n)
    if x.op == 'upd' and x.a[1] > i:
        return mk('upd', setfield(x.a[0], i, n), x.a[1], x.a[2])
    return mk('upd', x, i, n)


def models_discr(x):
    return {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1, 'Less': -1, 'Equal': 0, 'Greater': 1}.get(x.a[1], 0)


# ------------------------------------------------------------------- CFG
class CFG:
    pass


_cfgs = {}


def loop_locals(body, cfg, h):
    """the locals a loop works on"""
    memo = cfg.__dict__.setdefault('used', {})
    if h not in memo:
        out = memo[h] = set()

        def rec(x):
            if isinstance(x, dict):
                if 'l' in x and isinstance(x['l'], int):
                    out.add(x['l'])
                for y in x.values():
                    rec(y)
            elif isinstance(x, list):
                for y in x:
                    rec(y)
        for b in cfg.loops[h]:
            rec([s for s in body['blocks'][b]['st'] if s['s'] == 'assign'])
            t = body['blocks'][b]['t']
            if t['t'] != 'drop':
                rec(t)
    return memo[h]


def succs(t):
    k = t['t']
    if k in ('goto', 'drop', 'assert'):
        return [t['to']]
    if k == 'switch':
        return [x[1] for x in t['cases']] + [t['else']]
    if k == 'call':
        return [t['to']] if t['to'] is not None else []
    return []


def cfg_of(body):
    c = _cfgs.get(id(body))
    if c is not None:
        return c
    bl = body['blocks']
    n = len(bl)
    suc = [[s for s in succs(b['t']) if not bl[s]['cleanup']] for b in bl]
    seen = set()
    post = []
    stack = [(0, iter(suc[0]))]
    seen.add(0)
    while stack:
        b, itr = stack[-1]
        for s in itr:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(suc[s])))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in suc[b]:
            preds[s].append(b)
    # dominators
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in suc[b]:
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise Unsupported('irreducible')
                nodes = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in nodes:
                        continue
                    nodes.add(x)
                    work.extend(preds[x])
    c = CFG()
    c.rpo = rpo
    c.loops = loops
    c.all = set(rpo)
    c.body = body
    _cfgs[id(body)] = c
    return c
