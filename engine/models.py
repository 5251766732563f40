"""Algebraic meaning of the library calls that appear in (or could reasonably
be used by) the three crates.  A model returns a value term and may write
through its &mut arguments and record panic conditions."""
import re
from terms import *
from facts import lt, le, ints_eq, eq0, le0, zbounds
import facts as F
from interp import (Step, PYFN, adt, seqlen, is_bytes_type, is_u8, strip_ref, tykey, tyname, seq_len_of_type, typed,
                    undef_false, lift_small, field, INTBITS, FNTAB, Unsupported, cst_term, leaf_groups)
import interp
from algebra import ed_decompress_ok

RANGE = 'core::ops::range::Range'
PHANTOM = 'core::marker::PhantomData'

EXACT = {}
NAMED = []      # (regex, fn)


def model(*paths):
    def d(f):
        for p in paths:
            EXACT[p] = f
        return f
    return d


def rmodel(*rx):
    def d(f):
        for r in rx:
            NAMED.append((re.compile(r + r'\Z'), f))
        return f
    return d


_cache = {}


def dispatch(cx):
    # inside library models lengths are compared under the current path facts
    old = ORACLE_BASE[0]
    memo = []

    def oracle(a, b):
        if not memo:
            memo.append(cx.facts())
        return memo[0].le_known(a, b)
    ORACLE[0] = ORACLE_BASE[0] = oracle
    try:
        return dispatch_(cx)
    finally:
        ORACLE[0] = ORACLE_BASE[0] = old


def dispatch_(cx):
    p = cx.path
    f = EXACT.get(p)
    if f is not None:
        r = f(cx)
        if r is not None:
            return r
    res = cx.ref.get('res')
    rp = res['path'] if res else None
    for q in (p, rp):
        if q is None:
            continue
        fs = _cache.get(q)
        if fs is None:
            fs = _cache[q] = [f for r, f in NAMED if r.match(q)]
        for f in fs:
            r = f(cx)
            if r is not None:
                return r
    return None


INLINE_OK = re.compile(
    r'(<?core::(option|result|ops::try_trait|ops::control_flow|ops::function|convert|bool|array::from_fn)\b.*'
    r'|<T as core::convert::.*|<&T as core::convert::.*|<I as core::iter::traits::collect::IntoIterator>::.*'
    r'|<core::(option::Option|result::Result|ops::control_flow::ControlFlow)<.*> as core::(ops::try_trait|convert|clone)::.*'
    r'|core::cmp::PartialEq::ne|core::cmp::impls::<impl core::cmp::(PartialEq|PartialOrd|Ord).*'
    r'|core::bool::<impl bool>::.*)\Z')


def may_inline(path):
    if 'unwrap_failed' in path or 'expect_failed' in path or 'panicking' in path:
        return False
    return INLINE_OK.match(path) is not None


# ------------------------------------------------------------------ constants
def const(e, path, ty, o):
    if path.endswith('Scalar::ONE'):
        return SC1
    if path.endswith('Scalar::ZERO'):
        return SC0
    if path.endswith('RISTRETTO_BASEPOINT_POINT'):
        return mk('base', 'ristretto')
    if path.endswith('ED25519_BASEPOINT_POINT'):
        return mk('base', 'ed25519')
    if path.endswith('RISTRETTO_BASEPOINT_COMPRESSED'):
        return mk('compress', mk('base', 'ristretto'))
    if path.endswith('ED25519_BASEPOINT_COMPRESSED'):
        return mk('compress', mk('base', 'ed25519'))
    if path.endswith('usize::MAX') or path.endswith('u64::MAX'):
        return I(2**64 - 1)
    m = re.search(r'num::<impl ([ui]\w+)>::(MAX|MIN|BITS)$', path)
    if m:
        b, s = INTBITS[m.group(1)]
        if m.group(2) == 'BITS':
            return I(b)
        if m.group(2) == 'MAX':
            return I((1 << (b - s)) - 1)
        return I(-(1 << (b - 1)) if s else 0)
    if ty['k'] == 'adt' and ty['p'] == 'password_hash::params::ParamsString':
        return mk('const', 'ParamsString::EMPTY')
    return None


# ------------------------------------------------------------------ equality
def sorted_atom(op, x, y):
    if y.n < x.n:
        x, y = y, x
    return atom_bool(mk(op, x, y))


def scnorm(s):
    p = spoly(s)
    if not p:
        return s
    m = min(p, key=lambda m: tuple((a.n, e) for a, e in m))
    return smul(s, mk('scint', pow(p[m], -1, ELL)))


def seq_sc(x, y):
    d = ssub(x, y)
    if d.op == 'scint':
        return TRUE if d is SC0 else FALSE
    p = spoly(d)
    if len(p) == 1:      # monomial: zero iff some factor with positive exponent is zero
        (m, c), = p.items()
        out = FALSE
        for a, e in m:
            out = b_or(out, atom_bool(mk('a_sc0', a)))
        return out
    return atom_bool(mk('a_sc0', scnorm(d)))


# set by rules about crates that only use a prime-order group (ristretto255)
PRIME_ORDER = [False]


def isid(p):
    if p is PT0:
        return TRUE
    d = ptd(p)
    if len(d) == 1:
        (a, s), = d.items()
        if s.op == 'scint' and a.op in ('base', 'ptc'):
            return FALSE
        if a.op == 'base':       # generator of a prime-order group
            return seq_sc(s, SC0)
        if s.op == 'scint':
            p = a
        elif PRIME_ORDER[0]:
            return b_or(seq_sc(s, SC0), atom_bool(mk('a_isid', a)))
    return atom_bool(mk('a_isid', p))


def peq(x, y):
    if x is y:
        return TRUE
    return isid(padd_pt(x, pneg_pt(y)))


def beq(x, y, op='a_eq'):
    if x is y:
        return TRUE
    if x.op == 'bytes' and y.op == 'bytes':
        return FALSE
    lx, ly = seqlen(x), seqlen(y)
    d = zsub(lx, ly)
    if d.op == 'int' and d is not ZERO:
        return FALSE
    if op == 'a_eq' and x.op == 'compress' and y.op == 'compress':
        return peq(x.a[0], y.a[0])
    if op == 'a_eq':
        for a, b in ((x, y), (y, x)):
            if a is EMPTY:
                return eq0(seqlen(b))
            if a.op == 'bytes' and len(a.a[0]) == 32 and not any(a.a[0]) and b.op == 'compress':
                return isid(b.a[0])
            if a.op == 'bytes' and len(a.a[0]) == 1 and d is ZERO:
                return ints_eq(at(b, ZERO), I(a.a[0][0]))
            if a.op == 'be' and b.op == 'be':
                return ints_eq(a.a[0], b.a[0])
    r = sorted_atom(op, x, y)
    if d is not ZERO:
        return b_and(eq0(d), r)
    return r


BYTEOPS = {'bytes', 'cat', 'slice', 'zeros', 'rev', 'H', 'compress', 'genc', 'le', 'bei', 'be', 'lez', 'okm', 'b64', 'scbytes', 'byte', 'fill'}
INTOPS = {'int', 'zp', 'at', 'uarg', 'len', 'outlen', 'mod', 'frombe', 'bits', 'cparam', 'trunc', 'bin', 'xordiff'}
PTOPS = {'pt', 'base', 'ptc', 'pt_uniform', 'ptdec'}
SCOPS = {'sc', 'scint', 'le_mod', 'scinv'}
BOOLOPS = {'true', 'false'}


def kind_of_ty(t):
    t = strip_ref(t)
    if is_bytes_type(t):
        return 'bytes'
    if t['k'] == 'prim':
        if t['n'] in INTBITS:
            return 'int'
        if t['n'] == 'bool':
            return 'bool'
    if t['k'] == 'adt':
        p = t['p']
        if p.endswith('BigUint'):
            return 'int'
        if p.endswith('scalar::Scalar'):
            return 'sc'
        if p.endswith('RistrettoPoint') or p.endswith('EdwardsPoint'):
            return 'pt'
        if p == 'subtle::Choice':
            return 'bool'
        if p.endswith('CompressedEdwardsY') or p.endswith('CompressedRistretto'):
            return 'bytes'
    return None


def veq(x, y, kind=None, op='a_eq'):
    if x is y:
        return TRUE
    if kind is None:
        for v in (x, y):
            if v.op in BYTEOPS:
                kind = 'bytes'
            elif v.op in INTOPS:
                kind = 'int'
            elif v.op in PTOPS:
                kind = 'pt'
            elif v.op in SCOPS:
                kind = 'sc'
            elif v.op in BOOLOPS:
                kind = 'bool'
    if kind == 'bool':
        return b_not(b_xor(x, y))
    if kind == 'int':
        return ints_eq(x, y)
    if kind == 'pt':
        return peq(x, y)
    if kind == 'sc':
        return seq_sc(x, y)
    if kind == 'bytes':
        return beq(x, y, op)
    if x.op == 'adt' and y.op == 'adt':
        if x.a[1] != y.a[1] or x.a[0] != y.a[0]:
            return FALSE
        r = TRUE
        for a, b in zip(x.a[2], y.a[2]):
            r = b_and(r, lift(lambda p, q: veq(p, q, None, op), a, b))
        return r
    if x.op in ('tuple', 'list') and y.op == x.op and len(x.a) == len(y.a):
        r = TRUE
        for a, b in zip(x.a, y.a):
            r = b_and(r, lift(lambda p, q: veq(p, q, None, op), a, b))
        return r
    for a, b in ((x, y), (y, x)):
        if a.op == 'adt' and b.op not in ('adt',) and not a.a[2] and a.a[0] in ('core::option::Option',):
            vs = ('None', 'Some')
            return case(mk('a_discr', b, vs), tuple(TRUE if v == a.a[1] else FALSE for v in vs))
    return sorted_atom(op, x, y)


def ld2(cx):
    return cx.ld(0), cx.ld(1)


@model('core::cmp::PartialEq::eq')
def _eq(cx):
    t = cx.selfty()
    if cx.ref.get('res', {}).get('local'):
        return None
    x, y = ld2(cx)
    x, y = cx.e.load_all(cx.st, x), cx.e.load_all(cx.st, y)
    k = kind_of_ty(t) if t else None
    compared(cx, x, y, k)
    return lift(lambda a, b: veq(a, b, k), x, y)


def compared(cx, x, y, k):
    """a comparison whose running time may depend on the bytes compared"""
    if k not in ('int', 'pt', 'sc', 'bool'):
        cx.e.trace.append(('compare', cx.pc, (x, y), cx.e.here()))


@model('core::cmp::PartialEq::ne')
def _ne(cx):
    if 'inst' in cx.ref and cx.e.p.insts[cx.ref['inst']]['local']:
        return None
    t = cx.selfty()
    k = kind_of_ty(t) if t else None
    if k is None and t is not None and strip_ref(t)['k'] == 'adt' and strip_ref(t)['p'].startswith(cx.e.p.crate):
        return None
    x, y = ld2(cx)
    x, y = cx.e.load_all(cx.st, x), cx.e.load_all(cx.st, y)
    compared(cx, x, y, k)
    return b_not(lift(lambda a, b: veq(a, b, k), x, y))


def bytes_lt(x, y):
    if x is y:
        return FALSE
    if x.op == 'bytes' and y.op == 'bytes':
        return TRUE if x.a[0] < y.a[0] else FALSE
    if x.n < y.n:
        return atom_bool(mk('a_ltb', x, y))
    return b_and(b_not(atom_bool(mk('a_ltb', y, x))), b_not(beq(x, y)))


def vlt(x, y, k):
    if k == 'int' or (k is None and x.op in INTOPS):
        return lt(x, y)
    if k == 'bytes' or x.op in BYTEOPS or y.op in BYTEOPS:
        return bytes_lt(x, y)
    return None


ORD = 'core::cmp::Ordering'


@rmodel(r'core::cmp::(PartialOrd|Ord)::(lt|le|gt|ge|cmp|partial_cmp|max|min)', r'core::cmp::(max|min)')
def _ord(cx):
    if cx.ref.get('res', {}).get('local'):
        return None
    t = cx.selfty() or (cx.ref['args'][0] if cx.ref.get('args') else None)
    k = kind_of_ty(t) if t else None
    if k not in ('int', 'bytes'):
        return None
    x, y = ld2(cx)
    compared(cx, x, y, k)
    n = cx.name

    def f(a, b):
        l = vlt(a, b, k)
        e = veq(a, b, k)
        if n == 'lt':
            return l
        if n == 'ge':
            return b_not(l)
        if n == 'le':
            return b_or(l, e)
        if n == 'gt':
            return b_not(b_or(l, e))
        if n == 'min':
            return ite(b_or(l, e), a, b)
        if n == 'max':
            return ite(b_or(l, e), b, a)
        o = ite(l, adt(ORD, 'Less'), ite(e, adt(ORD, 'Equal'), adt(ORD, 'Greater')))
        return some(o) if n == 'partial_cmp' else o
    return lift(f, x, y)


@rmodel(r'core::cmp::Ordering::(is_lt|is_gt|is_le|is_ge|is_eq|is_ne|reverse)')
def _ordm(cx):
    m = {'is_lt': ('Less',), 'is_gt': ('Greater',), 'is_le': ('Less', 'Equal'), 'is_ge': ('Greater', 'Equal'), 'is_eq': ('Equal',), 'is_ne': ('Less', 'Greater')}
    x = cx.ld(0)
    if cx.name == 'reverse':
        return lift(lambda v: adt(ORD, {'Less': 'Greater', 'Greater': 'Less'}.get(v.a[1], 'Equal')), x)
    if any(l.op != 'adt' for _, l in leaves(x)):
        return None
    return lift(lambda v: TRUE if v.a[1] in m[cx.name] else FALSE, x)


# ------------------------------------------------------------------ identity-like
def ident(cx):
    return cx.args[0]


for p in ('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::convert::AsRef::as_ref', 'core::ops::deref::Deref::deref',
          'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut',
          'alloc::string::ToString::to_string', 'core::hint::black_box'):
    def _f(cx, p=p):
        if cx.ref.get('res', {}).get('local'):
            return None
        if cx.ref.get('inst') is not None and cx.e.p.insts[cx.ref['inst']]['local']:
            return None
        t = cx.selfty()
        if p.endswith('to_string') and not (t and is_bytes_type(t)):
            return None
        if p.endswith('clone') or p.endswith('to_owned') or p.endswith('to_string') or p.endswith('black_box'):
            return cx.ld(0)
        return cx.args[0]
    EXACT[p] = _f


@rmodel(r'alloc::(slice::<impl \[T\]>::(to_vec|into_vec)|boxed::Box::<T>::new|(?:rcs::)?(?:rc::Rc|arc::Arc|sync::Arc)::<T>::new|(?:rcs::)?(?:rc::Rc|arc::Arc|sync::Arc)::<T, A>::(?:make_mut|unwrap_or_clone)|vec::Vec::<T, A>::(as_slice|as_mut_slice|into_boxed_slice)|string::String::(as_str|as_bytes|into_bytes|into_boxed_str)|str::<impl str>::(to_owned|into_string))',
        r'core::str::<impl str>::as_bytes', r'core::slice::<impl \[T\]>::(as_ref|as_array)',
        r'generic_array::GenericArray::<T, N>::(as_slice|as_mut_slice|from_slice|clone_from_slice|from_mut_slice)',
        r'core::array::<impl \[T; N\]>::(as_slice|as_mut_slice)',
        r'password_hash::salt::SaltString::(as_salt|as_str|as_bytes)', r'password_hash::salt::Salt::.*as_str', r'password_hash::params::ParamsString::(as_str|as_bytes)',
        r'password_hash::output::Output::(as_bytes|as_ref)',
        r'curve25519_dalek::(edwards::CompressedEdwardsY|ristretto::CompressedRistretto)::(as_bytes|to_bytes)',
        r'alloc::boxed::box_assume_init_into_vec_unsafe', r'core::mem::drop', r'core::hint::(must_use|black_box)', r'zeroize::Zeroizing::<Z>::new', r'core::slice::raw::from_ref',
        r'alloc::boxed::Box::<.*>::(assume_init|into_inner)', r'core::iter::traits::iterator::Iterator::(by_ref|fuse|copied|cloned)', r'core::iter::adapters::fuse::.*into_iter')
def _ident(cx):
    n = cx.name
    if n == 'drop':
        return UNIT
    if n in ('to_vec', 'to_owned', 'to_bytes', 'into_vec', 'box_assume_init_into_vec_unsafe', 'clone_from_slice', 'into_boxed_slice', 'into_bytes', 'copied', 'cloned', 'fuse', 'assume_init', 'into_inner', 'unwrap_or_clone'):
        if n in ('copied', 'cloned') and not is_iter(cx.ld(0)):
            return None
        return cx.ld(0)
    if n == 'as_array':
        return None
    if n in ('from_slice', 'clone_from_slice', 'from_mut_slice'):
        want = seq_len_of_type(cx.dty)
        x = cx.ld(0)
        if want is not None and want.op == 'int':
            cx.panic_if(b_not(lift(lambda v: ints_eq(seqlen(v), want), x)), 'length')
    return cx.args[0]


@model('alloc::boxed::Box::<T>::new_uninit')
def _newuninit(cx):
    return cx.e.new_cell(cx.st, mk('uninit'))


@model('core::mem::replace')
def _replace(cx):
    old = cx.ld(0)
    cx.set(0, cx.args[1])
    return old


@model('core::mem::discriminant')
def _discriminant(cx):
    t = cx.ref['args'][0] if cx.ref.get('args') else None
    if t is None or t['k'] != 'adt':
        return None
    d = cx.e.discr_of(cx.st, cx.ld(0), t)
    return lift(lambda n: adt('core::mem::Discriminant', 'Discriminant', n), d)


@model('core::mem::take')
def _take(cx):
    old = cx.ld(0)
    cx.set(0, default_of(cx.ref['args'][0]))
    return old


@model('core::mem::swap')
def _swap(cx):
    a, b = cx.ld(0), cx.ld(1)
    cx.set(0, b)
    cx.set(1, a)
    return UNIT


@model('core::mem::forget')
def _forget(cx):
    return UNIT


@model('core::mem::size_of')
def _sizeof(cx):
    t = cx.ref['args'][0]
    n = seq_len_of_type(t)
    if n is not None and is_bytes_type(t):
        return n
    if t['k'] == 'prim' and t['n'] in INTBITS:
        return I(INTBITS[t['n']][0] // 8)
    return None


@rmodel(r'zeroize::Zeroize::zeroize')
def _zeroize(cx):
    x = cx.ld(0)
    t = cx.selfty()
    k = kind_of_ty(t) if t else None
    if k == 'bytes':
        tt = strip_ref(t)
        if tt['k'] == 'adt' and tt['p'] in ('alloc::vec::Vec', 'alloc::string::String'):
            cx.set(0, EMPTY)
        else:
            cx.set(0, lift(lambda v: zeros(seqlen(v)), x))
    elif k == 'int':
        cx.set(0, ZERO)
    elif k == 'sc':
        cx.set(0, SC0)
    elif k == 'pt':
        cx.set(0, PT0)
    else:
        return None
    return UNIT


def default_of(t):
    if t['k'] == 'param' or t['k'] == 'alias':
        return mk('default', tykey(t))
    if t['k'] == 'tuple':
        return mk('tuple', *[default_of(x) for x in t['a']])
    if t['k'] == 'adt':
        p = t['p']
        if p == 'password_hash::params::ParamsString':
            return mk('const', 'ParamsString::EMPTY')
        if p == 'core::option::Option':
            return NONE
        if p == PHANTOM:
            return adt(PHANTOM, 'PhantomData')
        if 'CoreWrapper' in p:
            return mk('hs', alg_of(t), EMPTY)
        if p in ('alloc::vec::Vec',) and not is_bytes_type(t):
            return mk('list')
        if p in ('alloc::vec::Vec', 'alloc::string::String'):
            return EMPTY
    k = kind_of_ty(t)
    if k == 'int':
        return ZERO
    if k == 'sc':
        return SC0
    if k == 'pt':
        return PT0
    if k == 'bool':
        return FALSE
    n = seq_len_of_type(t)
    if n is not None:
        return zeros(n)
    if k == 'bytes':
        return EMPTY
    return mk('default', tykey(t))


@model('core::default::Default::default')
def _default(cx):
    if cx.ref.get('res', {}).get('local'):
        return None
    return default_of(cx.selfty())


# ------------------------------------------------------------------ ints
@rmodel(r'core::num::<impl [ui](\d+|size)>::(to_le_bytes|to_be_bytes|to_ne_bytes|from_le_bytes|from_be_bytes|min|max|pow|checked_add|checked_sub|checked_mul|saturating_sub|saturating_add|wrapping_add|wrapping_sub|abs_diff|overflowing_sub|overflowing_add|is_power_of_two|swap_bytes|leading_zeros|div_ceil)')
def _intm(cx):
    m = re.match(r'core::num::<impl ([ui]\w+)>::(\w+)', cx.path)
    if not m:
        m = re.match(r'core::num::<impl ([ui]\w+)>::(\w+)', cx.ref['res']['path'])
    ty, n = m.groups()
    bits, sg = INTBITS[ty]
    hi = (1 << (bits - sg)) - 1
    lo = -(1 << (bits - 1)) if sg else 0
    x = cx.ld(0)
    if n in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
        w = bits // 8

        def f(v):
            if v.op == 'int':
                return B((v.a[0] & ((1 << bits) - 1)).to_bytes(w, 'big' if n == 'to_be_bytes' else 'little'))
            return mk('bei' if n == 'to_be_bytes' else 'le', v, w)
        return lift(f, x)
    if n in ('from_le_bytes', 'from_be_bytes'):
        def f(v):
            if v.op == 'bytes':
                return I(int.from_bytes(v.a[0], 'little' if n == 'from_le_bytes' else 'big'))
            if v.op == ('le' if n == 'from_le_bytes' else 'bei'):
                return v.a[0]
            return mk('frombe', v if n == 'from_be_bytes' else brev(v))
        return lift(f, x)
    if len(cx.args) < 2:
        return None
    y = cx.ld(1)

    def g(a, b):
        if n == 'min':
            return ite(le(a, b), a, b)
        if n == 'max':
            return ite(le(a, b), b, a)
        if n == 'abs_diff':
            return ite(le(a, b), zsub(b, a), zsub(a, b))
        if n in ('checked_add', 'checked_sub', 'checked_mul', 'saturating_sub', 'saturating_add', 'wrapping_add', 'wrapping_sub'):
            z = interp.arith({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[n.split('_')[1]], a, b)
            bad = b_or(lt(z, I(lo)), lt(I(hi), z))
            if n.startswith('checked'):
                return ite(bad, NONE, some(z))
            if n == 'saturating_sub':
                return ite(lt(z, I(lo)), I(lo), z)
            if n == 'saturating_add':
                return ite(lt(I(hi), z), I(hi), z)
            if z.op == 'int':
                return I((z.a[0] - lo) % (1 << bits) + lo)
            return ite(bad, mk('wrap', z, bits), z)
        if n == 'pow' and a.op == 'int' and b.op == 'int':
            return I(a.a[0] ** b.a[0])
        return mk('intop', n, a, b)
    return lift(g, x, y)


# ------------------------------------------------------------------ ranges, indexing
def range_bounds(r, n):
    """-> (lo, hi_exclusive) or ('idx', i)"""
    if r.op == 'adt':
        k = r.a[1]
        f = r.a[2]
        if k == 'Range':
            return f[0], f[1]
        if k == 'RangeFrom':
            return f[0], n
        if k == 'RangeTo':
            return ZERO, f[0]
        if k == 'RangeFull':
            return ZERO, n
        if k == 'RangeInclusive':
            return f[0], zadd(f[1], ONE)
        if k == 'RangeToInclusive':
            return ZERO, zadd(f[0], ONE)
    return None


@model('core::ops::range::RangeInclusive::<Idx>::new')
def _ri(cx):
    return lift(lambda a, b: adt('core::ops::range::RangeInclusive', 'RangeInclusive', a, b, FALSE), cx.args[0], cx.args[1])


@rmodel(r'core::ops::range::Range(Inclusive)?::<Idx>::(contains|is_empty|start|end|into_inner)')
def _rc(cx):
    r = cx.ld(0)
    n = cx.name
    if n in ('start', 'end'):
        return lift(lambda x: x.a[2][0 if n == 'start' else 1], r)
    if n == 'is_empty':
        return lift(lambda x: b_not((lt if x.a[1] == 'Range' else le)(x.a[2][0], x.a[2][1])), r)
    if n == 'contains':
        return lift(lambda x, v: b_and(le(x.a[2][0], v), (lt if x.a[1] == 'Range' else le)(v, x.a[2][1])), r, cx.ld(1))
    return None


def idx_parts(cx, seq, idx):
    """shared by index/index_mut/get: returns (bad, lo, hi, single)"""
    n = lift(seqlen, seq)
    idx = cx.e.load_all(cx.st, idx)
    if any(l.op == 'adt' for _, l in leaves(idx)):
        lo = lift(lambda r, m: range_bounds(r, m)[0], idx, n)
        hi = lift(lambda r, m: range_bounds(r, m)[1], idx, n)
        bad = lift(lambda a, b, m: b_or(lt(b, a), lt(m, b)), lo, hi, n)
        return bad, lo, hi, False
    bad = lift(lambda i, m: le(m, i), idx, n)
    return bad, idx, lift(lambda i: zadd(i, ONE), idx), True


@rmodel(r'core::ops::index::(Index|IndexMut)::(index|index_mut)')
def _index(cx):
    t = cx.selfty()
    if cx.ref.get('res', {}).get('local'):
        return None
    tt = strip_ref(t)
    if not (is_bytes_type(tt) or tt['k'] in ('slice', 'array') or (tt['k'] == 'adt' and tt['p'] in ('alloc::vec::Vec', 'generic_array::GenericArray'))):
        return None
    seq = cx.ld(0)
    bad, lo, hi, single = idx_parts(cx, seq, cx.args[1])
    cx.panic_if(bad, 'slice-range' if not single else 'bounds')
    lo, hi = restrict(lo, cx.pc), restrict(hi, cx.pc)
    if cx.name == 'index':
        if single:
            return cx.with_oracle(lambda: lift(cx.e.elem, seq, lo))
        return cx.with_oracle(lambda: lift(cx.e.sub, seq, lo, hi))
    base = cx.e.deepest(cx.st, cx.args[0])
    return subref(base, lo, hi, single)


def subref(base, lo, hi, single):
    def f(r, lo, hi):
        s = Step(('i', lo)) if single else Step(('s', lo, hi))
        if r.op != 'ref':
            raise Unsupported('index_mut on non-ref')
        path = r.a[1]
        if path and path[-1].s[0] == 's':
            l0 = path[-1].s[1]
            s = Step(('i', zadd(l0, lo))) if single else Step(('s', zadd(l0, lo), zadd(l0, hi)))
            path = path[:-1]
        return mk('ref', r.a[0], path + (s,))
    return lift(f, base, lo, hi)


@rmodel(r'core::slice::<impl \[T\]>::(get|get_mut)', r'core::str::<impl str>::get')
def _get(cx):
    seq = cx.ld(0)
    bad, lo, hi, single = idx_parts(cx, seq, cx.args[1])
    if cx.name == 'get_mut':
        v = subref(cx.e.deepest(cx.st, cx.args[0]), lo, hi, single)
        return ite(bad, NONE, some(v))

    def val():
        g = restrict(lo, b_not(bad)), restrict(hi, b_not(bad))
        return lift(cx.e.elem, seq, g[0]) if single else lift(cx.e.sub, seq, g[0], g[1])
    f = cx.e.facts_of(b_and(cx.pc, b_not(bad)))
    ORACLE[0] = f.le_known
    try:
        v = val()
    finally:
        ORACLE[0] = ORACLE_BASE[0]
    return ite(bad, NONE, some(v))


@rmodel(r'core::slice::<impl \[T\]>::(len|is_empty)', r'core::str::<impl str>::(len|is_empty)', r'alloc::vec::Vec::<T, A>::(len|is_empty|capacity)', r'alloc::string::String::(len|is_empty)',
        r'password_hash::output::Output::len', r'core::iter::traits::exact_size::ExactSizeIterator::len', r'password_hash::params::ParamsString::(len|is_empty)')
def _len(cx):
    x = cx.ld(0)
    if is_iter(x):
        return lift(lambda v: it_len(v), x)
    if cx.name == 'is_empty':
        return lift(lambda v: eq0(seqlen(v)), x)
    return lift(seqlen, x)


@rmodel(r'core::slice::<impl \[T\]>::(first|last|split_first|split_last|split_at|split_at_checked|split_at_mut|starts_with|ends_with|contains|concat|first_chunk|last_chunk|split_first_chunk|strip_prefix|strip_suffix)')
def _sl(cx):
    n = cx.name
    x = cx.ld(0)
    L = lift(seqlen, x)
    e = cx.e

    def sub(lo, hi, c=None):
        f = e.facts_of(b_and(cx.pc, c) if c is not None else cx.pc)
        ORACLE[0] = f.le_known
        try:
            return lift(e.sub, x, lo, hi)
        finally:
            ORACLE[0] = ORACLE_BASE[0]
    if n in ('first', 'last', 'split_first', 'split_last'):
        emp = lift(lambda l: eq0(l), L)
        ne = b_not(emp)
        f = e.facts_of(b_and(cx.pc, ne))
        ORACLE[0] = f.le_known
        try:
            if n == 'first':
                v = lift(lambda s: e.elem(s, ZERO), x)
            elif n == 'last':
                v = lift(lambda s, l: e.elem(s, zsub(l, ONE)), x, L)
            elif n == 'split_first':
                v = lift(lambda s, l: mk('tuple', e.elem(s, ZERO), e.sub(s, ONE, l)), x, L)
            else:
                v = lift(lambda s, l: mk('tuple', e.elem(s, zsub(l, ONE)), e.sub(s, ZERO, zsub(l, ONE))), x, L)
        finally:
            ORACLE[0] = ORACLE_BASE[0]
        return ite(emp, NONE, some(v))
    if n in ('first_chunk', 'last_chunk', 'split_first_chunk'):
        c = cst_term(cx.ref['args'][-1])
        bad = lift(lambda l: lt(l, c), L)
        a = sub(ZERO, c, b_not(bad)) if n != 'last_chunk' else sub(lift(lambda l: zsub(l, c), L), L, b_not(bad))
        if n == 'split_first_chunk':
            a = lift(lambda p, q: mk('tuple', p, q), a, sub(c, L, b_not(bad)))
        return ite(bad, NONE, some(a))
    if n in ('split_at', 'split_at_checked'):
        i = cx.ld(1)
        bad = lift(lambda a, b: lt(b, a), i, L)
        if n == 'split_at':
            cx.panic_if(bad, 'split_at')
        v = lift(lambda a, b: mk('tuple', a, b), sub(ZERO, i, b_not(bad)), sub(i, L, b_not(bad)))
        return v if n == 'split_at' else ite(bad, NONE, some(v))
    if n == 'split_at_mut':
        i = cx.ld(1)
        cx.panic_if(lift(lambda a, b: lt(b, a), i, L), 'split_at')
        b = e.deepest(cx.st, cx.args[0])
        return lift(lambda p, q: mk('tuple', p, q), subref(b, ZERO, i, False), subref(b, i, L, False))
    if n in ('starts_with', 'ends_with', 'strip_prefix'):
        y = cx.ld(1)

        def f(s, p):
            a, b = seqlen(s), seqlen(p)
            short = lt(a, b)
            if n == 'ends_with':
                r = beq(bslice(s, zsub(a, b), a), p)
            else:
                r = beq(bslice(s, ZERO, b), p)
            c = b_and(b_not(short), r)
            if n == 'strip_prefix':
                return ite(c, some(bslice(s, b, a)), NONE)
            return c
        return cx.with_oracle(lambda: lift(f, x, y))
    return None


@rmodel(r'alloc::slice::(<impl \[T\]>::concat|Concat::concat|<impl alloc::slice::Concat<.*> for \[V\]>::concat)', r'alloc::slice::<impl \[T\]>::(concat|join)')
def _concat(cx):
    x = cx.e.load_all(cx.st, cx.ld(0))
    if cx.name == 'join':
        sep = cx.ld(1)

        def j(v, s):
            if v.op != 'list':
                return mk('app', ('join',), v, s)
            if s.op in INTOPS:
                s = byte_seg(s)
            out = []
            for i, e in enumerate(v.a):
                if i:
                    out.append(s)
                out.append(e)
            return lift_small(cat, out) if out else EMPTY
        return lift(j, x, sep)
    return lift(lambda v: (lift_small(cat, list(v.a)) if v.a else EMPTY) if v.op == 'list' else mk('app', ('concat',), v), x)


@rmodel(r'core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)')
def _cfs(cx):
    d = cx.ld(0)
    s = cx.ld(1)
    cx.panic_if(b_not(lift(lambda a, b: ints_eq(seqlen(a), seqlen(b)), d, s)), 'copy_from_slice')
    s = restrict(s, cx.pc)
    cx.with_oracle(lambda: cx.set(0, s))
    return UNIT


@rmodel(r'core::slice::<impl \[T\]>::(fill|reverse|swap|copy_within|rotate_left|rotate_right|sort_unstable)', r'alloc::slice::<impl \[T\]>::sort')
def _fill(cx):
    d = cx.ld(0)
    n = cx.name
    if n == 'fill':
        v = cx.ld(1)

        def f(a, x):
            L = seqlen(a)
            if x is ZERO:
                return zeros(L)
            if x.op == 'int' and L.op == 'int':
                return B(bytes([x.a[0]]) * L.a[0])
            r = mk('fill', x, L)
            KNOWN_LEN[r] = L
            return r
        cx.set(0, lift(f, d, v))
        return UNIT
    if n == 'reverse':
        cx.set(0, lift(lambda a: mk('list', *reversed(a.a)) if a.op == 'list' else brev(a), d))
        return UNIT
    if n in ('sort', 'sort_unstable'):
        if d.op != 'list' or len(d.a) > 4 or not cx.ref.get('args'):
            return None
        k = kind_of_ty(cx.ref['args'][0])
        if k not in ('int', 'bytes'):
            return None
        xs = list(d.a)
        for i in range(len(xs)):
            for j in range(len(xs) - 1 - i):
                lo, hi = cx.e.load_all(cx.st, xs[j]), cx.e.load_all(cx.st, xs[j + 1])
                sw = lift(lambda a, b: vlt(a, b, k), hi, lo)
                xs[j], xs[j + 1] = ite(sw, xs[j + 1], xs[j]), ite(sw, xs[j], xs[j + 1])
        cx.set(0, mk('list', *xs))
        return UNIT
    if n in ('rotate_left', 'rotate_right'):
        k = cx.ld(1)
        cx.panic_if(lift(lambda a, k: lt(seqlen(a), k), d, k), 'bounds')

        def r(a, k):
            L = seqlen(a)
            m = k if n == 'rotate_left' else zsub(L, k)
            return cat(bslice(a, m, L), bslice(a, ZERO, m))
        cx.with_oracle(lambda: cx.set(0, lift(r, d, k)))
        return UNIT
    if n == 'swap':
        i, j = cx.ld(1), cx.ld(2)

        def s(a, i, j):
            x, y = cx.e.elem(a, i), cx.e.elem(a, j)
            a = cx.e.write_path(a, (Step(('i', i)),), y)
            return cx.e.write_path(a, (Step(('i', j)),), x)
        L = lift(seqlen, d)
        cx.panic_if(lift(lambda i, j, l: b_or(le(l, i), le(l, j)), i, j, L), 'bounds')
        cx.with_oracle(lambda: cx.set(0, lift(s, d, i, j)))
        return UNIT
    return None


# ------------------------------------------------------------------ Vec / String
@rmodel(r'alloc::vec::Vec::<T>::(new|with_capacity)', r'alloc::string::String::(new|with_capacity)', r'alloc::vec::Vec::<T, A>::(new_in|with_capacity_in)')
def _vnew(cx):
    return EMPTY if is_bytes_type(cx.dty) else mk('list')


@model('alloc::vec::from_elem')
def _from_elem(cx):
    x, n = cx.ld(0), cx.ld(1)
    if not is_bytes_type(cx.dty):
        return lift(lambda a, m: mk('list', *([a] * m.a[0])) if m.op == 'int' and m.a[0] < 4096 else mk('app', ('from_elem',), a, m), x, n)

    def f(a, m):
        if a is ZERO:
            return zeros(m)
        if a.op == 'int' and m.op == 'int':
            return B(bytes([a.a[0]]) * m.a[0])
        if m is ONE:
            return byte_seg(a)
        r = mk('fill', a, m)
        KNOWN_LEN[r] = m
        return r
    return lift(f, x, n)


@rmodel(r'alloc::vec::Vec::<T, A>::(push|extend_from_slice|append|insert|truncate|resize|clear|pop|extend_from_within|reserve|reserve_exact|shrink_to_fit|push_within_capacity|remove|split_off|drain|splice|extend)', r'alloc::string::String::(push_str|push|clear|reserve)',
        r'core::iter::traits::collect::Extend::extend', r'core::iter::traits::collect::Extend::extend_one')
def _vmut(cx):
    n = cx.name
    v = cx.ld(0)
    if n in ('reserve', 'reserve_exact', 'shrink_to_fit'):
        return UNIT
    if n == 'clear':
        cx.set(0, lift(lambda x: mk('list') if x.op == 'list' else EMPTY, v))
        return UNIT
    if n == 'push':
        x = cx.ld(1)
        cx.set(0, lift(lambda a, b: mk('list', *(a.a + (b,))) if a.op == 'list' else cat(a, byte_seg(b)), v, x))
        return UNIT
    if n in ('extend_from_slice', 'push_str'):
        x = cx.ld(1)
        cx.set(0, lift(lambda a, b: mk('list', *(a.a + b.a)) if a.op == 'list' and b.op == 'list' else cat(a, b), v, x))
        return UNIT
    if n == 'append':
        x = cx.ld(1)
        cx.set(0, lift(lambda a, b: mk('list', *(a.a + b.a)) if a.op == 'list' else cat(a, b), v, x))
        cx.set(1, lift(lambda b: mk('list') if b.op == 'list' else EMPTY, x))
        return UNIT
    if n == 'extend':
        t = cx.selfty()
        if t is not None and not (is_bytes_type(t) or tyname(t) == 'alloc::vec::Vec'):
            return None
        x = to_iter(cx, cx.args[1])
        xs = it_collect(cx, x, 'bytes' if is_bytes_type(t) else 'list')
        if xs is None:
            return None
        cx.set(0, lift(lambda a, b: mk('list', *(a.a + b.a)) if a.op == 'list' else cat(a, b), v, xs))
        return UNIT
    if n == 'truncate':
        k = cx.ld(1)

        def f(a, k):
            L = seqlen(a)
            return ite(le(L, k), a, bslice(a, ZERO, k))
        cx.with_oracle(lambda: cx.set(0, lift(f, v, k)))
        return UNIT
    if n == 'resize':
        k, x = cx.ld(1), cx.ld(2)

        def f(a, k, x):
            L = seqlen(a)
            pad = zeros(zsub(k, L)) if x is ZERO else mk('fill', x, zsub(k, L))
            if pad.op == 'fill':
                KNOWN_LEN[pad] = zsub(k, L)
            return a if k is L else ite(lt(k, L), bslice(a, ZERO, k), cat(a, pad))
        cx.with_oracle(lambda: cx.set(0, lift(f, v, k, x)))
        return UNIT
    if n == 'insert':
        k, x = cx.ld(1), cx.ld(2)
        cx.panic_if(lift(lambda k, a: lt(seqlen(a), k), k, v), 'bounds')
        cx.with_oracle(lambda: cx.set(0, lift(lambda a, k, b: mk('list', *(a.a[:k.a[0]] + (b,) + a.a[k.a[0]:])) if a.op == 'list' else cat(bslice(a, ZERO, k), byte_seg(b), bslice(a, k, seqlen(a))), v, k, x)))
        return UNIT
    if n == 'pop':
        def last(a):
            L = seqlen(a)
            return ite(eq0(L), NONE, some(cx.e.elem(a, zsub(L, ONE))))
        r = cx.with_oracle(lambda: lift(last, v))
        cx.with_oracle(lambda: cx.set(0, lift(lambda a: ite(eq0(seqlen(a)), a, cx.e.sub(a, ZERO, zsub(seqlen(a), ONE))), v)))
        return r
    if n == 'remove':
        k = cx.ld(1)
        cx.panic_if(lift(lambda k, a: le(seqlen(a), k), k, v), 'bounds')
        r = cx.with_oracle(lambda: lift(cx.e.elem, v, k))
        cx.with_oracle(lambda: cx.set(0, lift(lambda a, k: cat(bslice(a, ZERO, k), bslice(a, zadd(k, ONE), seqlen(a))), v, k)))
        return r
    if n in ('drain', 'splice') and all(l.op != 'list' for _, l in leaves(v)) and is_bytes_type(cx.aty[0] if cx.aty else None):
        bad, lo, hi, single = idx_parts(cx, v, cx.args[1])
        new = EMPTY
        if n == 'splice':
            new = it_collect(cx, to_iter(cx, cx.args[2]), 'bytes')
        if single or new is None:
            return None
        cx.panic_if(bad, 'slice-range')
        r = cx.with_oracle(lambda: lift(bslice, v, lo, hi))
        cx.with_oracle(lambda: cx.set(0, lift(lambda a, lo, hi, x: cat(bslice(a, ZERO, lo), x, bslice(a, hi, seqlen(a))), v, lo, hi, new)))
        return lift(lambda x: mk('it_seq', x, ZERO, seqlen(x), 'ref'), r)
    if n == 'split_off':
        k = cx.ld(1)
        cx.panic_if(lift(lambda k, a: lt(seqlen(a), k), k, v), 'bounds')
        r = cx.with_oracle(lambda: lift(lambda a, k: cx.e.sub(a, k, seqlen(a)), v, k))
        cx.with_oracle(lambda: cx.set(0, lift(lambda a, k: cx.e.sub(a, ZERO, k), v, k)))
        return r
    return None


# ------------------------------------------------------------------ conversions
@model('core::convert::From::from', 'core::convert::Into::into')
def _from(cx):
    if cx.ref.get('res', {}).get('local'):
        return None
    if cx.ref.get('inst') is not None:
        i = cx.e.p.insts[cx.ref['inst']]
        if i['local'] or may_inline(i['path']):
            return None
    d = cx.dty
    x = cx.ld(0)
    at_ = cx.aty[0] if cx.aty else None
    kd = kind_of_ty(d)
    ks = kind_of_ty(at_) if at_ else None
    if ks == 'bool' and kd == 'int':
        return lift(lambda b: ONE if b is TRUE else ZERO, x)
    if ks == 'int' and kd == 'bool':
        return lift(lambda v: b_not(eq0(v)), x)
    if ks == 'int' and kd == 'sc':
        return lift(lambda v: mk('scint', v.a[0] % ELL) if v.op == 'int' else mk('sc_of_int', v), x)
    if kd == ks and kd is not None:
        if kd == 'bytes':
            want = seq_len_of_type(d)
            if want is not None:
                have = lift(seqlen, x)
                cx.panic_if(b_not(lift(lambda h: ints_eq(h, want), have)), 'length')
        return x
    if d is not None and d['k'] == 'tuple' and at_ is not None and strip_ref(at_)['k'] == 'array' and all(l.op == 'list' and len(l.a) == len(d['a']) for _, l in leaves(x)):
        return lift(lambda l: tup(*l.a), x)
    if d is not None and d['k'] == 'array' and at_ is not None and at_['k'] == 'tuple' and all(l.op == 'tuple' for _, l in leaves(x)) and not is_bytes_type(d):
        return lift(lambda l: mk('list', *l.a), x)
    if at_ is not None and 'password_hash' in tyname(d) + tyname(at_):
        return x
    if cx.path.endswith('Into::into') and cx.ref.get('res') is None:
        return x          # generic parameter: the canonical conversion
    return None


@model('core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from')
def _tryinto(cx):
    if cx.ref.get('res', {}).get('local'):
        return None
    # find the Ok type
    d = cx.dty
    if d['k'] == 'adt' and d['p'] == 'core::result::Result':
        okt = d['a'][0]
        x = cx.ld(0)
        want = seq_len_of_type(okt)
        if is_bytes_type(okt) and want is not None:
            et = d['a'][1]
            er = adt('core::result::Result', 'Err', adt('core::array::TryFromSliceError', 'TryFromSliceError', UNIT))
            return lift(lambda v: ite(ints_eq(seqlen(v), want), ok(v), er), x)
        kd = kind_of_ty(okt)
        if kd == 'int':
            ty = strip_ref(okt).get('n')
            if ty in INTBITS:
                b, s = INTBITS[ty]
                er = adt('core::result::Result', 'Err', adt('core::num::error::TryFromIntError', 'TryFromIntError', UNIT))
                return lift(lambda v: ite(b_and(le(I(-(1 << (b - 1)) if s else 0), v), le(v, I((1 << (b - s)) - 1))), ok(v), er), x)
        if cx.ref.get('res') is None or True:
            if 'ParamsString' in tykey(okt):
                return lift(lambda v: mk('params_try', v), x)
    if cx.ref.get('inst') is not None:
        i = cx.e.p.insts[cx.ref['inst']]
        if i['local'] or may_inline(i['path']):
            return None
    return None


# ------------------------------------------------------------------ iterators
ITOPS = {'it_seq', 'it_enum', 'it_take', 'it_skip', 'it_rev', 'it_zip', 'it_map', 'it_chain', 'it_step', 'it_chunks', 'it_once', 'it_repeat', 'it_filter', 'it_cycle', 'it_list', 'it_repeatwith'}


def is_iter(v):
    for _, l in leaves(v):
        if l.op in ITOPS:
            return True
        if l.op == 'adt' and l.a[1] in ('Range', 'RangeInclusive', 'RangeFrom') and l.a[0].startswith('core::ops::range'):
            return True
    return False


def to_iter(cx, v):
    """value implementing IntoIterator -> iterator value"""
    def f(x):
        if x.op in ITOPS or (x.op == 'adt' and x.a[0].startswith('core::ops::range')):
            return x
        if x.op == 'adt' and x.a[0] == OPTION:
            return mk('it_list', tuple(x.a[2]))
        if x.op == 'ref':
            tgt = cx.e.load(cx.st, x)
            if is_iter(tgt):
                return tgt
            return lift(lambda t: mk('it_seq', x, ZERO, seqlen(t), 'mut'), tgt)
        return mk('it_seq', x, ZERO, seqlen(x), 'ref')
    return lift(f, v)


@model('core::iter::traits::collect::IntoIterator::into_iter')
def _into_iter(cx):
    if cx.ref.get('res', {}).get('local'):
        return None
    v = cx.args[0]
    t = cx.aty[0] if cx.aty else None
    if is_iter(cx.ld(0)):
        if t is not None and t['k'] == 'ref':
            return cx.args[0]     # &mut I is itself the iterator
        return cx.ld(0)
    if t is not None:
        tt = strip_ref(t)
        if not (is_bytes_type(tt) or tt['k'] in ('slice', 'array') or (tt['k'] == 'adt' and tt['p'] in ('alloc::vec::Vec', 'core::option::Option', 'generic_array::GenericArray'))):
            return None
    return to_iter(cx, v)


@rmodel(r'core::slice::<impl \[T\]>::(iter|iter_mut)', r'core::str::<impl str>::bytes', r'core::array::<impl \[T; N\]>::(iter|each_ref)')
def _iter(cx):
    v = cx.args[0]
    if cx.name == 'iter_mut':
        d = cx.e.deepest(cx.st, v)
        return lift(lambda r: mk('it_seq', r, ZERO, None_len(cx, r), 'mut'), d)
    return lift(lambda x: mk('it_seq', x, ZERO, seqlen(x), 'ref'), cx.ld(0))


def None_len(cx, r):
    t = cx.e.load(cx.st, r)
    if t.op == 'case':
        ls = {seqlen(l) for _, l in leaves(t) if l is not UNDEF}
        if len(ls) == 1:
            return ls.pop()
        raise Unsupported('iter_mut over varying length')
    return seqlen(t)


@rmodel(r'core::slice::<impl \[T\]>::(chunks|chunks_exact|windows|rchunks|chunks_mut|chunks_exact_mut)')
def _chunks(cx):
    n = cx.ld(1)
    if cx.name in ('chunks', 'chunks_exact'):
        return lift(lambda x, k: mk('it_chunks', x, ZERO, seqlen(x), k, cx.name), cx.ld(0), n)
    if cx.name in ('chunks_mut', 'chunks_exact_mut'):
        d = cx.e.deepest(cx.st, cx.args[0])
        if d.op != 'ref':
            return None
        L = None_len(cx, d)
        if L.op != 'int' or n.op != 'int' or not n.a[0]:
            return None
        at, k, out = 0, n.a[0], []
        while at < L.a[0] and (at + k <= L.a[0] or cx.name == 'chunks_mut'):
            out.append(subref(d, I(at), I(min(at + k, L.a[0])), False))
            at += k
        return mk('it_list', tuple(out))
    return None


@rmodel(r'core::array::<impl \[T; N\]>::map')
def _amap(cx):
    x = cx.ld(0)
    if x.op != 'list':
        return None
    out = [cx.call(cx.args[1], [v]) for v in x.a]
    if cx.dty is not None and is_bytes_type(cx.dty):
        return lift_small(lambda *b: cat(*[byte_seg(y) for y in b]) if b else EMPTY, out)
    return mk('list', *out)


@rmodel(r'core::array::from_fn')
def _afrom_fn(cx):
    if cx.dty is None or cx.dty['k'] != 'array':
        return None
    n = seq_len_of_type(cx.dty)
    if n is None or n.op != 'int' or n.a[0] > 1024:
        return None
    out = [cx.call(cx.args[0], [I(i)]) for i in range(n.a[0])]
    if is_bytes_type(cx.dty):
        return lift_small(lambda *b: cat(*[byte_seg(y) for y in b]) if b else EMPTY, out)
    return mk('list', *out)


ADAPT = {'enumerate': lambda cx, it: mk('it_enum', it, ZERO), 'rev': lambda cx, it: mk('it_rev', it)}


@rmodel(r'core::iter::traits::iterator::Iterator::(enumerate|rev|take|skip|zip|map|chain|step_by|filter|copied|cloned|peekable|inspect)', r'core::iter::sources::(once|repeat|repeat_with|empty)::\w+')
def _adapt(cx):
    n = cx.name
    if n == 'once':
        return mk('it_list', (cx.args[0],))
    if n == 'empty':
        return mk('it_list', ())
    if n == 'repeat':
        return mk('it_repeat', cx.args[0])
    if n == 'repeat_with':
        return mk('it_repeatwith', cx.args[0])
    it = cx.args[0]
    if it.op == 'ref' or any(l.op == 'ref' for _, l in leaves(it)):
        return None
    if not is_iter(it):
        return None
    if n in ADAPT:
        return lift(lambda x: ADAPT[n](cx, x), it)
    if n in ('take', 'skip', 'step_by'):
        k = cx.ld(1)
        if n == 'step_by':
            return lift(lambda x, k: mk('it_step', x, k, TRUE), it, k)
        if n == 'skip':
            return lift(it_drop, it, k)
        return lift(lambda x, k: mk('it_' + n, x, k), it, k)
    if n in ('zip', 'chain'):
        o = to_iter(cx, cx.args[1])
        return lift(lambda x, y: mk('it_' + n, x, y), it, o)
    if n in ('map', 'filter'):
        f = cx.args[1]
        return lift(lambda x: mk('it_' + n, x, f), it)
    return None


@rmodel(r'core::iter::traits::iterator::Iterator::(flatten|flat_map)')
def _flatten(cx):
    if cx.ref.get('res', {}).get('local'):
        return None
    it = cx.args[0]
    if not is_iter(it) or it.op == 'case':
        return None
    xs = drain(cx, it)
    if xs is None:
        return None
    if cx.name == 'flat_map':
        xs = [cx.call(cx.args[1], [x]) for x in xs]
    out = None
    for x in xs:
        y = to_iter(cx, x)
        out = y if out is None else lift(lambda a, b: mk('it_chain', a, b), out, y)
    return out if out is not None else mk('it_list', ())


def it_drop(it, k):
    """`skip`: for a stretch of a sequence, the same stretch with a later start"""
    if k.op == 'int':
        return mk('it_skip', it, k)
    if it.op == 'it_seq':
        d = zmin(k, zsub(it.a[2], it.a[1]))
        return lift(lambda d: mk('it_seq', it.a[0], zadd(it.a[1], d), *it.a[2:]), d)
    if it.op == 'it_enum' and it.a[0].op == 'it_seq':
        s = it.a[0]
        d = zmin(k, zsub(s.a[2], s.a[1]))
        return lift(lambda d: mk('it_enum', mk('it_seq', s.a[0], zadd(s.a[1], d), *s.a[2:]), zadd(it.a[1], d)), d)
    return mk('it_skip', it, k)


def it_len(it):
    op = it.op
    if op in ('it_seq',):
        return zsub(it.a[2], it.a[1])
    if op == 'it_list':
        return I(len(it.a[0]))
    if op in ('it_enum', 'it_rev', 'it_map'):
        return it_len(it.a[0])
    if op == 'adt':
        d = zsub(it.a[2][1], it.a[2][0])
        return d if it.a[1] == 'Range' else zadd(d, ONE)
    if op == 'it_take':
        a, k = it_len(it.a[0]), it.a[1]
        return zmin(a, k)
    if op == 'it_zip':
        return zmin(it_len(it.a[0]), it_len(it.a[1]))
    if op == 'it_skip':
        a, k = it_len(it.a[0]), it.a[1]
        if a.op == 'int' and k.op == 'int':
            return I(max(0, a.a[0] - k.a[0]))
        return zsub(a, k)
    if op == 'it_chain':
        return zadd(it_len(it.a[0]), it_len(it.a[1]))
    if op in ('it_repeat', 'it_repeatwith'):
        return I(2**63)
    if op == 'it_chunks':
        n, k = zsub(it.a[2], it.a[1]), it.a[3]
        if n.op == 'int' and k.op == 'int' and k.a[0]:
            return I(n.a[0] // k.a[0] + (1 if n.a[0] % k.a[0] and it.a[4] == 'chunks' else 0))
    if op == 'it_step':
        n, k = it_len(it.a[0]), it.a[1]
        if n.op == 'int' and k.op == 'int':
            return I((n.a[0] + k.a[0] - 1) // k.a[0])
    raise Unsupported('iterator length ' + op)


def it_split(it):
    """(first, rest) for an iterator that goes through one sequence of unknown
    length and then another, None otherwise"""
    op = it.op
    if op == 'it_chain':
        if it.a[0].op == 'it_list' and not it.a[0].a[0]:
            return it_split(it.a[1])
        inner = it_split(it.a[0])
        if inner is not None:
            return inner[0], mk('it_chain', inner[1], it.a[1])
        try:
            n = it_len(it.a[0])
        except Unsupported:
            return None
        if n.op == 'int' and it_symbolic(it.a[1]) is False:
            return None
        return it.a
    if op in ('it_map', 'it_enum'):
        p = it_split(it.a[0])
        if p is None:
            return None
        if op == 'it_map':
            return mk(op, p[0], it.a[1]), mk(op, p[1], it.a[1])
        return mk(op, p[0], it.a[1]), mk(op, p[1], zadd(it.a[1], it_len(p[0])))
    if op == 'it_zip':
        for i in (0, 1):
            p = it_split(it.a[i])
            if p is None:
                continue
            o = it_cut(it.a[1 - i], it_len(p[0]))
            if o is None:
                return None
            return tuple(mk('it_zip', *((p[j], o[j]) if i == 0 else (o[j], p[j]))) for j in (0, 1))
    return None


def it_symbolic(it):
    try:
        return it_len(it).op != 'int'
    except Unsupported:
        return None


def it_cut(it, n):
    """(the first n, the others), None when n may be more than there are"""
    try:
        if le_known(n, it_len(it)) is not True:
            return None
    except Unsupported:
        return None
    op = it.op
    if op == 'it_seq':
        m = zadd(it.a[1], n)
        return mk(op, it.a[0], it.a[1], m, it.a[3]), mk(op, it.a[0], m, it.a[2], it.a[3])
    if op == 'it_enum':
        p = it_cut(it.a[0], n)
        return p and (mk(op, p[0], it.a[1]), mk(op, p[1], zadd(it.a[1], n)))
    if op == 'it_map':
        p = it_cut(it.a[0], n)
        return p and (mk(op, p[0], it.a[1]), mk(op, p[1], it.a[1]))
    if op == 'adt' and it.a[1] == 'Range':
        m = zadd(it.a[2][0], n)
        return adt(it.a[0], 'Range', it.a[2][0], m), adt(it.a[0], 'Range', m, it.a[2][1])
    return None


def it_done(it):
    """the iterator is known to be exhausted"""
    if it is None:
        return False
    try:
        return all(it_len(l) is ZERO for _, l in leaves(it))
    except Unsupported:
        if it.op == 'it_zip':
            return any(it_done(x) for x in it.a)
        return False


def zmin(a, b):
    r = le_known(a, b)
    if r is True:
        return a
    if r is False:
        return b
    raise Unsupported('length of zip')


def le_known(a, b):
    import terms
    return terms._le_known(a, b)


def it_next(cx, it, back=False):
    """-> (optional value, new iterator); `it` case-free"""
    op = it.op
    if op == 'it_seq':
        src, lo, hi, mode = it.a
        c = lt(lo, hi)
        i = zsub(hi, ONE) if back else lo
        if mode == 'mut':
            v = subref(src, i, zadd(i, ONE), True)
        else:
            f = cx.e.facts_of(b_and(cx.pc, c))
            ORACLE[0] = f.le_known
            try:
                v = cx.e.elem(src, i)
            finally:
                ORACLE[0] = ORACLE_BASE[0]
        new = mk('it_seq', src, lo, zsub(hi, ONE), mode) if back else mk('it_seq', src, zadd(lo, ONE), hi, mode)
        return ite(c, some(v), NONE), ite(c, new, it)
    if op == 'it_list':
        if not it.a[0]:
            return NONE, it
        if back:
            return some(it.a[0][-1]), mk('it_list', it.a[0][:-1])
        return some(it.a[0][0]), mk('it_list', it.a[0][1:])
    if op == 'it_repeat':
        return some(it.a[0]), it
    if op == 'it_repeatwith':
        return some(cx.call(it.a[0], [])), it
    if op == 'it_chunks':
        src, lo, hi, k, nm = it.a
        if back:
            raise Unsupported('chunks back')
        rem = zsub(hi, lo)
        r = le_known(k, rem)
        if r is None:
            raise Unsupported('symbolic chunks')
        if r:
            return some(cx.e.sub(src, lo, zadd(lo, k))), mk('it_chunks', src, zadd(lo, k), hi, k, nm)
        if nm == 'chunks' and rem is not ZERO:
            return some(cx.e.sub(src, lo, hi)), mk('it_chunks', src, hi, hi, k, nm)
        return NONE, it
    if op == 'adt':
        f = it.a[2]
        if it.a[1] == 'Range':
            c = lt(f[0], f[1])
            if back:
                j = zsub(f[1], ONE)
                return ite(c, some(j), NONE), ite(c, adt(it.a[0], 'Range', f[0], j), it)
            return ite(c, some(f[0]), NONE), ite(c, adt(it.a[0], 'Range', zadd(f[0], ONE), f[1]), it)
        if it.a[1] == 'RangeFrom':
            return some(f[0]), adt(it.a[0], 'RangeFrom', zadd(f[0], ONE))
        if it.a[1] == 'RangeInclusive':
            c = le(f[0], f[1])
            if back:
                return ite(c, some(f[1]), NONE), ite(c, adt(it.a[0], 'RangeInclusive', f[0], zsub(f[1], ONE), f[2]), it)
            return ite(c, some(f[0]), NONE), ite(c, adt(it.a[0], 'RangeInclusive', zadd(f[0], ONE), f[1], f[2]), it)
    if op == 'it_rev':
        o, n = it_next(cx, it.a[0], not back)
        return o, lift(lambda x: mk('it_rev', x), n)
    if op == 'it_enum':
        if back:
            L = it_len(it.a[0])
            o, n = it_next(cx, it.a[0], True)
            idx = zadd(it.a[1], zsub(L, ONE))
            return opt_map(o, lambda v: mk('tuple', idx, v)), lift(lambda x: mk('it_enum', x, it.a[1]), n)
        o, n = it_next(cx, it.a[0])
        k = it.a[1]
        return opt_map(o, lambda v: mk('tuple', k, v)), lift(lambda x, oo: mk('it_enum', x, zadd(k, ONE) if oo.a[1] == 'Some' else k), n, o)
    if op == 'it_take':
        k = it.a[1]
        if back:
            L = it_len(it.a[0])
            inner = it.a[0]
            if k.op == 'int' and L.op == 'int':
                while L.a[0] > k.a[0]:
                    _, inner = it_next(cx, inner, True)
                    L = zsub(L, ONE)
            o, n = it_next(cx, inner, True)
            return o, lift(lambda x: mk('it_take', x, k), n)
        z = eq0(k)
        if z is TRUE:
            return NONE, it
        o, n = it_next(cx, it.a[0])
        nn = lift(lambda x: mk('it_take', x, zsub(k, ONE)), n)
        return ite(z, NONE, o), ite(z, it, nn)
    if op == 'it_skip':
        k = it.a[1]
        if k.op != 'int':
            raise Unsupported('symbolic skip')
        inner = it.a[0]
        if back:
            n = it_len(it)
            z = eq0(n)
            o, nx = it_next(cx, inner, True)
            return ite(z, NONE, o), ite(z, it, lift(lambda x: mk('it_skip', x, k), nx))
        cur = inner
        for _ in range(k.a[0]):
            cur = lift(lambda x: it_next(cx, x)[1], cur)
        r = lift2(cx, cur)
        return r
    if op == 'it_zip':
        if back:
            a, b = it.a
            la, lb = it_len(a), it_len(b)
            if la is not lb:
                if la.op == 'int' and lb.op == 'int':
                    while la.a[0] > lb.a[0]:
                        a = it_next(cx, a, True)[1]
                        la = zsub(la, ONE)
                    while lb.a[0] > la.a[0]:
                        b = it_next(cx, b, True)[1]
                        lb = zsub(lb, ONE)
                else:
                    raise Unsupported('zip back')
            it = mk('it_zip', a, b)
        o1, n1 = it_next(cx, it.a[0], back)
        o2, n2 = it_next(cx, it.a[1], back)

        def z(x, y):
            if x.a[1] == 'None' or y.a[1] == 'None':
                return NONE
            return some(mk('tuple', x.a[2][0], y.a[2][0]))
        return lift(z, o1, o2), lift(lambda x, y: mk('it_zip', x, y), n1, n2)
    if op == 'it_chain':
        a, b = it.a
        if back:
            o, n = it_next(cx, b, True)
            o2, n2 = it_next(cx, a, True)
            oo = lift(lambda x, y: x if x.a[1] == 'Some' else y, o, o2)
            nn = lift(lambda x, m, m2: mk('it_chain', a, m) if x.a[1] == 'Some' else mk('it_chain', m2, b), o, n, n2)
            return oo, nn
        o, n = it_next(cx, a)
        if o is NONE:
            o2, n2 = it_next(cx, b)
            return o2, lift(lambda x: mk('it_chain', a, x), n2)
        o2, n2 = it_next(cx, b)
        oo = lift(lambda x, y: x if x.a[1] == 'Some' else y, o, o2)
        nn = lift(lambda x, m, m2: mk('it_chain', m, b) if x.a[1] == 'Some' else mk('it_chain', a, m2), o, n, n2)
        return oo, nn
    if op == 'it_step':
        inner, k, first = it.a
        if k.op != 'int' or back:
            raise Unsupported('step_by')
        cur = inner
        if first is not TRUE:
            for _ in range(k.a[0] - 1):
                cur = lift(lambda x: it_next(cx, x)[1], cur)
        o = lift(lambda x: it_next(cx, x)[0], cur)
        n = lift(lambda x: it_next(cx, x)[1], cur)
        return o, lift(lambda x: mk('it_step', x, k, FALSE), n)
    if op == 'it_map':
        o, n = it_next(cx, it.a[0], back)
        f = it.a[1]

        def ap(x):
            if x.a[1] == 'None':
                return NONE
            return some(cx.call(f, [x.a[2][0]]))
        if o.op == 'case':
            # evaluate under the branch condition for each alternative
            vals = []
            pc0 = cx.pc
            res = UNDEF
            for c, l in leaf_groups(o):
                if l.a[1] == 'None':
                    res = ite(c, NONE, res)
                else:
                    cx.pc = b_and(pc0, c)
                    v = cx.call(f, [l.a[2][0]])
                    res = ite(c, some(v), res)
            cx.pc = pc0
            return res, lift(lambda x: mk('it_map', x, f), n)
        return ap(o), lift(lambda x: mk('it_map', x, f), n)
    raise Unsupported('iterator ' + op)


def lift2(cx, cur):
    o = lift(lambda x: it_next(cx, x)[0], cur)
    n = lift(lambda x: it_next(cx, x)[1], cur)
    return o, n


def opt_map(o, f):
    return lift(lambda x: x if x.a[1] == 'None' else some(f(x.a[2][0])), o)


def it_step_case(cx, it, back=False):
    if it.op != 'case':
        return it_next(cx, it, back)
    o, n = UNDEF, UNDEF
    for c, l in leaf_groups(it):
        a, b = it_next(cx, l, back)
        o = ite(c, a, o)
        n = ite(c, b, n)
    return o, n


@rmodel(r'core::iter::traits::iterator::Iterator::next', r'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def _next(cx):
    if cx.ref.get('res', {}).get('local'):
        return None
    ref = cx.e.deepest(cx.st, cx.args[0])
    it = cx.e.load(cx.st, ref)
    if not is_iter(it):
        return None
    o, n = it_step_case(cx, it, cx.name == 'next_back')
    cx.e.store(cx.st, ref, n, cx.pc)
    return o


def drain(cx, it, limit=600):
    """list of elements of an iterator with decided length"""
    out = []
    for _ in range(limit):
        o, it = it_step_case(cx, it)
        if o is NONE:
            return out
        if o.op == 'case':
            return None
        out.append(o.a[2][0])
    return None


def whole_seq(it):
    """bytes/list value if `it` simply walks it (possibly reversed / copied)"""
    if it.op == 'it_seq' and it.a[3] == 'ref':
        if it.a[1] is ZERO and it.a[2] is seqlen(it.a[0]):
            return it.a[0]
        if it.a[0].op != 'list':
            return bslice(it.a[0], it.a[1], it.a[2])
    if it.op == 'it_rev':
        w = whole_seq(it.a[0])
        if w is not None:
            return mk('list', *reversed(w.a)) if w.op == 'list' else brev(w)
    if it.op == 'it_chain':
        a, b = whole_seq(it.a[0]), whole_seq(it.a[1])
        if a is not None and b is not None:
            return mk('list', *(a.a + b.a)) if a.op == 'list' else cat(a, b)
    if it.op == 'it_list' and all(x.op in INTOPS for x in it.a[0]):
        return cat(*[byte_seg(x) for x in it.a[0]])
    if it.op == 'it_take' and it.a[0].op == 'it_repeat' and it.a[0].a[0] is ZERO:
        return zeros(it.a[1])
    if it.op == 'it_take':
        w = whole_seq(it.a[0])
        if w is not None and w.op != 'list' and le_known(it.a[1], seqlen(w)):
            return bslice(w, ZERO, it.a[1])
    if it.op == 'it_skip':
        w = whole_seq(it.a[0])
        if w is not None and w.op != 'list' and le_known(it.a[1], seqlen(w)):
            return bslice(w, it.a[1], seqlen(w))
    return None


def it_collect(cx, it, kind):
    def f(x):
        if kind == 'bytes':
            w = whole_seq(x)
            if w is not None:
                return w
        xs = drain(cx, x)
        if xs is None and kind == 'bytes':
            return tabulate(cx, x)
        if xs is None:
            return UNDEF
        xs = [cx.e.load(cx.st, v) for v in xs]
        if kind == 'bytes':
            return lift_small(lambda *v: cat(*[byte_seg(b) if b.op in INTOPS or b.op not in BYTEOPS else b for b in v]), xs) if xs else EMPTY
        return lift_small(lambda *v: mk('list', *v), xs)
    r = lift(f, it)
    return None if r is UNDEF else r


@rmodel(r'core::iter::traits::iterator::Iterator::(collect|fold|for_each|all|any|count|sum|last|nth|eq|rev|position|find|try_for_each|min|max|lt|cmp)', r'core::iter::traits::collect::FromIterator::from_iter')
def _consume(cx):
    n = cx.name
    if cx.ref.get('res', {}).get('local'):
        return None
    it = cx.ld(0)
    if not is_iter(it):
        it2 = to_iter(cx, cx.args[0]) if n == 'from_iter' else it
        if not is_iter(it2):
            return None
        it = it2
    if n in ('collect', 'from_iter'):
        if is_bytes_type(cx.dty):
            return it_collect(cx, it, 'bytes')
        if tyname(cx.dty) == 'alloc::vec::Vec':
            return it_collect(cx, it, 'list')
        return None
    if it.op == 'case' and n in ('fold', 'all', 'any', 'count', 'sum'):
        before = dict(cx.st)

        def per(x):
            r = consume(cx, n, x)
            return UNDEF if r is None else r
        r = lift(per, it)
        if r is UNDEF or any(l is UNDEF for _, l in leaves(r)) or {k: v for k, v in cx.st.items() if k in before} != before:
            cx.st.clear()
            cx.st.update(before)
            return None
        return r
    if it.op == 'it_repeatwith' and n == 'find':
        return some(until(cx, it.a[0], cx.args[1]))
    if it.op == 'case':
        return None
    return consume(cx, n, it)


def tabulate(cx, it):
    """`(lo..hi).map(|i| byte)`, the byte given piecewise as a constant or an element of a string"""
    if it.op != 'it_map' or it.a[0].op != 'adt' or it.a[0].a[1] != 'Range':
        return UNDEF
    lo, hi = it.a[0].a[2]
    k = mk('uarg', 'tab%d' % next(interp._uid), 64)
    K = ((k, 1),)
    before, pc = dict(cx.st), cx.pc
    inside = b_and(pc, b_and(le(lo, k), lt(k, hi)))
    cx.pc = inside
    v = cx.call(it.a[1], [k])
    cx.pc = pc
    if {q: x for q, x in cx.st.items() if q in before} != before:
        cx.st.clear()
        cx.st.update(before)
        return UNDEF

    def has(x):
        return x is k or any(has(y) for y in x.a if isinstance(y, T)) or (x.op == 'zp' and any(a is k for m in zpoly(x) for a, _ in m))

    def shown(c):
        return F.implied_false(b_and(pc, b_not(c)), cx.e.context.copy())

    def piece(v, lo, hi):
        if lo is hi:
            return EMPTY
        if v.op == 'case' and v.a[0].op == 'a_le0' and len(v.a[1]) == 2:
            for i in (0, 1):
                if F.implied_false(b_and(inside, case(v.a[0], (FALSE, TRUE) if i == 0 else (TRUE, FALSE))), cx.e.context.copy()):
                    return piece(v.a[1][i], lo, hi)
            p = dict(zpoly(v.a[0].a[0]))
            c = p.pop(K, 0)
            r = zfrom(p)
            if c not in (1, -1) or has(r):
                return None
            t = zsub(ONE, r) if c == 1 else r
            first, second = (v.a[1][0], v.a[1][1]) if c == 1 else (v.a[1][1], v.a[1][0])
            if not (shown(le(lo, t)) and shown(le(t, hi))):
                return None
            x, y = piece(first, lo, t), piece(second, t, hi)
            return None if x is None or y is None else cat(x, y)
        n = zsub(hi, lo)
        if v is ZERO:
            return zeros(n)
        if not has(v) and v.op != 'case':
            r = mk('fill', v, n)
            KNOWN_LEN[r] = n
            return r
        if v.op == 'at' and not has(v.a[0]):
            p = dict(zpoly(v.a[1]))
            c = p.pop(K, 0)
            r = zfrom(p)
            if has(r):
                return None
            if c == 1:
                return bslice(v.a[0], zadd(lo, r), zadd(hi, r))
            if c == -1:
                return brev(bslice(v.a[0], zadd(zsub(r, hi), ONE), zadd(zsub(r, lo), ONE)))
        return None
    r = piece(restrict(v, inside) if v.op == 'case' else v, lo, hi)
    return UNDEF if r is None else r


@rmodel(r'verif::(call|some|more|with)')
def _verif(cx):
    if cx.name == 'call':
        return cx.call(cx.args[0], cx.args[1:])
    if cx.name == 'some':
        return lift(lambda o: FALSE if o is NONE else TRUE, cx.args[0])
    if cx.name == 'more':
        ref = cx.args[0]
        o, n = it_step_case(cx, cx.e.load(cx.st, ref))
        cx.e.store(cx.st, ref, n, cx.pc)
        return o
    o = restrict(cx.args[-1], cx.pc)
    x = lift(lambda v: v.a[2][0] if v.op == 'adt' and v.a[1] == 'Some' else UNDEF, o)
    return cx.call(cx.args[0], cx.args[1:-1] + [x])


UNITT, BOOLT = {'k': 'tuple', 'a': []}, {'k': 'prim', 'n': 'bool'}


class Code:
    """a small function written out as MIR, for a library function that loops"""

    def __init__(self, cx, name):
        self.cx = cx
        self.name = name
        self.blocks = []
        self.span = [cx.e.here()[0], cx.e.stack[-1][1] if cx.e.stack else 0, 0, False]

    def loc(self, i):
        return {'l': i, 'pr': []}

    def copy(self, i):
        return {'o': 'copy', 'p': self.loc(i)}

    def blk(self, t, st=()):
        self.blocks.append({'st': list(st), 't': t, 'cleanup': False, 'span': self.span})

    def goto(self, to):
        self.blk({'t': 'goto', 'to': to})

    def ret(self):
        self.blk({'t': 'return'})

    def branch(self, on, no, yes):
        self.blk({'t': 'switch', 'd': self.copy(on), 'ty': BOOLT, 'cases': [[0, no]], 'else': yes})

    def callb(self, name, args, dest, to, st=(), ty=UNITT):
        fn = {'id': 'verif:' + name, 'path': 'verif::' + name, 'name': name, 'local': False, 'args': [], 'kind': 'Fn'}
        self.blk({'t': 'call', 'f': {'o': 'const', 'ty': {'k': 'fndef', 'f': fn}, 'fn': fn}, 'a': [self.copy(a) for a in args],
                  'aty': [UNITT] * len(args), 'd': self.loc(dest), 'dty': ty, 'to': to}, st)

    def mutref(self, i, of):
        return {'s': 'assign', 'p': self.loc(i), 'rv': {'r': 'ref', 'm': True, 'p': self.loc(of)}, 'span': self.span}

    def run(self, args, nlocals):
        body = {'argc': len(args), 'spread': None, 'locals': [{'ty': UNITT, 'n': None} for _ in range(nlocals)], 'blocks': self.blocks}
        inst = {'i': -1, 'path': 'verif::' + self.name, 'id': 'verif:' + self.name, 'local': False, 'args': [], 'body': body}
        cx = self.cx
        st, v, pc = cx.e.run_body(body, args, cx.st, cx.pc, inst, None)
        cx.st, cx.pc = st, pc
        return v


def until(cx, gen, test):
    """`loop { let v = gen(); if test(&v) { break v } }`"""
    m = Code(cx, 'until')
    m.goto(1)
    m.callb('call', [1], 0, 2)
    m.callb('call', [2, 0], 3, 3, ty=BOOLT)
    m.branch(3, 4, 5)
    m.goto(1)
    m.ret()
    return m.run([gen, test], 5)


def each(cx, it, f):
    """`while let Some(x) = it.next() { f(x) }`"""
    if it.op == 'it_filter':
        m = Code(cx, 'eachof')
        m.goto(1)
        m.callb('more', [4], 5, 2, [m.mutref(4, 1)])
        m.callb('some', [5], 6, 3, ty=BOOLT)
        m.branch(6, 7, 4)
        m.callb('with', [3, 5], 7, 5, ty=BOOLT)
        m.branch(7, 1, 6)
        m.callb('with', [2, 5], 8, 1)
        m.ret()
        m.run([it.a[0], f, it.a[1]], 9)
        return UNIT
    m = Code(cx, 'each')
    m.goto(1)
    m.callb('more', [3], 4, 2, [m.mutref(3, 1)])
    m.callb('some', [4], 5, 3, ty=BOOLT)
    m.branch(5, 5, 4)
    m.callb('with', [2, 4], 6, 1)
    m.ret()
    m.run([it, f], 7)
    return UNIT


def folded(cx, it, acc, f):
    """`while let Some(x) = it.next() { acc = f(acc, x) }`"""
    m = Code(cx, 'folded')
    m.goto(1)
    m.callb('more', [4], 5, 2, [m.mutref(4, 1)])
    m.callb('some', [5], 6, 3, ty=BOOLT)
    m.branch(6, 5, 4)
    m.callb('with', [3, 0, 5], 0, 1)
    m.ret()
    m.blocks[0]['st'].append({'s': 'assign', 'p': m.loc(0), 'rv': {'r': 'use', 'a': m.copy(2)}, 'span': m.span})
    return m.run([it, acc, f], 7)


def strings_of(it):
    """the byte strings a lazy iterator walks in step"""
    if it.op == 'it_seq' and it.a[3] == 'ref' and it.a[0].op != 'list':
        return [bslice(it.a[0], it.a[1], it.a[2])]
    if it.op == 'it_zip':
        x, y = strings_of(it.a[0]), strings_of(it.a[1])
        return x and y and x + y
    if it.op == 'it_map':
        return strings_of(it.a[0])
    return None


def element(cx, it, k):
    """what such an iterator gives in round k"""
    if it.op == 'it_seq':
        return mk('at', bslice(it.a[0], it.a[1], it.a[2]), k)
    if it.op == 'it_zip':
        return tup(element(cx, it.a[0], k), element(cx, it.a[1], k))
    return cx.call(it.a[1], [element(cx, it.a[0], k)])


def fold_diff(cx, it):
    """acc | (x ^ y) over two strings"""
    xs = strings_of(it)
    if xs is None or len(xs) != 2:
        return None
    uid = next(interp._uid)
    ph, k = mk('phi', uid, 0), mk('uarg', 'fold%d' % uid, 62)
    before = dict(cx.st)
    v = cx.call(cx.args[2], [ph, element(cx, it, k)])
    if {k: v for k, v in cx.st.items() if k in before} != before:
        cx.st.clear()
        cx.st.update(before)
        return None
    if v is ph:
        return cx.args[1]
    d = interp.difference(v, ph)
    if d is None or {d[0], d[1]} != {mk('at', x, k) for x in xs}:
        return None
    return lift(lambda a: interp.joined(a, mk('xordiff', *sorted(xs, key=lambda v: v.n))), cx.args[1])


def consume(cx, n, it):
    if n == 'count':
        return it_len(it)
    if n == 'eq':
        a, b = whole_seq(it), whole_seq(to_iter(cx, cx.args[1]))
        if a is not None and b is not None:
            return beq(a, b)
        return None
    if n in ('lt', 'cmp'):
        a, b = whole_seq(it), whole_seq(to_iter(cx, cx.args[1]))
        if a is not None and b is not None and n == 'lt':
            return bytes_lt(a, b)
        return None
    try:
        xs = drain(cx, it)
    except Unsupported:
        if n != 'for_each' or it.op != 'it_filter':
            raise
        xs = None
    if xs is None and n == 'fold':
        r = fold_diff(cx, it)
        return r if r is not None else folded(cx, it, cx.args[1], cx.args[2])
    if xs is None and n == 'for_each':
        return each(cx, it, cx.args[1])
    if xs is None:
        return None
    if n == 'for_each':
        for x in xs:
            cx.call(cx.args[1], [x])
        return UNIT
    if n == 'fold':
        acc = cx.args[1]
        for x in xs:
            acc = cx.call(cx.args[2], [acc, x])
        return acc
    if n in ('all', 'any'):
        acc = TRUE if n == 'all' else FALSE
        for x in xs:
            r = cx.call(cx.args[1], [x])
            acc = b_and(acc, r) if n == 'all' else b_or(acc, r)
        return acc
    if n == 'sum':
        acc = ZERO
        for x in xs:
            acc = lift(zadd, acc, cx.e.load(cx.st, x))
        return acc
    return None


# ------------------------------------------------------------------ digests
def alg_of(t):
    t = strip_ref(t)
    if t['k'] == 'param':
        return '$D'
    k = tykey(t)
    if 'Sha256VarCore' in k:
        return 'sha256'
    if 'Sha512VarCore' in k:
        n = None
        m = t
        try:
            n = interp.typenum(t['a'][0]['a'][1])
        except Exception:
            pass
        return 'sha512' if n in (None, 64) else 'sha512/%s' % n
    if 'Sha1Core' in k:
        return 'sha1'
    return k


def hs_norm(cx, v, t):
    """digest state value -> hs term"""
    def f(x):
        if x.op == 'hs':
            return x
        if x.op in ('default',):
            return mk('hs', alg_of(t), EMPTY)
        return mk('hs', alg_of(t), mk('hinit', x))
    return lift(f, v)


def mkH(alg, data, n):
    h = mk('H', alg, data)
    if n is not None and (h not in KNOWN_LEN or n.op == 'int'):
        KNOWN_LEN[h] = n
    return h


@rmodel(r'digest::(digest::Digest|Digest|Update|FixedOutput|FixedOutputReset|Reset|digest::DynDigest|core_api::.*|.*)::(new|update|chain|chain_update|new_with_prefix|finalize|finalize_reset|finalize_fixed|finalize_into|finalize_into_reset|finalize_fixed_reset|reset|digest|output_size)')
def _digest(cx):
    n = cx.name
    t = cx.selfty()
    if t is None:
        return None
    if n == 'output_size':
        return mk('outlen', 'D') if strip_ref(t)['k'] == 'param' else None
    if n == 'new':
        return mk('hs', alg_of(t), EMPTY)
    if n == 'new_with_prefix':
        return lift(lambda d: mk('hs', alg_of(t), d), cx.ld(0))
    if n == 'digest':
        return lift(lambda d: mkH(alg_of(t), d, seq_len_of_type(cx.dty)), cx.ld(0))
    s = hs_norm(cx, cx.ld(0), t)
    if n in ('update', 'chain', 'chain_update'):
        d = cx.ld(1)
        ns = lift(lambda h, x: mk('hs', h.a[0], cat(h.a[1], x)), s, d)
        if n == 'update':
            cx.set(0, ns)
            return UNIT
        return ns
    if n == 'reset':
        cx.set(0, lift(lambda h: mk('hs', h.a[0], EMPTY), s))
        return UNIT
    if n in ('finalize', 'finalize_fixed'):
        return lift(lambda h: mkH(h.a[0], h.a[1], seq_len_of_type(cx.dty)), s)
    if n in ('finalize_reset', 'finalize_fixed_reset'):
        cx.set(0, lift(lambda h: mk('hs', h.a[0], EMPTY), s))
        return lift(lambda h: mkH(h.a[0], h.a[1], seq_len_of_type(cx.dty)), s)
    if n in ('finalize_into', 'finalize_into_reset'):
        o = cx.ld(1)
        cx.set(1, lift(lambda h, x: mkH(h.a[0], h.a[1], seqlen(x)), s, o))
        if n.endswith('reset'):
            cx.set(0, lift(lambda h: mk('hs', h.a[0], EMPTY), s))
        return UNIT
    return None


@rmodel(r'hkdf::Hkdf::<H, I>::(new|extract|expand|expand_multi_info|from_prk)')
def _hkdf(cx):
    n = cx.name
    if n == 'new':
        st = cx.selfty()
        alg = alg_of(st['a'][0]) if st else 'h'
        salt = cx.e.load_all(cx.st, cx.ld(0))

        def f(o, ikm):
            s = o
            if o.op == 'adt':
                s = o.a[2][0] if o.a[1] == 'Some' else EMPTY
            if s.op == 'bytes' and len(s.a[0]) <= 64:
                s = B(s.a[0].rstrip(b'\0'))
            if s.op == 'case':
                raise Unsupported('hkdf salt')
            return mk('hkdf', alg, s, ikm)
        return lift(f, salt, cx.ld(1))
    if n in ('expand', 'expand_multi_info'):
        h = cx.ld(0)
        info = cx.e.load_all(cx.st, cx.ld(1))
        if n == 'expand_multi_info':
            info = lift(lambda v: lift_small(cat, list(v.a)) if v.op == 'list' and v.a else (EMPTY if v.op == 'list' else mk('app', ('concat',), v)), info)
        out = cx.ld(2)

        def okm(h, i, o):
            return mk('okm', h.a[0], h.a[1], h.a[2], i, seqlen(o)) if h.op == 'hkdf' else mk('okm', '?', h, h, i, seqlen(o))
        v = lift(okm, h, info, out)
        bad = lift(lambda o: lt(I(255 * 32), seqlen(o)), out)
        cx.set(2, v)
        return ite(bad, err(adt('hkdf::errors::InvalidLength', 'InvalidLength')), ok(UNIT))
    return None


# ------------------------------------------------------------------ BigUint
def frombe(b):
    """integer value of a big-endian byte string"""
    if b.op == 'bytes':
        return I(int.from_bytes(b.a[0], 'big'))
    if b.op == 'be':
        return b.a[0]
    if b.op == 'bei':
        return b.a[0]
    if b.op == 'cat':
        s = list(b.a)
        while s and ((s[0].op == 'zeros') or (s[0].op == 'bytes' and not s[0].a[0].strip(b'\0'))):
            s.pop(0)
        if s and s[0].op == 'bytes' and s[0].a[0][:1] == b'\0':
            s[0] = B(s[0].a[0].lstrip(b'\0'))
        nb = cat(*s)
        if nb is not b:
            return frombe(nb)
    if b.op == 'zeros':
        return ZERO
    return mk('frombe', b)


def tobe(z):
    if z.op == 'int':
        v = z.a[0]
        return B(v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big'))
    return mk('be', z)


@rmodel(r'num_bigint::biguint::BigUint::(\w+)', r'num_bigint::biguint::convert::.*')
def _big(cx):
    n = cx.name
    if n == 'from_bytes_be':
        return lift(frombe, cx.ld(0))
    if n == 'from_bytes_le':
        return lift(lambda b: frombe(brev(b)), cx.ld(0))
    if n in ('from_slice', 'new') and len(cx.args) == 1:
        d = cx.ld(0)
        if all(l.op == 'list' and all(x.op == 'int' for x in l.a) for _, l in leaves(d)):
            return lift(lambda l: I(sum(x.a[0] << (32 * i) for i, x in enumerate(l.a))), d)
        return None
    if n == 'to_bytes_be':
        return lift(tobe, cx.ld(0))
    if n == 'to_bytes_le':
        return lift(lambda z: brev(tobe(z)), cx.ld(0))
    if n == 'modpow':
        b, e, m = cx.ld(0), cx.ld(1), cx.ld(2)
        cx.panic_if(lift(lambda x: eq0(x), m), 'modpow-zero-modulus')
        return lift(zpowmod, b, e, m)
    if n == 'bits':
        return lift(lambda z: I(z.a[0].bit_length()) if z.op == 'int' else mk('bits', z), cx.ld(0))
    if n == 'pow':
        return lift(lambda z, e: I(z.a[0] ** e.a[0]) if z.op == 'int' and e.op == 'int' else mk('zpow', z, e), cx.ld(0), cx.ld(1))
    if n in ('to_u32_digits', 'to_u64_digits') and cx.ld(0).op != 'case':
        return mk('digits', cx.ld(0), n)
    return None


@rmodel(r'num_traits::(identities::)?(Zero|One)::(zero|one|is_zero|is_one|set_zero|set_one)')
def _zo(cx):
    n = cx.name
    k = kind_of_ty(cx.selfty())
    if k != 'int':
        return None
    if n == 'zero':
        return ZERO
    if n == 'one':
        return ONE
    if n == 'is_zero':
        return lift(eq0, cx.ld(0))
    if n == 'is_one':
        return lift(lambda z: ints_eq(z, ONE), cx.ld(0))
    return None


@rmodel(r'num_integer::Integer::(mod_floor|div_rem|is_even|is_odd|gcd)')
def _numint(cx):
    if cx.name == 'mod_floor':
        return lift(zmod, cx.ld(0), cx.ld(1))
    return None


def arith_kind(cx):
    t = cx.selfty()
    k = kind_of_ty(t) if t else None
    return k


@rmodel(r'core::ops::(arith|bit)::(Add|Sub|Mul|Rem|Div|Neg|AddAssign|SubAssign|MulAssign|RemAssign|BitAnd|BitOr|BitXor|Not|BitAndAssign|BitOrAssign|BitXorAssign|Shl|Shr|DivAssign)::\w+')
def _arith(cx):
    if cx.ref.get('res', {}).get('local'):
        return None
    tr = cx.path.split('::')[-2]
    assign = tr.endswith('Assign')
    op = tr[:-6] if assign else tr
    k = arith_kind(cx)
    x = cx.ld(0)
    y = cx.ld(1) if len(cx.args) > 1 else None
    ky = None
    if y is not None and cx.aty and len(cx.aty) > 1:
        ky = kind_of_ty(cx.aty[1])
    r = None
    big = 'BigUint' in tykey(cx.selfty())
    if k == 'int':
        if op == 'Sub':
            if big:
                cx.panic_if(lift(lambda a, b: lt(a, b), x, y), 'biguint-sub-underflow')
            r = lift(zsub, x, y)
        elif op == 'Add':
            r = lift(zadd, x, y)
        elif op == 'Mul':
            r = lift(zmul, x, y)
        elif op == 'Rem':
            cx.panic_if(lift(eq0, y), 'rem-by-zero')
            r = lift(zmod, x, y)
        elif op == 'Div':
            cx.panic_if(lift(eq0, y), 'div-by-zero')
            r = lift(lambda a, b: I(a.a[0] // b.a[0]) if a.op == 'int' and b.op == 'int' else mk('zdiv', a, b), x, y)
        elif big:
            r = lift(lambda a, b: mk('bigop', op, a, b), x, y)
        else:
            r = cx.e.binop(op, x, y, strip_ref(cx.selfty()), cx.st)
    elif k == 'bool':
        if op == 'BitAnd':
            r = b_and(x, y)
        elif op == 'BitOr':
            r = b_or(x, y)
        elif op == 'BitXor':
            r = b_xor(x, y)
        elif op == 'Not':
            r = b_not(x)
    elif k == 'sc' and ky in ('sc', None):
        f = {'Add': sadd, 'Sub': ssub, 'Mul': smul}.get(op)
        if f:
            r = lift(f, x, y)
        elif op == 'Neg':
            r = lift(sneg, x)
    elif (k == 'pt' and ky == 'sc' or k == 'sc' and ky == 'pt') and op == 'Mul':
        r = lift(pmul_pt, x, y) if k == 'pt' else lift(pmul_pt, y, x)
    elif k == 'pt':
        if op == 'Add':
            r = lift(padd_pt, x, y)
        elif op == 'Sub':
            r = lift(lambda a, b: padd_pt(a, pneg_pt(b)), x, y)
        elif op == 'Neg':
            r = lift(pneg_pt, x)
    else:
        t = cx.selfty()
        tb = 'BasepointTable' in tykey(t) or (y is not None and cx.aty and 'BasepointTable' in tykey(cx.aty[1]))
        if tb and op == 'Mul':
            kind = 'ristretto' if 'Ristretto' in tykey(t) + tykey(cx.aty[1]) else 'ed25519'
            s = x if k == 'sc' else y
            r = lift(lambda q: pmul_pt(mk('base', kind), q), s)
    if r is None:
        return None
    if assign:
        cx.set(0, r)
        return UNIT
    return r


# ------------------------------------------------------------------ curve25519-dalek
def sc_le(b):
    """scalar from little-endian bytes, reduced"""
    if b.op == 'bytes':
        return mk('scint', int.from_bytes(b.a[0], 'little') % ELL)
    if b.op == 'scbytes':
        return b.a[0]
    if b.op == 'zeros':
        return SC0
    if b.op == 'cat':
        s = list(b.a)
        while s and ((s[-1].op == 'zeros') or (s[-1].op == 'bytes' and not s[-1].a[0].strip(b'\0'))):
            s.pop()
        if s and s[-1].op == 'bytes' and s[-1].a[0][-1:] == b'\0':
            s[-1] = B(s[-1].a[0].rstrip(b'\0'))
        nb = cat(*s)
        if nb is not b:
            return sc_le(nb)
    return mk('le_mod', b)


@rmodel(r'curve25519_dalek::scalar::Scalar::(\w+)')
def _scalar(cx):
    n = cx.name
    if n in ('from_bytes_mod_order', 'from_bytes_mod_order_wide'):
        return lift(sc_le, cx.ld(0))
    if n == 'random':
        return lift(sc_le, draw(cx, 0, 'bytes', I(64)))
    if n == 'from_hash':
        s = hs_norm(cx, cx.ld(0), cx.ref['args'][0])
        return lift(lambda h: sc_le(mkH(h.a[0], h.a[1], I(64))), s)
    if n == 'hash_from_bytes':
        return lift(lambda d: sc_le(mkH(alg_of(cx.ref['args'][0]), d, I(64))), cx.ld(0))
    if n == 'invert':
        return lift(sinv, cx.ld(0))
    if n in ('to_bytes', 'as_bytes'):
        return lift(lambda s: B(s.a[0].to_bytes(32, 'little')) if s.op == 'scint' else mk('scbytes', s), cx.ld(0))
    if n == 'from_canonical_bytes':
        return None
    return None


@rmodel(r'(?:<.* as )?curve25519_dalek::traits::(IsIdentity>?::is_identity|Identity>?::identity)')
def _ident_tr(cx):
    if cx.name == 'identity':
        t = cx.selfty()
        if 'CompressedRistretto' in tykey(t):
            return B(bytes(32))
        if 'CompressedEdwardsY' in tykey(t):
            return B(b'\1' + bytes(31))
        return PT0
    return lift(isid, cx.ld(0))


def decompress(b, kind):
    if b.op == 'compress':
        return some(b.a[0])
    if b.op == 'bytes' and len(b.a[0]) == 32:
        if kind == 'ed25519':
            if b.a[0] == b'\1' + bytes(31):
                return some(PT0)
            return some(mk('ptc', 'ed25519', b.a[0])) if ed_decompress_ok(b.a[0]) else NONE
        if not any(b.a[0]):
            return some(PT0)
    d = mk('decomp', kind, b)
    vs = ('None', 'Some')
    return case(mk('a_discr', d, vs), (NONE, some(mk('ptdec', kind, b))))


def tocomp(p, kind):
    if p is PT0:
        return B(bytes(32)) if kind == 'ristretto' else B(b'\1' + bytes(31))
    if p.op == 'ptc':
        return B(p.a[1])
    return mk('compress', p)


@rmodel(r'curve25519_dalek::(ristretto::RistrettoPoint|edwards::EdwardsPoint|ristretto::CompressedRistretto|edwards::CompressedEdwardsY)::(\w+)')
def _pt(cx):
    n = cx.name
    kind = 'ristretto' if 'ristretto' in cx.path else 'ed25519'
    if n == 'compress':
        return lift(lambda p: tocomp(p, kind), cx.ld(0))
    if n == 'decompress':
        return lift(lambda b: decompress(b, kind), cx.ld(0))
    if n == 'random':
        return lift(lambda b: mk('pt_uniform', kind, b), draw(cx, 0, 'bytes', I(64)))
    if n == 'from_uniform_bytes':
        return lift(lambda b: mk('pt_uniform', kind, b), cx.ld(0))
    if n == 'from_hash':
        s = hs_norm(cx, cx.ld(0), cx.ref['args'][0])
        return lift(lambda h: mk('pt_uniform', kind, mkH(h.a[0], h.a[1], I(64))), s)
    if n == 'hash_from_bytes':
        return lift(lambda d: mk('pt_uniform', kind, mkH(alg_of(cx.ref['args'][0]), d, I(64))), cx.ld(0))
    if n == 'mul_base':
        return lift(lambda s: pmul_pt(mk('base', kind), s), cx.ld(0))
    if n == 'mul_by_cofactor':
        return lift(lambda p: pmul_pt(p, mk('scint', 8)), cx.ld(0))
    if n == 'from_slice':
        x = cx.ld(0)
        er = err(adt('core::array::TryFromSliceError', 'TryFromSliceError', UNIT))
        return lift(lambda v: ite(ints_eq(seqlen(v), I(32)), ok(v), er), x)
    if n == 'vartime_double_scalar_mul_basepoint':
        return lift(lambda a, A, b: padd_pt(pmul_pt(A, a), pmul_pt(mk('base', kind), b)), cx.ld(0), cx.ld(1), cx.ld(2))
    return None


# ------------------------------------------------------------------ subtle
@rmodel(r'subtle::ConstantTimeEq::(ct_eq|ct_ne)')
def _cteq(cx):
    t = cx.selfty()
    k = kind_of_ty(t)
    if t and strip_ref(t)['k'] in ('slice', 'array'):
        k = 'bytes'
    x, y = ld2(cx)
    cx.e.trace.append(('cteq', cx.pc, x, y, cx.e.here()))
    r = lift(lambda a, b: veq(a, b, k, 'a_cteq'), x, y)
    return r if cx.name == 'ct_eq' else b_not(r)


@rmodel(r'subtle::Choice::unwrap_u8')
def _unw(cx):
    return lift(lambda b: ONE if b is TRUE else ZERO, cx.ld(0))


@rmodel(r'subtle::ConditionallySelectable::(conditional_select)')
def _csel(cx):
    return ite(undef_false(cx.ld(2)), cx.ld(1), cx.ld(0))


@rmodel(r'subtle::CtOption::<T>::(is_some|is_none|unwrap|new)')
def _ctopt(cx):
    if cx.name == 'new':
        return ite(undef_false(cx.ld(1)), some(cx.ld(0)), NONE)
    return None


# ------------------------------------------------------------------ randomness
def draw(cx, i, kind, n):
    """take a draw from the generator behind argument i"""
    ref = cx.e.deepest(cx.st, cx.args[i])
    v = cx.e.load(cx.st, ref)
    isref = any(l.op == 'ref' for _, l in leaves(ref))

    def isos(x):
        return x.op == 'adt' and x.a[0].endswith('OsRng')
    if any(isos(l) for _, l in leaves(v)):
        key = ('osrng', 0)
        s = cx.st.get(key) or mk('rng0', 'OsRng')
        cx.st[key] = lift(lambda x: mk('rng+', x, kind, n), s)
        d = lift(lambda x: mk('draw', kind, x, n), s)
    else:
        d = lift(lambda x: mk('draw', kind, x, n), v)
        if isref:
            cx.e.store(cx.st, ref, lift(lambda x: mk('rng+', x, kind, n), v), cx.pc)
        else:
            # by-value generator (e.g. wrapped): cannot persist the advance
            cx.e.trace.append(('rng-by-value', cx.pc, v, cx.e.here()))
    cx.e.trace.append(('draw', cx.pc, d, cx.e.here()))
    return d


@rmodel(r'rand_core::(RngCore|block::.*|.*)::(fill_bytes|try_fill_bytes|next_u64|next_u32)')
def _rng(cx):
    n = cx.name
    if n in ('next_u64', 'next_u32'):
        return draw(cx, 0, 'int', I(64 if n == 'next_u64' else 32))
    dst = cx.ld(1)
    L = lift(seqlen, dst)
    if L.op == 'case':
        return None
    d = draw(cx, 0, 'bytes', L)
    if n == 'try_fill_bytes':
        r = mk('rngres', d)
        okc = case(mk('a_discr', r, ('Ok', 'Err')), (TRUE, FALSE))
        part = mk('partialfill', d)
        KNOWN_LEN[part] = L
        cx.set(1, ite(okc, d, part))
        return ite(okc, ok(UNIT), err(mk('rngerr', r)))
    cx.set(1, d)
    return UNIT


@rmodel(r'rand_core::CryptoRngCore::as_rngcore', r'rand_core::.*::by_ref')
def _asrng(cx):
    return cx.args[0]


# ------------------------------------------------------------------ password-hash
B64LEN = lambda n: (n * 8 + 5) // 6


@rmodel(r'password_hash::salt::SaltString::(generate|encode_b64|from_b64|new)')
def _salt(cx):
    n = cx.name
    if n == 'generate':
        d = draw(cx, 0, 'bytes', I(16))
        return lift(mkb64, d)
    if n == 'encode_b64':
        x = cx.ld(0)

        def f(v):
            L = seqlen(v)
            if L.op == 'int':
                if L.a[0] <= 48:
                    return ok(mkb64(v))
                return err(mk('salterr', v))
            r = mk('saltenc', v)
            return case(mk('a_discr', r, ('Ok', 'Err')), (ok(mkb64(v)), err(mk('salterr', v))))
        return lift(f, x)
    x = cx.ld(0)

    def g(v):
        r = mk('saltparse', v)
        return case(mk('a_discr', r, ('Ok', 'Err')), (ok(v), err(mk('salterr', v))))
    return lift(g, x)


def mkb64(v):
    r = mk('b64', v)
    L = seqlen(v)
    KNOWN_LEN[r] = I(B64LEN(L.a[0])) if L.op == 'int' else mk('len', r)
    return r


@rmodel(r'core::str::parse|core::str::<impl str>::parse|password_hash::params::.*(from_str|try_from)')
def _params_parse(cx):
    a = cx.ref.get('args') or []
    t = cx.ref.get('self') if cx.name != 'parse' else None
    key = ' '.join(tykey(x) for x in a if x.get('k') != 'region') + ' ' + (tykey(t) if t else '') + cx.path
    if 'params' not in key.lower():
        return None
    x = cx.ld(0)

    def g(v):
        if v.op in ('adt', 'params_try'):
            return None
        r = mk('paramsparse', v)
        return case(mk('a_discr', r, ('Ok', 'Err')), (ok(v), err(mk('paramserr', v))))
    return lift(g, x)


@rmodel(r'password_hash::traits::PasswordHasher::(hash_password_customized|hash_password)')
def _pwhash(cx):
    n = cx.name
    a = [cx.e.load_all(cx.st, cx.ld(i)) for i in range(len(cx.args))]
    if n == 'hash_password':
        h, pw, salt = a
        a = [h, pw, NONE, NONE, mk('default', 'Params'), salt]
    cx.e.trace.append(('pwhash', cx.pc, a, cx.e.here()))
    return lift_small(lambda *x: mk('pwhash', *x), a)


# ------------------------------------------------------------------ misc
@rmodel(r'std::sync::.*(LazyLock|OnceLock|OnceCell|LazyCell).*::new')
def _lazynew(cx):
    return mk('lazy', *cx.args)


@rmodel(r'lazy_static::lazy::Lazy::<T>::get', r'std::sync::.*OnceLock.*::get_or_init', r'std::sync::.*LazyLock.*::(force|deref)', r'core::cell::.*::get_or_init')
def _lazy(cx):
    if cx.name in ('force', 'deref'):
        x = cx.ld(0)
        return cx.call(x.a[0], [], None) if x.op == 'lazy' and len(x.a) == 1 else None
    return cx.call(cx.args[1], [], None) if len(cx.args) > 1 else None


@rmodel(r'core::str::converts::from_utf8', r'core::str::<impl str>::from_utf8')
def _utf8(cx):
    x = cx.ld(0)

    def f(v):
        if v.op == 'bytes':
            try:
                v.a[0].decode()
                return ok(v)
            except UnicodeDecodeError:
                pass
        r = mk('utf8', v)
        return case(mk('a_discr', r, ('Ok', 'Err')), (ok(v), err(mk('utf8err', v))))
    return lift(f, x)


@rmodel(r'core::fmt::.*', r'alloc::fmt::format', r'alloc::fmt::format::.*', r'<.* as core::fmt::\w+>::fmt', r'core::fmt::rt::.*')
def _fmt(cx):
    p = cx.path
    if cx.ref.get('res', {}).get('local') or (cx.ref.get('inst') is not None and cx.e.p.insts[cx.ref['inst']]['local']):
        return None
    la = [cx.e.load_all(cx.st, a) for a in cx.args]
    cx.e.trace.append(('fmt', cx.pc, (p, tuple(la), tuple(cx.aty or ()), tuple(cx.ref.get('args', ()))), cx.e.here()))
    d = cx.dty
    if d is not None and d['k'] == 'adt' and d['p'] == 'core::result::Result':
        r = mk('fmtres', p)
        return case(mk('a_discr', r, ('Ok', 'Err')), (ok(UNIT), err(adt('core::fmt::Error', 'Error'))))
    if cx.name in ('finish', 'finish_non_exhaustive'):
        r = mk('fmtres', p)
        return case(mk('a_discr', r, ('Ok', 'Err')), (ok(UNIT), err(adt('core::fmt::Error', 'Error'))))
    if d is not None and d['k'] == 'ref' and d['m']:
        return cx.args[0]
    if 'Formatter' in p and 'debug_' in p:
        return cx.args[0]
    if p == 'alloc::fmt::format' and len(la) == 1 and la[0].op == 'fmtargs' and la[0].a[0].endswith('::from_str') and len(la[0].a) == 2:
        return la[0].a[1]       # text without arguments
    return mk('fmtargs', p, *[x for x in la if x.op != 'case'])


@rmodel(r'core::panicking::.*', r'core::option::(unwrap_failed|expect_failed)', r'core::result::unwrap_failed', r'core::slice::.*_fail.*', r'std::process::.*', r'alloc::alloc::handle_alloc_error', r'alloc::.*capacity_overflow')
def _panic(cx):
    cx.e.obligation(TRUE, cx.pc, 'panic', cx.path)
    cx.pc = FALSE
    return UNDEF


@rmodel(r'core::intrinsics::(cold_path|assume|abort|assert_inhabited|likely|unlikely)')
def _intr(cx):
    if cx.name == 'abort':
        cx.e.obligation(TRUE, cx.pc, 'abort', cx.path)
        cx.pc = FALSE
        return UNDEF
    if cx.name in ('likely', 'unlikely'):
        return cx.ld(0)
    return UNIT


@rmodel(r'core::iter::traits::iterator::Iterator::size_hint')
def _sh(cx):
    return None


# ------------------------------------------------------ an arbitrary SPAKE2 group
GKIND = 'any'                                # any group written against the trait
GLEN = [mk('len', mk('arg', 'element'))]     # length of an encoded element


def genc(p):
    t = mk('genc', p, GLEN[0])
    KNOWN_LEN[t] = GLEN[0]
    return t


def gdec(b):
    if b.op == 'genc':
        return some(b.a[0])
    d = mk('decomp', GKIND, b)
    return case(mk('a_discr', d, ('None', 'Some')), (NONE, some(mk('ptdec', GKIND, b))))


@rmodel(r'spake2::(?:\w+::)*Group::(\w+)')
def _anygroup(cx):
    """the contract of the Group trait for an implementation nobody has seen:
    a group action with a fixed-length encoding"""
    if (strip_ref(cx.selfty()) or {}).get('k') != 'param':
        return None
    n = cx.name
    if n in ('const_m', 'const_n', 'const_s'):
        return mk('gconst', n[-1])
    if n == 'element_length':
        return GLEN[0]
    if n == 'hash_to_scalar':
        return lift(lambda b: mk('ghash', b), cx.ld(0))
    if n == 'random_scalar':
        return lift(lambda d: mk('gscalar', d), draw(cx, 0, 'scalar', ONE))
    if n == 'scalar_neg':
        return lift(sneg, cx.ld(0))
    if n == 'basepoint_mult':
        return lift(lambda x: pmul_pt(mk('base', GKIND), x), cx.ld(0))
    if n == 'scalarmult':
        return lift(pmul_pt, cx.ld(0), cx.ld(1))
    if n == 'add':
        return lift(padd_pt, cx.ld(0), cx.ld(1))
    if n == 'element_to_bytes':
        return lift(genc, cx.ld(0))
    if n == 'bytes_to_element':
        return lift(gdec, cx.ld(0))
    return None


@rmodel(r'.*::(lookup_\w+|store_\w+|get_\w+|\w+)')
def _traitcall(cx):
    """methods of the crate's own traits on an unknown implementor (e.g. the database)"""
    if 'trait' not in cx.ref or not cx.ref.get('local') or cx.ref.get('inst') is not None or cx.ref.get('res'):
        return None
    la = [cx.e.load_all(cx.st, a) for a in cx.args]
    cx.e.trace.append(('traitcall', cx.pc, cx.name, la, cx.e.here()))
    h = cx.e.traithook.get(cx.name)
    if h is not None:
        return h(cx, la)
    v = lift_small(lambda *xs: mk('lookup', cx.name, *xs), la)
    for i, a in enumerate(cx.args):
        for c, r in cx.e._groups(a):
            if r.op == 'ref':
                cx.e.write_locs(cx.st, [(c, r.a[0], r.a[1])], lift_small(lambda *xs: mk('after', cx.name, *xs), la), cx.pc)
    return typed(v, cx.dty, cx.e.p) if cx.dty else v
