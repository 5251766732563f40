"""C31: what the serde implementations of the message types write and read back.

A writer/reader pair of an abstract data format is played against the code: calls
of the generic Serializer/Deserializer and their access objects are answered by
the abstract format, everything else (derived code, field wrappers, text
adapters, visitors) is interpreted symbolically."""
from common import *
import copy

MESSAGES = ('ClientMessage', 'ServerMessage')
U8SLICE = 'slice'


class Broken(Exception):
    pass


def okv(v):
    return adt(interp.RESULT, 'Ok', v)


def errv(why):
    return adt(interp.RESULT, 'Err', mk('dataerr', why))


def local_fn(p, ty, name):
    """the crate's own method `name` for a type (JSON type or path)"""
    path = ty if isinstance(ty, str) else ty.get('p') if ty['k'] == 'adt' else None
    if path is None:
        return None
    for f in p.d['fns']:
        if f['name'] == name and impl_adt(f) == path and f.get('inst') is not None and f.get('impl_trait'):
            return f
    return None


def is_u8(t):
    return t['k'] == 'prim' and t['n'] == 'u8'


def kind(ty):
    t = strip_ref(ty)
    if t['k'] == 'slice' and is_u8(t['t']):
        return 'seq-of-u8'
    if t['k'] == 'prim' and t['n'] in ('str',):
        return 'str'
    if t['k'] == 'adt' and t['p'] == 'alloc::string::String':
        return 'str'
    return 'T:' + tykey(t)


class Format:
    """abstract data format"""

    def __init__(self, s):
        self.s = s
        self.e = s.e
        self.p = s.p
        self.slots = {}
        self.tok = {}
        self.n = 0
        # reading mode
        self.compact = True
        self.strcall = 'visit_str'
        self.order = 1
        self.log = []

    def new(self, tab, v):
        self.n += 1
        tab[self.n] = v
        return self.n

    # -- writing
    def write(self, cx, ty, v):
        t = strip_ref(ty)
        f = local_fn(self.p, t, 'serialize')
        if f is not None:
            k = self.new(self.slots, [])
            inst = self.p.insts[f['inst']]
            cx.st, res, cx.pc = self.e.inline(inst, [v, mk('ser', I(k))], cx.st, cx.pc)
            got = self.slots[k]
            if len(got) != 1:
                raise Broken('%s writes %d values' % (f['path'], len(got)))
            return got[0]
        return (kind(ty), self.e.load_all(cx.st, v), tykey(t))

    def put(self, cx, h, item):
        if cx.pc is not TRUE:
            raise Broken('something is written only when %s' % short(cx.pc, 200))
        for _, x in leaves(h):
            if x.op not in ('ser', 'serst'):
                raise Unsupported('serializer handle')
            self.slots[x.a[0].a[0]].append(item)

    def serializer(self, cx):
        n = cx.name
        a = cx.args
        h = cx.ld(0)
        if h.op not in ('ser', 'serst'):
            return None
        targ = (cx.ref.get('args') or [None, None])
        T = next((t for t in targ[1:] if t.get('k') != 'region'), None)
        if n in ('serialize_str', 'serialize_bytes'):
            self.put(cx, h, (n[10:], self.e.load_all(cx.st, a[1]), n[10:]))
            return okv(UNIT)
        if n == 'serialize_newtype_struct':
            self.put(cx, h, self.write(cx, T, a[2]))
            return okv(UNIT)
        if n == 'serialize_unit_variant':
            self.put(cx, h, ('enum', self.num(cx, 2), self.text(cx, 3), 'unit', []))
            return okv(UNIT)
        if n == 'serialize_newtype_variant':
            self.put(cx, h, ('enum', self.num(cx, 2), self.text(cx, 3), 'newtype', [(None, self.write(cx, T, a[4]))]))
            return okv(UNIT)
        if n in ('serialize_tuple_variant', 'serialize_struct_variant'):
            fs = []
            k = self.new(self.slots, fs)
            self.put(cx, h, ('enum', self.num(cx, 2), self.text(cx, 3), n.split('_')[1], fs, self.num(cx, 4)))
            return okv(mk('serst', I(k)))
        if n == 'serialize_field':
            named = len(a) == 3
            key = self.text(cx, 1) if named else None
            self.put(cx, h, (key, self.write(cx, T, a[-1])))
            return okv(UNIT)
        if n == 'skip_field':
            raise Broken('the field %s is skipped' % self.text(cx, 1))
        if n == 'end':
            return okv(UNIT)
        if n == 'is_human_readable':
            return FALSE if self.compact else TRUE
        m = {'serialize_' + t: t for t in ('bool', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'char')}
        if n in m:
            self.put(cx, h, ('T:' + m[n], self.e.load_all(cx.st, a[1]), m[n]))
            return okv(UNIT)
        raise Unsupported('serializer call ' + n)

    def num(self, cx, i):
        v = self.e.load_all(cx.st, cx.args[i])
        if v.op != 'int':
            raise Unsupported('variable index')
        return v.a[0]

    def text(self, cx, i):
        v = self.e.load_all(cx.st, cx.args[i])
        if v.op != 'bytes':
            raise Unsupported('variable name')
        return v.a[0].decode()

    # -- reading
    def handle(self, tok):
        return mk('de', I(self.new(self.tok, tok)))

    def read(self, cx, ty, tok):
        """value of type ty read from a token: a Result"""
        t = strip_ref(ty)
        f = local_fn(self.p, t, 'deserialize')
        if f is not None:
            inst = self.p.insts[f['inst']]
            cx.st, v, cx.pc = self.e.inline(inst, [self.handle(tok)], cx.st, cx.pc)
            return v
        k = tok[0]
        want = kind(ty)
        if k == want and want != 'seq-of-u8':
            return okv(tok[1])
        if want == 'seq-of-u8':
            # a borrowed byte slice is read as a byte string; compact formats
            # write sequences of bytes in the same way
            if k == 'bytes' or k == 'seq-of-u8' and self.compact:
                return okv(tok[1])
            return errv('expected a byte string, found ' + k)
        return errv('expected %s, found %s' % (want, k))

    def visit(self, cx, visitor, name, *args):
        vs = [x for _, x in leaves(self.e.load(cx.st, visitor))]
        if len(vs) != 1 or vs[0].op != 'adt':
            raise Unsupported('visitor')
        f = local_fn(self.p, vs[0].a[0], name)
        if f is None:
            return None
        inst = self.p.insts[f['inst']]
        cx.st, v, cx.pc = self.e.inline(inst, [vs[0]] + list(args), cx.st, cx.pc)
        return v

    def visit_text(self, cx, visitor, text):
        names = {'visit_str': ('visit_str',), 'visit_borrowed_str': ('visit_borrowed_str', 'visit_str'),
                 'visit_string': ('visit_string', 'visit_str')}[self.strcall]
        for n in names:
            v = self.visit(cx, visitor, n, text)
            if v is not None:
                return v
        return errv('text is not accepted')

    def deserializer(self, cx):
        h = cx.ld(0)
        if h.op != 'de':
            return None
        n = cx.name
        tok = self.tok[h.a[0].a[0]]
        visitor = cx.args[-1]
        if n == 'is_human_readable':
            return FALSE if self.compact else TRUE
        k = tok[0]
        if n == 'deserialize_enum' or n == 'deserialize_any' and k == 'enum':
            if k != 'enum':
                return errv('expected an enum')
            return self.visit(cx, visitor, 'visit_enum', mk('ea', h.a[0]))
        if k == 'ident':
            if self.compact:
                v = self.visit(cx, visitor, 'visit_u64', I(tok[1]))
                return errv('index not accepted') if v is None else v
            name = B(tok[2].encode())
            if self.order < 0:
                v = self.visit(cx, visitor, 'visit_bytes', name)
                if v is not None:
                    return v
            return self.visit_text(cx, visitor, name)
        if n in ('deserialize_str', 'deserialize_string', 'deserialize_any') and k == 'str':
            return self.visit_text(cx, visitor, tok[1])
        if n in ('deserialize_bytes', 'deserialize_byte_buf', 'deserialize_any') and k in ('bytes', 'seq-of-u8'):
            if k == 'bytes' or self.compact:
                for m in ('visit_borrowed_bytes', 'visit_bytes'):
                    v = self.visit(cx, visitor, m, tok[1])
                    if v is not None:
                        return v
            return errv('byte string not accepted')
        if n in ('deserialize_str', 'deserialize_string', 'deserialize_bytes', 'deserialize_byte_buf', 'deserialize_identifier'):
            return errv('expected %s, found %s' % (n[12:], k))
        raise Unsupported('deserializer call %s on %s' % (n, k))

    def seq_next(self, cx, T):
        a = cx.ld(0)
        if a.op == 'case':
            raise Unsupported('branching access')
        k, pos = a.a[0].a[0], a.a[1].a[0]
        fs = self.tok[k]
        if pos >= len(fs):
            return okv(NONE)
        v = self.read(cx, T, fs[pos][1])
        cx.set(0, mk('acc', I(k), I(pos + 1)))
        return lift(lambda x: okv(some(x.a[2][0])) if x.op == 'adt' and x.a[1] == 'Ok' else x, v)

    def access(self, cx):
        n = cx.name
        h = cx.ld(0)
        A = cx.ref.get('args') or []
        T = next((t for t in A[1:] if t.get('k') != 'region'), None)
        if h.op == 'ea' and n == 'variant':
            tok = self.tok[h.a[0].a[0]]
            v = self.read(cx, T, ('ident', tok[1], tok[2]))
            return lift(lambda x: okv(tup(x.a[2][0], mk('va', h.a[0]))) if x.op == 'adt' and x.a[1] == 'Ok' else x, v)
        if h.op == 'va':
            tok = self.tok[h.a[0].a[0]]
            shape, fs = tok[3], tok[4]
            if n == 'newtype_variant':
                if shape != 'newtype' or not fs:
                    return errv('shape')
                return self.read(cx, T, fs[0][1])
            if n == 'unit_variant':
                return okv(UNIT) if shape == 'unit' else errv('shape')
            if n in ('struct_variant', 'tuple_variant'):
                want = n.split('_')[0]
                if shape != want and not (self.compact and {shape, want} == {'struct', 'tuple'}):
                    return errv('shape')
                fs = list(fs)
                visitor = cx.args[-1]
                if want == 'tuple' or self.compact:
                    k = self.new(self.tok, fs)
                    v = self.visit(cx, visitor, 'visit_seq', self.e.new_cell(cx.st, mk('acc', I(k), ZERO)))
                else:
                    k = self.new(self.tok, fs[::self.order])
                    v = self.visit(cx, visitor, 'visit_map', self.e.new_cell(cx.st, mk('acc', I(k), ZERO)))
                return errv('shape') if v is None else v
        if h.op == 'acc':
            k, pos = h.a[0].a[0], h.a[1].a[0]
            fs = self.tok[k]
            if n == 'next_element':
                return self.seq_next(cx, T)
            if n == 'next_key':
                if pos >= len(fs):
                    return okv(NONE)
                v = self.read(cx, T, ('ident', pos, fs[pos][0] or ''))
                return lift(lambda x: okv(some(x.a[2][0])) if x.op == 'adt' and x.a[1] == 'Ok' else x, v)
            if n == 'next_value':
                v = self.read(cx, T, fs[pos][1])
                cx.set(0, mk('acc', I(k), I(pos + 1)))
                return v
            if n == 'size_hint':
                return some(I(len(fs) - pos))
        if h.op in ('ea', 'va', 'acc'):
            raise Unsupported('access call ' + n)
        return None

    def hook(self, cx):
        p = cx.path
        if p.startswith('serde_byte_array::') and cx.name in ('serialize', 'deserialize'):
            if cx.name == 'serialize':
                h = self.e.load(cx.st, cx.args[1])
                if h.op != 'ser':
                    return None
                ty = self.bytes_ty(cx)
                self.put(cx, h, ('bytearray', self.e.load_all(cx.st, cx.args[0]), ty))
                return okv(UNIT)
            h = cx.ld(0)
            if h.op != 'de':
                return None
            tok = self.tok[h.a[0].a[0]]
            if tok[0] == 'bytearray' and tok[2] == self.bytes_ty(cx):
                return okv(tok[1])
            return errv('expected a byte array of another length or kind (%s)' % tok[0])
        if not p.startswith('serde::'):
            return None
        tr = p.split('::')
        t = tr[-2] if len(tr) > 1 else ''
        if t in ('Serializer', 'SerializeStructVariant', 'SerializeTupleVariant', 'SerializeStruct', 'SerializeTuple', 'SerializeSeq'):
            return self.serializer(cx)
        if t == 'Deserializer':
            return self.deserializer(cx)
        if t in ('EnumAccess', 'VariantAccess', 'SeqAccess', 'MapAccess'):
            return self.access(cx)
        if t == 'Serialize' and cx.name == 'serialize':
            h = self.e.load(cx.st, cx.args[1])
            if h.op != 'ser':
                return None
            self.put(cx, h, self.write(cx, cx.selfty(), cx.args[0]))
            return okv(UNIT)
        if t == 'Deserialize' and cx.name == 'deserialize':
            h = cx.ld(0)
            if h.op != 'de':
                return None
            return self.read(cx, cx.selfty(), self.tok[h.a[0].a[0]])
        return None

    def bytes_ty(self, cx):
        a = [x for x in cx.ref.get('args', []) if x.get('k') in ('array', 'ref')]
        return tykey(strip_ref(a[0])) if a else '?'


def texts(tok, path=()):
    """(path, token) of every text in a token tree"""
    if tok[0] == 'enum':
        for i, (_, t) in enumerate(tok[4]):
            yield from texts(t, path + (i,))
    elif tok[0] == 'str':
        yield path, tok


def with_text(tok, path, v):
    if not path:
        return ('str', v, 'str')
    fs = list(tok[4])
    fs[path[0]] = (fs[path[0]][0], with_text(fs[path[0]][1], path[1:], v))
    return tok[:4] + (fs,) + tok[5:]


def frozen(tok):
    if tok[0] == 'enum':
        return tok[:4] + ([(k, frozen(t)) for k, t in tok[4]],) + tok[5:]
    return tok


MODES = (('compact', True, 'visit_borrowed_str', 1), ('compact, owned text', True, 'visit_string', 1),
         ('self-describing', False, 'visit_str', 1), ('self-describing, other field order', False, 'visit_borrowed_str', -1))


def read_all(p, tok, mode, fde, value_of=None):
    s = Scn(p)
    F = Format(s)
    s.e.callhook = F.hook
    _, F.compact, F.strcall, F.order = mode
    v = s.call_fn(fde, F.handle(tok))
    return s, v


def c31(r):
    r.rule = ('every variant of every message written to and read back from an abstract compact and an abstract self-describing format '
              'by its own Serialize and Deserialize code: all fields are written unconditionally and come back in place; salts and '
              'parameters are written as their text; arbitrary text is accepted exactly when the validating parser accepts it')
    p = r.prog('aucpace')
    for M in MESSAGES:
        path = adt_path(p, M)
        fser, fde = local_fn(p, path, 'serialize'), local_fn(p, path, 'deserialize')
        if fser is None or fde is None:
            raise AnchorMissing('serde implementation of ' + M)
        names = {}
        for v in p.adts[path]['variants']:
            s = Scn(p)
            F = Format(s)
            s.e.callhook = F.hook
            fields = [sym(s, f['ty'], '%s.%s' % (v['n'], f['n'])) for f in v['fields']]
            x = adt(path, v['n'], *fields)
            k = F.new(F.slots, [])
            key = '%s::%s' % (M, v['n'])
            w = where(p, fser)
            r.count('variants')
            r.count('fields', len(fields))
            try:
                res = s.call_fn(fser, x, mk('ser', I(k)))
            except Broken as ex:
                r.violate('write:' + key, w, 'writing %s: %s' % (key, ex))
                continue
            out = F.slots[k]
            if len(out) != 1:
                r.violate('write:' + key, w, '%s writes %d values' % (key, len(out)))
                continue
            tok = frozen(out[0])
            if tok[0] == 'enum':
                for kk in (('index', tok[1]), ('name', tok[2])):
                    if kk in names:
                        r.violate('tag:' + key, w, '%s and %s are written with the same %s %s' % (key, names[kk], kk[0], kk[1]))
                    names[kk] = key
                if tok[3] in ('struct', 'tuple') and tok[5] != len(tok[4]):
                    r.violate('count:' + key, w, '%s announces %d fields and writes %d' % (key, tok[5], len(tok[4])))
                else:
                    r.held('fields of ' + key)
                # salts and parameters go out as text
                for f, y in zip(v['fields'], fields):
                    if tykey(f['ty']) in ('password_hash::salt::SaltString', 'password_hash::params::ParamsString'):
                        if not any(t[1] is y for _, t in texts(tok)):
                            r.violate('text:%s.%s' % (key, f['n']), w, 'the field %s of %s is not written as its complete text' % (f['n'], key))
                        else:
                            r.held('text of %s.%s' % (key, f['n']))
                            r.count('texts')
            r.used(s)
            wd = where(p, fde)
            assume = [parse_atom(f['ty'], y) for f, y in zip(v['fields'], fields)]
            facts = Facts([a for a in assume if a])
            for mode in MODES:
                s2, got = read_all(p, tok, mode, fde)
                r.count('round_trips')
                same(r, s2, 'roundtrip:%s' % key, got, okv(x), '%s read back (%s)' % (key, mode[0]), facts=facts, wh=wd)
                if s2.e.oblig:
                    panics(r, s2, 'panic', 'reading ' + key)
                # arbitrary text in place of each salt or parameter string
                for tp, t in texts(tok):
                    any_ = arg('received_text')
                    s3, got = read_all(p, with_text(tok, tp, any_), mode, fde)
                    i = [j for j, y in enumerate(fields) if y is t[1]]
                    r.count('text_inputs')
                    if not i:
                        continue
                    ty = v['fields'][i[0]]['ty']
                    a = parse_atom(ty, any_)
                    other = Facts([parse_atom(f['ty'], y) for j, (f, y) in enumerate(zip(v['fields'], fields)) if j != i[0] and parse_atom(f['ty'], y)])
                    isok = s3.okcond(got)
                    if a is None:
                        continue
                    good = case(a[0], tuple(TRUE if d == a[1] else FALSE for d in domain(a[0])))
                    bad = b_or(b_and(undef_false(isok), b_not(good)), b_and(b_not(undef_false(isok)), good))
                    if never(r, s3, 'validate:%s.%s' % (key, v['fields'][i[0]]['n']), b_and(s3.pc, bad),
                             'the field %s of %s is accepted or refused otherwise than by its validating parser (%s)' % (v['fields'][i[0]]['n'], key, mode[0]), facts=other, wh=wd):
                        want = adt(path, v['n'], *[any_ if j == i[0] else y for j, y in enumerate(fields)])
                        s3.pc = b_and(s3.pc, undef_false(isok))
                        same(r, s3, 'value:%s.%s' % (key, v['fields'][i[0]]['n']), s3.payload(got, 'Ok'), want, 'text field of ' + key, facts=other, wh=wd)
                    r.used(s3)
                r.used(s2)
    r.floor('variants', 12)
    r.floor('fields', 25)
    r.floor('round_trips', 48)
    r.floor('texts', 6)
    r.floor('text_inputs', 24)


def parse_atom(ty, y):
    k = tykey(ty)
    if k == 'password_hash::salt::SaltString':
        return mk('a_discr', mk('saltparse', y), ('Ok', 'Err')), 'Ok'
    if k == 'password_hash::params::ParamsString':
        return mk('a_discr', mk('paramsparse', y), ('Ok', 'Err')), 'Ok'
    return None


# ---------------------------------------------------------------- C42
POINT = 'curve25519_dalek::ristretto::RistrettoPoint'
SCALAR = 'curve25519_dalek::scalar::Scalar'
# published form: variants in order; for each its fields in order (None: the only, unnamed content)
PUBLISHED = {
    'ClientMessage': [
        ('Nonce', [(None, 'array')]),
        ('Username', [(None, 'bytes')]),
        ('StrongUsername', [('username', 'bytes'), ('blinded', POINT)]),
        ('PublicKey', [(None, POINT)]),
        ('Authenticator', [(None, 'array')]),
        ('Registration', [('username', 'bytes'), ('salt', 'str'), ('params', 'str'), ('verifier', POINT)]),
        ('StrongRegistration', [('username', 'bytes'), ('secret_exponent', SCALAR), ('params', 'str'), ('verifier', POINT)]),
    ],
    'ServerMessage': [
        ('Nonce', [(None, 'array')]),
        ('AugmentationInfo', [('group', 'str'), ('x_pub', POINT), ('salt', 'str'), ('pbkdf_params', 'str')]),
        ('StrongAugmentationInfo', [('group', 'str'), ('x_pub', POINT), ('blinded_salt', POINT), ('pbkdf_params', 'str')]),
        ('PublicKey', [(None, POINT)]),
        ('Authenticator', [(None, 'array')]),
    ],
}
STRONG_ONLY = ('StrongUsername', 'StrongRegistration', 'StrongAugmentationInfo')


def form(tok):
    k, ty = tok[0], tok[2] if len(tok) > 2 else ''
    if k == 'bytearray':
        return 'array'
    if k in ('bytes', 'str'):
        return k
    return ty


def written(p, M):
    """[(variant, index, name, shape, [(field, form, source field)])]"""
    path = adt_path(p, M)
    fser = local_fn(p, path, 'serialize')
    if fser is None:
        raise AnchorMissing('serde implementation of ' + M)
    for v in p.adts[path]['variants']:
        s = Scn(p)
        F = Format(s)
        s.e.callhook = F.hook
        fields = [sym(s, f['ty'], f['n']) for f in v['fields']]
        k = F.new(F.slots, [])
        try:
            s.call_fn(fser, adt(path, v['n'], *fields), mk('ser', I(k)))
        except Broken as ex:
            yield s, fser, v, str(ex)
            continue
        out = F.slots[k]
        if len(out) != 1 or out[0][0] != 'enum':
            yield s, fser, v, 'it is not written as one variant of the message'
            continue
        yield s, fser, v, frozen(out[0])


def c42(r):
    import build
    r.rule = ('what the Serialize code of every message variant hands to the data format, in each feature set with serde: variant name and '
              'position, field names, order and kinds compared with the published form')
    progs = [('all features', r.prog('aucpace'), True)]
    for feats in (['serde'], ['serde', 'alloc', 'partial_augmentation'], ['serde', 'strong_aucpace']):
        name = build.custom('aucpace', feats, True)
        progs.append(('+'.join(feats), r.prog('aucpace', name), 'strong_aucpace' in feats))
    for conf, p, strong in progs:
        for M in MESSAGES:
            want = [(n, fs) for n, fs in PUBLISHED[M] if strong or n not in STRONG_ONLY]
            names = [n for n, _ in want]
            seen = set()
            for s, fser, v, tok in written(p, M):
                r.count('variants')
                key = '%s::%s' % (M, v['n'])
                w = where(p, fser)
                r.used(s)
                if isinstance(tok, str):
                    r.violate('form:' + key, w, 'writing %s (%s): %s' % (key, conf, tok))
                    continue
                if v['n'] not in names:
                    # a message that was not published before is free in form, but comes after the others
                    if tok[1] < len(names) or tok[2] in names:
                        r.violate('place:' + key, w, '%s (%s) takes the place of a published message' % (key, conf))
                    continue
                seen.add(v['n'])
                i = names.index(v['n'])
                fs = [(k, form(t)) for k, t in tok[4]]
                bad = None
                if tok[2] != v['n']:
                    bad = 'is written under the name %s' % tok[2]
                elif tok[1] != i:
                    bad = 'is written as variant number %s instead of %d' % (tok[1], i)
                elif fs != want[i][1]:
                    bad = 'is written as %s instead of %s' % (fs, want[i][1])
                if bad:
                    r.violate('form:' + key, w, '%s (%s) %s' % (key, conf, bad))
                else:
                    r.held('%s (%s)' % (key, conf))
                    r.count('fields', len(fs))
            for n in names:
                if n not in seen:
                    r.violate('gone:%s::%s' % (M, n), conf, 'the message %s::%s is gone (%s)' % (M, n, conf))
    r.floor('variants', 36)
    r.floor('fields', 60)
