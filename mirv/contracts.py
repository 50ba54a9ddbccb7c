"""Contracts assumed for library functions (the trusted base) and the machinery to look them up.

A handler takes (engine, state, call) and returns [(state, value)], [(Outcome, None)], or pushes a frame and
returns [(state, PUSHED)] with the value delivered by the frame's continuation.
"""
import re
import z3
from engine import *

H = {}      # exact path -> handler
HR = []     # (regex, handler)
DOC = {}    # handler name -> one-line contract, listed as trusted in the evidence


def c(*paths, doc=None):
    def d(f):
        for p in paths:
            H[p] = f
        DOC[f.__name__] = doc or (f.__doc__ or '').strip()
        f.paths = paths
        return f
    return d


def cr(rx, doc=None):
    def d(f):
        HR.append((re.compile(rx), f))
        DOC[f.__name__] = doc or (f.__doc__ or '').strip()
        return f
    return d


class Contracts:
    """default lookup; a property spec can put functions of /repo under contract with .over"""

    def __init__(self):
        self.over = []  # list of (predicate(engine, call) -> bool, handler, name)
        self.top = None  # key of the function being verified (never replaced by its own contract at depth 0)
        self.opaque_calls = None

    def lookup(self, e, c):
        for pred, h, nm in self.over:
            if pred(e, c):
                e.used[nm] = e.used.get(nm, 0) + 1
                return h
        for p in (c.path, c.rpath, c.rfull):
            if p in H:
                h = H[p]
                if h.__name__ in GUARD and not GUARD[h.__name__](e, c):
                    continue
                e.used[h.__name__] = e.used.get(h.__name__, 0) + 1
                return h
        for rx, h in HR:
            if rx.search(c.path) or (c.rpath and rx.search(c.rpath)):
                if h.__name__ in GUARD and not GUARD[h.__name__](e, c):
                    continue
                e.used[h.__name__] = e.used.get(h.__name__, 0) + 1
                return h
        return None

    def call_opaque(self, e, st, v, args, destty):
        if self.opaque_calls:
            return self.opaque_calls(e, st, v, args, destty)
        return None


GUARD = {}


def has_body(e, c):
    return bool(c.c.get('body')) and c.c['body'] in e.p.fns


def ret(st, v):
    return [(st, v)]


# ------------------------------------------------------------------ JSON
JNULL = z3.Const('mk<serde_json::Value#0>', U)


def T(e, ty):
    return e.p.name(e.p.strip(ty))


def is_value(e, ty):
    return T(e, ty) == 'serde_json::Value'


def json_of(e, st, ty, v):
    """JSON value that serialising v : ty yields (references and boxes are transparent)"""
    ty = e.p.strip(ty)
    v = e.deref(st, v)
    if isinstance(v, G) and v.kind == 'Box':
        v = v.v
    t = e.p.types[ty]
    if t['k'] == 'adt' and t['path'].endswith('option::Option'):
        inner = t['args'][0]
        if isinstance(v, Agg):
            return JNULL if v.variant == 0 else json_of(e, st, inner, v.fields[0])
        return z3.If(e.vidx(v) == 1, json_of(e, st, inner, e.field(v, 1, 0)), JNULL)
    if e.is_str(ty) and not is_bytes(e, ty):
        return e.fn('json<str>', STR, U)(e.reify(st, v))
    if t['k'] == 'int':
        return e.fn('json<int>', INT, U)(e.reify(st, v))
    if t['k'] == 'bool':
        return e.fn('json<bool>', BOOL, U)(e.reify(st, v))
    if t['k'] == 'tuple' and not t['elems']:
        return JNULL
    if is_value(e, ty):
        r = e.reify(st, v)
        if isinstance(v, Sym):
            null_fact(e, v)
        return r
    r = e.reify(st, v)
    return e.fn(f'json<{e.p.name(ty)}>', r.sort(), U)(r)


def is_bytes(e, ty):
    t = e.p.types[ty]
    return t['k'] in ('slice', 'array') or (t['k'] == 'adt' and t['path'].endswith('vec::Vec'))


def null_fact(e, v):
    x = e.vidx(v)
    e.fact((x == 0) == (v.term == JNULL))


def de_ok(e, ty, j):
    ty = e.p.strip(ty)
    n = e.p.name(ty)
    if n == 'serde_json::Value' or n.endswith('IgnoredAny'):
        return z3.BoolVal(True)
    t = e.p.types[ty]
    if t['k'] == 'adt' and t['path'].endswith('option::Option'):
        return z3.Or(j == JNULL, de_ok(e, t['args'][0], j))
    k = jkind(e, ty)
    if k and z3.is_app(j) and j.decl().name().startswith('json<') and j.num_args() == 1:
        # an encoded scalar decodes as the same kind of scalar only
        if j.decl().name() != k:
            return z3.BoolVal(False)
        if k == 'json<int>':
            lo, hi = e.int_range(ty)
            return z3.And(j.arg(0) >= lo, j.arg(0) <= hi)
        return z3.BoolVal(True)
    if k == 'json<int>':
        ok = e.fn(f'ok<{n}>', U, BOOL)(j)
        e.fact(z3.Implies(ok, j == e.fn('json<int>', INT, U)(e.fn(f'de<{n}>', U, INT)(j))))
        return ok
    return e.fn(f'ok<{n}>', U, BOOL)(j)


def jkind(e, ty):
    """how scalars of this type are encoded"""
    t = e.p.types[ty]
    if t['k'] == 'int':
        return 'json<int>'
    if t['k'] == 'bool':
        return 'json<bool>'
    if e.is_str(ty) and not is_bytes(e, ty):
        return 'json<str>'


def de_val(e, ty, j):
    sty = e.p.strip(ty)
    n = e.p.name(sty)
    if z3.is_app(j) and j.num_args() == 1 and j.decl().name() == jkind(e, sty):
        return PRef(j.arg(0)) if e.p.types[ty]['k'] == 'ref' else j.arg(0)
    if n == 'serde_json::Value':
        v = Sym(sty, j)
        return v
    r = e.wrap(sty, e.fn(f'de<{n}>', U, e.sort_of(sty))(j))
    t = e.p.types[sty]
    if t['k'] == 'adt' and t['path'].endswith('option::Option'):
        # null is None, anything else is Some of the payload's decoding
        e.fact((e.vidx(r) == 0) == (j == JNULL))
        pv = e.reify(None, de_val(e, t['args'][0], j))
        pf = e.reify(None, e.field(r, 1, 0))
        e.fact(z3.Implies(j != JNULL, pf == pv))
    t = e.p.types[ty]
    if t['k'] in ('ref', 'ptr'):
        return PRef(r)
    if t['k'] == 'adt' and t['path'].endswith('boxed::Box'):
        return G('Box', v=r)
    return r


def jobj(e, entries):
    """JSON object with these members, order irrelevant"""
    es = sorted(entries, key=lambda x: (x[0], str(x[1])))
    nm = 'obj<' + ','.join(k for k, _ in es) + '>'
    if not es:
        return z3.Const(nm, U)
    return e.fn(nm, *([U] * len(es) + [U]))(*[j for _, j in es])


def jterm(e, o):
    """term of a produced JSON (ghost jout)"""
    if o.what == 'obj':
        if any(len(t) > 2 for t in o.entries):
            raise Unsupported('an object with conditional members')
        return jobj(e, o.entries)
    return o.term


def konst_str(e, st, v):
    x = z3.simplify(e.deref(st, v))
    if z3.is_string_value(x):
        return x.as_string()
    return None


def fork_err(e, st, ty, okv, name='err'):
    """the call succeeds with okv or fails with an arbitrary error"""
    s2 = st.fork()
    return [(st, e.ok(ty, okv)), (s2, e.err(ty, e.fresh_val(name, e.arg(ty, 1))))]


def serfail(st):
    st.store[('g', 'serfail')] = z3.BoolVal(True)
    return st


def ser_result(e, st, ty, okv):
    s2 = st.fork()
    serfail(s2)
    return [(st, e.ok(ty, okv)), (s2, e.err(ty, e.fresh_val('sererr', e.arg(ty, 1))))]


def jo(e, term):
    return G('jout', what='val', term=term)


# serializers -----------------------------------------------------
@c('serde::Serialize::serialize')
def ser_serialize(e, st, c):
    """T::serialize(&v, s) gives s the JSON value json_T(v), or fails with s's error (T's own impl is verified separately)"""
    ty = c.targs[0]
    s = c.args[1]
    j = json_of(e, st, ty, c.args[0])
    if isinstance(s, G) and s.kind == 'ser':
        return ser_result(e, st, c.destty, jo(e, j))
    if isinstance(s, Agg) and 'FlatMapSerializer' in e.p.name(s.ty):
        m = s.fields[0]
        obj = e.deref(st, m)
        if not (isinstance(obj, G) and obj.kind == 'obj'):
            raise Unsupported('flatten into ' + str(obj))
        r = m
        while isinstance(e.load(st, r), (Ref, PRef)):
            r = e.load(st, r)
        e.store_ref(st, r, obj.upd(entries=obj.entries + (('*', j),)))
        s2 = st.fork()
        serfail(s2)
        return [(st, e.ok(c.destty, e.unit())), (s2, e.err(c.destty, e.fresh_val('sererr', e.arg(c.destty, 1))))]
    raise Unsupported('serializer ' + str(s))


def isser(e, c):
    return isinstance(c.args[0], G) and c.args[0].kind == 'ser'


@c('serde::Serializer::serialize_struct', 'serde::Serializer::serialize_map')
def ser_struct(e, st, c):
    """starts a JSON object"""
    if not isser(e, c):
        raise Unsupported('serializer')
    return ser_result(e, st, c.destty, G('obj', entries=(), key=None))


def obj_add(e, st, ref, k, j):
    r = ref
    while True:
        o = e.load(st, r)
        if isinstance(o, (Ref, PRef)):
            r = o
        else:
            break
    if not (isinstance(o, G) and o.kind == 'obj'):
        raise Unsupported('not an object under construction')
    ks = konst_str(e, st, k)
    if ks is None:
        raise Unsupported('member name is not a constant')
    e.store_ref(st, r, o.upd(entries=o.entries + ((ks, j),)))


@c('serde::ser::SerializeStruct::serialize_field', 'serde::ser::SerializeStructVariant::serialize_field')
def ser_field(e, st, c):
    """adds the member (key, json of the value) to the object, or fails"""
    obj_add(e, st, c.args[0], c.args[1], json_of(e, st, c.targs[1], c.args[2]))
    return ser_result(e, st, c.destty, e.unit())


@c('serde::ser::SerializeMap::serialize_entry')
def ser_entry(e, st, c):
    """adds the member (key, json of the value) to the object, or fails"""
    obj_add(e, st, c.args[0], c.args[1], json_of(e, st, c.targs[2], c.args[2]))
    return ser_result(e, st, c.destty, e.unit())


@c('serde::ser::SerializeStruct::skip_field')
def ser_skip(e, st, c):
    """no effect"""
    return ser_result(e, st, c.destty, e.unit())


@c('serde::ser::SerializeStruct::end', 'serde::ser::SerializeMap::end')
def ser_end(e, st, c):
    """finishes the object: the result is the object with the members added so far"""
    o = c.args[0]
    if not (isinstance(o, G) and o.kind == 'obj'):
        raise Unsupported('end of ' + str(o))
    return ser_result(e, st, c.destty, G('jout', what='obj', entries=o.entries))


@c('serde::Serializer::serialize_str')
def ser_str(e, st, c):
    """gives the JSON string"""
    return ser_result(e, st, c.destty, jo(e, e.fn('json<str>', STR, U)(e.deref(st, c.args[1]))))


@cr(r'^serde::Serializer::serialize_(i8|i16|i32|i64|u8|u16|u32|u64)$')
def ser_int(e, st, c):
    """gives the JSON number"""
    return ser_result(e, st, c.destty, jo(e, e.fn('json<int>', INT, U)(c.args[1])))


@c('serde::Serializer::serialize_none', 'serde::Serializer::serialize_unit', 'serde::Serializer::serialize_unit_struct')
def ser_none(e, st, c):
    """gives null"""
    return ser_result(e, st, c.destty, jo(e, JNULL))


@c('serde::Serializer::serialize_some')
def ser_some(e, st, c):
    """gives the JSON of the value"""
    return ser_result(e, st, c.destty, jo(e, json_of(e, st, c.targs[1], c.args[1])))


@c('serde::Serializer::serialize_newtype_struct')
def ser_newtype(e, st, c):
    """gives the JSON of the inner value"""
    return ser_result(e, st, c.destty, jo(e, json_of(e, st, c.targs[1], c.args[2])))


@c('serde::Serializer::serialize_unit_variant')
def ser_unit_variant(e, st, c):
    """gives the variant name as a JSON string"""
    return ser_result(e, st, c.destty, jo(e, e.fn('json<str>', STR, U)(e.deref(st, c.args[3]))))


@c('serde::Serializer::serialize_newtype_variant')
def ser_newtype_variant(e, st, c):
    """gives {variant: json of the value}"""
    k = konst_str(e, st, c.args[3])
    return ser_result(e, st, c.destty, G('jout', what='obj', entries=((k, json_of(e, st, c.targs[1], c.args[4])),)))


# serde_json -----------------------------------------------------
def infallible(e, ty):
    """values serde_json always encodes"""
    ty = e.p.strip(ty)
    t = e.p.types[ty]
    return e.is_str(ty) and not is_bytes(e, ty) or t['k'] in ('int', 'bool') or (t['k'] == 'tuple' and not t['elems']) or is_value(e, ty)


@c('serde_json::to_value')
def to_value(e, st, c):
    """Ok(json_T(v)), or Err if serialising v fails"""
    j = json_of(e, st, c.targs[0], c.args[0])
    if infallible(e, c.targs[0]):
        return ret(st, e.ok(c.destty, Sym(e.arg(c.destty, 0), j)))
    return ser_result(e, st, c.destty, Sym(e.arg(c.destty, 0), j))


@c('serde_json::Value::is_null')
def is_null(e, st, c):
    """true exactly for null"""
    v = e.deref(st, c.args[0])
    if isinstance(v, Sym):
        null_fact(e, v)
    return ret(st, e.vidx(v) == 0)


@cr(r'^serde_json::Map::<.*>::(is_empty|len)$')
def map_len(e, st, c):
    """number of members of a JSON object"""
    r = e.reify(st, e.deref(st, c.args[0]))
    n = e.fn('members', r.sort(), INT)(r)
    e.fact(n >= 0)
    return ret(st, n == 0 if c.name == 'is_empty' else n)


# deserializers --------------------------------------------------
def djson(e, st, d):
    """the JSON value behind a deserializer, or None"""
    d = e.deref(st, d)
    if isinstance(d, G) and d.kind in ('de', 'content'):
        return d.j
    if isinstance(d, (Sym, Agg)) and d.ty is not None and is_value(e, d.ty):
        return e.reify(st, d)
    return None


@c('serde::Deserialize::deserialize')
def de_deserialize(e, st, c):
    """T::deserialize(d) is Ok(de_T(j)) if ok_T(j) for the JSON value j behind d, else Err (T's own impl is verified separately)"""
    ty, d = c.targs[0], c.args[0]
    if isinstance(d, G) and d.kind == 'keyde':
        return de_key(e, st, ty, d, c)
    j = djson(e, st, d)
    if j is None:
        if isinstance(d, G) and d.kind == 'missingde':
            t = e.p.types[ty]
            if t['k'] == 'adt' and t['path'].endswith('option::Option'):
                return ret(st, e.ok(c.destty, e.none(ty)))
            if T(e, ty) in MISSING_ERR or t['k'] in ('int', 'bool'):
                return ret(st, e.err(c.destty, e.fresh_val('missing', e.arg(c.destty, 1))))
        raise Unsupported('deserializer ' + str(d))
    n = T(e, ty)
    if n.endswith('::Content'):
        s2 = st.fork()
        s2.store[('g', 'maperr')] = z3.BoolVal(True)
        return [(st, e.ok(c.destty, G('content', j=j))), (s2, e.err(c.destty, e.fresh_val('deerr', e.arg(c.destty, 1))))]
    out = []
    a, b = e.split(st, de_ok(e, ty, j))
    if a is not None:
        out.append((a, e.ok(c.destty, de_val(e, ty, j))))
    if b is not None:
        out.append((b, e.err(c.destty, e.fresh_val('deerr', e.arg(c.destty, 1)))))
    return out


def de_key(e, st, ty, d, c):
    n = T(e, ty)
    if n in ('std::string::String', 'str'):
        return ret(st, e.ok(c.destty, d.k if e.p.types[ty]['k'] != 'ref' else PRef(d.k)))
    its = [it for it in e.p.impls('Deserialize', 'deserialize') if e.p.name(it['self']) == e.p.name(ty)]
    if len(its) != 1:
        raise Unsupported('key type ' + n)
    e.push(st, its[0]['key'], [d], None, None, lambda s, v: [(s, v)])
    return [(st, PUSHED)]


def visitor_method(e, vty, name):
    its = [it for it in e.items if it['name'] == name and it.get('trait', '').endswith('Visitor') and e.p.name(it['self']) == e.p.name(vty)] if hasattr(e, 'items') else [it for it in e.p.items if it['name'] == name and it.get('trait', '').endswith('Visitor') and e.p.name(it['self']) == e.p.name(vty)]
    return its[0] if its else None


@c('serde::Deserializer::deserialize_identifier', 'serde::Deserializer::deserialize_str', 'serde::Deserializer::deserialize_string')
def de_identifier(e, st, c):
    """a member name k is given to the visitor as a string"""
    d = c.args[0]
    vty = c.targs[1]
    if not (isinstance(d, G) and d.kind == 'keyde'):
        raise Unsupported('deserialize_identifier on ' + str(d))
    out = []
    ms = [m for m in ('visit_borrowed_str', 'visit_str', 'visit_string') if visitor_method(e, vty, m)]
    if not ms:
        raise Unsupported('visitor without visit_str')
    # which of them is called depends on the deserializer: consider each
    for i, m in enumerate(ms):
        s = st if i == len(ms) - 1 else st.fork()
        it = visitor_method(e, vty, m)
        arg = d.k if m == 'visit_string' else PRef(d.k)
        e.push(s, it['key'], [c.args[1], arg], None, None, lambda s, v: [(s, v)])
        out.append((s, PUSHED))
    return out


@c('serde::Deserializer::deserialize_struct', 'serde::Deserializer::deserialize_map', 'serde::Deserializer::deserialize_any')
def de_struct(e, st, c):
    """a JSON object is given to the visitor member by member in any order; anything else, or malformed input, is an error"""
    d = c.args[0]
    if not (isinstance(d, G) and d.kind == 'de' and d.a.get('top')):
        raise Unsupported('deserialize_struct on ' + str(d))
    vty = c.targs[1]
    it = visitor_method(e, vty, 'visit_map')
    if not it:
        raise Unsupported('visitor without visit_map')
    vis = c.args[-1]
    s2 = st.fork()
    s2.setg('maperr', z3.BoolVal(True))
    out = []
    seq = visitor_method(e, vty, 'visit_seq') if e.seqform else None
    if seq:
        # the positional form: an array, its elements in the order of the members
        s3 = st.fork()
        e.push(s3, seq['key'], [vis, G('seq')], None, None, lambda s, v: [(s, v)])
        out.append((s3, PUSHED))
    e.push(st, it['key'], [vis, G('map')], None, None, lambda s, v: [(s, v)])
    return out + [(st, PUSHED), (s2, e.err(c.destty, e.fresh_val('deerr', e.arg(c.destty, 1))))]


@c('serde::de::SeqAccess::next_element')
def seq_element(e, st, c):
    """the next element of the array read as T, None after the last one, or an error of the input"""
    resty, vty = c.destty, c.targs[1]
    s_err, s_end = st.fork(), st.fork()
    tick(st)
    j = e.fresh('elem', U)
    out = [(s_err, e.err(resty, e.fresh_val('seqerr', e.arg(resty, 1)))), (s_end, e.ok(resty, e.none(e.arg(resty, 0))))]
    a, b = e.split(st, de_ok(e, vty, j))
    if a is not None:
        out.append((a, e.ok(resty, e.some(e.arg(resty, 0), de_val(e, vty, j)))))
    if b is not None:
        out.append((b, e.err(resty, e.fresh_val('valerr', e.arg(resty, 1)))))
    return out


@c('serde::de::SeqAccess::size_hint', 'serde::de::MapAccess::size_hint')
def seq_hint(e, st, c):
    """any value"""
    return ret(st, e.fresh_val('hint', c.destty))


def watch_init(e, st, names):
    e.watch = list(names)
    st.setg('pend', z3.BoolVal(False))
    st.setg('ended', z3.BoolVal(False))
    st.setg('maperr', z3.BoolVal(False))
    st.setg('dup', z3.BoolVal(False))
    st.setg('k', z3.StringVal(''))
    st.setg('jv', z3.Const('jv0', U))
    for w in names:
        st.setg('has:' + w, z3.BoolVal(False))
        st.setg('val:' + w, z3.Const('val0:' + w, U))


def map_next_key(e, st, kty, optty, resty, cont):
    """shared by next_key and next_entry: cont(st, fieldvalue|None, errvalue|None)"""
    e.oblige(st, 'the value of each member is consumed before the next member name is requested', z3.Not(st.g('pend')))
    e.oblige(st, 'no member is requested after the last one', z3.Not(st.g('ended')))
    out = []
    s_err = st.fork()
    s_err.setg('maperr', z3.BoolVal(True))
    out += cont(s_err, None, e.fresh_val('maperr', e.arg(resty, 1)))
    s_end = st.fork()
    s_end.setg('ended', z3.BoolVal(True))
    out += cont(s_end, None, None)
    tick(st)
    k = e.fresh('key', STR)
    jv = e.fresh('jv', U)
    st.setg('k', k)
    st.setg('jv', jv)
    st.setg('pend', z3.BoolVal(True))
    dup = st.g('dup')
    for w in e.watch:
        isw = k == z3.StringVal(w)
        dup = z3.Or(dup, z3.And(isw, st.g('has:' + w)))
        st.setg('val:' + w, z3.If(isw, jv, st.g('val:' + w)))
        st.setg('has:' + w, z3.Or(isw, st.g('has:' + w)))
    st.setg('dup', dup)
    n = T(e, kty)

    def after(s, r):
        # r : Result<K, Error>
        if not isinstance(r, Agg):
            raise Unsupported('key result')
        if r.variant == 0:
            return cont(s, r.fields[0], None)
        return cont(s, None, r.fields[0])
    if n in ('std::string::String', 'str'):
        out += cont(st, k if e.p.types[kty]['k'] != 'ref' else PRef(k), None)
        return out
    its = [it for it in e.p.impls('Deserialize', 'deserialize') if e.p.name(it['self']) == e.p.name(kty)]
    if len(its) != 1:
        raise Unsupported('key type ' + n)
    # case split on the member name, so that the watched names are constants
    e.push(st, its[0]['key'], [G('keyde', k=k)], None, None, after)
    out.append((st, PUSHED))
    return out


@c('serde::de::MapAccess::next_key')
def map_key(e, st, c):
    """the name of the next member, None after the last one, or an error of the input"""
    resty = c.destty
    optty = e.arg(resty, 0)

    def cont(s, f, err):
        if err is not None:
            return [(s, e.err(resty, err))]
        if f is None:
            return [(s, e.ok(resty, e.none(optty)))]
        return [(s, e.ok(resty, e.some(optty, f)))]
    return map_next_key(e, st, c.targs[1], optty, resty, cont)


def take_value(e, st, vty, resty):
    """-> list of (state, value, err)"""
    e.oblige(st, 'a value is requested only after its member name', st.g('pend'))
    st.setg('pend', z3.BoolVal(False))
    j = st.g('jv')
    out = []
    s_err = st.fork()
    s_err.setg('maperr', z3.BoolVal(True))
    out.append((s_err, None, e.fresh_val('maperr', e.arg(resty, 1))))
    a, b = e.split(st, de_ok(e, vty, j))
    if a is not None:
        n = T(e, vty)
        v = e.fresh_val('ignored', vty) if n.endswith('IgnoredAny') else de_val(e, vty, j)
        out.append((a, v, None))
    if b is not None:
        # the member's value has the wrong shape for what it was read as
        b.store[('g', 'badshape')] = z3.Or(b.store.get(('g', 'badshape'), z3.BoolVal(False)), z3.BoolVal(True))
        out.append((b, None, e.fresh_val('valerr', e.arg(resty, 1))))
    return out


@c('serde::de::MapAccess::next_value')
def map_value(e, st, c):
    """the value of the member named last, read as T: de_T(j) if ok_T(j), else an error"""
    out = []
    for s, v, err in take_value(e, st, c.targs[1], c.destty):
        out.append((s, e.ok(c.destty, v) if err is None else e.err(c.destty, err)))
    return out


@c('serde::de::MapAccess::next_entry')
def map_entry(e, st, c):
    """name and value of the next member"""
    resty = c.destty
    optty = e.arg(resty, 0)
    tupty = e.arg(optty, 0)

    def cont(s, f, err):
        if err is not None:
            return [(s, e.err(resty, err))]
        if f is None:
            return [(s, e.ok(resty, e.none(optty)))]
        out = []
        for s2, v, er in take_value(e, s, c.targs[2], resty):
            out.append((s2, e.err(resty, er) if er is not None else e.ok(resty, e.some(optty, Agg(tupty, 0, [f, v])))))
        return out
    return map_next_key(e, st, c.targs[1], optty, resty, cont)


@cr(r'^serde::de::Error::(custom|missing_field|duplicate_field|unknown_variant|unknown_field|invalid_length|invalid_type|invalid_value)$')
def de_error(e, st, c):
    """an error value"""
    return ret(st, e.fresh_val('deerror', c.destty))


@cr(r'^serde::ser::Error::custom$')
def ser_error(e, st, c):
    """an error value"""
    return ret(st, e.fresh_val('sererror', c.destty))


MISSING_ERR = {'std::string::String', 'bool', 'i32', 'u8', 'u16', 'u32', 'u64', 'usize', 'lsp_types::Url', 'serde_json::Value'}


@cr(r'^serde::__private\d*::de::missing_field$')
def de_missing(e, st, c):
    """a missing member gives None for an Option and an error for any other type"""
    ty = c.targs[0]
    t = e.p.types[ty]
    if t['k'] == 'adt' and t['path'].endswith('option::Option'):
        return ret(st, e.ok(c.destty, e.none(ty)))
    if t['k'] == 'param':
        raise Unsupported('missing_field of a generic type')
    n = e.p.name(ty)
    if t['k'] == 'adt' and t['local'] and not derived_de(e, ty):
        # a hand-written Deserialize may accept the absence: let it decide
        its = [it for it in e.p.impls('Deserialize', 'deserialize') if e.p.name(it['self']) == n]
        if len(its) == 1:
            e.push(st, its[0]['key'], [G('missingde')], None, None, lambda s, v: [(s, v)])
            return [(st, PUSHED)]
    return ret(st, e.err(c.destty, e.fresh_val('missing', e.arg(c.destty, 1))))


def derived_de(e, ty):
    n = e.p.name(ty)
    its = [it for it in e.p.impls('Deserialize', 'deserialize') if e.p.name(it['self']) == n]
    return bool(its) and '::_::' in its[0]['path']


@cr(r'Content(Ref)?Deserializer::<.*>::new$')
def content_new(e, st, c):
    """a deserializer over the buffered JSON value"""
    v = e.deref(st, c.args[0])
    j = djson(e, st, v)
    if j is None:
        raise Unsupported('content deserializer over ' + str(v))
    return ret(st, G('de', j=j))


# ------------------------------------------------------------------ core / alloc
@cr(r'^(std|core|alloc)::(option|result)::.*(unwrap_failed|expect_failed).*$')
def unwrap_failed(e, st, c):
    """panics"""
    return [(Outcome('panic', st, None, c.path), None)]


@cr(r'^(std::rt::panic_fmt|core::panicking::.*|std::rt::begin_panic.*|std::panicking::.*|std::panic::panic_any|std::process::(exit|abort)|std::rt::panic_display|core::panic.*|std::panic::resume_unwind)$')
def panics(e, st, c):
    """panics"""
    return [(Outcome('panic', st, c.args[0] if c.args else None, c.path), None)]


@c('std::hint::must_use', 'std::convert::identity', 'std::hint::black_box')
def ident(e, st, c):
    """identity"""
    return ret(st, c.args[0])


@c('std::mem::drop', 'std::mem::forget', 'core::mem::drop')
def drop_(e, st, c):
    """no effect"""
    return ret(st, e.unit())


@c('std::clone::Clone::clone')
def clone(e, st, c):
    """a clone equals its original (the crate's own Clone impls are verified separately)"""
    v = e.load(st, c.args[0])
    return ret(st, v)


@c('std::clone::Clone::clone_from')
def clone_from(e, st, c):
    """a clone equals its original"""
    e.store_ref(st, c.args[0], e.load(st, c.args[1]))
    return ret(st, e.unit())


@c('std::cmp::PartialEq::eq')
def eq(e, st, c):
    """equality of contents"""
    return ret(st, exec_eq(e, st, c))


@c('std::cmp::PartialEq::ne')
def ne(e, st, c):
    """inequality of contents"""
    return ret(st, z3.Not(exec_eq(e, st, c)))


def exec_eq(e, st, c):
    vs = [e.deref(st, a) for a in c.args]
    vs = [v.v if isinstance(v, G) and v.kind == 'Box' else v for v in vs]
    gs = [v for v in vs if isinstance(v, G)]
    if any(v.kind == 'Case' for v in gs):
        return case_eq(e, st, c)
    if len(gs) == 1 or len({v.kind for v in gs}) == 2:
        raise Unsupported(f'comparison of {vs[0]} and {vs[1]}')
    return e.veq(st, c.args[0], c.args[1])


def local_body(e, c):
    b = c.c.get('body')
    return bool(b) and b in e.p.fns and e.p.fns[b]['crate'] == e.p.crate


GUARD['clone'] = lambda e, c: not local_body(e, c)
GUARD['eq'] = GUARD['ne'] = lambda e, c: not has_body(e, c)


@c('std::default::Default::default')
def default(e, st, c):
    """the documented default: empty, zero, false, null"""
    ty = c.destty
    t = e.p.types[ty]
    if e.is_str(ty):
        return ret(st, z3.StringVal(''))
    if t['k'] == 'bool':
        return ret(st, z3.BoolVal(False))
    if t['k'] == 'int':
        return ret(st, z3.IntVal(0))
    if is_value(e, ty):
        return ret(st, Sym(ty, JNULL))
    if t['k'] == 'adt' and t['path'].endswith('vec::Vec'):
        return ret(st, empty_vec(e, ty))
    if t['k'] == 'tuple' and not t['elems']:
        return ret(st, e.unit())
    return ret(st, e.wrap(ty, z3.Const(f'default<{e.p.name(ty)}>', e.sort_of(ty))))


GUARD['default'] = lambda e, c: not has_body(e, c)


def empty_vec(e, ty):
    v = Sym(ty, z3.Const(f'vec_empty<{e.p.name(e.p.types[ty]["args"][0])}>', U))
    e.fact(e.length(None, v) == 0)
    return v


# Into / From ----------------------------------------------------
def conv(e, st, frm, to, v):
    """uninterpreted conversion, the identity between string types"""
    fs, ts = e.p.strip(frm), e.p.strip(to)
    if e.is_str(fs) and e.is_str(ts):
        x = e.deref(st, v)
        if isinstance(x, G) and x.kind == 'Box':
            x = x.v
    elif e.p.name(fs) == e.p.name(ts):
        x = e.deref(st, v)
    else:
        r = e.reify(st, v)
        x = e.wrap(ts, e.fn(f'into<{e.p.name(fs)},{e.p.name(ts)}>', r.sort(), e.sort_of(ts))(r))
    t = e.p.types[to]
    if t['k'] in ('ref', 'ptr'):
        return PRef(x)
    if t['k'] == 'adt' and t['path'].endswith('boxed::Box'):
        return G('Box', v=x)
    return x


@c('std::convert::Into::into', 'std::convert::From::from')
def convert(e, st, c):
    """a conversion between library or generic types; the identity between string types"""
    if isinstance(c.args[0], G) and c.args[0].kind in ('ser', 'de'):
        raise Unsupported('conversion')
    return ret(st, conv(e, st, c.argtys[0], c.destty, c.args[0]))


GUARD['convert'] = lambda e, c: not has_body(e, c)


@c('std::convert::AsRef::as_ref', 'std::ops::Deref::deref', 'std::borrow::Borrow::borrow', 'std::ops::DerefMut::deref_mut', 'std::convert::AsMut::as_mut')
def asref(e, st, c):
    """a reference to the same contents"""
    fs, ts = e.p.strip(c.argtys[0]), e.p.strip(c.destty)
    v = c.args[0]
    # peel down to a single reference
    while isinstance(e.load(st, v), (Ref, PRef)):
        v = e.load(st, v)
    x = e.load(st, v)
    if isinstance(x, G) and x.kind == 'Box':
        return ret(st, PRef(x.v))
    if e.is_str(fs) and e.is_str(ts):
        return ret(st, v)
    if e.p.name(fs) == e.p.name(ts):
        return ret(st, v)
    fk, tk = e.p.types[fs], e.p.types[ts]
    if fk['k'] == 'adt' and fk['path'].endswith('vec::Vec') and tk['k'] == 'slice':
        return ret(st, v)
    r = e.reify(st, x)
    return ret(st, PRef(e.wrap(ts, e.fn(f'as_ref<{e.p.name(fs)},{e.p.name(ts)}>', r.sort(), e.sort_of(ts))(r))))


GUARD['asref'] = lambda e, c: not has_body(e, c)


# strings (byte sequences) ----------------------------------------
def S(e, st, v):
    x = e.deref(st, v)
    if isinstance(x, G) and x.kind == 'Box':
        x = x.v
    if isinstance(x, Agg) and x.ty is not None and e.is_str(x.ty) and len(x.fields) == 1:
        return S(e, st, x.fields[0])
    if not (isz(x) and x.sort() == STR):
        raise Unsupported(f'string expected: {x}')
    return x


# structural string reasoning: strings are sequences of constants and unknown parts ("atoms"); what is known about an
# atom (from the contract that introduced it) is kept in e.sfacts
def spieces(t):
    t = z3.simplify(t)
    out = []

    def go(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for i in range(x.num_args()):
                go(x.arg(i))
        elif z3.is_string_value(x):
            b = bytes(min(k, 255) for k in z3_bytes(x))
            if out and isinstance(out[-1], bytes):
                out[-1] += b
            elif b:
                out.append(b)
        else:
            out.append(x)
    go(t)
    return out


def sjoin(ps):
    ps = [bytesval(p) if isinstance(p, bytes) else p for p in ps if not (isinstance(p, bytes) and not p)]
    return z3.StringVal('') if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)


def plen(p):
    return z3.IntVal(len(p)) if isinstance(p, bytes) else z3.Length(p)


def slen(t):
    return z3.simplify(sum([plen(p) for p in spieces(t)], z3.IntVal(0)))


def sknow(e, atom, no=(), nosuf=(), nonempty=False):
    """record facts about an atom that hold wherever it occurs"""
    e.sfacts[atom.get_id()] = dict(no=[bytes(x) for x in no], nosuf=[bytes(x) for x in nosuf], nonempty=nonempty, keep=atom)


def sf(e, atom):
    return e.sfacts.get(atom.get_id(), dict(no=[], nosuf=[], nonempty=False))


def excludes(e, atom, p):
    """the atom certainly does not contain p"""
    return any(q in p for q in sf(e, atom)['no'])


def cutpos(e, ps, off):
    """(piece index, offset in it) of position off, or None if it does not lie at a known place"""
    acc = z3.IntVal(0)
    for i, p in enumerate(ps):
        d = z3.simplify(off - acc)
        if z3.is_int_value(d):
            k = d.as_long()
            if k == 0:
                return i, 0
            if isinstance(p, bytes) and 0 < k < len(p):
                return i, k
        acc = acc + plen(p)
    d = z3.simplify(off - acc)
    if z3.is_int_value(d) and d.as_long() == 0:
        return len(ps), 0
    return None


def ssub(e, t, lo, hi):
    """t[lo..hi], assuming lo <= hi <= len"""
    ps = spieces(t)
    a, b = cutpos(e, ps, lo), cutpos(e, ps, hi)
    if a is None or b is None or a > b:
        return z3.SubString(t, lo, hi - lo)
    (i, k), (j, l) = a, b
    if i == j:
        return sjoin([ps[i][k:l]]) if i < len(ps) and isinstance(ps[i], bytes) else z3.StringVal('')
    out = [ps[i][k:] if k else ps[i]] + ps[i + 1:j]
    if l:
        out.append(ps[j][:l])
    return sjoin(out)


def sat_boundary(e, t, i):
    ps = spieces(t)
    c = cutpos(e, ps, i)
    if c is not None:
        if c[0] == len(ps) or c == (0, 0):
            return z3.BoolVal(True)
        if isinstance(ps[c[0]], bytes):
            ch = ps[c[0]][c[1]]
            return z3.BoolVal(ch < 128 or ch >= 192)
    return boundary(t, i)


def sends(e, t, p):
    ps, pt = spieces(t), spieces(p)
    if len(pt) != 1 or not isinstance(pt[0], bytes):
        return z3.SuffixOf(p, t) if pt else z3.BoolVal(True)
    need = pt[0]
    while need:
        if not ps:
            return z3.BoolVal(False)
        x = ps.pop()
        if isinstance(x, bytes):
            n = min(len(x), len(need))
            if x[-n:] != need[-n:]:
                return z3.BoolVal(False)
            need = need[:-n]
        else:
            f = sf(e, x)
            if excludes(e, x, need) and not ps or any(need.endswith(q) for q in f['nosuf']) or any(need.endswith(q) for q in f['no']) and f['nonempty'] and len(need) == 1:
                return z3.BoolVal(False)
            if need[-1:] in f['no'] and (f['nonempty'] or known(sends(e, sjoin(ps), bytesval(need))) is False):
                return z3.BoolVal(False)   # x does not end like this, nor does what comes before it
            return z3.SuffixOf(bytesval(need), sjoin(ps + [x]))
    return z3.BoolVal(True)


def sstarts(e, t, p):
    ps, pt = spieces(t), spieces(p)
    if len(pt) != 1 or not isinstance(pt[0], bytes):
        return z3.PrefixOf(p, t) if pt else z3.BoolVal(True)
    need = pt[0]
    while need:
        if not ps:
            return z3.BoolVal(False)
        x = ps.pop(0)
        if isinstance(x, bytes):
            n = min(len(x), len(need))
            if x[:n] != need[:n]:
                return z3.BoolVal(False)
            need = need[n:]
        else:
            if excludes(e, x, need) and not ps:
                return z3.BoolVal(False)
            return z3.PrefixOf(bytesval(need), sjoin([x] + ps))
    return z3.BoolVal(True)


def sfind(e, t, p):
    """(contains, index of the first occurrence, pieces before, pieces after), the last two None if not known"""
    ps, pt = spieces(t), spieces(p)
    unknown = (z3.Contains(t, p), z3.IndexOf(t, p, 0), None, None)
    if len(pt) != 1 or not isinstance(pt[0], bytes):
        return unknown
    q = pt[0]

    def begins(rest, s):
        """may the pieces `rest` begin with s? None if not known"""
        while s:
            if not rest:
                return False
            x = rest[0]
            if not isinstance(x, bytes):
                return None
            n = min(len(x), len(s))
            if x[:n] != s[:n]:
                return False
            s, rest = s[n:], rest[1:]
        return True
    for i, x in enumerate(ps):
        if isinstance(x, bytes):
            for k in range(len(x)):
                r = begins([x[k:]] + ps[i + 1:], q)
                if r is None:
                    return unknown
                if r:
                    bef = ps[:i] + [x[:k]]
                    aft = [x[k:]] + ps[i + 1:]
                    s = q
                    while s:
                        n = min(len(aft[0]), len(s))
                        s = s[n:]
                        aft = ([aft[0][n:]] if aft[0][n:] else []) + aft[1:]
                    return z3.BoolVal(True), z3.simplify(sum([plen(y) for y in bef], z3.IntVal(0))), bef, aft
        else:
            if not excludes(e, x, q):
                return unknown
            for k in range(1, len(q)):
                # q[:k] at the end of the atom and q[k:] right after it
                if q[:k] in sf(e, x)['no'] or any(q[:k].endswith(y) for y in sf(e, x)['nosuf']):
                    continue
                if begins(ps[i + 1:], q[k:]) is not False:
                    return unknown
    return z3.BoolVal(False), z3.IntVal(-1), None, None


def sbefore(e, t, p):
    b = sfind(e, t, p)[2]
    return sjoin(b) if b is not None else before(t, p)


def safter(e, t, p):
    a = sfind(e, t, p)[3]
    return sjoin(a) if a is not None else afterp(t, p)


def wr(e, st, ref, v):
    """write through a mutable reference (possibly nested)"""
    while isinstance(e.load(st, ref), (Ref, PRef)):
        ref = e.load(st, ref)
    e.store_ref(st, ref, v)


SP = r'^(std|core|alloc)::(str|string|slice|vec|borrow)::'


def sfn(*names):
    """string method by name: any of str / String / [u8] / Vec<u8>"""
    def d(f):
        for n in names:
            SM[n] = f
        DOC['str ' + '/'.join(names)] = (f.__doc__ or '').strip()
        return f
    return d


SM = {}


def is_strish(e, c):
    if not c.argtys:
        return False
    return e.is_str(e.p.strip(c.argtys[0]))


@cr(SP)
def strings(e, st, c):
    """exact contract of the method on byte strings (str, String, [u8], Vec<u8>)"""
    n = c.name
    if c.path.startswith('std::string::ToString::') or c.path.startswith('std::borrow::ToOwned::'):
        return to_owned(e, st, c)
    if is_strish(e, c) and n in ('eq', 'ne') and any(isinstance(e.deref(st, a), G) and e.deref(st, a).kind == 'Case' for a in c.args):
        r = case_eq(e, st, c)
        return ret(st, r if n == 'eq' else z3.Not(r))
    if is_strish(e, c) and n in ('as_str', 'as_ref', 'as_bytes', 'borrow', 'clone', 'to_owned', 'to_string', 'as_slice', 'into_bytes'):
        v = e.deref(st, c.args[0])
        if isinstance(v, G) and v.kind == 'Case':
            return ret(st, PRef(v) if e.p.types[c.destty]['k'] == 'ref' else v)
    if is_strish(e, c) and n in SM:
        return SM[n](e, st, c)
    if is_strish(e, c) and n in ('index', 'index_mut'):
        return index_range(e, st, c)
    if n in ('new', 'with_capacity') and (c.destty is not None and e.is_str(c.destty)):
        return ret(st, z3.StringVal(''))
    if n in ('from_utf8', 'from_utf8_lossy', 'from_elem'):
        return SM[n](e, st, c)
    if n in VM and c.argtys and e.p.types[e.p.strip(c.argtys[0])]['k'] in ('adt', 'slice'):
        return VM[n](e, st, c)
    if n in ('new', 'with_capacity') and e.p.types[c.destty]['k'] == 'adt' and e.p.types[c.destty]['path'].endswith('vec::Vec'):
        return ret(st, empty_vec(e, c.destty))
    raise Unsupported('no contract for ' + (c.rfull or c.path))


def to_owned(e, st, c):
    fs = e.p.strip(c.argtys[0])
    if e.is_str(fs):
        return ret(st, S(e, st, c.args[0]))
    t = e.p.types[fs]
    if c.name == 'to_string':
        return ret(st, display(e, st, fs, c.args[0]))
    return ret(st, e.deref(st, c.args[0]))


def display(e, st, ty, v):
    ty = e.p.strip(ty)
    v = e.deref(st, v)
    if e.is_str(ty):
        return v
    t = e.p.types[ty]
    r = e.reify(st, v)
    if t['k'] == 'int' and not t['signed']:
        return e.fn('dec', INT, STR)(r)
    return e.fn(f'display<{e.p.name(ty)}>', r.sort(), STR)(r)


@sfn('as_str', 'as_bytes', 'as_slice', 'as_mut_slice', 'into_boxed_str', 'into_string', 'into_bytes', 'as_mut_str', 'as_ref', 'to_vec', 'into_boxed_slice', 'to_owned', 'to_string', 'as_mut', 'borrow', 'into_owned')
def s_ident(e, st, c):
    """the same bytes"""
    v = c.args[0]
    t = e.p.types[c.destty]
    if t['k'] == 'ref':
        while isinstance(e.load(st, v), (Ref, PRef)):
            v = e.load(st, v)
        return ret(st, v)
    x = S(e, st, v)
    if t['k'] == 'adt' and t['path'].endswith('boxed::Box'):
        return ret(st, G('Box', v=x))
    return ret(st, x)


@sfn('len')
def s_len(e, st, c):
    """number of bytes"""
    return ret(st, slen(S(e, st, c.args[0])))


@sfn('chars')
def s_chars(e, st, c):
    """iterator over the characters of the text"""
    return ret(st, G('chars', text=S(e, st, c.args[0])))


@c('std::iter::Iterator::count')
def chars_count(e, st, c):
    """number of characters: at most the number of bytes, and that number for ASCII text"""
    s = c.args[0].text
    n = e.fn('chars', STR, INT)(s)
    e.fact(z3.And(n >= 0, n <= z3.Length(s)))
    return ret(st, n)


GUARD['chars_count'] = lambda e, c: isinstance(c.args[0], G) and c.args[0].kind == 'chars'


@sfn('is_empty')
def s_empty(e, st, c):
    """has no bytes"""
    ps = spieces(S(e, st, c.args[0]))
    if any(isinstance(p, bytes) for p in ps):
        return ret(st, z3.BoolVal(False))
    return ret(st, sjoin(ps) == z3.StringVal(''))


@sfn('clear')
def s_clear(e, st, c):
    """becomes empty"""
    wr(e, st, c.args[0], z3.StringVal(''))
    return ret(st, e.unit())


@sfn('push_str', 'extend_from_slice')
def s_push_str(e, st, c):
    """appends"""
    wr(e, st, c.args[0], z3.Concat(S(e, st, c.args[0]), S(e, st, c.args[1])))
    return ret(st, e.unit())


@sfn('reserve', 'shrink_to_fit')
def s_noop(e, st, c):
    """no effect on the contents"""
    return ret(st, e.unit())


@sfn('truncate')
def s_truncate(e, st, c):
    """keeps the first n bytes (panics inside a character)"""
    s = S(e, st, c.args[0])
    n = c.args[1]
    out = []
    bad = z3.And(n < slen(s), z3.Not(sat_boundary(e, s, n)))
    b, a = e.split(st, bad)
    if b is not None:
        out.append((Outcome('panic', b, None, 'truncate'), None))
    if a is not None:
        cut, keep = e.split(a, n < slen(s))
        if keep is not None:
            out.append((keep, e.unit()))
        a = cut
    if a is not None:
        wr(e, a, c.args[0], ssub(e, s, z3.IntVal(0), n))
        out.append((a, e.unit()))
    return out


@sfn('pop')
def s_pop(e, st, c):
    """removes the last byte of bytes, the last character of a text"""
    ps = spieces(S(e, st, c.args[0]))
    wide = not is_bytes(e, e.p.strip(c.argtys[0]))
    out = []
    if not ps:
        return ret(st, e.none(c.destty))
    last = ps.pop()
    if isinstance(last, bytes):
        if wide and last[-1] > 127:
            raise Unsupported('pop of a character that is not ASCII')
        wr(e, st, c.args[0], sjoin(ps + [last[:-1]]))
        return ret(st, e.some(c.destty, z3.IntVal(last[-1])))
    b, a = e.split(st, z3.Length(last) == 0)
    if b is not None:
        if ps:
            raise Unsupported('pop past an empty part')
        out.append((b, e.none(c.destty)))
    if a is not None:
        f = sf(e, last)
        x, y, ch = e.fresh('rest', STR), e.fresh('end', STR), e.fresh('char', INT)
        sknow(e, x, no=f['no'])
        a.pc += [last == z3.Concat(x, y), ch >= 0, z3.Length(y) >= 1, z3.Implies(ch < 128, z3.And(z3.Length(y) == 1, z3.StrToCode(y) == ch))]
        a.pc += [z3.Length(y) <= 4, ch < 0x110000] if wide else [z3.Length(y) == 1, z3.StrToCode(y) == ch]
        a.pc += [ch != q[0] for q in f['no'] + f['nosuf'] if len(q) == 1]
        wr(e, a, c.args[0], sjoin(ps + [x]))
        out.append((a, e.some(c.destty, ch)))
    return out


@sfn('resize')
def s_resize(e, st, c):
    """takes the first n bytes or fills up; panics when n exceeds isize::MAX"""
    s = S(e, st, c.args[0])
    n = c.args[1]
    out = []
    b, a = e.split(st, n > (1 << 63) - 1)
    if b is not None:
        out.append((Outcome('panic', b, None, 'capacity overflow'), None))
    if a is not None:
        x = e.fresh('resized', STR)
        a.pc.append(z3.Length(x) == n)
        wr(e, a, c.args[0], x)
        out.append((a, e.unit()))
    return out


@sfn('from_elem')
def s_from_elem(e, st, c):
    """vec![x; n]; panics when n exceeds isize::MAX"""
    if not e.is_str(c.destty):
        raise Unsupported('vec![x; n]')
    n = c.args[1]
    out = []
    b, a = e.split(st, n > (1 << 63) - 1)
    if b is not None:
        out.append((Outcome('panic', b, None, 'capacity overflow'), None))
    if a is not None:
        x = e.fresh('filled', STR)
        a.pc.append(z3.Length(x) == n)
        out.append((a, x))
    return out


def pat(e, st, c, i):
    """a pattern argument as a byte string, or None"""
    ty = c.argtys[i]
    v = e.deref(st, c.args[i])
    sty = e.p.strip(ty)
    if e.is_str(sty) and isz(v):
        return v
    if e.p.types[sty]['k'] == 'char':
        x = z3.simplify(v)
        if z3.is_int_value(x) and x.as_long() < 128:
            return z3.StringVal(chr(x.as_long())) if 32 <= x.as_long() < 127 and x.as_long() != 92 else bytesval(bytes([x.as_long()]))
    raise Unsupported('pattern')


def opt(e, st, ty, cond, v):
    """Option: Some(v) if cond else None, forking"""
    a, b = e.split(st, cond)
    out = []
    if a is not None:
        out.append((a, e.some(ty, v)))
    if b is not None:
        out.append((b, e.none(ty)))
    return out


@sfn('ends_with')
def s_ends(e, st, c):
    """is a suffix"""
    return ret(st, sends(e, S(e, st, c.args[0]), pat(e, st, c, 1)))


@sfn('starts_with')
def s_starts(e, st, c):
    """is a prefix"""
    return ret(st, sstarts(e, S(e, st, c.args[0]), pat(e, st, c, 1)))


@sfn('contains')
def s_contains(e, st, c):
    """occurs"""
    return ret(st, sfind(e, S(e, st, c.args[0]), pat(e, st, c, 1))[0])


@sfn('find')
def s_find(e, st, c):
    """byte position of the first occurrence"""
    s, p = S(e, st, c.args[0]), pat(e, st, c, 1)
    h, i, _, _ = sfind(e, s, p)
    return opt(e, st, c.destty, h, i)


@sfn('split_once')
def s_split_once(e, st, c):
    """the parts before and after the first occurrence"""
    s, p = S(e, st, c.args[0]), pat(e, st, c, 1)
    a, b = sbefore(e, s, p), safter(e, s, p)
    return opt(e, st, c.destty, sfind(e, s, p)[0], Agg(e.arg(c.destty, 0), 0, [PRef(a), PRef(b)]))


def before(s, p):
    return z3.SubString(s, 0, z3.IndexOf(s, p, 0))


def afterp(s, p):
    i = z3.IndexOf(s, p, 0) + z3.Length(p)
    return z3.SubString(s, i, z3.Length(s) - i)


@sfn('strip_prefix')
def s_strip_prefix(e, st, c):
    """the rest after a prefix"""
    s, p = S(e, st, c.args[0]), pat(e, st, c, 1)
    return opt(e, st, c.destty, sstarts(e, s, p), PRef(ssub(e, s, slen(p), slen(s))))


@sfn('strip_suffix')
def s_strip_suffix(e, st, c):
    """the rest before a suffix"""
    s, p = S(e, st, c.args[0]), pat(e, st, c, 1)
    return opt(e, st, c.destty, sends(e, s, p), PRef(ssub(e, s, z3.IntVal(0), slen(s) - slen(p))))


def known(b):
    b = z3.simplify(b)
    return True if z3.is_true(b) else False if z3.is_false(b) else None


@sfn('trim_end_matches', 'trim_start_matches')
def s_trim_matches(e, st, c):
    """the rest without any occurrences of the pattern at its end (start)"""
    s, p = S(e, st, c.args[0]), pat(e, st, c, 1)
    if not (z3.is_string_value(p) and len(p.as_string())):
        raise Unsupported('trimming of an unknown pattern')
    while True:
        k = known(sends(e, s, p) if 'end' in c.name else sstarts(e, s, p))
        if k is None:
            raise Unsupported(c.name + ' of an unknown text')
        if not k:
            return ret(st, PRef(s))
        s = ssub(e, s, z3.IntVal(0), slen(s) - slen(p)) if 'end' in c.name else ssub(e, s, slen(p), slen(s))


@sfn('splitn')
def s_splitn(e, st, c):
    """iterator over at most n parts"""
    n = z3.simplify(c.args[1])
    if not z3.is_int_value(n):
        raise Unsupported('splitn with symbolic count')
    return ret(st, G('splitn', rest=S(e, st, c.args[0]), p=pat(e, st, c, 2), n=n.as_long(), done=False))


@sfn('split')
def s_split(e, st, c):
    """iterator over the parts"""
    return ret(st, G('splitn', rest=S(e, st, c.args[0]), p=pat(e, st, c, 1), n=1 << 30, done=False))


def boundary(s, i):
    """i is a char boundary of the UTF-8 text s (as is the position after an ASCII byte)"""
    ch, prev = z3.StrToCode(z3.SubString(s, i, 1)), z3.StrToCode(z3.SubString(s, i - 1, 1))
    return z3.Or(i == 0, i == z3.Length(s), z3.And(i > 0, i < z3.Length(s), z3.Or(ch < 128, ch >= 192, prev < 128)))


@cr(r'^std::ops::Index(Mut)?::index(_mut)?$')
def index_range(e, st, c):
    """a sub-slice; panics if out of range or not on a character boundary"""
    sty = e.p.strip(c.argtys[0])
    if not e.is_str(sty):
        raise Unsupported('index on ' + e.p.name(sty))
    s = S(e, st, c.args[0])
    r = c.args[1]
    rn = e.p.name(c.argtys[1])
    n = slen(s)
    if isz(r):
        raise Unsupported('index')
    if 'RangeFull' in rn:
        return ret(st, PRef(s))
    fs = [e.field(r, 0, i) for i in range(len(e.p.types[r.ty]['variants'][0]['fields']))]
    if 'RangeToInclusive' in rn or 'RangeInclusive' in rn:
        raise Unsupported('inclusive range')
    if 'RangeTo' in rn:
        lo, hi = z3.IntVal(0), fs[0]
    elif 'RangeFrom' in rn:
        lo, hi = fs[0], n
    else:
        lo, hi = fs
    good = z3.And(lo <= hi, hi <= n, lo >= 0)
    t = e.p.types[sty]
    if t['k'] == 'str' or (t['k'] == 'adt' and t['path'].endswith('String')):
        good = z3.And(good, sat_boundary(e, s, lo), sat_boundary(e, s, hi))
    a, b = e.split(st, good)
    out = []
    if b is not None:
        out.append((Outcome('panic', b, None, 'slice index'), None))
    if a is not None:
        if c.name.endswith('_mut'):
            raise Unsupported('mutable sub-slice')
        out.append((a, PRef(ssub(e, s, lo, hi))))
    return out


@sfn('get')
def s_get(e, st, c):
    """a sub-slice, None if out of range or not on a character boundary"""
    rn = e.p.name(c.argtys[1])
    s = S(e, st, c.args[0])
    n = slen(s)
    r = c.args[1]
    if isz(r) or 'Inclusive' in rn:
        raise Unsupported('get')
    fs = [e.field(r, 0, i) for i in range(len(e.p.types[r.ty]['variants'][0]['fields']))]
    if 'RangeTo' in rn:
        lo, hi = z3.IntVal(0), fs[0]
    elif 'RangeFrom' in rn:
        lo, hi = fs[0], n
    else:
        lo, hi = fs
    good = z3.And(lo <= hi, hi <= n, lo >= 0, sat_boundary(e, s, lo), sat_boundary(e, s, hi))
    return opt(e, st, c.destty, good, PRef(ssub(e, s, lo, hi)))


@sfn('first', 'last')
def s_firstlast(e, st, c):
    """the first (last) byte, None if empty"""
    s = S(e, st, c.args[0])
    n = slen(s)
    return opt(e, st, c.destty, n > 0, PRef(z3.StrToCode(z3.SubString(s, 0 if c.name == 'first' else n - 1, 1))))


@sfn('parse')
def s_parse(e, st, c):
    """parse::<T>(s) is Ok(parse_T(s)) if parses_T(s), else Err"""
    s = S(e, st, c.args[0])
    ty = e.arg(c.destty, 0)
    n = e.p.name(ty)
    okp = e.fn(f'parses<{n}>', STR, BOOL)(s)
    v = e.wrap(ty, e.fn(f'parse<{n}>', STR, e.sort_of(ty))(s))
    a, b = e.split(st, okp)
    out = []
    if a is not None:
        out.append((a, e.ok(c.destty, v)))
    if b is not None:
        out.append((b, e.err(c.destty, e.fresh_val('parseerr', e.arg(c.destty, 1)))))
    return out


@sfn('from_utf8')
def s_from_utf8(e, st, c):
    """Ok of the same bytes if they are UTF-8, else Err"""
    s = S(e, st, c.args[0])
    t = e.p.types[e.arg(c.destty, 0)]
    v = PRef(s) if t['k'] == 'ref' else s
    a, b = e.split(st, e.fn('utf8', STR, BOOL)(s))
    out = []
    if a is not None:
        out.append((a, e.ok(c.destty, v)))
    if b is not None:
        out.append((b, e.err(c.destty, e.fresh_val('utf8err', e.arg(c.destty, 1)))))
    return out


@sfn('from_utf8_lossy')
def s_from_utf8_lossy(e, st, c):
    """the same text if the bytes are UTF-8, else some other text that is UTF-8"""
    s = S(e, st, c.args[0])
    u = e.fn('utf8', STR, BOOL)
    a, b = e.split(st, u(s))
    out = []
    if a is not None:
        out.append((a, s))
    if b is not None:
        x = e.fn('lossy', STR, STR)(s)
        e.fact(u(x))
        e.fact(x != s)
        out.append((b, x))
    return out


@sfn('eq')
def s_eq(e, st, c):
    """same bytes"""
    return ret(st, S(e, st, c.args[0]) == S(e, st, c.args[1]))


def case_table(n):
    """the characters that the conversion maps to ASCII texts"""
    if n.endswith('ascii_lowercase') or n.endswith('ascii_uppercase'):
        f = str.lower if 'lower' in n else str.upper
        return [(chr(i).encode(), f(chr(i)).encode()) for i in range(128)]
    f = str.lower if 'lower' in n else str.upper
    return [(chr(i).encode(), f(chr(i)).encode()) for i in range(0x110000) if not 0xd800 <= i < 0xe000 and f(chr(i)).isascii()]


CASES = {}


def case_re(n, lit):
    """the regular expression of the texts that the conversion n maps to the ASCII text lit"""
    if n not in CASES:
        CASES[n] = case_table(n)
    word = lambda b: z3.Re(bytesval(b))
    res = [None] * len(lit) + [z3.Re(z3.StringVal(''))]
    for i in range(len(lit) - 1, -1, -1):
        alt = [z3.Concat(word(a), res[i + len(b)]) for a, b in CASES[n] if lit[i:i + len(b)] == b and res[i + len(b)] is not None]
        res[i] = None if not alt else alt[0] if len(alt) == 1 else z3.Union(*alt)
    return res[0]


@sfn('to_ascii_lowercase', 'to_ascii_uppercase', 'to_lowercase', 'to_uppercase')
def s_case(e, st, c):
    """the text in lower (upper) case; only compared with ASCII constants"""
    return ret(st, G('Case', of=S(e, st, c.args[0]), fn=c.name))


def case_cmp(e, x, fn, lit):
    ps = spieces(lit)
    if not ps:
        return x == z3.StringVal('')
    if len(ps) != 1 or not isinstance(ps[0], bytes) or not ps[0].isascii():
        raise Unsupported('case conversion compared with a text that is no ASCII constant')
    r = case_re(fn, ps[0])
    return z3.BoolVal(False) if r is None else z3.InRe(x, r)


def case_eq(e, st, c):
    a, b = (e.deref(st, x) for x in c.args)
    if not isinstance(a, G):
        a, b = b, a
    if isinstance(b, G):
        raise Unsupported('comparison of two case conversions')
    return case_cmp(e, a.of, a.fn, S(e, st, c.args[1] if e.deref(st, c.args[0]) is a else c.args[0]))


@sfn('eq_ignore_ascii_case')
def s_eq_case(e, st, c):
    """same text but for the case of ASCII letters; only with an ASCII constant"""
    a, b = S(e, st, c.args[0]), S(e, st, c.args[1])
    for x, y in ((a, b), (b, a)):
        ps = spieces(y)
        if not ps or len(ps) == 1 and isinstance(ps[0], bytes) and ps[0].isascii():
            return ret(st, case_cmp(e, x, 'to_ascii_lowercase', bytesval(ps[0].lower()) if ps else y))
    raise Unsupported('case-insensitive comparison of two unknown texts')


@sfn('leak')
def s_leak(e, st, c):
    """the same contents"""
    return ret(st, PRef(S(e, st, c.args[0])))


@cr(r'^(std|alloc)::boxed::Box::<.*>::(leak|new|into_string)$')
def box(e, st, c):
    """boxing keeps the value"""
    if c.name == 'new':
        return ret(st, G('Box', v=c.args[0]))
    b = c.args[0]
    v = b.v if isinstance(b, G) and b.kind == 'Box' else b
    return ret(st, PRef(v) if c.name == 'leak' else v)


@cr(r'^(std|alloc)::boxed::Box::<T>::new_uninit$')
def box_uninit(e, st, c):
    """an allocation not yet written (as vec![..] uses it)"""
    return ret(st, G('UBox', ref=e.new_cell(st, G('uninit'))))


@cr(r'^(std|alloc)::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(e, st, c):
    """the vector of the elements written into the allocation"""
    a = e.load(st, c.args[0].ref)
    if not isinstance(a, Agg) or e.is_str(c.destty):
        raise Unsupported('vec! of ' + str(a))
    v = empty_vec(e, c.destty)
    for x in a.fields:
        v = Sym(c.destty, vec_pushed(e, st, v, x))
    return ret(st, v)


def vec_pushed(e, st, v, x):
    """the vector v with x appended"""
    r, x = e.reify(st, v), e.reify(st, x)
    ety = e.p.types[e.p.strip(v.ty)]['args'][0]
    t = e.fn(f'vec_push<{e.p.name(ety)}>', U, x.sort(), U)(r, x)
    nv = Sym(v.ty, t)
    e.fact(e.length(st, nv) == e.length(st, v) + 1)
    return t


@cr(r'^lsp_types::Url::path$')
def url_path(e, st, c):
    """the path of the URL"""
    return ret(st, PRef(e.fn('path<lsp_types::Url>', U, STR)(e.reify(st, e.deref(st, c.args[0])))))


# opaque vectors ---------------------------------------------------
VM = {}


def vfn(*names):
    def d(f):
        for n in names:
            VM[n] = f
        DOC['Vec ' + '/'.join(names)] = (f.__doc__ or '').strip()
        return f
    return d


@vfn('is_empty')
def v_empty(e, st, c):
    """has no elements"""
    return ret(st, e.length(st, c.args[0]) == 0)


@vfn('len')
def v_len(e, st, c):
    """number of elements"""
    return ret(st, e.length(st, c.args[0]))


@vfn('as_slice', 'as_ref', 'as_mut_slice')
def v_slice(e, st, c):
    """the same elements"""
    return ret(st, c.args[0])


@vfn('push')
def v_push(e, st, c):
    """appends the element"""
    v = e.deref(st, c.args[0])
    wr(e, st, c.args[0], Sym(e.p.strip(c.argtys[0]), vec_pushed(e, st, v, c.args[1])))
    return ret(st, e.unit())


@vfn('to_vec', 'to_owned', 'into_vec')
def v_to_vec(e, st, c):
    """the same elements"""
    v = e.deref(st, c.args[0])
    return ret(st, Sym(c.destty, e.reify(st, v)))


@vfn('clear')
def v_clear(e, st, c):
    """becomes empty"""
    wr(e, st, c.args[0], empty_vec(e, e.p.strip(c.argtys[0])))
    return ret(st, e.unit())


# iterators --------------------------------------------------------
@c('std::iter::Iterator::next')
def iter_next(e, st, c):
    """next item of a library iterator"""
    r = c.args[0]
    while isinstance(e.load(st, r), (Ref, PRef)):
        r = e.load(st, r)
    it = e.load(st, r)
    if not isinstance(it, G):
        raise Unsupported(f'next of {it}')
    if it.kind == 'splitn':
        if it.done or it.n == 0:
            return ret(st, e.none(c.destty))
        if it.n == 1:
            tick(st)
            e.store_ref(st, r, it.upd(done=True))
            return ret(st, e.some(c.destty, PRef(it.rest)))
        tick(st)
        s, p = it.rest, it.p
        a, b = e.split(st, sfind(e, s, p)[0])
        out = []
        if a is not None:
            e.store_ref(a, r, it.upd(rest=safter(e, s, p), n=it.n - 1))
            out.append((a, e.some(c.destty, PRef(sbefore(e, s, p)))))
        if b is not None:
            e.store_ref(b, r, it.upd(done=True))
            out.append((b, e.some(c.destty, PRef(s))))
        return out
    if it.kind == 'rxiter':
        tick(st)
        return e.mon.recv_iter(e, st, it, c)
    raise Unsupported('next of ' + it.kind)


GUARD['iter_next'] = lambda e, c: not has_body(e, c)


@c('std::iter::IntoIterator::into_iter')
def into_iter(e, st, c):
    """an iterator is its own iterator; a receiver's iterator receives until the channel is closed"""
    v = e.deref(st, c.args[0])
    if isinstance(v, G) and v.kind == 'Receiver':
        return ret(st, G('rxiter', ch=v.ch, block=True))
    if isinstance(v, G):
        return ret(st, c.args[0])
    raise Unsupported('into_iter of ' + str(v))


GUARD['into_iter'] = lambda e, c: not has_body(e, c)


# fmt ---------------------------------------------------------------
@cr(r'^core::fmt::rt::Argument::<.*>::new_(display|debug|lower_hex|upper_hex|debug_noop)$')
def fmt_arg(e, st, c):
    """captures a value for formatting"""
    return ret(st, G('fmtarg', how=c.name[4:], ty=c.targs[0] if c.targs else c.argtys[0], v=e.deref(st, c.args[0])))


@cr(r'^std::fmt::Arguments::<.*>::(new|from_str)$')
def fmt_args(e, st, c):
    """the pieces and arguments of a format string"""
    tmpl = e.deref(st, c.args[0])
    x = z3.simplify(tmpl)
    if not z3.is_string_value(x):
        raise Unsupported('format template')
    b = z3_bytes(x)
    if c.name == 'from_str':
        return ret(st, G('fmt', pieces=(strval_b(b),)))
    args = e.deref(st, c.args[1])
    pieces, i, n = [], 0, 0
    while i < len(b):
        k = b[i]
        i += 1
        if k == 0:
            break
        if k < 0x80:
            pieces.append(bytesval(bytes(b[i:i + k])))
            i += k
        elif k == 0x80:
            ln = b[i] | b[i + 1] << 8
            pieces.append(bytesval(bytes(b[i + 2:i + 2 + ln])))
            i += 2 + ln
        else:
            plain = k == 0xC0
            if k & 1 and k != 0xC0:
                i += 4
            if k & 2:
                i += 2
            if k & 4:
                i += 2
            if k & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            a = args.fields[n]
            n += 1
            if plain or (k & ~8) == 0xC0:
                pieces.append(a)
            else:
                pieces.append(G('fmtarg', how='custom' + a.how, ty=a.ty, v=a.v))
    return ret(st, G('fmt', pieces=tuple(pieces)))


def strval_b(b):
    return bytesval(bytes(b))


def z3_bytes(x):
    s = x.as_string()
    # z3 prints non-printable characters as \u{..}
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i:i + 3] == '\\u{':
            j = s.index('}', i)
            out.append(int(s[i + 3:j], 16))
            i = j + 1
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def fmt_string(e, st, f):
    """text of a formatted message"""
    f = e.deref(st, f)
    if not (isinstance(f, G) and f.kind == 'fmt'):
        raise Unsupported('format arguments')
    parts = []
    for p in f.pieces:
        if isz(p):
            parts.append(p)
        elif p.how == 'display':
            parts.append(display(e, st, p.ty, p.v))
        else:
            try:
                parts.append(fmt_value(e, st, p.how, p.ty, p.v))
            except Unsupported:
                parts.append(e.fresh('formatted', STR))
    if not parts:
        return z3.StringVal('')
    return z3.Concat(*parts) if len(parts) > 1 else parts[0]


@c('std::fmt::format', 'alloc::fmt::format')
def fmt_format(e, st, c):
    """the formatted text"""
    return ret(st, fmt_string(e, st, c.args[0]))


def fmt_emit(e, st, c, text):
    """appends text to the formatter's output, or fails"""
    bad = st.fork()
    bad.setg('fmtfail', z3.BoolVal(True))
    st.setg('fmtout', st.store.get(('g', 'fmtout'), ()) + (text,))
    return [(st, e.ok(c.destty, e.unit())), (bad, e.err(c.destty, e.fresh_val('fmterror', e.arg(c.destty, 1))))]


def fmt_value(e, st, how, ty, v):
    """the text a value is formatted as"""
    if how == 'display':
        return display(e, st, ty, v)
    ty = e.p.strip(ty)
    try:
        r = e.reify(st, e.deref(st, v))
    except Unsupported:
        return e.fresh('formatted', STR)
    return e.fn(f"{how}<{'str' if e.is_str(ty) else e.p.name(ty)}>", r.sort(), STR)(r)


@c('std::fmt::Display::fmt', 'std::fmt::Debug::fmt')
def fmt_fmt(e, st, c):
    """writes the value's text (the crate's own impls are verified to be free of panics)"""
    how = 'debug' if 'Debug' in c.path else 'display'
    return fmt_emit(e, st, c, fmt_value(e, st, how, c.targs[0] if c.targs else c.argtys[0], c.args[0]))


GUARD['fmt_fmt'] = lambda e, c: not local_body(e, c)


@cr(r"^(std|core)::fmt::(Formatter::<.*>|Write)::(write_str|write_char|pad|write_fmt)$")
def fmt_write(e, st, c):
    """appends the text to the formatter's output"""
    a = c.args[1]
    x = fmt_string(e, st, a) if c.name == 'write_fmt' else S(e, st, a) if c.name != 'write_char' else e.fresh('char', STR)
    return fmt_emit(e, st, c, x)


@cr(r"^(std|core)::fmt::Formatter::<.*>::debug_\w*(finish|write_str)$")
def fmt_derived(e, st, c):
    """what derive(Debug) calls: formats the given fields"""
    return fmt_emit(e, st, c, e.fresh('formatted', STR))


@cr(r"^(std|core)::fmt::Formatter::<.*>::(debug_(struct|tuple|list|set|map))$")
def fmt_builder(e, st, c):
    """starts a debug builder"""
    return ret(st, e.new_cell(st, G('fmtbuilder')) if e.p.types[c.destty]['k'] == 'ref' else G('fmtbuilder'))


@cr(r"^(std|core)::fmt::(builders::)?(DebugStruct|DebugTuple|DebugList|DebugSet|DebugMap)::<.*>::(field|entry|entries|key|value)$")
def fmt_builder_field(e, st, c):
    """formats one more part"""
    return ret(st, c.args[0])


@cr(r"^(std|core)::fmt::(builders::)?(DebugStruct|DebugTuple|DebugList|DebugSet|DebugMap)::<.*>::(finish|finish_non_exhaustive)$")
def fmt_builder_finish(e, st, c):
    """ends a debug builder"""
    return fmt_emit(e, st, c, e.fresh('formatted', STR))


@cr(r"^(std|core)::fmt::Formatter::<.*>::(alternate|sign_plus|sign_minus|sign_aware_zero_pad)$")
def fmt_flag(e, st, c):
    """any flag of the formatter"""
    return ret(st, e.fresh('flag', BOOL))


@c('std::hash::Hash::hash')
def hash_(e, st, c):
    """feeds the value to the hasher"""
    v = c.args[0]
    st.setg('hashed', st.store.get(('g', 'hashed'), ()) + ((T(e, c.targs[0]) if not e.is_str(e.p.strip(c.targs[0])) else 'str', e.reify(st, v)),))
    return ret(st, e.unit())


@c('std::cmp::Ord::cmp')
def ord_cmp(e, st, c):
    """the total order of integers and strings"""
    return three_way(e, st, c, c.destty, lambda v: v)


@c('std::cmp::PartialOrd::partial_cmp')
def ord_partial_cmp(e, st, c):
    """the total order of integers and strings"""
    return three_way(e, st, c, e.arg(c.destty, 0), lambda v: e.some(c.destty, v))


def is_instant(e, c):
    return any(e.p.name(e.p.strip(t)) == 'std::time::Instant' for t in c.argtys)


@cr(r'^std::cmp::PartialOrd::(lt|le|gt|ge)$')
def instant_order(e, st, c):
    """any outcome: nothing is known about the time"""
    return ret(st, e.fresh('earlier', BOOL))


GUARD['instant_order'] = is_instant


def three_way(e, st, c, oty, wrap):
    if is_instant(e, c):
        return [(st.fork(), wrap(Agg(oty, k, []))) for k in range(3)]
    a, b = e.reify(st, e.deref(st, c.args[0])), e.reify(st, e.deref(st, c.args[1]))
    if a.sort() != b.sort() or a.sort() not in (INT, STR):
        raise Unsupported('ordering of ' + str(a.sort()))
    names = [v['name'] for v in e.p.types[oty]['variants']]
    out = []
    for n, f in (('Less', a < b), ('Equal', a == b), ('Greater', b < a)):
        s = st.fork()
        s.pc.append(f)
        if e.check(s.pc) != z3.unsat:
            out.append((s, wrap(Agg(oty, names.index(n), []))))
    return out


GUARD['hash_'] = GUARD['ord_cmp'] = GUARD['ord_partial_cmp'] = lambda e, c: not local_body(e, c)


@c('std::io::_print', 'std::io::_eprint')
def io_print(e, st, c):
    """writes to the terminal, no effect on the protocol state"""
    return ret(st, e.unit())


# errors -------------------------------------------------------------
def io_kind(e, kty, err):
    return e.wrap(kty, e.fn('kind<std::io::Error>', U, U)(err))


@cr(r'^(alloc::io::error::<impl std::io::Error>|std::io::Error|std::io::error::Error)::(new|other)$')
def io_error(e, st, c):
    """an error value of the given kind"""
    r = e.fresh_val('ioerror', c.destty)
    if c.name == 'new':
        kty = e.p.strip(c.argtys[0])
        e.fact(e.veq(st, io_kind(e, kty, r.term), e.deref(st, c.args[0])))
    return ret(st, r)


@cr(r'^(alloc::io::error::<impl std::io::Error>|std::io::Error|std::io::error::Error)::kind$')
def io_error_kind(e, st, c):
    """the kind of the error (any, for an error of a read or write)"""
    return ret(st, io_kind(e, c.destty, e.reify(st, c.args[0])))


# integers -------------------------------------------------------------
@cr(r'^(std|core)::num::<impl [ui](8|16|32|64|128|size)>::(checked|saturating|wrapping|overflowing)_(add|sub|mul)$')
def int_method(e, st, c):
    """exact integer arithmetic with the named treatment of overflow"""
    how, op = c.name.split('_')
    a, b = (e.deref(st, x) for x in c.args)
    lo, hi = e.int_range(e.p.strip(c.argtys[0]))
    x = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
    ovf = z3.Or(x < lo, x > hi)
    if how == 'saturating':
        return ret(st, z3.If(x < lo, z3.IntVal(lo), z3.If(x > hi, z3.IntVal(hi), x)))
    w = z3.If(ovf, (x - lo) % (hi - lo + 1) + lo, x)
    if how == 'wrapping':
        return ret(st, w)
    if how == 'overflowing':
        return ret(st, Agg(c.destty, 0, [w, ovf]))
    return opt(e, st, c.destty, z3.Not(ovf), x)


@cr(r'^(std|core)::num::<impl [ui](8|16|32|64|128|size)>::(min_value|max_value|abs_diff|is_power_of_two)$')
def int_method2(e, st, c):
    """exact"""
    if c.name in ('min_value', 'max_value'):
        return ret(st, z3.IntVal(e.int_range(c.destty)[c.name == 'max_value']))
    if c.name == 'abs_diff':
        a, b = c.args
        return ret(st, z3.If(a > b, a - b, b - a))
    raise Unsupported('no contract for ' + c.path)


# tracing --------------------------------------------------------------
@cr(r'^std::cmp::PartialOrd::le$')
def tracing_le(e, st, c):
    """logging is disabled (it has no effect on the protocol)"""
    if 'tracing' not in e.p.name(c.argtys[1]):
        a, b = e.deref(st, c.args[0]), e.deref(st, c.args[1])
        if isz(a) and isz(b) and a.sort() == INT:
            return ret(st, a <= b)
        raise Unsupported('PartialOrd::le on ' + e.p.name(c.argtys[1]))
    return ret(st, z3.BoolVal(False))




@cr(r'^tracing::|^<tracing')
def tracing_any(e, st, c):
    """logging value without effect"""
    return ret(st, e.fresh_val('tracing', c.destty))


# channels, threads, streams ---------------------------------------------
def chan_new(e, st, c, cap):
    ch = next(e.cnt)
    return ret(st, Agg(c.destty, 0, [G('Sender', ch=ch, cap=cap), G('Receiver', ch=ch, cap=cap)]))


@c('crossbeam_channel::unbounded', 'crossbeam_channel::bounded')
def chan(e, st, c):
    """a fresh channel: what is sent on its sender is what its receiver receives"""
    return chan_new(e, st, c, c.args[0] if c.args else None)


@cr(r'^crossbeam_channel::Sender::<.*>::(send|try_send|send_timeout|send_deadline)$')
def chan_send(e, st, c):
    """puts the message on the channel, or returns it in an error"""
    s = e.deref(st, c.args[0])
    return e.mon.send(e, st, s, c)


@cr(r'^crossbeam_channel::Receiver::<.*>::(recv|try_recv|recv_timeout|recv_deadline)$')
def chan_recv(e, st, c):
    """takes the next message off the channel, or reports that there is none / that it is closed"""
    r = e.deref(st, c.args[0])
    tick(st)   # also when it waited in vain: waiting for the next message may go on for ever
    return e.mon.recv(e, st, r, c)


@cr(r'^crossbeam_channel::(Sender|Receiver)::<.*>::(is_empty|is_full|len)$')
def chan_state(e, st, c):
    """anything: other threads send and receive at any time"""
    return ret(st, e.fresh_val('channel state', c.destty))


@cr(r'^crossbeam_channel::Receiver::<.*>::(iter|try_iter)$')
def chan_iter(e, st, c):
    """receives until the channel is closed (iter) or empty (try_iter)"""
    r = e.deref(st, c.args[0])
    return ret(st, G('rxiter', ch=r.ch, block=c.name == 'iter'))


@c('std::thread::spawn')
def spawn(e, st, c):
    """runs the closure in a new thread; the handle joins that thread"""
    return ret(st, G('JoinHandle', id=next(e.cnt), task=c.args[0]))


@c('std::thread::Builder::new')
def builder(e, st, c):
    """the settings of a thread"""
    return ret(st, G('Builder'))


@cr(r'^std::thread::Builder::(name|stack_size)$')
def builder_set(e, st, c):
    """sets the thread's name or stack size"""
    return ret(st, c.args[0])


@c('std::thread::Builder::spawn')
def builder_spawn(e, st, c):
    """as thread::spawn (assumed to succeed, as there)"""
    return ret(st, e.ok(c.destty, G('JoinHandle', id=next(e.cnt), task=c.args[1])))


@cr(r'^std::thread::JoinHandle::<.*>::join$')
def join(e, st, c):
    """waits for the thread: Ok(result of its closure) or Err(its panic)"""
    return e.mon.join(e, st, c.args[0], c)


@cr(r'^std::net::TcpStream::connect$')
def tcp_connect(e, st, c):
    """Ok(stream) or an I/O error"""
    st.setg('connect', e.reify(st, c.args[0]))
    i = next(e.cnt)
    st.setg('stream', i)
    return io_step(e, st, c, G('Stream', id=i))


def io_step(e, st, c, v):
    s2 = st.fork()
    er = e.fresh_val('ioerr', e.arg(c.destty, 1))
    s2.setg('iofailed', z3.BoolVal(True))
    s2.store[('g', 'ioerr')] = er.term if isinstance(er, Sym) else e.reify(s2, er)
    return [(st, e.ok(c.destty, v)), (s2, e.err(c.destty, er))]


@cr(r'^std::net::TcpListener::bind$')
def tcp_bind(e, st, c):
    """Ok(listener) or an I/O error"""
    st.setg('bind', e.reify(st, c.args[0]))
    return io_step(e, st, c, G('Listener', id=next(e.cnt)))


@cr(r'^std::net::TcpListener::accept$')
def tcp_accept(e, st, c):
    """Ok((stream, address)) or an I/O error"""
    t = e.arg(c.destty, 0)
    i = next(e.cnt)
    st.setg('stream', i)
    return io_step(e, st, c, Agg(t, 0, [G('Stream', id=i), e.fresh_val('addr', e.p.types[t]['elems'][1])]))


@cr(r'^std::net::TcpStream::try_clone$')
def tcp_clone(e, st, c):
    """Ok(another handle of the same stream) or an I/O error"""
    s = e.deref(st, c.args[0])
    return io_step(e, st, c, s)


@cr(r'^std::net::TcpStream::(set_nodelay|set_ttl|set_read_timeout|set_write_timeout|set_nonblocking)$')
def tcp_option(e, st, c):
    """Ok or an I/O error; no effect on what is read and written (C22: a stream that gives up waiting is refused)"""
    return io_step(e, st, c, e.unit())


@cr(r'^std::io::(BufReader|BufWriter|LineWriter)::<.*>::(new|with_capacity)$')
def bufreader(e, st, c):
    """buffers the same stream"""
    return ret(st, G('Buf', kind_=c.path.split('::')[2], of=e.deref(st, c.args[-1]), id=next(e.cnt)))


@cr(r'^std::io::(stdin|stdout|stderr)$')
def stdio(e, st, c):
    """the process's standard stream"""
    return ret(st, G('Std', which=c.name))


@cr(r'^std::io::(Stdin|Stdout|Stderr)::(lock)$')
def stdlock(e, st, c):
    """locks the same stream"""
    return ret(st, e.deref(st, c.args[0]))


# time ---------------------------------------------------------------------
@cr(r'^(std|core)::time::Duration::from_(secs|millis|micros|nanos|mins|hours)$')
def duration(e, st, c):
    """the duration in nanoseconds"""
    m = {'from_secs': 10**9, 'from_millis': 10**6, 'from_micros': 10**3, 'from_nanos': 1, 'from_mins': 60 * 10**9, 'from_hours': 3600 * 10**9}[c.name]
    return ret(st, G('Duration', ns=c.args[0] * m))


@cr(r'^std::time::Instant::now$')
def instant_now(e, st, c):
    """now"""
    return ret(st, G('Instant', off=z3.IntVal(0)))


@c('std::ops::Add::add')
def add(e, st, c):
    """Instant + Duration (panics if the sum cannot be represented)"""
    a, b = c.args
    if isinstance(a, G) and a.kind == 'Instant' and isinstance(b, G) and b.kind == 'Duration':
        return ret(st, G('Instant', off=a.off + b.ns))
    if isinstance(a, G) and a.kind == 'Instant' and isinstance(b, Sym):
        n = e.fn('nanoseconds', U, INT)(b.term)
        e.fact(n >= 0)
        return [(st, G('Instant', off=a.off + n)), (Outcome('panic', st.fork(), None, 'overflow when adding duration to instant'), None)]
    raise Unsupported('add')


GUARD['add'] = lambda e, c: not has_body(e, c)


@cr(r'^std::intrinsics::integer_(min|max)(::<.*>)?$')
def int_minmax(e, st, c):
    """the smaller (the larger) of two integers"""
    a, b = c.args
    return ret(st, z3.If((a <= b) if 'integer_min' in c.path else (a >= b), a, b))


@cr(r'^anyhow::error::<impl anyhow::Error>::root_cause$')
def root_cause(e, st, c):
    """some error"""
    return ret(st, e.fresh_val('root cause', c.destty))


@cr(r'^anyhow::(private|__private)::format_err$|^anyhow::(error::<impl anyhow::)?Error>?::msg(::<.*>)?$')
def anyhow_msg(e, st, c):
    """an error that is shown as the given text"""
    a = c.args[0]
    if c.name == 'format_err':
        text = fmt_string(e, st, a)
    else:
        text = display(e, st, c.targs[-1], a)
    v = e.fresh_val('anyhow', c.destty)
    e.fact(display(e, st, c.destty, v) == text)
    return ret(st, v)


@cr(r'^anyhow::(private|__private)::must_use$')
def anyhow_must_use(e, st, c):
    """its argument"""
    return ret(st, c.args[0])


@cr(r'^serde_json::(error::)?Error::is_(io|syntax|data|eof)$')
def json_error_is(e, st, c):
    """the category of the error: exactly one of io, syntax, data and eof"""
    t = e.reify(st, e.deref(st, c.args[0]))
    k = e.fn('category of a JSON error', U, INT)(t)
    e.fact(z3.And(k >= 0, k < 4))
    return ret(st, k == ['io', 'syntax', 'data', 'eof'].index(c.path.rsplit('_', 1)[1].split('::')[0]))


@cr(r'^serde_json::(error::)?Error::(line|column)$')
def json_error_at(e, st, c):
    """where the error was found"""
    n = e.fn('place of a JSON error: ' + c.path.rsplit('::', 1)[1], U, INT)(e.reify(st, e.deref(st, c.args[0])))
    e.fact(z3.And(n >= 0, n < (1 << 63)))
    return ret(st, n)
