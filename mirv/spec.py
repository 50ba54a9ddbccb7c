"""Support for the property specifications: units (one function under contract each), and expected JSON."""
import time, traceback
import z3
from engine import *
import contracts as K
from contracts import Contracts, json_of, de_ok, de_val, JNULL, watch_init


class Refuted(Exception):
    pass


class Anchor(Unsupported):
    """a function the property is anchored at cannot be located in the crate"""


class V:
    """verification of one property: collects the obligations of all its units"""

    def __init__(self, pid, progs, deadline=None, verbose=False):
        self.pid, self.progs, self.deadline, self.verbose = pid, progs, deadline, verbose
        self.obls = []
        self.units = []       # dict(label, fn, status, ...)
        self.unsupported = []
        self.engines = []
        self.notes = []

    def prog(self, crate):
        return self.progs[crate]

    def unit(self, label, crate, body):
        """body(e) creates the states and states the obligations with e.oblige"""
        if getattr(body, 'cheap', False):
            # first without inferring loop invariants; a failure is only believed with them
            n = [len(x) for x in (self.obls, self.engines, self.units, self.unsupported)]
            if self.unit1(label, crate, body, True) == 'proved':
                return 'proved'
            for x, k in zip((self.obls, self.engines, self.units, self.unsupported), n):
                del x[k:]
        return self.unit1(label, crate, body, False)

    def unit1(self, label, crate, body, cheap):
        e = Engine(self.prog(crate), Contracts(), self.deadline)
        e.label = label
        e.mon = None
        e.cheap = cheap
        t0 = time.time()
        status = 'proved'
        try:
            body(e)
            if not e.obls:
                raise Unsupported('no obligation was generated')
            if e.check([]) == z3.unsat:
                raise Unsupported('contradictory background facts')
            if e.incomplete:
                raise Unsupported(e.incomplete[0])
        except Unsupported as x:
            status = 'unsupported'
            self.unsupported.append((label, str(x)))
            if self.verbose:
                traceback.print_exc()
        except (AttributeError, KeyError, IndexError, TypeError, AssertionError, z3.Z3Exception, RecursionError, ValueError) as x:
            status = 'unsupported'
            self.unsupported.append((label, f'{type(x).__name__}: {x}'))
            if self.verbose:
                traceback.print_exc()
        if any(o['status'] == 'failed' for o in e.obls):
            status = 'failed'
        elif status == 'proved' and any(o['status'] == 'unknown' for o in e.obls):
            status = 'unknown'
            self.unsupported.append((label, 'the solver gave no answer'))
        self.obls += e.obls
        self.engines.append(e)
        self.units.append(dict(label=label, status=status, obligations=len(e.obls), queries=e.nqueries, solver_s=round(e.solver_s, 3), s=round(time.time() - t0, 2)))
        return status

    # ------------------------------------------------------------ anchors
    def find(self, crate, selfname, name, trait=None, targs=None):
        its = self.prog(crate).method(selfname, name, trait, targs)
        its = [i for i in its if i['key'] in self.prog(crate).fns]
        if len(its) != 1:
            raise Anchor(f'{len(its)} candidates for <{selfname}{" as " + trait if trait else ""}>::{name}')
        return its[0]['key']


def start():
    st = State()
    st.setg('serfail', z3.BoolVal(False))
    st.setg('ticks', z3.IntVal(0))
    return st


def call(e, st, key, args):
    """run function `key` from st to the end; outcomes"""
    fn = e.p.fns[key]
    e.push(st, key, args, None, None, None)
    return e.run(st)


def tyof(e, name):
    ts = e.p.find_type(name)
    if not ts:
        raise Anchor('no type ' + name)
    return min(ts, key=lambda i: len(e.p.name(i)))


def variant_index(e, ty, name):
    for i, v in enumerate(e.p.types[ty]['variants']):
        if v['name'] == name:
            return i
    raise Anchor(f'no variant {name} of {e.p.name(ty)}')


def field_index(e, ty, name, variant=0):
    for i, f in enumerate(e.p.types[ty]['variants'][variant]['fields']):
        if f[0] == name:
            return i
    raise Anchor(f'no field {name} in {e.p.name(ty)}')


def sym_variant(e, ty, i, base):
    """a symbolic value of enum/struct ty that is variant i"""
    s = Sym(ty, z3.Const(base, U))
    if e.is_enum(ty):
        e.fact(e.vidx(s) == i)
    return e.expand(s, i)


def jstr(e, s):
    return e.fn('json<str>', STR, U)(z3.StringVal(s) if isinstance(s, str) else s)


def result_of(e, o):
    """(is_ok, payload) of a returned Result whose shape is known"""
    v = o.val
    if isinstance(v, Agg):
        return v.variant == 0, v.fields[0]
    raise Unsupported('result of unknown shape')


def results(e, o):
    """split an outcome returning a Result into [(state, is_ok, payload)]"""
    v = o.val
    if isinstance(v, Agg):
        return [(o.st, v.variant == 0, v.fields[0])]
    a, b = e.split(o.st, e.vidx(v) == 0)
    out = []
    if a is not None:
        out.append((a, True, e.field(v, 0, 0)))
    if b is not None:
        out.append((b, False, e.field(v, 1, 0)))
    return out


def no_panic(e, o, what=''):
    if o.kind == 'panic':
        e.oblige(o.st, f'does not panic ({o.msg}){what}', z3.BoolVal(False))
        return False
    return True


def entries_match(e, st, got, want, what):
    """got: produced members; want: {name: term}; no more, no less, no repetition"""
    names = [k for k, _ in got]
    e.oblige(st, f'{what}: members are exactly {sorted(want)}', z3.BoolVal(sorted(names) == sorted(want)))
    for k, j in got:
        if k in want:
            e.oblige(st, f'{what}: member {k} holds the right value', j == want[k])


def ser_check(e, key, v, expect, what):
    """serialize(v) yields the object `expect(st)` ({name: term} or a term), or fails only because the serializer failed.
    expect returns a list of (condition, {name: term} | term)"""
    st = start()
    outs = call(e, st, key, [PRef(v), G('ser')])
    reached = False
    for o in outs:
        if not no_panic(e, o):
            continue
        for s, ok, p in results(e, o):
            if ok:
                reached = True
                if not (isinstance(p, G) and p.kind == 'jout'):
                    raise Unsupported('serializer result ' + str(p))
                for cond, want in expect(s):
                    a, _ = e.split(s.fork(), cond)
                    if a is None:
                        continue
                    if isinstance(want, dict):
                        if p.what != 'obj':
                            e.oblige(a, f'{what}: encoded as an object', z3.BoolVal(False))
                        else:
                            entries_match(e, a, list(p.entries), want, what)
                    else:
                        e.oblige(a, f'{what}: encoded as the expected value', K.jterm(e, p) == want)
            else:
                e.oblige(s, f'{what}: fails only if the serializer fails', s.g('serfail'))
    e.oblige(st, f'{what}: success is reachable', z3.BoolVal(reached))


# ------------------------------------------------------------ decoding from a map of members
def de_templates(e, entry, template, ev, nm):
    """loop invariant candidates of map decoders: a local Option is Some exactly when a watched member was seen,
    and then holds that member's decoded value"""
    out = []
    for k in template:
        o = ev[k]
        if not e.is_option(o):
            continue
        inner = e.arg(o.ty, 0)
        for w in e.watch:
            hk, vk = ('g', 'has:' + w), ('g', 'val:' + w)

            def f(v, st, k=k, hk=hk):
                return None if v[k] is None else (e.vidx(v[k]) == 1) == st.store[hk]
            out.append((f'{nm(k)} is some iff member {w} was seen', f))

            def g(v, st, k=k, vk=vk, inner=inner):
                x = v[k]
                if x is None:
                    return None
                if isinstance(x, Agg) and x.variant == 0:
                    return z3.BoolVal(True)
                j = st.store[vk]
                pv = e.field(x, 1, 0)
                return z3.Implies(e.vidx(x) == 1, z3.And(de_ok(e, inner, j), e.veq(st, pv, de_val(e, inner, j))))
            out.append((f'{nm(k)} holds the decoded member {w}', g))
    # every member seen so far decoded as ... (for members kept in plain locals)
    return out


def de_run(e, key, watch, top=True):
    """run a Deserialize::deserialize on an arbitrary input; yields (state, ok, payload)"""
    st = start()
    e.inv_templates = de_templates
    watch_init(e, st, watch)
    st.setg('badshape', z3.BoolVal(False))
    res = []
    for o in call(e, st, key, [G('de', j=z3.Const('input', U), top=top)]):
        if no_panic(e, o):
            res += results(e, o)
    e.oblige(st, 'success is reachable', z3.BoolVal(any(ok for _, ok, _ in res)))
    return res


def member(e, st, w, tyname):
    """(present, well-shaped, decoded value) of a watched member"""
    j = st.g('val:' + w)
    ty = tyof(e, tyname) if isinstance(tyname, str) else tyname
    return st.g('has:' + w), de_ok(e, ty, j), de_val(e, ty, j)


def ok_obligations(e, s, what):
    e.oblige(s, f'{what}: succeeds only on a whole object without repeated members', z3.And(s.g('ended'), z3.Not(s.g('dup')), z3.Not(s.g('maperr'))))


# ------------------------------------------------------------ protocol structures
class F:
    """one member of a protocol structure: field name, member name, and when it may be left out
    kind: 'req' always present and required | 'opt' Option left out when None, absent = None
          'empty' Vec left out when empty, absent = empty (default) | 'null' Value left out when null, absent = null
          'optkeep' Option always encoded (null when None), absent = None | 'reqempty' left out when empty but required
          'valkeep' JSON value always encoded, absent = ??? """

    def __init__(self, field, member, kind='req'):
        self.field, self.member, self.kind = field, member, kind


def skip_cond(e, st, f, ty, v):
    """condition under which the member is left out, or None"""
    if f.kind == 'opt':
        return e.vidx(v) == 0
    if f.kind in ('empty', 'reqempty'):
        if e.is_str(ty):
            return e.reify(st, v) == z3.StringVal('')
        return e.length(st, v) == 0
    if f.kind == 'none':
        return e.vidx(v) == variant_index(e, e.p.strip(ty), 'None')
    if f.kind == 'null':
        v = e.deref(st, v)
        if isinstance(v, Sym):
            K.null_fact(e, v)
        return e.vidx(v) == 0
    if f.kind == 'optval':   # Option<Value>
        return e.vidx(v) == 0
    return None


def struct_ser(e, key, ty, fields, what):
    """serialize gives an object with exactly the members of `fields` that are not left out; checked for every combination"""
    e.merge = e.incremental = e.lazy = True
    base = sym_variant(e, ty, 0, 'value')
    t = e.p.types[ty]['variants'][0]['fields']
    idx = {f.field: field_index(e, ty, f.field) for f in fields}
    e.oblige(start(), f'{what}: every field has a member', z3.BoolVal(sorted(idx.values()) == list(range(len(t)))))
    st = start()
    outs = call(e, st, key, [PRef(base), G('ser')])
    reached = False
    for o in outs:
        if not no_panic(e, o):
            continue
        for s, ok, p in results(e, o):
            if not ok:
                e.oblige(s, f'{what}: fails only if the serializer fails', s.g('serfail'))
                continue
            reached = True
            if not (isinstance(p, G) and p.kind == 'jout'):
                raise Unsupported('serializer result ' + str(p))
            if p.what != 'obj':
                e.oblige(s, f'{what}: encoded as an object', z3.BoolVal(False))
                continue
            got = [(t[0], t[1], t[2] if len(t) > 2 else z3.BoolVal(True)) for t in p.entries]   # a member, and when it is written
            known = [f.member for f in fields]
            e.oblige(s, f'{what}: no member outside the structure', z3.Not(z3.Or([c for k, _, c in got if k not in known])))
            for f in fields:
                v = base.fields[idx[f.field]]
                fty = t[idx[f.field]][1]
                mine = [(j, c) for k, j, c in got if k == f.member]
                there = z3.Or([c for _, c in mine])
                sk = skip_cond(e, s, f, fty, v)
                if sk is None:
                    e.oblige(s, f'{what}: member {f.member} is present', there)
                else:
                    e.oblige(s, f'{what}: member {f.member} is left out exactly when {f.field} is absent', there == z3.Not(sk))
                if len(mine) > 1:
                    e.oblige(s, f'{what}: member {f.member} is there once', z3.And([z3.Not(z3.And(a[1], b[1])) for i, a in enumerate(mine) for b in mine[:i]]))
                if mine:
                    want = json_of(e, s, fty, v)
                    e.oblige(s, f'{what}: member {f.member} encodes {f.field}', z3.And([z3.Implies(c, j == want) for j, c in mine]))
    e.oblige(st, f'{what}: success is reachable', z3.BoolVal(reached))


# documented defaults of the crate's own types: variant name, or the default of each field
DEFAULTS = {
    'TaskStatus': 'Ok', 'TaskDataKind': 'None', 'MessageType': 'Log', 'SourceKind': 'File', 'BuildTargetEventKind': 'Created', 'BuildTargetTag': 'NoIDE',
}


def is_default(e, st, ty, v):
    """v : ty is the documented default: nothing, empty, zero, false, null; for a structure, every field is"""
    ty = e.p.strip(ty)
    t = e.p.types[ty]
    v = e.deref(st, v)
    if t['k'] == 'adt' and t['path'].endswith('option::Option'):
        return e.vidx(v) == 0
    if e.is_str(ty):
        return e.reify(st, v) == z3.StringVal('')
    if t['k'] == 'adt' and t['path'].endswith('vec::Vec'):
        return e.length(st, v) == 0
    if K.is_value(e, ty):
        return e.reify(st, v) == JNULL
    if t['k'] == 'bool':
        return z3.Not(v)
    if t['k'] == 'int':
        return v == 0
    if t['k'] == 'adt' and t['local']:
        n = e.p.name(ty).split('::')[-1]
        if t['enum']:
            return e.vidx(v) == variant_index(e, ty, DEFAULTS[n])
        fs = t['variants'][0]['fields']
        return z3.And([is_default(e, st, f[1], e.field(v, 0, i)) for i, f in enumerate(fs)] or [z3.BoolVal(True)])
    raise Unsupported('default of ' + e.p.name(ty))


def absent_value(e, st, ty):
    """(condition on v that it is the documented default for an absent optional member)"""
    return lambda v: is_default(e, st, ty, v)


def struct_de(e, key, ty, fields, what):
    e.merge = e.incremental = e.lazy = True
    t = e.p.types[ty]['variants'][0]['fields']
    idx = {f.field: field_index(e, ty, f.field) for f in fields}
    watch = [f.member for f in fields]
    for s, ok, p in de_run(e, key, watch):
        bad = [s.g('maperr'), s.g('dup')]
        if ok:
            ok_obligations(e, s, what)
        for f in fields:
            fty = t[idx[f.field]][1]
            has, okk, val = member(e, s, f.member, fty)
            optional = f.kind not in ('req', 'reqempty', 'valkeep')
            if ok:
                v = e.field(p, 0, idx[f.field])
                e.oblige(s, f'{what}: {f.field} is the decoded member {f.member} if present', z3.Implies(has, z3.And(okk, e.veq(s, v, val))))
                if optional:
                    e.oblige(s, f'{what}: {f.field} is absent if member {f.member} is', z3.Implies(z3.Not(has), absent_value(e, s, fty)(v)))
                else:
                    e.oblige(s, f'{what}: member {f.member} is required', has)
            else:
                bad.append(z3.And(has, z3.Not(okk)))
                if not optional:
                    bad.append(z3.And(s.g('ended'), z3.Not(has)))
        if not ok:
            e.oblige(s, f'{what}: fails only for a repeated, missing or misshapen member', z3.Or(bad))


def inline_serde(e, *names):
    """(de)serialisation of these local types is followed into their own impls instead of using their contract"""
    def pred(e, c):
        return c.path in ('serde::Serialize::serialize', 'serde::Deserialize::deserialize') and K.T(e, c.targs[0]) in names

    def h(e, st, c):
        tr = c.path.split('::')[1]
        its = [it for it in e.p.impls(tr, c.name) if e.p.name(it['self']) == K.T(e, c.targs[0])]
        if len(its) != 1:
            raise Unsupported('no impl to follow')
        args = list(c.args)
        if tr == 'Serialize':
            args[0] = PRef(e.deref(st, args[0]))
        e.push(st, its[0]['key'], args, None, None, lambda s, v: [(s, v)])
        return [(st, PUSHED)]
    e.contracts.over.append((pred, h, 'followed into'))


# ------------------------------------------------------------ channels and threads
class Mon:
    """what the functions under contract may observe and do; a property overrides the events it allows"""

    def recv(self, e, st, r, c):
        raise Unsupported('recv')

    def send(self, e, st, s, c):
        raise Unsupported('send')

    def recv_iter(self, e, st, it, c):
        raise Unsupported('receiver iteration')

    def join(self, e, st, h, c):
        raise Unsupported('join')


def connection(e, name='conn'):
    """a Connection over a channel pair"""
    ty = tyof(e, 'Connection')
    t = e.p.types[ty]['variants'][0]['fields']
    fs = [None] * len(t)
    for i, f in enumerate(t):
        p = e.p.types[f[1]].get('path', '')
        if p.endswith('Sender'):
            fs[i] = G('Sender', ch='out')
        elif p.endswith('Receiver'):
            fs[i] = G('Receiver', ch='in')
        else:
            fs[i] = Sym(f[1], z3.Const(f'{name}.{f[0]}', U))
    return Agg(ty, 0, fs)


class Msg:
    """z3-level view of Message values"""

    def __init__(self, e):
        self.e = e
        self.ty = tyof(e, 'message::Message')
        self.req = tyof(e, 'request::Request')
        self.resp = tyof(e, 'response::Response')
        self.rerr = tyof(e, 'response::ResponseError')
        self.notif = tyof(e, 'notification::Notification')
        self.iReq = variant_index(e, self.ty, 'Request')
        self.iResp = variant_index(e, self.ty, 'Response')
        self.iNot = variant_index(e, self.ty, 'Notification')

    def fresh(self, base):
        return Sym(self.ty, self.e.fresh(base, U))

    def is_(self, m, i):
        return self.e.vidx(m) == i

    def part(self, m, i):
        """payload of kind i, or None if m is certainly of another kind"""
        if isinstance(m, Agg) and m.variant != i:
            return None
        return self.e.field(m, i, 0)

    def is_request(self, m, name=None):
        q = self.part(m, self.iReq)
        if q is None:
            return z3.BoolVal(False)
        c = self.is_(m, self.iReq)
        if name:
            c = z3.And(c, self.e.vidx(q) == variant_index(self.e, self.req, name))
        return c

    def is_notif(self, m, name):
        q = self.part(m, self.iNot)
        if q is None:
            return z3.BoolVal(False)
        return z3.And(self.is_(m, self.iNot), self.e.vidx(q) == variant_index(self.e, self.notif, name))

    def req_id(self, st, q):
        """id of a request as a term"""
        e = self.e
        if isinstance(q, Agg):
            return e.reify(st, q.fields[0])
        vs = e.p.types[self.req]['variants']
        r = e.reify(st, e.field(q, len(vs) - 1, 0))
        for i in range(len(vs) - 2, -1, -1):
            r = z3.If(e.vidx(q) == i, e.reify(st, e.field(q, i, 0)), r)
        return r

    def is_response(self, st, m, idterm, code=None, result=None):
        """m is the response to idterm: an error with `code`, or a success with JSON `result`"""
        e = self.e
        q = self.part(m, self.iResp)
        if q is None:
            return z3.BoolVal(False)
        f = lambda n: e.field(q, 0, field_index(e, self.resp, n))
        c = [self.is_(m, self.iResp), e.reify(st, f('id')) == idterm]
        res, er = f('result'), f('error')
        if code is not None:
            c += [e.vidx(res) == 0, e.vidx(er) == 1]
            if not (isinstance(er, Agg) and er.variant == 0):
                c.append(e.field(e.field(er, 1, 0), 0, field_index(e, self.rerr, 'code')) == code)
        else:
            c += [e.vidx(er) == 0, e.vidx(res) == 1]
            if not (isinstance(res, Agg) and res.variant == 0):
                c.append(e.reify(st, e.field(res, 1, 0)) == result)
        return z3.And(c)


def chan_err(e, st, ty, variant):
    """Err(error) of a channel operation; the error is of the given variant where its type has several"""
    ety = e.arg(ty, 1)
    er = e.fresh_val('chanerr', ety)
    t = e.p.types[ety]
    if t['k'] == 'adt' and t['enum']:
        names = [v['name'] for v in t['variants']]
        if variant in names:
            st.pc.append(e.vidx(er) == names.index(variant))
    return e.err(ty, er)


def chan_closed(e, st, c):
    """a receive from a closed channel: an error, and nothing was taken"""
    st.setg('ticks', st.g('ticks') - 1)
    return chan_err(e, st, c.destty, 'Disconnected')


def chan_result(e, st, c, msg, failed='sendfail'):
    """Ok(()) or Err(error) of a channel send; sets the ghost `failed` when the receiver is gone"""
    s2 = st.fork()
    if ('g', failed) in s2.store:
        s2.setg(failed, z3.BoolVal(True))
    return [(st, e.ok(c.destty, e.unit())), (s2, chan_err(e, s2, c.destty, 'Disconnected'))]


def chan_refused(e, st, c):
    """the outcome of a send that does not wait (try_send, send_timeout, send_deadline): not sent, the receiver is there"""
    if c.name == 'send':
        return []
    return [(st, chan_err(e, st, c.destty, 'Full' if c.name == 'try_send' else 'Timeout'))]


def chan_idle(e, st, c):
    """the outcome of a receive that does not wait (try_recv, recv_timeout, recv_deadline): nothing there, not closed"""
    if c.name == 'recv':
        return []
    return [(st, chan_err(e, st, c.destty, 'Empty' if c.name == 'try_recv' else 'Timeout'))]


def nanos(e, v):
    """nanoseconds of a Duration, or None"""
    if isinstance(v, G) and v.kind == 'Duration':
        return v.ns
    if isinstance(v, Agg) and len(v.fields) == 2 and e.p.name(v.ty).endswith('time::Duration'):
        n = v.fields[1]
        if isinstance(n, Agg) and len(n.fields) == 1:
            n = n.fields[0]
        if isz(v.fields[0]) and isz(n):
            return v.fields[0] * 10**9 + n
    return None


# ------------------------------------------------------------ every impl of a trait; formatting
def adts(e_prog, trait, name):
    """(item, type) of every impl of `trait` for a type of this crate that has a body"""
    out = []
    for it in e_prog.impls(trait, name):
        t = e_prog.types[e_prog.strip(it['self'])] if it['self'] is not None else None
        if it['key'] in e_prog.fns and t and t['k'] == 'adt' and e_prog.fns[it['key']]['crate'] == e_prog.crate:
            out.append((it, e_prog.strip(it['self'])))
    return sorted(out, key=lambda x: e_prog.name(x[1]))


def within_message(p):
    """last names of the types a message consists of"""
    root = [i for i in p.find_type('message::Message')]
    seen, work = set(), list(root)
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        t = p.types[i]
        for k in ('args', 'elems'):
            work += [x for x in t.get(k) or [] if isinstance(x, int)]
        if isinstance(t.get('to'), int):
            work.append(t['to'])
        for vr in t.get('variants') or []:
            work += [f[1] for f in vr['fields']]
    return {p.name(i).split('<')[0].split('::')[-1] for i in seen if p.types[i]['k'] == 'adt'}


def fmt_units(v, only=None, traits=('Debug', 'Display')):
    """every formatting impl of the crates: no panic, and failure only if the formatter failed"""
    for crate in ('bsp_server', 'bsp_types'):
        p = v.prog(crate)
        items = []
        for tr in traits:
            items += [x for x in adts(p, tr, 'fmt') if only is None or p.name(x[1]).split('<')[0].split('::')[-1] in only]
        for it, ty in items:
            def total(e, it=it, ty=ty):
                what = f"{p.name(ty)}: {it['trait'].split('::')[-1]}"
                for k in range(len(p.types[ty]['variants'])):
                    a = sym_variant(e, ty, k, f'value{k}')
                    st = start()
                    st.setg('fmtfail', z3.BoolVal(False))
                    f = e.new_cell(st, G('formatter'))
                    for o in call(e, st, it['key'], [PRef(a), f]):
                        if no_panic(e, o, f' [{what}]'):
                            for s, ok, _ in results(e, o):
                                e.oblige(s, f'{what}: formatting fails exactly when the formatter does', z3.Not(s.g('fmtfail')) if ok else s.g('fmtfail'))
            v.unit(f"{p.name(ty)} formatted by {it['trait'].split('::')[-1]}", crate, total)


# ------------------------------------------------------------ the coders inside a message never panic
def coders_total(v, trait):
    """every Serialize / Deserialize impl of the crates that a message may run returns: no panic on any value, no panic on any input"""
    name = {'Serialize': 'serialize', 'Deserialize': 'deserialize'}[trait]
    keep = within_message(v.prog('bsp_server'))
    for crate in ('bsp_server', 'bsp_types'):
        p = v.prog(crate)
        for it, ty in adts(p, trait, name):
            if p.name(ty).endswith('__Field') or crate == 'bsp_server' and p.name(ty).split('<')[0].split('::')[-1] not in keep:
                continue   # (the member names' own decoders are followed into from the structures)

            def total(e, it=it, ty=ty):
                e.merge = e.incremental = e.lazy = e.cheap and crate == 'bsp_types'
                what = f'{p.name(ty)}: {name}'
                n = 0
                if trait == 'Serialize':
                    for k in range(len(p.types[ty]['variants'])):
                        for o in call(e, start(), it['key'], [PRef(sym_variant(e, ty, k, f'value{k}')), G('ser')]):
                            n += no_panic(e, o, f' [{what}]')
                else:
                    st = start()
                    watch_init(e, st, [])
                    st.setg('badshape', z3.BoolVal(False))
                    e.seqform = True
                    for o in call(e, st, it['key'], [G('de', j=z3.Const('input', U), top=True)]):
                        n += no_panic(e, o, f' [{what}]')
                e.oblige(start(), f'{what}: returns', z3.BoolVal(n > 0))
            total.cheap = True
            v.unit(f'{p.name(ty)}::{name} never panics', crate, total)
