"""C23 clones, equality, order and hash; C24 formatting; C25 server methods left out. C23 and C24 quantify over the impls the crates have on this tree."""
from spec import *

S, T = 'bsp_server', 'bsp_types'


def content_eq(e):
    """comparing parts of other types is comparing their contents"""
    def pred(e, c):
        return c.path in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne') and not (c.c.get('body') and K.local_body(e, c))

    def h(e, st, c):
        q = e.veq(st, c.args[0], c.args[1])
        return [(st, q if c.name == 'eq' else z3.Not(q))]
    e.contracts.over.append((pred, h, 'eq'))


def fields_equal(e, st, ty, a, b):
    """a and b are the same variant with equal fields"""
    if not e.is_enum(ty):
        n = len(e.p.types[ty]['variants'][0]['fields'])
        return z3.And([veq_ext(e, st, e.field(a, 0, i), e.field(b, 0, i)) for i in range(n)] or [z3.BoolVal(True)])
    cs = []
    for k, v in enumerate(e.p.types[ty]['variants']):
        cs.append(z3.And([e.vidx(a) == k, e.vidx(b) == k] + [veq_ext(e, st, e.field(a, k, i), e.field(b, k, i)) for i in range(len(v['fields']))]))
    return z3.Or(cs)


def veq_ext(e, st, a, b):
    """equality, with the crate's own types compared field by field"""
    if isinstance(a, Sym) and isinstance(b, Sym) and e.p.types[a.ty]['k'] == 'adt' and e.p.types[a.ty]['local']:
        return fields_equal(e, st, a.ty, a, b)
    return e.veq(st, a, b)


def C23(v):
    for crate in (S, T):
        p = v.prog(crate)
        for it, ty in adts(p, 'Clone', 'clone'):
            def clone(e, it=it, ty=ty):
                n = p.name(ty)
                for k in range(len(p.types[ty]['variants'])):
                    a = sym_variant(e, ty, k, f'value{k}')
                    for o in call(e, start(), it['key'], [PRef(a)]):
                        if no_panic(e, o):
                            e.oblige(o.st, f'{n}: a clone has the same variant and fields', e.veq(o.st, o.val, a))
            v.unit(f'{p.name(ty)}::clone', crate, clone)
        for name in ('eq', 'ne'):
            for it, ty in adts(p, 'PartialEq', name):
                def eq(e, it=it, ty=ty, name=name):
                    content_eq(e)
                    n = p.name(ty)
                    a, b = Sym(ty, z3.Const('a', U)), Sym(ty, z3.Const('b', U))
                    st = start()
                    want = fields_equal(e, st, ty, a, b)
                    for o in call(e, st, it['key'], [PRef(a), PRef(b)]):
                        if no_panic(e, o):
                            e.oblige(o.st, f'{n}: equal exactly when the variant and all fields are', (o.val if name == 'eq' else z3.Not(o.val)) == want)
                v.unit(f'{p.name(ty)}::{name}', crate, eq)
    rid = 'request::id::RequestId'

    def hash_(e):
        ty = tyof(e, rid)
        a, b = Sym(ty, z3.Const('a', U)), Sym(ty, z3.Const('b', U))
        key = v.find(S, rid, 'hash', 'Hash')
        for o in call(e, start(), v.find(S, rid, 'eq', 'PartialEq'), [PRef(a), PRef(b)]):
            if not no_panic(e, o):
                continue
            st = o.st.fork()
            st.pc.append(o.val)
            if e.check(st.pc) == z3.unsat:
                continue
            for o1 in call(e, st, key, [PRef(a), e.new_cell(st, G('hasher'))]):
                if not no_panic(e, o1):
                    continue
                h1 = o1.st.store.get(('g', 'hashed'), ())
                s = o1.st.fork()
                s.setg('hashed', ())
                for o2 in call(e, s, key, [PRef(b), e.new_cell(s, G('hasher'))]):
                    if not no_panic(e, o2):
                        continue
                    h2 = o2.st.g('hashed')
                    same = len(h1) == len(h2) and all(x[0] == y[0] and x[1].sort() == y[1].sort() for x, y in zip(h1, h2))
                    e.oblige(o2.st, 'equal ids feed the hasher the same values', z3.And([x[1] == y[1] for x, y in zip(h1, h2)] or [z3.BoolVal(True)]) if same else z3.BoolVal(False))
    v.unit('RequestId: equal ids hash equally', S, hash_)

    def order(e):
        ty = tyof(e, rid)
        a, b = Sym(ty, z3.Const('a', U)), Sym(ty, z3.Const('b', U))
        cmp, pcmp = v.find(S, rid, 'cmp', 'Ord'), v.find(S, rid, 'partial_cmp', 'PartialOrd')

        def name(x):
            if not isinstance(x, Agg):
                raise Unsupported('ordering of unknown shape')
            return e.p.types[x.ty]['variants'][x.variant]['name']
        n = 0
        for o in call(e, start(), cmp, [PRef(a), PRef(b)]):
            if not no_panic(e, o):
                continue
            for oe in call(e, o.st.fork(), v.find(S, rid, 'eq', 'PartialEq'), [PRef(a), PRef(b)]):
                if no_panic(e, oe):
                    e.oblige(oe.st, 'the order says equal exactly for equal ids', oe.val == (name(o.val) == 'Equal'))
                    n += 1
            for o2 in call(e, o.st.fork(), cmp, [PRef(b), PRef(a)]):
                if no_panic(e, o2):
                    e.oblige(o2.st, 'the order is antisymmetric', z3.BoolVal({name(o.val), name(o2.val)} in ({'Less', 'Greater'}, {'Equal'})))
            for o2 in call(e, o.st.fork(), pcmp, [PRef(a), PRef(b)]):
                if no_panic(e, o2):
                    w = o2.val
                    e.oblige(o2.st, 'the partial order is the order', z3.BoolVal(isinstance(w, Agg) and w.variant == 1 and name(w.fields[0]) == name(o.val)))
        e.oblige(start(), 'all three outcomes are reachable', z3.BoolVal(n >= 3))
    v.unit('RequestId: order agrees with equality', S, order)

    def trans(e):
        ty = tyof(e, rid)
        a, b, c = (Sym(ty, z3.Const(x, U)) for x in 'abc')
        cmp = v.find(S, rid, 'cmp', 'Ord')

        def less(st, x, y):
            for o in call(e, st, cmp, [PRef(x), PRef(y)]):
                if no_panic(e, o) and isinstance(o.val, Agg):
                    yield o.st, e.p.types[o.val.ty]['variants'][o.val.variant]['name']
        for s1, r1 in less(start(), a, b):
            if r1 != 'Less':
                continue
            for s2, r2 in less(s1.fork(), b, c):
                if r2 != 'Less':
                    continue
                for s3, r3 in less(s2.fork(), a, c):
                    e.oblige(s3, 'the order is transitive', z3.BoolVal(r3 == 'Less'))
    v.unit('RequestId: order is transitive', S, trans)


def shown(e, key, arg, st=None):
    """(state, text) of successful formatting"""
    st = st or start()
    st.setg('fmtfail', z3.BoolVal(False))
    f = e.new_cell(st, G('formatter'))
    out = []
    for o in call(e, st, key, [PRef(arg), f]):
        if no_panic(e, o):
            for s, ok, _ in results(e, o):
                if ok:
                    ps = s.store.get(('g', 'fmtout'), ())
                    out.append((s, z3.Concat(*ps) if len(ps) > 1 else ps[0] if ps else z3.StringVal('')))
    e.oblige(start(), 'formatting can succeed', z3.BoolVal(bool(out)))
    return out


def C24(v):
    fmt_units(v)
    rid = 'request::id::RequestId'

    def ids(e):
        ty, rty = tyof(e, rid), tyof(e, 'request::id::IdRepr')
        key = v.find(S, rid, 'fmt', 'Display')
        for src in ('i32', 'std::string::String'):
            x = e.wrap(tyof(e, src), z3.Const('id', INT if src == 'i32' else STR))
            for o in call(e, start(), v.find(S, rid, 'from', 'From', [src]), [x]):
                if no_panic(e, o):
                    want = K.fmt_value(e, o.st, 'display' if src == 'i32' else 'debug', tyof(e, src), x)
                    for s, t in shown(e, key, e.deref(o.st, o.val), o.st.fork()):
                        e.oblige(s, f'an id made from {src} is shown as ' + ('its number' if src == 'i32' else 'its string in quotation marks'), t == want)
    v.unit('RequestId: Display', S, ids)

    def perr(e):
        ty = tyof(e, 'error::ProtocolError')
        a = sym_variant(e, ty, 0, 'error')
        for s, t in shown(e, v.find(S, 'error::ProtocolError', 'fmt', 'Display'), a):
            e.oblige(s, 'a protocol error is shown as its message', t == e.reify(s, a.fields[0]))
        it = v.find(S, 'error::ProtocolError', 'from', 'From')
        src = e.p.fns[it]['locals'][1]
        x = e.fresh_val('cause', src)
        for o in call(e, start(), it, [x]):
            if no_panic(e, o):
                e.oblige(o.st, "a protocol error made from an error has that error's text", e.reify(o.st, e.field(o.val, 0, 0)) == K.display(e, o.st, src, x))
    v.unit('ProtocolError: Display and From', S, perr)

    for kind in ('request::Request', 'notification::Notification'):
        def ext(e, kind=kind):
            its = [i for i in e.p.impls('Display', 'fmt') if 'ExtractError' in e.p.name(i['self']) and kind in e.p.name(i['self'])]
            if len(its) != 1:
                raise Anchor('Display of ExtractError')
            ty = e.p.strip(its[0]['self'])
            a = sym_variant(e, ty, variant_index(e, ty, 'MethodMismatch'), 'mismatch')
            st = start()
            for o in call(e, st, v.find(S, kind, 'method'), [PRef(a.fields[0])]):
                if no_panic(e, o):
                    for s, t in shown(e, its[0]['key'], a, o.st.fork()):
                        e.oblige(s, f'a mismatch is shown with the method of the {kind}', z3.Contains(t, e.reify(s, o.val)))
            k = variant_index(e, ty, 'JsonError')
            a = sym_variant(e, ty, k, 'json')
            fs = e.p.types[ty]['variants'][k]['fields']
            names = [f[0] for f in fs]
            for s, t in shown(e, its[0]['key'], a):
                m, er = a.fields[names.index('method')], a.fields[names.index('error')]
                e.oblige(s, 'a JSON error is shown with its method', z3.Contains(t, e.reify(s, m)))
                e.oblige(s, 'a JSON error is shown with its cause', z3.Contains(t, K.display(e, s, fs[names.index('error')][1], er)))
        v.unit(f'ExtractError<{kind}>: Display', S, ext)

    def status(e):
        ty = tyof(e, 'TaskStatus')
        for k, x in enumerate(e.p.types[ty]['variants']):
            a = sym_variant(e, ty, k, f'status{k}')
            for s, t in shown(e, v.find(T, 'TaskStatus', 'fmt', 'Display'), a):
                e.oblige(s, f'{x["name"]} is shown as its name', t == z3.StringVal(x['name']))
    v.unit('TaskStatus: Display', T, status)


LEFT_OUT = {
    'on_initializtion': 'nothing', 'on_build_exit': 'nothing', 'build_shutdown': 'none', 'workspace_reload': 'none',
    'workspace_bts': 'empty', 'bt_sources': 'empty', 'bt_inverse_sources': 'empty', 'bt_dependency_sources': 'empty', 'bt_resources': 'empty',
    'bt_dependency_modules': 'error', 'debug_session_start': 'error', 'bt_run': 'error', 'bt_compile': 'error', 'bt_test': 'error', 'bt_clean_cache': 'error',
}


def C25(v):
    for m, kind in LEFT_OUT.items():
        def body(e, m=m, kind=kind):
            its = [i for i in e.p.items if i['name'] == m and (i.get('in_trait') or '').endswith('BuildServer')]
            if len(its) != 1:
                raise Anchor('BuildServer::' + m)
            fn = e.p.fns[its[0]['key']]
            args = [e.fresh_val(f'arg{i}', fn['locals'][i + 1]) for i in range(fn['argc'])]
            n = 0
            for o in call(e, start(), its[0]['key'], args):
                if not no_panic(e, o):
                    continue
                n += 1
                if kind == 'nothing':
                    continue
                for s, ok, val in results(e, o):
                    if kind == 'error':
                        e.oblige(s, f'{m}: a method without an answer of its own is an error', z3.BoolVal(not ok))
                    else:
                        e.oblige(s, f'{m}: a method left out succeeds', z3.BoolVal(ok))
                        if ok:
                            e.oblige(s, f'{m}: the answer is ' + ('nothing' if kind == 'none' else 'the empty result'), is_default(e, s, e.arg(fn['locals'][0], 0), val))
            e.oblige(start(), f'{m} returns', z3.BoolVal(n > 0))
        v.unit(f'BuildServer::{m}', T, body)
