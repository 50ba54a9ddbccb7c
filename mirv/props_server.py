from spec import *

REQ = {  # variant -> (method, has params)
    'InitializeBuild': 'build/initialize', 'Shutdown': 'build/shutdown', 'WorkspaceBuildTargets': 'workspace/buildTargets',
    'WorkspaceReload': 'workspace/reload', 'BuildTargetDependencyModules': 'buildTarget/dependencyModules',
    'DebugSessionStart': 'debugSession/start', 'BuildTargetSources': 'buildTarget/sources',
    'TextDocumentInverseSources': 'buildTarget/inverseSources', 'BuildTargetDependencySources': 'buildTarget/dependencySources',
    'BuildTargetResources': 'buildTarget/resources', 'BuildTargetRun': 'buildTarget/run', 'BuildTargetCompile': 'buildTarget/compile',
    'BuildTargetTest': 'buildTarget/test', 'BuildTargetCleanCache': 'buildTarget/cleanCache'}
S = 'bsp_server'


def C05(v):
    def setup(e, name):
        ty = tyof(e, 'request::Request')
        i = variant_index(e, ty, name)
        return ty, i, sym_variant(e, ty, i, 'req')

    def parts(e, st, r, name):
        t = e.p.types[r.ty]['variants'][r.variant]['fields']
        idj = json_of(e, st, t[0][1], r.fields[0])
        if name == 'Custom':
            return idj, r.fields[1], json_of(e, st, t[2][1], r.fields[2]), r.fields[2]
        pj = json_of(e, st, t[1][1], r.fields[1]) if len(t) > 1 else None
        return idj, PRef(z3.StringVal(REQ[name])), pj, None

    for name in list(REQ) + ['Custom']:
        def ser(e):
            ty, i, r = setup(e, name)
            key = v.find(S, 'request::Request', 'serialize', 'Serialize')

            def expect(st):
                idj, m, pj, raw = parts(e, st, r, name)
                d = {'id': idj, 'method': jstr(e, e.deref(st, m))}
                if name == 'Custom':
                    K.null_fact(e, raw)
                    isnull = e.vidx(raw) == 0
                    return [(isnull, d), (z3.Not(isnull), {**d, 'params': pj})]
                if pj is not None:
                    d['params'] = pj
                return [(z3.BoolVal(True), d)]
            ser_check(e, key, r, expect, f'encode {name}')
        v.unit(f'Request::serialize[{name}]', S, ser)

        def acc(e):
            ty, i, r = setup(e, name)
            st = start()
            idj, m, pj, raw = parts(e, st, r, name)
            for o in call(e, st.fork(), v.find(S, 'request::Request', 'method'), [PRef(r)]):
                if no_panic(e, o):
                    e.oblige(o.st, 'method() is the encoded method', e.veq(o.st, o.val, m))
            for o in call(e, st.fork(), v.find(S, 'request::Request', 'id'), [PRef(r)]):
                if no_panic(e, o):
                    e.oblige(o.st, 'id() is the id', e.veq(o.st, o.val, r.fields[0]))
            for o in call(e, st.fork(), v.find(S, 'request::Request', 'params'), [PRef(r)]):
                if no_panic(e, o):
                    for s, ok, p in results(e, o):
                        if ok:
                            want = pj if pj is not None else JNULL
                            e.oblige(s, 'params() are the encoded params', e.reify(s, p) == want)
                        else:
                            e.oblige(s, 'params() fails only if the serializer fails', s.g('serfail'))
        v.unit(f'Request accessors[{name}]', S, acc)


NOTIF = {'Exit': 'build/exit', 'Initialized': 'build/initialized', 'ShowMessage': 'build/showMessage', 'LogMessage': 'build/logMessage',
         'PublishDiagnostics': 'build/publishDiagnostics', 'TaskStart': 'build/taskStart', 'TaskFinish': 'build/taskFinish',
         'TaskProgress': 'build/taskProgress', 'BuildTargetDidChange': 'buildTarget/didChange'}


def message_decode(v, tyname, table, has_id):
    """shared by C06 and C08"""
    def de(e):
        ty = tyof(e, tyname)
        key = v.find(S, tyname, 'deserialize', 'Deserialize')
        watch = (['id'] if has_id else []) + ['method', 'params']
        off = 1 if has_id else 0
        strty = tyof(e, 'std::string::String')
        idty = tyof(e, 'request::id::RequestId') if has_id else None
        variants = e.p.types[ty]['variants']
        pty = {x['name']: (x['fields'][off][1] if len(x['fields']) > off else None) for x in variants}
        free = [m for n, m in table.items() if pty[n] is None]
        for s, ok, p in de_run(e, key, watch):
            hm, om, m = member(e, s, 'method', strty)
            hp = s.g('has:params')
            pj = s.g('val:params')
            isfree = z3.Or([m == z3.StringVal(x) for x in free])
            if ok:
                ok_obligations(e, s, tyname)
                e.oblige(s, 'the method is present and a string', z3.And(hm, om))
                if has_id:
                    hi, oi, idv = member(e, s, 'id', idty)
                    e.oblige(s, 'the id is present and well-formed', z3.And(hi, oi))
                e.oblige(s, 'params are present unless the method takes none', z3.Or(hp, isfree))
                vi = e.vidx(p)
                known = []
                for n, mm in table.items():
                    i = variant_index(e, ty, n)
                    a, _ = e.split(s.fork(), m == z3.StringVal(mm))
                    if a is None:
                        continue
                    e.oblige(a, f'method {mm} gives {n}', vi == i)
                    if isinstance(p, Agg) and p.variant != i:
                        continue
                    if has_id:
                        e.oblige(a, f'{n} carries the id', e.veq(a, e.field(p, i, 0), idv))
                    if pty[n] is not None:
                        e.oblige(a, f'{n}: the params are well-formed', de_ok(e, pty[n], pj))
                        e.oblige(a, f'{n} carries the decoded params', e.veq(a, e.field(p, i, off), de_val(e, pty[n], pj)))
                a, _ = e.split(s.fork(), z3.And([m != z3.StringVal(x) for x in table.values()]))
                if a is not None:
                    i = variant_index(e, ty, 'Custom')
                    e.oblige(a, 'a method outside the protocol gives Custom', vi == i)
                    if not (isinstance(p, Agg) and p.variant != i):
                        if has_id:
                            e.oblige(a, 'Custom carries the id', e.veq(a, e.field(p, i, 0), idv))
                        e.oblige(a, 'Custom carries the method', e.veq(a, e.field(p, i, off), m))
                        e.oblige(a, 'Custom carries the params', z3.And(hp, e.reify(a, e.field(p, i, off + 1)) == pj))
            else:
                bad = [s.g('maperr'), s.g('dup'), z3.And(s.g('ended'), z3.Not(hm)), z3.And(hm, z3.Not(om)),
                       z3.And(s.g('ended'), z3.Not(hp), z3.Not(z3.And(hm, om, isfree)))]
                if has_id:
                    hi, oi, idv = member(e, s, 'id', idty)
                    bad += [z3.And(s.g('ended'), z3.Not(hi)), z3.And(hi, z3.Not(oi))]
                for n, mm in table.items():
                    if pty[n] is not None:
                        bad.append(z3.And(hm, om, m == z3.StringVal(mm), hp, z3.Not(de_ok(e, pty[n], pj))))
                e.oblige(s, f'{tyname}: fails only for a repeated, missing or misshapen member', z3.Or(bad))
    v.unit(f'{tyname}::deserialize', S, de)


def C06(v):
    message_decode(v, 'request::Request', REQ, True)


def C07(v):
    for name in list(NOTIF) + ['Custom']:
        def ser(e):
            ty = tyof(e, 'notification::Notification')
            r = sym_variant(e, ty, variant_index(e, ty, name), 'notification')
            t = e.p.types[ty]['variants'][r.variant]['fields']

            def parts(st):
                if name == 'Custom':
                    return e.deref(st, r.fields[0]), json_of(e, st, t[1][1], r.fields[1])
                return z3.StringVal(NOTIF[name]), (json_of(e, st, t[0][1], r.fields[0]) if t else None)

            def expect(st):
                m, pj = parts(st)
                d = {'method': jstr(e, m)}
                if pj is not None:
                    d['params'] = pj
                return [(z3.BoolVal(True), d)]
            ser_check(e, v.find(S, 'notification::Notification', 'serialize', 'Serialize'), r, expect, f'encode {name}')
            st = start()
            for o in call(e, st, v.find(S, 'notification::Notification', 'method'), [PRef(r)]):
                if no_panic(e, o):
                    e.oblige(o.st, 'method() is the encoded method', e.veq(o.st, o.val, parts(o.st)[0]))
        v.unit(f'Notification::serialize, method [{name}]', S, ser)


def C08(v):
    message_decode(v, 'notification::Notification', NOTIF, False)


def untagged(e, st, key, ty, variants, what):
    """decoding tries the variants in order; v[i] = (variant name, payload type)"""
    j = z3.Const('input', U)
    reached = set()
    st.setg('maperr', z3.BoolVal(False))
    for o in call(e, st, key, [G('de', j=j)]):
        if not no_panic(e, o):
            continue
        for s, ok, p in results(e, o):
            if ok:
                vi = e.vidx(p)
                before = []
                for n, pty in variants:
                    i = variant_index(e, ty, n)
                    a, _ = e.split(s.fork(), z3.And(*before, de_ok(e, pty, j)))
                    if a is not None:
                        reached.add(n)
                        e.oblige(a, f'{what}: input that is a valid {n} and nothing tried before it decodes as {n}', vi == i)
                        if not (isinstance(p, Agg) and p.variant != i):
                            e.oblige(a, f'{what}: {n} holds the decoded input', e.veq(a, e.field(p, i, 0), de_val(e, pty, j)))
                    before.append(z3.Not(de_ok(e, pty, j)))
                e.oblige(s, f'{what}: only valid input decodes', z3.Or([de_ok(e, pty, j) for _, pty in variants]))
            else:
                e.oblige(s, f'{what}: valid input never fails to decode', z3.Or(s.g('maperr'), z3.And([z3.Not(de_ok(e, pty, j)) for _, pty in variants])))
    e.oblige(st, f'{what}: every kind is reachable', z3.BoolVal(reached == {n for n, _ in variants}))


def C09(v):
    kinds = [('Request', 'request::Request'), ('Response', 'response::Response'), ('Notification', 'notification::Notification')]

    def de(e):
        ty = tyof(e, 'message::Message')
        untagged(e, start(), v.find(S, 'message::Message', 'deserialize', 'Deserialize'), ty, [(n, tyof(e, t)) for n, t in kinds], 'Message')
    v.unit('Message::deserialize', S, de)
    for n, t in kinds:
        def ser(e):
            ty = tyof(e, 'message::Message')
            m = sym_variant(e, ty, variant_index(e, ty, n), 'message')
            ser_check(e, v.find(S, 'message::Message', 'serialize', 'Serialize'), m,
                      lambda st: [(z3.BoolVal(True), json_of(e, st, tyof(e, t), m.fields[0]))], f'encode {n}')
        v.unit(f'Message::serialize[{n}]', S, ser)

    def lemma(e):
        # consequences of the contracts proved in C06, C08 and C11 about which objects are valid
        b = {n: z3.Bool(n) for n in ('okreq', 'okresp', 'oknot', 'has id', 'has method', 'has params', 'has result', 'has error', 'id ok', 'method ok',
                                     'params ok', 'free', 'result ok', 'error ok', 'dup')}
        st = start()
        st.pc += [z3.Implies(b['okreq'], z3.And(b['has id'], b['id ok'], b['has method'], b['method ok'])),
                  z3.Implies(b['oknot'], z3.And(b['has method'], b['method ok'])),
                  b['okresp'] == z3.And(b['has id'], b['id ok'], z3.Implies(b['has result'], b['result ok']), z3.Implies(b['has error'], b['error ok']), z3.Not(b['dup'])),
                  z3.Implies(b['has result'], b['result ok'])]
        isreq = b['okreq']
        isresp = z3.And(z3.Not(isreq), b['okresp'])
        isnot = z3.And(z3.Not(isreq), z3.Not(b['okresp']), b['oknot'])
        e.oblige(st, 'lemma: an object with a valid id, a result or error and no method is a response',
                 z3.Implies(z3.And(b['has id'], b['id ok'], z3.Or(b['has result'], b['has error']), z3.Implies(b['has error'], b['error ok']), z3.Not(b['has method']), z3.Not(b['dup'])), isresp))
        e.oblige(st, 'lemma: a valid notification without id is a notification', z3.Implies(z3.And(b['oknot'], z3.Not(b['has id'])), isnot))
        e.oblige(st, 'lemma: nothing without a method is a request or notification', z3.Implies(z3.Not(b['has method']), z3.Not(z3.Or(isreq, isnot))))
    v.unit('classification lemma', S, lemma)
    # the contracts of the three decoders, on which the lemma rests
    message_decode(v, 'request::Request', REQ, True)
    message_decode(v, 'notification::Notification', NOTIF, False)
    for tn, fields in RESPONSE:
        v.unit(f'{tn}::deserialize', S, lambda e: struct_de(e, v.find(S, tn, 'deserialize', 'Deserialize'), tyof(e, tn), fields, tn))


def C10(v):
    def leaf(e):
        """facts about JSON integers and strings as the leaf decoders see them"""
        inline_serde(e, 'request::id::RequestId', 'request::id::IdRepr')

    def j_axioms(e, j):
        i32, s = tyof(e, 'i32'), tyof(e, 'std::string::String')
        st = start()
        e.fact(z3.Implies(de_ok(e, i32, j), e.fn('json<int>', INT, U)(de_val(e, i32, j)) == j))
        e.fact(z3.Implies(de_ok(e, s, j), jstr(e, de_val(e, s, j)) == j))
        e.fact(z3.Not(z3.And(de_ok(e, i32, j), de_ok(e, s, j))))
        return de_ok(e, i32, j), de_ok(e, s, j)

    for src, mk in (('i32', lambda e, x: e.fn('json<int>', INT, U)(x)), ('std::string::String', lambda e, x: jstr(e, x))):
        def enc(e):
            leaf(e)
            x = e.wrap(tyof(e, src), z3.Const('id', INT if src == 'i32' else STR))
            for o in call(e, start(), v.find(S, 'request::id::RequestId', 'from', 'From', [src]), [x]):
                if no_panic(e, o):
                    ser_check(e, v.find(S, 'request::id::RequestId', 'serialize', 'Serialize'), e.deref(o.st, o.val), lambda st: [(z3.BoolVal(True), mk(e, x))], f'id from {src}')
        v.unit(f'RequestId::from({src}) encoded', S, enc)

    def encoded(e, st, p):
        """JSON that serialising the id gives, as a list of (state, term)"""
        out = []
        for o in call(e, st.fork(), v.find(S, 'request::id::RequestId', 'serialize', 'Serialize'), [PRef(p), G('ser')]):
            if no_panic(e, o):
                for s, ok, q in results(e, o):
                    if ok:
                        out.append((s, K.jterm(e, q)))
        return out

    def dec(e):
        leaf(e)
        j = z3.Const('input', U)
        isi, iss = j_axioms(e, j)
        st = start()
        st.setg('maperr', z3.BoolVal(False))
        n = 0
        for o in call(e, st, v.find(S, 'request::id::RequestId', 'deserialize', 'Deserialize'), [G('de', j=j)]):
            if not no_panic(e, o):
                continue
            for s, ok, p in results(e, o):
                if ok:
                    e.oblige(s, 'only 32-bit integers and strings are ids', z3.Or(isi, iss))
                    for s2, t in encoded(e, s, p):
                        n += 1
                        e.oblige(s2, 'the decoded id is encoded as the same JSON value', t == j)
                else:
                    e.oblige(s, 'integers and strings always decode', z3.Or(s.g('maperr'), z3.Not(z3.Or(isi, iss))))
        e.oblige(st, 'integer and string ids are both reachable', z3.BoolVal(n >= 2))
    v.unit('RequestId::deserialize', S, dec)

    def eq(e):
        leaf(e)
        ty = tyof(e, 'request::id::RequestId')
        a, b = Sym(ty, z3.Const('a', U)), Sym(ty, z3.Const('b', U))
        fi, fs = e.fn('json<int>', INT, U), e.fn('json<str>', STR, U)
        inv_i, inv_s, kind = e.fn('int of json', U, INT), e.fn('str of json', U, STR), e.fn('is int', U, BOOL)

        def injective(t):
            """JSON numbers and strings are injective encodings and never equal to each other"""
            if t.decl().eq(fi):
                e.fact(z3.And(inv_i(t) == t.arg(0), kind(t)))
            elif t.decl().eq(fs):
                e.fact(z3.And(inv_s(t) == t.arg(0), z3.Not(kind(t))))
            return t
        st = start()
        n = 0
        for o in call(e, st, v.find(S, 'request::id::RequestId', 'eq', 'PartialEq'), [PRef(a), PRef(b)]):
            if not no_panic(e, o):
                continue
            for s1, ja in encoded(e, o.st, a):
                for s2, jb in encoded(e, s1, b):
                    n += 1
                    e.oblige(s2, 'ids are equal exactly when their JSON values are', o.val == (injective(ja) == injective(jb)))
        e.oblige(st, 'equality is reachable', z3.BoolVal(n >= 2))
        for o in call(e, start(), v.find(S, 'request::id::RequestId', 'clone', 'Clone'), [PRef(a)]):
            if no_panic(e, o):
                e.oblige(o.st, 'a clone equals its original', e.veq(o.st, o.val, a))
    v.unit('RequestId equality and clone', S, eq)


ERRORS = {'parse_error': -32700, 'invalid_request': -32600, 'method_not_found': -32601, 'invalid_params': -32602, 'internal_error': -32603,
          'server_error_start': -32099, 'server_error_end': -32000, 'server_not_initialized': -32002, 'request_canceled': -32800,
          'content_modified': -32801, 'server_canceled': -32802}


RESPONSE = [('response::Response', [F('id', 'id'), F('result', 'result', 'opt'), F('error', 'error', 'opt')]),
            ('response::ResponseError', [F('code', 'code'), F('message', 'message'), F('data', 'data', 'opt')])]


def C11(v):
    def is_err(e, s, p, idv, code, msg, what):
        ty = tyof(e, 'response::Response')
        p = e.deref(s, p)
        e.oblige(s, f'{what}: has the given id', e.veq(s, e.field(p, 0, field_index(e, ty, 'id')), idv))
        e.oblige(s, f'{what}: has no result', e.vidx(e.field(p, 0, field_index(e, ty, 'result'))) == 0)
        er = e.field(p, 0, field_index(e, ty, 'error'))
        e.oblige(s, f'{what}: has an error', e.vidx(er) == 1)
        if isinstance(er, Agg) and er.variant == 0:
            return
        er = e.field(er, 1, 0)
        ety = tyof(e, 'response::ResponseError')
        e.oblige(s, f'{what}: the code is {code}', e.field(er, 0, field_index(e, ety, 'code')) == code)
        e.oblige(s, f'{what}: has the given message', e.veq(s, e.field(er, 0, field_index(e, ety, 'message')), msg))
        e.oblige(s, f'{what}: has no data', e.vidx(e.field(er, 0, field_index(e, ety, 'data'))) == 0)

    for name, code in list(ERRORS.items()) + [('err', None)]:
        def err(e):
            idv = Sym(tyof(e, 'request::id::RequestId'), z3.Const('id', U))
            msg = z3.Const('message', STR)
            k = e.wrap(tyof(e, 'i32'), z3.Const('code', INT))
            n = 0
            for o in call(e, start(), v.find(S, 'response::Response', name), [idv] + ([k] if code is None else []) + [msg]):
                if no_panic(e, o):
                    n += 1
                    is_err(e, o.st, o.val, idv, k if code is None else code, msg, name)
            e.oblige(start(), f'{name} returns', z3.BoolVal(n > 0))
        v.unit(f'Response::{name}', S, err)

    def okr(e):
        key = v.find(S, 'response::Response', 'ok')
        idv = Sym(tyof(e, 'request::id::RequestId'), z3.Const('id', U))
        rty = e.p.fns[key]['locals'][2]
        r = e.wrap(rty, z3.Const('result', e.sort_of(rty)))
        ty = tyof(e, 'response::Response')
        n = 0
        for o in call(e, start(), key, [idv, r]):
            if o.kind == 'panic':
                e.oblige(o.st, 'ok panics only if serialising the result fails', o.st.g('serfail'))
                continue
            n += 1
            p = e.deref(o.st, o.val)
            e.oblige(o.st, 'ok: has the given id', e.veq(o.st, e.field(p, 0, field_index(e, ty, 'id')), idv))
            e.oblige(o.st, 'ok: has no error', e.vidx(e.field(p, 0, field_index(e, ty, 'error'))) == 0)
            q = e.field(p, 0, field_index(e, ty, 'result'))
            e.oblige(o.st, 'ok: has a result', e.vidx(q) == 1)
            if not (isinstance(q, Agg) and q.variant == 0):
                e.oblige(o.st, 'ok: the result is the JSON form of the given value', e.reify(o.st, e.field(q, 1, 0)) == json_of(e, o.st, rty, r))
        e.oblige(start(), 'ok returns', z3.BoolVal(n > 0))
    v.unit('Response::ok', S, okr)
    for tn, fields in RESPONSE:
        v.unit(f'{tn}::serialize', S, lambda e: struct_ser(e, v.find(S, tn, 'serialize', 'Serialize'), tyof(e, tn), fields, tn))
        v.unit(f'{tn}::deserialize', S, lambda e: struct_de(e, v.find(S, tn, 'deserialize', 'Deserialize'), tyof(e, tn), fields, tn))


# ------------------------------------------------------------ handshake
class InitMon(Mon):
    """phase 0: waiting for initialize; 1: it was received; 2: the function was called; 3: its response was sent;
    4: the message after that was read; 9: the wait ended without initialize"""

    def __init__(self, e, M, which):
        self.M, self.which = M, which

    def ob(self, e, st, which, name, f):
        if which == self.which:
            e.oblige(st, name, f)

    def init(self, st):
        st.setg('phase', z3.IntVal(0))
        st.setg('pending', z3.BoolVal(False))
        st.setg('pid', z3.Const('no id', U))
        st.setg('msg', z3.Const('no message', U))
        st.setg('closed', z3.BoolVal(False))
        st.setg('sendfail', z3.BoolVal(False))
        st.setg('result', z3.Const('no result', U))

    def recv(self, e, st, r, c):
        M = self.M
        e.oblige(st, 'reads from the incoming side', z3.BoolVal(r.ch == 'in'))
        idle = chan_idle(e, st.fork(), c)
        ph = st.g('phase')
        self.ob(e, st, 'C12', 'a refused request is answered before the next message is read', z3.Not(z3.And(ph == 0, st.g('pending'))))
        self.ob(e, st, 'C12', 'nothing is read after the wait has ended', ph != 9)
        self.ob(e, st, 'C13', 'after initialize only one message is read, once the response was sent', z3.Or(ph == 0, ph == 9, ph == 3))
        self.ob(e, st, 'C13', 'nothing is read after a failure', z3.Not(z3.Or(st.g('closed'), st.g('sendfail'))))
        s2 = st.fork()
        s2.setg('closed', z3.BoolVal(True))
        s2.setg('phase', z3.If(ph == 0, z3.IntVal(9), z3.IntVal(4)))
        s2.setg('msg', z3.Const('no message', U))
        m = M.fresh('received')
        q = M.part(m, M.iReq)
        isinit = M.is_request(m, 'InitializeBuild')
        refused = z3.And(M.is_request(m), z3.Not(isinit))
        drop = z3.And(M.is_(m, M.iNot), z3.Not(M.is_notif(m, 'Exit')))
        st.setg('msg', m.term)
        st.setg('pending', z3.And(ph == 0, refused))
        st.setg('pid', z3.If(z3.And(ph == 0, M.is_request(m)), M.req_id(st, q), st.g('pid')))
        st.setg('phase', z3.If(ph == 0, z3.If(isinit, z3.IntVal(1), z3.If(z3.Or(refused, drop), z3.IntVal(0), z3.IntVal(9))), z3.IntVal(4)))
        pin = variant_index(e, M.req, 'InitializeBuild')
        pj = e.reify(st, e.field(q, pin, 1))
        st.setg('initparams', z3.If(z3.And(ph == 0, isinit), pj, st.store.get(('g', 'initparams'), z3.Const('no params', U))))
        return [(st, e.ok(c.destty, m)), (s2, chan_closed(e, s2, c))] + idle

    def send(self, e, st, s, c):
        M = self.M
        refused = chan_refused(e, st.fork(), c)
        e.oblige(st, 'writes to the outgoing side', z3.BoolVal(s.ch == 'out'))
        m = c.args[1]
        ph = st.g('phase')
        pend = st.g('pending')
        self.ob(e, st, 'C12', 'nothing is sent except one reply per refused request', z3.Implies(z3.Or(ph == 0, ph == 9), z3.And(ph == 0, pend)))
        self.ob(e, st, 'C12', 'the reply is a server-not-initialized error with the request\'s id', z3.Implies(z3.And(ph == 0, pend), M.is_response(st, m, st.g('pid'), code=-32002)))
        self.ob(e, st, 'C13', 'exactly one message is sent, after the function was called', z3.Implies(z3.And(ph != 0, ph != 9), ph == 2))
        self.ob(e, st, 'C13', 'it is the success response with the request\'s id and the function\'s result', z3.Implies(ph == 2, M.is_response(st, m, st.g('pid'), result=st.g('result'))))
        st.setg('pending', z3.BoolVal(False))
        st.setg('phase', z3.If(ph == 2, z3.IntVal(3), ph))
        return chan_result(e, st, c, m) + refused

    def opaque(self, e, st, v, args, destty):
        self.ob(e, st, 'C13', 'the function is called once, after initialize arrived and before anything is sent', st.g('phase') == 1)
        a = e.reify(st, args[0])
        self.ob(e, st, 'C13', 'the function gets the parameters of the initialize request', a == st.g('initparams'))
        st.setg('phase', z3.IntVal(2))
        r = e.fresh_val('result', destty)
        st.setg('result', json_of(e, st, destty, r))
        return [(st, r)]


def init_run(v, which):
    def body(e):
        M = Msg(e)
        mon = InitMon(e, M, which)
        e.mon = mon
        e.contracts.opaque_calls = mon.opaque
        key = v.find(S, 'Connection', 'initialize')
        st = start()
        mon.init(st)
        st.setg('initparams', z3.Const('no params', U))
        fty = e.p.fns[key]['locals'][2]
        process = Sym(fty, z3.Const('process', U))
        kinds = set()
        for o in call(e, st, key, [PRef(connection(e)), process]):
            s = o.st
            ph = s.g('phase')
            if o.kind == 'panic':
                mon.ob(e, s, 'C12', f'does not panic before initialize ({o.msg})', z3.Or(ph == 2, s.g('serfail')))
                mon.ob(e, s, 'C13', f'does not panic unless the result cannot be serialised ({o.msg})', s.g('serfail'))
                continue
            for s, ok, p in results(e, o):
                ph = s.g('phase')
                kinds.add(ok)
                fin = Sym(M.ty, s.g('msg'))
                initialized = z3.And(z3.Not(s.g('closed')), M.is_notif(fin, 'Initialized'))
                if ok:
                    mon.ob(e, s, 'C12', 'succeeds only after initialize', z3.And(ph != 0, ph != 9))
                    mon.ob(e, s, 'C13', 'succeeds only after the response was sent and initialized was received', z3.And(ph == 4, initialized, z3.Not(s.g('sendfail'))))
                    mon.ob(e, s, 'C13', 'returns the parameters of the initialize request', e.reify(s, p) == s.g('initparams'))
                else:
                    mon.ob(e, s, 'C12', 'the wait fails only on exit, a response, a closed connection or a reply that cannot be sent', z3.Implies(z3.Or(ph == 0, ph == 9), z3.Or(ph == 9, s.g('sendfail'))))
                    mon.ob(e, s, 'C12', 'no refused request is left without a reply', z3.Not(s.g('pending')))
                    mon.ob(e, s, 'C13', 'fails after initialize only if the response cannot be sent or the next message is not initialized',
                           z3.Implies(z3.And(ph != 0, ph != 9), z3.Or(s.g('sendfail'), z3.And(ph == 4, z3.Not(initialized)))))
        e.oblige(st, 'success and failure are reachable', z3.BoolVal(kinds == {True, False}))
    v.unit('Connection::initialize', S, body)


def C12(v):
    init_run(v, 'C12')
    fmt_units(v, within_message(v.prog(S)))   # what is logged about the messages must not end the wait by a panic


def C13(v):
    init_run(v, 'C13')
    fmt_units(v, within_message(v.prog(S)))


class ShutMon(Mon):
    def __init__(self, M, req):
        self.M, self.req = M, req

    def send(self, e, st, s, c):
        M = self.M
        refused = chan_refused(e, st.fork(), c)     # not sent although the peer is there: waiting is then refuted below
        sh = variant_index(e, M.req, 'Shutdown')
        e.oblige(st, 'sends only for shutdown, once, on the outgoing side, before waiting', z3.And(e.vidx(self.req) == sh, st.g('sent') == 0, st.g('waited') == 0, z3.BoolVal(s.ch == 'out')))
        e.oblige(st, 'it is the success response with the request\'s id and null', M.is_response(st, c.args[1], e.reify(st, e.field(self.req, sh, 0)), result=JNULL))
        st.setg('sent', z3.IntVal(1))
        return chan_result(e, st, c, c.args[1]) + refused

    def recv(self, e, st, r, c):
        M = self.M
        e.oblige(st, 'waits once, after the response was sent, for the incoming side', z3.And(st.g('sent') == 1, st.g('waited') == 0, z3.BoolVal(r.ch == 'in')))
        if c.name == 'recv_timeout':
            ns = nanos(e, c.args[1])
        elif c.name == 'recv_deadline':
            ns = c.args[1].off if isinstance(c.args[1], G) and c.args[1].kind == 'Instant' else None
        elif c.name == 'recv':
            ns = z3.IntVal(10**30)
        else:
            ns = z3.IntVal(0)
        if ns is None:
            raise Unsupported('time limit')
        e.oblige(st, 'waits at most thirty seconds, but does wait', z3.And(ns <= 30 * 10**9, ns > 0))
        st.setg('waited', z3.IntVal(1))
        s2 = st.fork()
        m = M.fresh('received')
        st.setg('exit', M.is_notif(m, 'Exit'))
        return [(st, e.ok(c.destty, m)), (s2, chan_closed(e, s2, c))] + chan_idle(e, s2.fork(), c)


def C14(v):
    def body(e):
        M = Msg(e)
        req = Sym(M.req, z3.Const('req', U))
        e.mon = ShutMon(M, req)
        st = start()
        for n in ('sent', 'waited'):
            st.setg(n, z3.IntVal(0))
        st.setg('exit', z3.BoolVal(False))
        st.setg('sendfail', z3.BoolVal(False))
        sh = e.vidx(req) == variant_index(e, M.req, 'Shutdown')
        seen = set()
        for o in call(e, st, v.find(S, 'Connection', 'handle_shutdown'), [PRef(connection(e)), PRef(req)]):
            if not no_panic(e, o):
                continue
            for s, ok, p in results(e, o):
                acted = z3.And(s.g('sent') == 1, s.g('waited') == 1)
                if ok:
                    for val in (True, False):
                        a, _ = e.split(s.fork(), p if val else z3.Not(p))
                        if a is None:
                            continue
                        seen.add(val)
                        if val:
                            e.oblige(a, 'true only for an acknowledged shutdown followed by exit', z3.And(sh, acted, s.g('exit')))
                        else:
                            e.oblige(a, 'false exactly for other requests, without sending or reading', z3.And(z3.Not(sh), s.g('sent') == 0, s.g('waited') == 0))
                else:
                    seen.add('err')
                    e.oblige(s, 'error only for a shutdown not followed by exit', z3.And(sh, s.g('sent') == 1, z3.Not(s.g('exit')), z3.Or(s.g('waited') == 1, s.g('sendfail'))))
        e.oblige(st, 'every outcome is reachable', z3.BoolVal(seen == {True, False, 'err'}))
    v.unit('Connection::handle_shutdown', S, body)
    fmt_units(v, within_message(v.prog(S)))


# ------------------------------------------------------------ conversions and sending
RID = 'request::id::RequestId'
RESULTS = ['std::string::String', 'serde_json::Value'] + ['bsp_types::' + x for x in (
    'InitializeBuildResult', 'WorkspaceBuildTargetsResult', 'DebugSessionStartResult', 'BuildTargetSourcesResult', 'BuildTargetTestResult',
    'BuildTargetRunResult', 'BuildTargetCompileResult', 'BuildTargetResourcesResult', 'BuildTargetDependencyModulesResult',
    'BuildTargetCleanCacheResult', 'BuildTargetInverseSourcesResult', 'BuildTargetDependencySourcesResult')]
REQPAY = [n for n in REQ if n not in ('Shutdown', 'WorkspaceBuildTargets', 'WorkspaceReload')]
NOTPAY = [n for n in NOTIF if n not in ('Exit', 'Initialized')]


def C15(v):
    def sym(e, ty, base):
        t = e.p.types[ty]
        if t['k'] == 'tuple':
            return Agg(ty, 0, [sym(e, x, f'{base}.{i}') for i, x in enumerate(t['elems'])])
        return e.wrap(ty, z3.Const(base, e.sort_of(ty)))

    def conv(label, selfname, srcname, want):
        """want(e, M, state, source value, result) -> list of (text, formula)"""
        def body(e):
            M = Msg(e)
            key = v.find(S, selfname, 'from', 'From', [srcname])
            x = sym(e, e.p.fns[key]['locals'][1], 'x')
            n = 0
            for o in call(e, start(), key, [x]):
                if o.kind == 'panic':
                    e.oblige(o.st, f'does not panic unless the result cannot be serialised ({o.msg})', o.st.g('serfail'))
                    continue
                n += 1
                r = e.deref(o.st, o.val)
                for txt, f in want(e, M, o.st, x, r):
                    e.oblige(o.st, txt, f() if callable(f) else f)
            e.oblige(start(), 'returns', z3.BoolVal(n > 0))
        v.unit(label, S, body)

    def same_variant(e, r, ty, name, parts, st):
        """r is variant `name` of ty with these parts"""
        i = variant_index(e, ty, name)
        out = [(f'gives {name}', e.vidx(r) == i)]
        if not (isinstance(r, Agg) and r.variant != i):
            for k, p in enumerate(parts):
                out.append((f'{name}: part {k} is the given value', e.veq(st, e.field(r, i, k), p)))
        return out

    def inner(e, M, st, r, kind):
        """payload of message r of the kind, with its obligations"""
        i = {'Request': M.iReq, 'Response': M.iResp, 'Notification': M.iNot}[kind]
        out = [(f'gives a {kind}', e.vidx(r) == i)]
        if isinstance(r, Agg) and r.variant != i:
            return out, None
        return out, e.field(r, i, 0)

    MSG, RQ, NT = 'message::Message', 'request::Request', 'notification::Notification'
    for kind, tn in (('Request', RQ), ('Response', 'response::Response'), ('Notification', NT)):
        def want(e, M, st, x, r):
            out, q = inner(e, M, st, r, kind)
            return out + ([('holds the given value', e.veq(st, q, x))] if q is not None else [])
        conv(f'Message::from({kind})', MSG, tn, want)
    for n in REQPAY:
        src = f'({RID}, bsp_types::{n})'
        conv(f'Request::from((id, {n}))', RQ, src, lambda e, M, st, x, r: same_variant(e, r, M.req, n, x.fields, st))

        def want(e, M, st, x, r):
            out, q = inner(e, M, st, r, 'Request')
            return out + (same_variant(e, q, M.req, n, x.fields, st) if q is not None else [])
        conv(f'Message::from((id, {n}))', MSG, src, want)
    src = f'({RID}, &str, serde_json::Value)'
    conv('Request::from((id, method, value))', RQ, src, lambda e, M, st, x, r: same_variant(e, r, M.req, 'Custom', x.fields, st))

    def want(e, M, st, x, r):
        out, q = inner(e, M, st, r, 'Request')
        return out + (same_variant(e, q, M.req, 'Custom', x.fields, st) if q is not None else [])
    conv('Message::from((id, method, value))', MSG, src, want)
    for n in NOTPAY:
        conv(f'Notification::from({n})', NT, f'bsp_types::{n}', lambda e, M, st, x, r: same_variant(e, r, M.notif, n, [x], st))

        def want(e, M, st, x, r):
            out, q = inner(e, M, st, r, 'Notification')
            return out + (same_variant(e, q, M.notif, n, [x], st) if q is not None else [])
        conv(f'Message::from({n})', MSG, f'bsp_types::{n}', want)
    conv('Notification::from((method, value))', NT, '(&str, serde_json::Value)', lambda e, M, st, x, r: same_variant(e, r, M.notif, 'Custom', x.fields, st))

    def want(e, M, st, x, r):
        out, q = inner(e, M, st, r, 'Notification')
        return out + (same_variant(e, q, M.notif, 'Custom', x.fields, st) if q is not None else [])
    conv('Message::from((method, value))', MSG, '(&str, serde_json::Value)', want)
    def body(e):
        M = Msg(e)
        key = v.find(S, NT, 'from', 'From', ['&str'])
        x = e.wrap(e.p.fns[key]['locals'][1], z3.Const('x', e.sort_of(e.p.fns[key]['locals'][1])))
        names = {'build/exit': 'Exit', 'build/initialized': 'Initialized'}
        seen = set()
        for o in call(e, start(), key, [x]):
            if o.kind == 'panic':
                for nm in names:
                    e.oblige(o.st, f'does not panic for {nm}', e.reify(o.st, x) != z3.StringVal(nm))
                continue
            r = e.deref(o.st, o.val)
            e.oblige(o.st, 'made only from the name of the notification', z3.Or([z3.And(e.reify(o.st, x) == z3.StringVal(nm), e.vidx(r) == variant_index(e, M.notif, vn)) for nm, vn in names.items()]))
            seen.add('ret')
        e.oblige(start(), 'returns', z3.BoolVal('ret' in seen))
    v.unit('Notification::from(name)', S, body)
    for rn in RESULTS:
        def want(e, M, st, x, r):
            rty = e.p.types[x.ty]['elems'][1]
            return [('gives the success response to the id with the value', M.is_response(st, r, e.reify(st, x.fields[0]), result=json_of(e, st, rty, x.fields[1])))]
        conv(f'Message::from((id, {rn}))', MSG, f'({RID}, {rn})', want)

    for name, extra in (('send', 0), ('try_send', 0), ('send_timeout', 1), ('send_deadline', 1)):
        def body(e):
            M = Msg(e)
            key = v.find(S, 'Connection', name)
            locs = e.p.fns[key]['locals']
            x = e.wrap(locs[2], z3.Const('x', e.sort_of(locs[2])))
            args = [e.wrap(locs[3], z3.Const('limit', e.sort_of(locs[3])))] if extra else []
            msg = K.conv(e, start(), locs[2], M.ty, x)

            class Once(Mon):
                def send(self, e, st, s, c):
                    e.oblige(st, 'sends once, on the outgoing side', z3.And(st.g('sent') == 0, z3.BoolVal(s.ch == 'out')))
                    e.oblige(st, f'by the channel\'s {name}', z3.BoolVal(c.name == name))
                    e.oblige(st, 'the message is the converted value', e.veq(st, c.args[1], msg))
                    for a, b in zip(c.args[2:], args):
                        e.oblige(st, 'with the caller\'s limit', e.veq(st, a, b))
                    st.setg('sent', z3.IntVal(1))
                    r = e.fresh_val('channel result', c.destty)
                    st.setg('res', r.term)
                    return [(st, r)]
            e.mon = Once()
            st = start()
            st.setg('sent', z3.IntVal(0))
            st.setg('res', z3.Const('no result', U))
            n = 0
            for o in call(e, st, key, [PRef(connection(e)), x] + args):
                if no_panic(e, o):
                    n += 1
                    e.oblige(o.st, 'sent exactly once', o.st.g('sent') == 1)
                    e.oblige(o.st, 'returns what the channel returned', e.reify(o.st, o.val) == o.st.g('res'))
            e.oblige(st, 'returns', z3.BoolVal(n > 0))
        v.unit(f'Connection::{name}', S, body)


# ------------------------------------------------------------ transports
def root_stream(e, st, v):
    """the stream behind buffers and references"""
    v = e.deref(st, v)
    while isinstance(v, G) and v.kind in ('Buf', 'Box'):
        v = e.deref(st, v.of if v.kind == 'Buf' else v.v)
    return v


def ioresult(e, o, ty):
    return results(e, o)


class Pump(Mon):
    """events of a reader or writer thread; which: 'C16' | 'C17' | 'C21' states that property's obligations, the other
    obligations are not stated"""

    def __init__(self, e, M, which, role, rx=None, tx=None, stream=None):
        self.M, self.which, self.role, self.rx, self.tx, self.stream = M, which, role, rx, tx, stream
        self.events = set()
        c = e.contracts.over
        c.append((lambda e, k: k.path.endswith('message::Message::read'), lambda e, st, k: self.read(e, st, k), 'Message::read'))
        c.append((lambda e, k: k.path.endswith('message::Message::write'), lambda e, st, k: self.write(e, st, k), 'Message::write'))
        e.inv_templates = self.templates

    def templates(self, e, entry, template, ev, nm):
        out = []
        for k in template:
            if k == (('g', 'rid'), ()):
                for i in sorted(getattr(e, 'bufids', ())):
                    out.append((f'the buffer read from is none or buffer {i}', lambda v, st, k=k, i=i: None if v[k] is None else z3.Or(v[k] == -1, v[k] == i)))
        return out

    def init(self, st):
        for n in ('pending', 'ended', 'exited', 'gone', 'readerr', 'closed', 'werr', 'curexit'):
            st.setg(n, z3.BoolVal(False))
        st.setg('cur', z3.Const('no message', U))
        st.setg('errv', z3.Const('no error', U))
        st.setg('rid', z3.IntVal(-1))

    def ob(self, e, st, which, name, f):
        if which == self.which or self.which == 'C22':
            e.oblige(st, name, f)

    # reader thread
    def read(self, e, st, c):
        self.events.add('read')
        src = e.deref(st, c.args[0])
        rs = root_stream(e, st, src)
        self.ob(e, st, 'C21', 'messages are read only by the reader side', z3.BoolVal(self.role == 'reader'))
        self.ob(e, st, 'C21', 'the reader reads from the stream of the connection', z3.BoolVal(self.is_stream(rs, 'stdin')))
        if isinstance(src, G) and src.kind == 'Buf':
            rid = src.id
            e.bufids = getattr(e, 'bufids', set()) | {rid}
        else:
            rid = 0
            if isinstance(rs, G) and rs.kind == 'Std':
                e.bufids = getattr(e, 'bufids', set()) | {0}
        self.ob(e, st, 'C16', 'reading goes on with the same buffer', z3.Or(st.g('rid') == -1, st.g('rid') == rid))
        st.setg('rid', z3.IntVal(rid))
        self.ob(e, st, 'C16', 'a message is handed over before the next is read', z3.Not(st.g('pending')))
        self.ob(e, st, 'C16', 'nothing is read after the exit notification', z3.Not(st.g('exited')))
        self.ob(e, st, 'C16', 'nothing is read after the end of the stream or a failure', z3.Not(z3.Or(st.g('ended'), st.g('readerr'), st.g('gone'))))
        optty = e.arg(c.destty, 0)
        s_err, s_end = st.fork(), st.fork()
        s_err.setg('readerr', z3.BoolVal(True))
        s_end.setg('ended', z3.BoolVal(True))
        m = self.M.fresh('received')
        tick(st)
        st.setg('pending', z3.BoolVal(True))
        st.setg('cur', m.term)
        st.setg('curexit', self.M.is_notif(m, 'Exit'))
        return [(st, e.ok(c.destty, e.some(optty, m))), (s_end, e.ok(c.destty, e.none(optty))), (s_err, e.err(c.destty, e.fresh_val('readerr', e.arg(c.destty, 1))))]

    def is_stream(self, rs, std):
        if not isinstance(rs, G):
            return False
        if self.stream == 'std':
            return rs.kind == 'Std' and rs.which == std
        return rs.kind == 'Stream' and rs.id == self.stream

    def send(self, e, st, s, c):
        self.events.add('send')
        self.ob(e, st, 'C21', 'the reader side delivers to the connection\'s receiver', z3.BoolVal(self.role == 'reader' and s.ch == self.rx))
        if self.role == 'reader':
            self.ob(e, st, 'C16', 'hands over the message just read, once', z3.And(st.g('pending'), e.reify(st, c.args[1]) == st.g('cur')))
        refused = chan_refused(e, st.fork(), c)   # not delivered although the receiver is there
        s2 = st.fork()
        s2.setg('gone', z3.BoolVal(True))
        st.setg('exited', z3.Or(st.g('exited'), st.g('curexit')))
        st.setg('pending', z3.BoolVal(False))
        return [(st, e.ok(c.destty, e.unit())), (s2, chan_err(e, s2, c.destty, 'Disconnected'))] + refused

    # writer thread
    def take(self, e, st, ch, block):
        self.events.add('take')
        self.ob(e, st, 'C21', 'the writer side takes what was sent on the connection', z3.BoolVal(self.role == 'writer' and ch == self.tx))
        self.ob(e, st, 'C17', 'a message is written before the next is taken', z3.Not(st.g('pending')))
        self.ob(e, st, 'C17', 'nothing is taken after a write error', z3.Not(st.g('werr')))
        s2 = st.fork()
        s2.setg('closed', z3.BoolVal(bool(block)))
        m = self.M.fresh('queued')
        st.setg('pending', z3.BoolVal(True))
        st.setg('cur', m.term)
        return st, m, s2

    def recv_iter(self, e, st, it, c):
        s1, m, s2 = self.take(e, st, it.ch, it.block)
        s2.setg('ticks', s2.g('ticks') - 1)
        return [(s1, e.some(c.destty, m)), (s2, e.none(c.destty))]

    def recv(self, e, st, r, c):
        idle = st.fork()
        s1, m, s2 = self.take(e, st, r.ch, True)
        return [(s1, e.ok(c.destty, m)), (s2, chan_closed(e, s2, c))] + chan_idle(e, idle, c)

    def write(self, e, st, c):
        self.events.add('write')
        rs = root_stream(e, st, c.args[1])
        self.ob(e, st, 'C21', 'messages are written only by the writer side', z3.BoolVal(self.role == 'writer'))
        self.ob(e, st, 'C21', 'the writer writes to the stream of the connection', z3.BoolVal(self.is_stream(rs, 'stdout')))
        self.ob(e, st, 'C17', 'writes the message just taken, once', z3.And(st.g('pending'), e.reify(st, c.args[0]) == st.g('cur')))
        self.ob(e, st, 'C17', 'nothing is written after a write error', z3.Not(st.g('werr')))
        st.setg('pending', z3.BoolVal(False))
        s2 = st.fork()
        er = e.fresh_val('writeerr', e.arg(c.destty, 1))
        s2.setg('errv', z3.If(s2.g('werr'), s2.g('errv'), e.reify(s2, er)))
        s2.setg('werr', z3.BoolVal(True))
        return [(st, e.ok(c.destty, e.unit())), (s2, e.err(c.destty, er))]


CTORS = ('stdio', 'connect', 'listen')


def opened(v, e, name):
    """run a Connection constructor; [(state, Connection, IoThreads) of the successful outcomes], [(state, err)]"""
    key = v.find(S, 'Connection', name)
    locs = e.p.fns[key]['locals']
    args = [e.wrap(locs[1], z3.Const('addr', e.sort_of(locs[1])))] if e.p.fns[key]['argc'] else []
    st = start()
    st.setg('ioerr', z3.Const('no error', U))
    st.setg('iofailed', z3.BoolVal(False))
    st.setg('connect', z3.Const('nowhere', U))
    st.setg('bind', z3.Const('nowhere', U))
    good, bad = [], []
    for o in call(e, st, key, args):
        if not no_panic(e, o):
            continue
        if name == 'stdio':
            good.append((o.st, o.val.fields[0], o.val.fields[1]))
            continue
        for s, ok, p in results(e, o):
            if ok:
                good.append((s, p.fields[0], p.fields[1]))
            else:
                bad.append((s, p))
    if not good:
        raise Unsupported('no successful outcome')
    return good, bad, args


def parts(e, conn, io):
    cty = tyof(e, 'Connection')
    ity = tyof(e, 'io_thread::IoThreads')
    snd = conn.fields[field_index(e, cty, 'sender')]
    rcv = conn.fields[field_index(e, cty, 'receiver')]
    rd = io.fields[field_index(e, ity, 'reader')]
    wr = io.fields[field_index(e, ity, 'writer')]
    for x, k in ((snd, 'Sender'), (rcv, 'Receiver'), (rd, 'JoinHandle'), (wr, 'JoinHandle')):
        if not (isinstance(x, G) and x.kind == k):
            raise Unsupported(f'{k} expected, found {x}')
    return snd, rcv, rd, wr


def run_task(e, st, handle):
    """run the closure of a thread to its end"""
    st.frames = []
    # the closure must own what it uses: it runs in a state of its own
    e.call_fnv(st, handle.task, [], [], None, None)
    return e.run(st)


def reader_end(e, o, seen):
    for s, ok, p in results(e, o):
        seen.add(ok)
        if ok:
            e.oblige(s, 'finishes successfully only at the end of the stream or after exit was handed over',
                     z3.And(z3.Or(s.g('ended'), s.g('exited')), z3.Not(s.g('pending')), z3.Not(s.g('readerr')), z3.Not(s.g('gone'))))
        else:
            e.oblige(s, 'fails only for a read error or a receiver that has gone away', z3.Or(s.g('readerr'), s.g('gone')))


def writer_end(e, o, seen):
    for s, ok, p in results(e, o):
        seen.add(ok)
        if ok:
            e.oblige(s, 'finishes successfully only when the sending side is closed and everything was written',
                     z3.And(s.g('closed'), z3.Not(s.g('pending')), z3.Not(s.g('werr'))))
        else:
            e.oblige(s, 'fails only with the first write error', z3.And(s.g('werr'), e.reify(s, p) == s.g('errv')))


def reader_unit(v, name, pid):
    def body(e):
        M = Msg(e)
        good, _, _ = opened(v, e, name)
        for st, conn, io in good:
            snd, rcv, rd, wr = parts(e, conn, io)
            mon = Pump(e, M, pid, 'reader', rx=rcv.ch, tx=snd.ch)
            e.mon = mon
            mon.init(st)
            seen = set()
            for o in run_task(e, st, rd):
                if not no_panic(e, o):
                    continue
                reader_end(e, o, seen)
            e.oblige(start(), 'success and failure are reachable', z3.BoolVal(seen == {True, False}))
            e.oblige(start(), 'the reader thread reads and delivers', z3.BoolVal(mon.events == {'read', 'send'}))
    v.unit(f'reader of Connection::{name}', S, body)


def C16(v):
    for n in CTORS:
        reader_unit(v, n, 'C16')
    # the contract of Message::read that the reader rests on: one whole frame per call, nothing skipped, failures returned
    import props_io
    props_io.read_run(v, 'C16')


def writer_unit(v, name):
    def body(e):
        M = Msg(e)
        good, _, _ = opened(v, e, name)
        for st, conn, io in good:
            snd, rcv, rd, wr = parts(e, conn, io)
            mon = Pump(e, M, 'C17', 'writer', rx=rcv.ch, tx=snd.ch)
            e.mon = mon
            mon.init(st)
            seen = set()
            for o in run_task(e, st, wr):
                if not no_panic(e, o):
                    continue
                writer_end(e, o, seen)
            e.oblige(start(), 'success and failure are reachable', z3.BoolVal(seen == {True, False}))
            e.oblige(start(), 'the writer thread takes and writes', z3.BoolVal(mon.events == {'take', 'write'}))
    v.unit(f'writer of Connection::{name}', S, body)


class JoinMon(Mon):
    def __init__(self):
        self.joined = {}

    def join(self, e, st, h, c):
        who = h.who
        e.oblige(st, f'the {who} is joined once', z3.BoolVal(('g', 'joined:' + who) not in st.store or z3.is_false(st.g('joined:' + who))))
        st.setg('joined:' + who, z3.BoolVal(True))
        a, b = e.split(st, z3.Not(z3.Const(who + ' panicked', BOOL)))
        out = []
        if a is not None:
            out.append((a, e.ok(c.destty, Sym(e.arg(c.destty, 0), z3.Const(who + ' result', U)))))
        if b is not None:
            out.append((b, e.err(c.destty, e.wrap(e.arg(c.destty, 1), z3.Const(who + ' panic', e.sort_of(e.arg(c.destty, 1)))))))
        return out


def C17(v):
    for n in CTORS:
        writer_unit(v, n)
    # the contract of Message::write that the writer rests on: the whole message once, failures returned
    import props_io
    props_io.write_unit(v)

    def body(e):
        ity = tyof(e, 'io_thread::IoThreads')
        fs = [None] * len(e.p.types[ity]['variants'][0]['fields'])
        for w in ('reader', 'writer'):
            fs[field_index(e, ity, w)] = G('JoinHandle', who=w)
        e.mon = JoinMon()
        rp, wp = z3.Const('reader panicked', BOOL), z3.Const('writer panicked', BOOL)
        st = start()
        seen = set()
        key = v.find(S, 'io_thread::IoThreads', 'join')
        rty = e.p.fns[key]['locals'][0]
        R, W = Sym(rty, z3.Const('reader result', U)), Sym(rty, z3.Const('writer result', U))
        rok, wok = e.vidx(R) == 0, e.vidx(W) == 0
        for o in call(e, st, key, [Agg(ity, 0, fs)]):
            s = o.st
            if o.kind == 'panic':
                seen.add('panic')
                e.oblige(s, f'panics only if a thread panicked ({o.msg})', z3.Or(rp, wp))
                continue
            for s, ok, p in results(e, o):
                seen.add(ok)
                e.oblige(s, 'a panic of the reader is propagated', z3.Not(rp))
                e.oblige(s, 'a panic of the writer is propagated unless the reader failed', z3.Not(z3.And(rok, wp)))
                if ok:
                    e.oblige(s, 'succeeds only if both succeeded', z3.And(rok, wok))
                else:
                    e.oblige(s, 'returns the reader\'s error, or the writer\'s if the reader succeeded',
                             z3.Or(z3.And(z3.Not(rok), e.veq(s, p, e.field(R, 1, 0))), z3.And(rok, z3.Not(wok), e.veq(s, p, e.field(W, 1, 0)))))
        e.oblige(st, 'success, failure and panic are reachable', z3.BoolVal(seen == {True, False, 'panic'}))
    v.unit('IoThreads::join', S, body)


def C21(v):
    def mem(e):
        n = 0
        cty = tyof(e, 'Connection')
        for o in call(e, start(), v.find(S, 'Connection', 'memory'), []):
            if not no_panic(e, o):
                continue
            n += 1
            a, b = o.val.fields
            g = lambda c, f: c.fields[field_index(e, cty, f)]
            e.oblige(o.st, 'what the first end sends the second receives', z3.BoolVal(same(g(a, 'sender').ch, g(b, 'receiver').ch)))
            e.oblige(o.st, 'what the second end sends the first receives', z3.BoolVal(same(g(b, 'sender').ch, g(a, 'receiver').ch)))
            e.oblige(o.st, 'an end does not receive what it sends itself', z3.BoolVal(not same(g(a, 'sender').ch, g(a, 'receiver').ch)))
        e.oblige(start(), 'returns', z3.BoolVal(n > 0))
    v.unit('Connection::memory', S, mem)

    def ctor(name):
        def body(e):
            M = Msg(e)
            good, bad, args = opened(v, e, name)
            if name != 'stdio':
                e.oblige(start(), 'failure is reachable', z3.BoolVal(len(bad) > 0))
                for s, p in bad:
                    e.oblige(s, 'fails only with the I/O error that occurred', z3.And(e.reify(s, p) == s.g('ioerr'), s.g('iofailed')))
            for st, conn, io in good:
                e.oblige(st, 'succeeds only if no I/O error occurred', z3.Not(st.g('iofailed')))
                if name != 'stdio':
                    e.oblige(st, 'the given address is used', st.g('connect' if name == 'connect' else 'bind') == e.reify(st, args[0]))
                snd, rcv, rd, wr = parts(e, conn, io)
                e.oblige(st, 'sending and receiving use different channels', z3.BoolVal(snd.ch != rcv.ch))
                e.oblige(st, 'reader and writer are different threads', z3.BoolVal(rd.id != wr.id))
                stream = 'std' if name == 'stdio' else st.store.get(('g', 'stream'))
                for role, h in (('reader', rd), ('writer', wr)):
                    mon = Pump(e, M, 'C21', role, rx=rcv.ch, tx=snd.ch, stream=stream)
                    e.mon = mon
                    s = st.fork()
                    mon.init(s)
                    n0 = len(e.contracts.over)
                    for o in run_task(e, s, h):
                        pass
                    del e.contracts.over[-2:]
                    e.oblige(start(), f'the {role} handle joins the {role} thread', z3.BoolVal(mon.events == ({'read', 'send'} if role == 'reader' else {'take', 'write'})))
        v.unit(f'Connection::{name}', S, body)
    for n in CTORS:
        ctor(n)
