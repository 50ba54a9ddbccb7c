"""C18-C20: the protocol structures and enumerations of bsp-types"""
from spec import *
import spec

T = 'bsp_types'
q = lambda f, m=None: F(f, m or camel(f), 'req')
o = lambda f, m=None: F(f, m or camel(f), 'opt')


def camel(s):
    a = s.split('_')
    return a[0] + ''.join(w[0].upper() + w[1:] for w in a[1:])


def k(f, kind):
    return F(f, camel(f), kind)


OPTS = lambda *fs: [o(f) for f in fs]
REQS = lambda *fs: [q(f) for f in fs]

# the protocol's structures: field, member, and when the member may be missing (written from the protocol, not from the code)
#   req: always there   opt: optional, left out when absent   empty / null / none: left out when so, absent means so
#   dflt: always encoded, absent on decoding means the default
STRUCTS = {
    'BuildTargetCapabilities': REQS('can_compile', 'can_test', 'can_run', 'can_debug'),
    'BuildTargetCleanCache': REQS('targets'),
    'BuildTargetCleanCacheResult': OPTS('message') + REQS('cleaned'),
    'BuildTargetCompile': REQS('target') + OPTS('origin_id', 'arguments'),
    'BuildTargetCompileResult': OPTS('origin_id') + REQS('status_code') + OPTS('data_kind', 'data'),
    'BuildTargetDependencyModules': REQS('targets'),
    'BuildTargetDependencyModulesResult': REQS('items'),
    'DependencyModulesItem': REQS('target', 'modules'),
    'DependencyModule': REQS('name', 'version') + OPTS('data_kind', 'data'),
    'BuildTargetDependencySources': REQS('text_document'),
    'BuildTargetDependencySourcesResult': REQS('items'),
    'DependencySourcesItem': REQS('target', 'sources'),
    'BuildTargetDidChange': REQS('changes'),
    'BuildTargetEvent': REQS('target') + OPTS('kind', 'data'),
    'BuildTargetIdentifier': REQS('uri'),
    'TextDocumentInverseSources': REQS('text_document'),
    'BuildTargetInverseSourcesResult': REQS('targets'),
    'BuildTargetResources': REQS('targets'),
    'BuildTargetResourcesResult': REQS('items'),
    'Resources': REQS('target', 'resources'),
    'BuildTargetRun': REQS('target') + OPTS('origin_id', 'arguments', 'data_kind', 'data'),
    'BuildTargetRunResult': OPTS('origin_id') + REQS('status_code'),
    'BuildTargetSources': REQS('targets'),
    'BuildTargetSourcesResult': REQS('items'),
    'SourcesCollection': REQS('target', 'sources'),
    'Sources': REQS('uri', 'kind', 'generated'),
    'BuildTargetTest': REQS('target') + OPTS('origin_id', 'arguments', 'data_kind', 'data'),
    'BuildTargetTestResult': OPTS('origin_id') + REQS('status_code') + OPTS('data_kind', 'data'),
    'ClientCapabilities': REQS('language_ids'),
    'DebugSessionStart': [k('targets', 'dflt'), k('data_kind', 'dflt'), k('data', 'null')],
    'DebugSessionStartResult': REQS('uri'),
    'InitializeBuild': [q('display_name'), k('version', 'empty'), k('bsp_version', 'empty'), q('root_uri'), k('capabilities', 'dflt'), o('data')],
    'InitializeBuildResult': REQS('display_name', 'version', 'bsp_version', 'capabilities') + OPTS('data'),
    'LogMessage': [q('typ', 'type'), o('task'), o('origin_id'), q('message')],
    'ShowMessage': [q('typ', 'type'), q('message'), o('task'), o('origin_id')],
    'CompileProvider': REQS('language_ids'),
    'TestProvider': REQS('language_ids'),
    'RunProvider': REQS('language_ids'),
    'DebugProvider': REQS('language_ids'),
    'PublishDiagnostics': REQS('text_document', 'build_target') + OPTS('origin_id') + REQS('diagnostics', 'reset'),
    'ServerCapabilities': OPTS('compile_provider', 'test_provider', 'run_provider', 'debug_provider', 'inverse_sources_provider', 'dependency_sources_provider',
                               'dependency_modules_provider', 'resources_provider', 'can_reload', 'build_target_changed_provider'),
    'WorkspaceBuildTargetsResult': REQS('targets'),
    'BuildTarget': REQS('id') + OPTS('display_name', 'base_directory') + REQS('tags', 'capabilities', 'language_ids', 'dependencies'),
    'TaskId': [k('id', 'dflt'), k('parents', 'empty')],
    'TaskStart': [k('task_id', 'dflt'), o('event_time'), k('message', 'empty'), k('data_kind', 'none'), k('data', 'null')],
    'TaskProgress': [k('task_id', 'dflt'), o('event_time'), k('message', 'empty'), o('total'), o('progress'), k('unit', 'empty'), k('data_kind', 'none'), k('data', 'null')],
    'TaskFinish': [k('task_id', 'dflt'), o('event_time'), k('message', 'empty'), k('status', 'dflt'), k('data_kind', 'none'), k('data', 'null')],
}


def C18(v):
    for tn, fields in STRUCTS.items():
        v.unit(f'{tn}::serialize', T, lambda e: struct_ser(e, v.find(T, tn, 'serialize', 'Serialize'), tyof(e, tn), fields, tn))
        v.unit(f'{tn}::deserialize', T, lambda e: struct_de(e, v.find(T, tn, 'deserialize', 'Deserialize'), tyof(e, tn), fields, tn))


# ------------------------------------------------------------ C19
NUMBERS = {
    'MessageType': {'Error': 1, 'Warning': 2, 'Info': 3, 'Log': 4},
    'TaskStatus': {'Ok': 1, 'Error': 2, 'Cancelled': 3},
    'SourceKind': {'File': 1, 'Directory': 2},
    'BuildTargetEventKind': {'Created': 1, 'Changed': 2, 'Deleted': 3},
}
NAMES = {
    'BuildTargetTag': {'Libary': 'library', 'Application': 'application', 'Test': 'test', 'IntegrationTest': 'integration-test',
                       'Benchmark': 'benchmark', 'NoIDE': 'no-ide', 'Manual': 'manual'},
    'TaskDataKind': {'CompileTask': 'compile-task', 'CompileReport': 'compile-report', 'TestTask': 'test-task', 'TestReport': 'test-report',
                     'TestStart': 'test-start', 'TestFinish': 'test-finish'},
}


def jint(e, t):
    return e.fn('json<int>', INT, U)(t)


def num_ser(e, v, tn, table):
    ty = tyof(e, tn)
    names = [x['name'] for x in e.p.types[ty]['variants']]
    e.oblige(start(), f'{tn}: exactly the protocol values', z3.BoolVal(sorted(names) == sorted(table)))
    for n, num in table.items():
        base = sym_variant(e, ty, variant_index(e, ty, n), 'value.' + n)
        ser_check(e, v.find(T, tn, 'serialize', 'Serialize'), base, lambda s: [(z3.BoolVal(True), jint(e, z3.IntVal(num)))], f'{tn}::{n}')


def num_de(e, v, tn, table):
    ty = tyof(e, tn)
    key = v.find(T, tn, 'deserialize', 'Deserialize')

    def runs(j):
        st = start()
        st.setg('badshape', z3.BoolVal(False))
        for oc in call(e, st, key, [G('de', j=j, top=True)]):
            if no_panic(e, oc):
                yield from results(e, oc)
    seen = set()
    j = z3.Const('input', U)
    for s, ok, p in runs(j):
        if ok:
            e.oblige(s, f'{tn}: only the protocol numbers are accepted, each giving its value',
                     z3.Or([z3.And(j == jint(e, z3.IntVal(num)), e.vidx(p) == variant_index(e, ty, vn)) for vn, num in table.items()]))
            seen |= {vn for vn, num in table.items() if e.feasible(s, j == jint(e, z3.IntVal(num)))}
    e.oblige(start(), f'{tn}: every value is reachable', z3.BoolVal(seen == set(table)))
    for vn, num in table.items():
        for s, ok, p in runs(jint(e, z3.IntVal(num))):
            e.oblige(s, f'{tn}: {num} is decoded', z3.BoolVal(ok))
            if ok:
                e.oblige(s, f'{tn}: {num} is decoded as {vn}', e.vidx(p) == variant_index(e, ty, vn))


def name_ser(e, v, tn, table):
    ty = tyof(e, tn)
    names = [x['name'] for x in e.p.types[ty]['variants']]
    e.oblige(start(), f'{tn}: exactly the protocol values', z3.BoolVal(sorted(set(names) - {'None'}) == sorted(list(table) + ['Custom'])))
    key = v.find(T, tn, 'serialize', 'Serialize')
    for n, txt in table.items():
        base = sym_variant(e, ty, variant_index(e, ty, n), 'value.' + n)
        ser_check(e, key, base, lambda s: [(z3.BoolVal(True), jstr(e, txt))], f'{tn}::{n}')
    base = sym_variant(e, ty, variant_index(e, ty, 'Custom'), 'value.Custom')
    ser_check(e, key, base, lambda s: [(z3.BoolVal(True), jstr(e, e.reify(s, base.fields[0])))], f'{tn}::Custom')
    if 'None' in names:
        base = sym_variant(e, ty, variant_index(e, ty, 'None'), 'value.None')
        ser_check(e, key, base, lambda s: [(z3.BoolVal(True), JNULL)], f'{tn}::None')


def name_de(e, v, tn, table):
    ty = tyof(e, tn)
    st = start()
    st.setg('badshape', z3.BoolVal(False))
    j = z3.Const('input', U)
    string = tyof(e, 'std::string::String')
    isstr, txt = de_ok(e, string, j), e.reify(None, de_val(e, string, j))
    has_none = 'None' in [x['name'] for x in e.p.types[ty]['variants']]
    reached = set()
    for oc in call(e, st, v.find(T, tn, 'deserialize', 'Deserialize'), [G('de', j=j, top=True)]):
        if not no_panic(e, oc):
            continue
        for s, ok, p in results(e, oc):
            if not ok:
                e.oblige(s, f'{tn}: strings are not rejected', z3.Not(isstr))
                continue
            for vn, t in table.items():
                e.oblige(s, f'{tn}: "{t}" gives {vn}', z3.Implies(z3.And(isstr, txt == z3.StringVal(t)), e.vidx(p) == variant_index(e, ty, vn)))
                if e.feasible(s, z3.And(isstr, txt == z3.StringVal(t))):
                    reached.add(vn)
            other = z3.And([isstr] + [txt != z3.StringVal(t) for t in table.values()])
            a, _ = e.split(s, other)
            if a is not None:
                reached.add('Custom')
                ci = variant_index(e, ty, 'Custom')
                e.oblige(a, f'{tn}: any other string gives the custom value', e.vidx(p) == ci)
                if isinstance(p, Sym) or p.variant == ci:
                    e.oblige(a, f'{tn}: the custom value is that string', e.veq(a, e.field(p, ci, 0), txt))
            if has_none:
                e.oblige(s, f'{tn}: anything but a string gives no value', z3.Or(isstr, e.vidx(p) == variant_index(e, ty, 'None')))
            else:
                e.oblige(s, f'{tn}: anything but a string is rejected', isstr)
    e.oblige(start(), f'{tn}: every value is reachable', z3.BoolVal(reached == set(table) | {'Custom'}))


def C19(v):
    for tn, table in NUMBERS.items():
        v.unit(f'{tn}::serialize', T, lambda e: num_ser(e, v, tn, table))
        v.unit(f'{tn}::deserialize', T, lambda e: num_de(e, v, tn, table))
    for tn, table in NAMES.items():
        v.unit(f'{tn}::serialize', T, lambda e: name_ser(e, v, tn, table))
        v.unit(f'{tn}::deserialize', T, lambda e: name_de(e, v, tn, table))


# ------------------------------------------------------------ C20
# new constructors: argument i goes to the named field ('S:' a converted string); fields not named get their default
CONS = {
    'BuildTarget': {'new': 'id display_name base_directory tags capabilities language_ids dependencies', 'new_simple': 'id tags capabilities language_ids dependencies'},
    'BuildTargetCapabilities': {'new': 'can_compile can_test can_run can_debug'},
    'BuildTargetCleanCacheResult': {'new': 'message cleaned', 'new_simple': 'cleaned'},
    'BuildTargetCompile': {'new': 'target origin_id arguments', 'new_simple': 'target'},
    'BuildTargetCompileResult': {'new': 'origin_id status_code data_kind data', 'new_simple': 'status_code'},
    'BuildTargetDependencyModulesResult': {'new': 'items'},
    'BuildTargetDependencySources': {'new': 'text_document'},
    'BuildTargetEvent': {'new': 'target kind data', 'new_simple': 'target'},
    'BuildTargetIdentifier': {'new': 'uri'},
    'BuildTargetResources': {'new': 'targets'},
    'BuildTargetResourcesResult': {'new': 'items'},
    'BuildTargetRun': {'new': 'target origin_id arguments data_kind data', 'new_simple': 'target'},
    'BuildTargetRunResult': {'new': 'origin_id status_code'},
    'BuildTargetSources': {'new': 'targets'},
    'BuildTargetSourcesResult': {'new': 'items'},
    'BuildTargetTest': {'new': 'target origin_id arguments data_kind data', 'new_simple': 'target'},
    'BuildTargetTestResult': {'new': 'origin_id status_code data_kind data', 'new_simple': 'status_code'},
    'ClientCapabilities': {'new': 'language_ids'},
    'DebugSessionStart': {'new': 'targets data_kind data'},
    'DebugSessionStartResult': {'new': 'uri'},
    'DependencyModule': {'new': 'name version data_kind data', 'new_simple': 'name version'},
    'DependencyModulesItem': {'new': 'target modules'},
    'InitializeBuild': {'new': 'S:display_name S:version S:bsp_version root_uri capabilities V:data', 'new_simple': 'S:display_name S:version S:bsp_version root_uri capabilities'},
    'InitializeBuildResult': {'new': 'S:display_name S:version S:bsp_version capabilities V:data', 'new_simple': 'S:display_name S:version S:bsp_version capabilities'},
    'Resources': {'new': 'target resources'},
    'Sources': {'new': 'uri kind generated'},
    'SourcesCollection': {'new': 'target sources'},
    'TaskFinish': {'new': 'task_id'},
    'TaskStart': {'new': 'I:task_id'},
    'TaskId': {'new': 'id parents'},
    'TextDocumentInverseSources': {'new': 'text_document'},
    'WorkspaceBuildTargetsResult': {'new': 'targets'},
    'LogMessage': {'new': 'typ S:message task O:origin_id', **{n: f'={c} S:message task O:origin_id' for n, c in (('info', 'Info'), ('warn', 'Warning'), ('error', 'Error'), ('log', 'Log'))}},
    'ShowMessage': {'new': 'typ S:message task O:origin_id', **{n: f'={c} S:message task O:origin_id' for n, c in (('info', 'Info'), ('log', 'Log'), ('warn', 'Warning'), ('error', 'Error'))}},
}
# accessors: field g(etter) s(etter) m(utable access)
ACC = {
    'BuildTargetCapabilities': 'can_compile:gs can_test:gs can_run:gs can_debug:gs',
    'BuildTargetCleanCache': 'targets:gsm',
    'BuildTargetCleanCacheResult': 'message:gs cleaned:gs',
    'BuildTargetCompile': 'target:gs origin_id:gs arguments:gs',
    'BuildTargetCompileResult': 'origin_id:gs status_code:gs data_kind:gs data:gs',
    'BuildTargetDependencyModules': 'targets:gsm',
    'BuildTargetDependencyModulesResult': 'items:gm',
    'BuildTargetDependencySources': 'text_document:gs',
    'BuildTargetIdentifier': 'uri:gs',
    'BuildTargetResources': 'targets:gsm',
    'BuildTargetResourcesResult': 'items:gm',
    'BuildTargetRun': 'target:gs origin_id:gs arguments:gs data_kind:gs data:gs',
    'BuildTargetRunResult': 'origin_id:gs status_code:gs',
    'BuildTargetSources': 'targets:gs',
    'BuildTargetSourcesResult': 'items:gs',
    'BuildTargetTest': 'target:gs origin_id:gs arguments:gs data_kind:gs data:gs',
    'BuildTargetTestResult': 'origin_id:gs status_code:gs data_kind:gs data:gs',
    'ClientCapabilities': 'language_ids:gsm',
    'DebugSessionStart': 'targets:gs data_kind:gs data:gs',
    'DependencyModule': 'name:gs version:gs data_kind:gs',
    'DependencyModulesItem': 'target:g modules:gs',
    'DependencySourcesItem': 'sources:gs target:gs',
    'InitializeBuild': 'data:gs capabilities:gs root_uri:gs bsp_version:gs version:gs display_name:gs',
    'InitializeBuildResult': 'bsp_version:gs version:gs display_name:gs capabilities:gs data:gsm',
    'Resources': 'target:gs resources:gs',
    'ServerCapabilities': ' '.join(f.field + ':gs' for f in STRUCTS['ServerCapabilities']),
    'Sources': 'kind:gs uri:gs generated:gs',
    'SourcesCollection': 'target:gs sources:gs',
    'TextDocumentInverseSources': 'text_document:gs',
}
CLONES = ('BuildTargetCleanCache BuildTargetCompile BuildTargetDependencyModules BuildTargetDependencySources BuildTargetDidChange BuildTargetEvent BuildTargetEventKind '
          'BuildTargetIdentifier BuildTargetResources BuildTargetRun BuildTargetSources BuildTargetTest ClientCapabilities DebugSessionStart InitializeBuild LogMessage '
          'MessageType PublishDiagnostics ShowMessage TaskDataKind TaskFinish TaskId TaskProgress TaskStart TaskStatus TextDocumentInverseSources').split()
DEFAULTED = ('BuildTargetCapabilities BuildTargetDependencyModulesResult BuildTargetDependencySourcesResult BuildTargetDidChange BuildTargetEventKind BuildTargetInverseSourcesResult '
             'BuildTargetResourcesResult BuildTargetSources BuildTargetSourcesResult BuildTargetTag ClientCapabilities CompileProvider DebugProvider DebugSessionStart DependencyModule '
             'InitializeBuildResult LogMessage MessageType RunProvider ServerCapabilities ShowMessage SourceKind TaskDataKind TaskFinish TaskId TaskProgress TaskStart TaskStatus '
             'TestProvider WorkspaceBuildTargetsResult').split()
# predicates: value -> condition
PREDS = {('TaskStatus', 'is_ok'): 'Ok', ('TaskStatus', 'is_error'): 'Error', ('TaskStatus', 'is_cancelled'): 'Cancelled', ('TaskDataKind', 'is_none'): 'None'}


def fields_of(e, ty):
    return e.p.types[ty]['variants'][0]['fields']


def returns(e, st, key, args, what):
    n = 0
    for oc in call(e, st, key, args):
        if no_panic(e, oc):
            n += 1
            yield oc
    e.oblige(start(), f'{what} returns', z3.BoolVal(n > 0))


def sym_arg(e, ty, base):
    return e.wrap(ty, z3.Const(base, e.sort_of(ty)))


def text_of(e, st, frm, v):
    """the string a value of a string type (or of a generic Into<String>) stands for"""
    return e.reify(st, K.conv(e, st, frm, tyof(e, 'std::string::String'), v))


def constructor(e, v, tn, name, spec_):
    ty = tyof(e, tn)
    key = v.find(T, tn, name, '')
    fs = fields_of(e, ty)
    fn = e.p.fns[key]
    parts = spec_.split()
    fixed = [x[1:] for x in parts if x[0] == '=']
    parts = [x for x in parts if x[0] != '=']
    if fn['argc'] != len(parts):
        raise Anchor(f'{tn}::{name} takes {fn["argc"]} arguments')
    args = [sym_arg(e, fn['locals'][i + 1], f'arg{i}') for i in range(fn['argc'])]
    named = {x.split(':')[-1]: (x.split(':')[0] if ':' in x else '', i) for i, x in enumerate(parts)}
    what = f'{tn}::{name}'
    for oc in returns(e, start(), key, args, what):
        s = oc.st
        r = e.deref(s, oc.val)
        for i, f in enumerate(fs):
            got = e.field(r, 0, i)
            if f[0] in named:
                how, k = named[f[0]]
                aty = fn['locals'][k + 1]
                if how == 'S':
                    cond = e.reify(s, got) == text_of(e, s, aty, args[k])
                elif how == 'I':
                    cond = e.reify(s, got) == e.reify(s, K.conv(e, s, aty, f[1], args[k]))
                elif how == 'V':
                    # the data given is present
                    c = [e.vidx(got) == 1]
                    if not (isinstance(got, Agg) and got.variant == 0):
                        c.append(e.veq(s, e.field(got, 1, 0), args[k]))
                    cond = z3.And(c)
                elif how == 'O':
                    inner = e.arg(aty, 0)
                    c = [e.vidx(got) == e.vidx(args[k])]
                    if not (isinstance(got, Agg) and got.variant == 0):
                        c.append(z3.Implies(e.vidx(got) == 1, e.reify(s, e.field(got, 1, 0)) == text_of(e, s, inner, e.field(args[k], 1, 0))))
                    cond = z3.And(c)
                else:
                    cond = e.veq(s, got, args[k])
                e.oblige(s, f'{what}: {f[0]} is the argument', cond)
            elif fixed and i == field_index(e, ty, 'typ'):
                e.oblige(s, f'{what}: has type {fixed[0]}', e.vidx(got) == variant_index(e, e.p.strip(f[1]), fixed[0]))
            else:
                e.oblige(s, f'{what}: {f[0]} has its default', is_default(e, s, f[1], got))


def getter(e, v, tn, f):
    ty = tyof(e, tn)
    key = v.find(T, tn, f, '')
    i = field_index(e, ty, f)
    base = sym_variant(e, ty, 0, 'self')
    fn = e.p.fns[key]
    fty, rty = fields_of(e, ty)[i][1], fn['locals'][0]
    what = f'{tn}::{f}'
    for oc in returns(e, start(), key, [PRef(base)], what):
        got, want = e.deref(oc.st, oc.val), base.fields[i]
        if isz(got) and not isz(want):
            # a string view of the field
            want = e.fn(f'as_ref<{e.p.name(e.p.strip(fty))},{e.p.name(e.p.strip(rty))}>', want.term.sort(), STR)(e.reify(oc.st, want))
        if e.is_option(got) and e.is_option(want):
            e.oblige(oc.st, f'{what}: is present as the field is', e.vidx(got) == e.vidx(want))
            if not (isinstance(got, Agg) and got.variant == 0) and e.feasible(oc.st, e.vidx(got) == 1):
                e.oblige(oc.st, f'{what}: gives the field', z3.Implies(e.vidx(got) == 1, e.veq(oc.st, e.field(got, 1, 0), e.field(want, 1, 0))))
        else:
            e.oblige(oc.st, f'{what}: gives the field', e.veq(oc.st, got, want))


def frame_cond(e, s, what, ty, cell, old, i, new):
    """after the call only field i has changed, to `new`"""
    cur = s.store[cell]
    for k, f in enumerate(fields_of(e, ty)):
        if k == i:
            e.oblige(s, f'{what}: {f[0]} is the value given', e.veq(s, e.field(cur, 0, k), new))
        else:
            e.oblige(s, f'{what}: {f[0]} is unchanged', e.veq(s, e.field(cur, 0, k), old.fields[k]))


def setter(e, v, tn, f):
    ty = tyof(e, tn)
    key = v.find(T, tn, 'set_' + f, '')
    i = field_index(e, ty, f)
    old = sym_variant(e, ty, 0, 'self')
    fty = fields_of(e, ty)[i][1]
    new = sym_arg(e, fty, 'value')
    st = start()
    ref = e.new_cell(st, old)
    for oc in returns(e, st, key, [ref, new], f'{tn}::set_{f}'):
        frame_cond(e, oc.st, f'{tn}::set_{f}', ty, ref.cell, old, i, new)


def mutable(e, v, tn, f):
    """writing through the reference changes exactly the field"""
    ty = tyof(e, tn)
    key = v.find(T, tn, f + '_mut', '')
    i = field_index(e, ty, f)
    old = sym_variant(e, ty, 0, 'self')
    fty = fields_of(e, ty)[i][1]
    new = sym_arg(e, fty, 'value')
    st = start()
    ref = e.new_cell(st, old)
    for oc in returns(e, st, key, [ref], f'{tn}::{f}_mut'):
        frame_cond(e, oc.st, f'{tn}::{f}_mut (as returned)', ty, ref.cell, old, i, old.fields[i])
        e.store_ref(oc.st, oc.val, new)
        frame_cond(e, oc.st, f'{tn}::{f}_mut (written)', ty, ref.cell, old, i, new)


def clone_of(e, v, tn):
    ty = tyof(e, tn)
    key = v.find(T, tn, 'clone', 'Clone')
    for vi, var in enumerate(e.p.types[ty]['variants']):
        base = sym_variant(e, ty, vi, 'self.' + var['name'])
        for oc in returns(e, start(), key, [PRef(base)], f'{tn}::clone'):
            e.oblige(oc.st, f'{tn}::clone: equals the original', e.veq(oc.st, oc.val, base))


def default_of(e, v, tn):
    ty = tyof(e, tn)
    key = v.find(T, tn, 'default', 'Default')
    for oc in returns(e, start(), key, [], f'{tn}::default'):
        e.oblige(oc.st, f'{tn}::default: every field has its documented default', is_default(e, oc.st, ty, oc.val))


def predicate(e, v, tn, name, variant):
    ty = tyof(e, tn)
    key = v.find(T, tn, name, '')
    for vi, var in enumerate(e.p.types[ty]['variants']):
        base = sym_variant(e, ty, vi, 'self.' + var['name'])
        for oc in returns(e, start(), key, [PRef(base)], f'{tn}::{name}'):
            e.oblige(oc.st, f'{tn}::{name}: true exactly for {variant}', oc.val == z3.BoolVal(var['name'] == variant))


def empty_pred(e, v, tn, f):
    ty = tyof(e, tn)
    base = sym_variant(e, ty, 0, 'self')
    for oc in returns(e, start(), v.find(T, tn, 'is_empty', ''), [PRef(base)], f'{tn}::is_empty'):
        e.oblige(oc.st, f'{tn}::is_empty: true exactly without {f}', oc.val == (e.length(oc.st, base.fields[field_index(e, ty, f)]) == 0))


def taskid_from(e, v, arg):
    ty = tyof(e, 'TaskId')
    its = [it for it in e.p.items if it['name'] == 'from' and it['key'] in e.p.fns and it.get('trait', '').endswith('From') and e.p.name(it['self']).endswith('TaskId')
           and (e.p.types[e.p.fns[it['key']]['locals'][1]]['k'] == 'ref') == (arg == '&str')]
    if len(its) != 1:
        raise Anchor('From<' + arg + '> for TaskId')
    key = its[0]['key']
    a = sym_arg(e, e.p.fns[key]['locals'][1], 'id')
    for oc in returns(e, start(), key, [a], f'TaskId::from({arg})'):
        r = e.deref(oc.st, oc.val)
        e.oblige(oc.st, 'TaskId::from: the id is the string', e.veq(oc.st, e.field(r, 0, field_index(e, ty, 'id')), e.deref(oc.st, a)))
        e.oblige(oc.st, 'TaskId::from: no parents', e.length(oc.st, e.field(r, 0, field_index(e, ty, 'parents'))) == 0)


def add_parent(e, v):
    ty = tyof(e, 'TaskId')
    old = sym_variant(e, ty, 0, 'self')
    st = start()
    ref = e.new_cell(st, old)
    val = z3.Const('value', STR)
    for oc in returns(e, st, v.find(T, 'TaskId', 'add_parent', ''), [ref, val], 'TaskId::add_parent'):
        i, p = field_index(e, ty, 'id'), field_index(e, ty, 'parents')
        cur = oc.st.store[ref.cell]
        e.oblige(oc.st, 'TaskId::add_parent: the id is unchanged', e.veq(oc.st, e.field(cur, 0, i), old.fields[i]))
        e.oblige(oc.st, 'TaskId::add_parent: the parent is added at the end', e.reify(oc.st, e.field(cur, 0, p)) == K.vec_pushed(e, oc.st, old.fields[p], val))


def targets_from(e, v):
    its = [it for it in e.p.items if it['name'] == 'from' and it['key'] in e.p.fns and it.get('trait', '').endswith('From') and e.p.name(it['self']).endswith('WorkspaceBuildTargetsResult')]
    if len(its) != 1:
        raise Anchor('From<BuildTarget> for WorkspaceBuildTargetsResult')
    t = sym_arg(e, tyof(e, 'BuildTarget'), 'target')
    ty = tyof(e, 'WorkspaceBuildTargetsResult')
    for oc in returns(e, start(), its[0]['key'], [t], 'WorkspaceBuildTargetsResult::from'):
        r = e.field(e.deref(oc.st, oc.val), 0, 0)
        e.oblige(oc.st, 'WorkspaceBuildTargetsResult::from: the one target', e.reify(oc.st, r) == K.vec_pushed(e, oc.st, K.empty_vec(e, fields_of(e, ty)[0][1]), t))


def tag_custom(e, v):
    ty = tyof(e, 'BuildTargetTag')
    key = v.find(T, 'BuildTargetTag', 'custom', '')
    aty = e.p.fns[key]['locals'][1]
    a = sym_arg(e, aty, 'value')
    for oc in returns(e, start(), key, [a], 'BuildTargetTag::custom'):
        r = e.deref(oc.st, oc.val)
        ci = variant_index(e, ty, 'Custom')
        e.oblige(oc.st, 'BuildTargetTag::custom: a custom tag', e.vidx(r) == ci)
        if isinstance(r, Sym) or r.variant == ci:
            e.oblige(oc.st, 'BuildTargetTag::custom: of that string', e.reify(oc.st, e.field(r, ci, 0)) == text_of(e, oc.st, aty, a))


def root_path(e, v):
    ty = tyof(e, 'InitializeBuild')
    base = sym_variant(e, ty, 0, 'self')
    i = field_index(e, ty, 'root_uri')
    key = v.find(T, 'InitializeBuild', 'root_path', '')
    path = e.fn('path<lsp_types::Url>', U, STR)(e.reify(None, base.fields[i]))
    for oc in returns(e, start(), key, [PRef(base)], 'InitializeBuild::root_path'):
        want = e.reify(oc.st, K.conv(e, oc.st, tyof(e, 'str'), e.p.fns[key]['locals'][0], path))
        e.oblige(oc.st, 'InitializeBuild::root_path: the path of root_uri', e.reify(oc.st, oc.val) == want)


def C20(v):
    for tn, cs in CONS.items():
        for n, sp in cs.items():
            v.unit(f'{tn}::{n}', T, lambda e: constructor(e, v, tn, n, sp))
    for tn, l in ACC.items():
        for x in l.split():
            f, how = x.split(':')
            if 'g' in how:
                v.unit(f'{tn}::{f}', T, lambda e: getter(e, v, tn, f))
            if 's' in how:
                v.unit(f'{tn}::set_{f}', T, lambda e: setter(e, v, tn, f))
            if 'm' in how:
                v.unit(f'{tn}::{f}_mut', T, lambda e: mutable(e, v, tn, f))
    for tn in CLONES:
        v.unit(f'{tn}::clone', T, lambda e: clone_of(e, v, tn))
    for tn in DEFAULTED:
        v.unit(f'{tn}::default', T, lambda e: default_of(e, v, tn))
    for (tn, n), var in PREDS.items():
        v.unit(f'{tn}::{n}', T, lambda e: predicate(e, v, tn, n, var))
    for tn in ('BuildTargetCleanCache', 'BuildTargetDependencyModules'):
        v.unit(f'{tn}::is_empty', T, lambda e: empty_pred(e, v, tn, 'targets'))
    for a in ('String', '&str'):
        v.unit(f'TaskId::from({a})', T, lambda e: taskid_from(e, v, a))
    v.unit('TaskId::add_parent', T, lambda e: add_parent(e, v))
    v.unit('WorkspaceBuildTargetsResult::from', T, lambda e: targets_from(e, v))
    v.unit('BuildTargetTag::custom', T, lambda e: tag_custom(e, v))
    v.unit('InitializeBuild::root_path', T, lambda e: root_path(e, v))
