#!/usr/bin/env python3-vt
"""Writes replay/src/tables.rs from the protocol tables of mirv/props_types.py and the field types of the current tree.
Run by hand when the protocol tables change; the result is committed.   usage: gen.py <dir with the MIR dumps>"""
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'mirv'))
import props_types as P
from engine import Program

p = Program(os.path.join(sys.argv[1], 'bsp_types.json'))
byname = {}
for i, t in enumerate(p.types):
    if t.get('k') == 'adt' or 'variants' in t:
        byname.setdefault(p.name(i).split('::')[-1], i)


def short(n):
    return re.sub(r'[A-Za-z_0-9]+::', '', n)


def fields(tn):
    return p.types[byname[tn]]['variants'][0]['fields']


acc = {tn: dict(x.split(':') for x in l.split()) for tn, l in P.ACC.items()}
# structures whose fields are public
PUB = {'BuildTargetDidChange', 'BuildTargetEvent', 'BuildTarget', 'WorkspaceBuildTargetsResult', 'TaskStart', 'TaskProgress', 'TaskFinish', 'ShowMessage', 'LogMessage'}
o = ['// generated by gen.py from the protocol tables; do not edit', '#![allow(unused_variables, clippy::all)]', 'use crate::types::*;', 'use bsp_types::*;', 'use lsp_types::{TextDocumentIdentifier, Url};', 'use serde_json::Value;', '']
o.append('pub fn structs() -> Vec<Struct> {\n    vec![')
for tn, fs in P.STRUCTS.items():
    ft = {f[0]: short(p.name(f[1])) for f in fields(tn)}
    o.append(f'        Struct {{ name: "{tn}", redo: redo::<{tn}>, view: |t| view::<{tn}>(t, |x| vec![' + ', '.join(
        [f'("{f.member}", enc(&x.{f.field}()))' for f in fs if 'g' in acc.get(tn, {}).get(f.field, '')] +
        [f'("{f.member}", enc(&x.{f.field}))' for f in fs if tn in PUB]) + ']), fields: vec![')
    for f in fs:
        o.append(f'            Field {{ member: "{f.member}", kind: "{f.kind}", ty: "{ft[f.field]}" }},')
    o.append('        ] },')
o.append('    ]\n}\n')

o.append('pub fn constructors() -> Vec<Ctor> {\n    vec![')
for tn, cs in P.CONS.items():
    ft = {f[0]: short(p.name(f[1])) for f in fields(tn)}
    mem = {f.field: f.member for f in P.STRUCTS[tn]}
    for n, sp in cs.items():
        parts = sp.split()
        fixed = [x[1:] for x in parts if x[0] == '=']
        parts = [x for x in parts if x[0] != '=']
        args = []
        tys = []
        for i, x in enumerate(parts):
            how, f = x.split(':') if ':' in x else ('', x)
            ty = ft[f]
            if how == 'V':
                ty = 'Value'
            tys.append((mem[f], ty))
            args.append(f'de::<{"String" if how == "S" else "Option<String>" if how == "O" else ty.replace("Language", "Language")}>(&a[{i}])')
        o.append(f'        Ctor {{ name: "{tn}", ctor: "{n}", args: vec![' + ', '.join(f'("{m}", "{t}")' for m, t in tys) + f'], fixed: {("Some(" + chr(34) + fixed[0] + chr(34) + ")") if fixed else "None"}, run: |a| enc(&{tn}::{n}{"::<String>" if (tn, n) == ("LogMessage", "log") else ""}({", ".join(args)})) }},')
o.append('    ]\n}\n')

o.append('pub fn accessors() -> Vec<Acc> {\n    vec![')
for tn, l in P.ACC.items():
    ft = {f[0]: short(p.name(f[1])) for f in fields(tn)}
    mem = {f.field: f for f in P.STRUCTS[tn]}
    for x in l.split():
        f, how = x.split(':')
        get = f'Some(|t| view1::<{tn}>(t, |x| enc(&x.{f}())))' if 'g' in how else 'None'
        st = f'Some(|t, v| edit::<{tn}>(t, |x| x.set_{f}(de(v))))' if 's' in how else 'None'
        if 'm' in how:
            mt = f'Some(|t, v| edit::<{tn}>(t, |x| {{ *x.{f}_mut() = de(v); }}))'
        else:
            mt = 'None'
        o.append(f'        Acc {{ name: "{tn}", member: "{mem[f].member}", kind: "{mem[f].kind}", ty: "{ft[f]}", get: {get}, set: {st}, set_mut: {mt} }},')
o.append('    ]\n}\n')

o.append('pub fn clones() -> Vec<(&\'static str, fn(&str) -> Result<(Value, Value), String>)> {\n    vec![')
for tn in P.CLONES:
    if tn in P.STRUCTS:
        o.append(f'        ("{tn}", cloned::<{tn}>),')
o.append('    ]\n}\n')
o.append('pub fn defaults() -> Vec<(&\'static str, fn() -> Value)> {\n    vec![')
for tn in P.DEFAULTED:
    if tn in P.STRUCTS:
        o.append(f'        ("{tn}", || enc(&{tn}::default())),')
o.append('    ]\n}')
open(os.path.join(HERE, 'src', 'tables.rs'), 'w').write('\n'.join(o) + '\n')
