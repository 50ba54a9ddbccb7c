#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]

Decides one property on /repo's current working tree: dumps the compiler's MIR, generates the obligations of the
property's contracts from it and lets Z3 discharge them. See DESIGN.md."""
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mirv'))
T0 = time.time()
BUILD = os.path.join(HERE, '.build')
BUDGET = 780   # seconds in all (a check gets 900)


def worker(pid, dumps, claimed, lock, deadline, out):
    import spec
    import registry
    progs = {c: spec.Program(os.path.join(dumps, c + '.json')) for c in ('bsp_server', 'bsp_types')}
    v = spec.V(pid, progs, deadline)
    n = [0]
    orig = v.unit

    def unit(label, crate, body):
        i = n[0]
        n[0] += 1
        with lock:
            if claimed[i]:
                return None
            claimed[i] = 1
        return orig(label, crate, body)
    v.unit = unit
    err = None
    try:
        registry.spec_of(pid)(v)
    except spec.Unsupported as x:
        err = str(x)
    except Exception as x:      # a specification that cannot be stated over this tree
        err = f'{type(x).__name__}: {x}'
    engines = [dict(used=e.used, inlined=sorted(e.inlined), loops=e.loop_info, queries=e.nqueries, solver_s=e.solver_s) for e in v.engines]
    out.put(dict(obls=v.obls, units=v.units, unsupported=v.unsupported, engines=engines, err=err))


def verify(pid, dumps, deadline):
    ctx = multiprocessing.get_context('fork')
    n = min(8, os.cpu_count() or 1)
    claimed, lock, out = ctx.Array('b', 4096), ctx.Lock(), ctx.Queue()
    ps = [ctx.Process(target=worker, args=(pid, dumps, claimed, lock, deadline, out)) for _ in range(n)]
    for p in ps:
        p.start()
    res = []
    while len(res) < n:
        try:
            res.append(out.get(timeout=2))
        except Exception:
            if time.time() > deadline + 60 or all(not p.is_alive() for p in ps) and out.empty():
                break
    for p in ps:
        p.join(1)
        if p.is_alive():
            p.kill()
    r = dict(obls=[], units=[], unsupported=[], engines=[])
    for x in res:
        for k in r:
            r[k] += x[k]
        if x['err']:
            r['unsupported'].append(('specification', x['err']))
    if len(res) < n:
        r['unsupported'].append(('verifier', f'{n - len(res)} of {n} workers gave no result'))
    return r


def replay(pid, tier, seconds):
    """build the replay driver against the current tree and let it look for a failing input; dict(status=fail|ok|none, ...)"""
    src = os.path.join(HERE, 'replay')
    if not os.path.isdir(src):
        return dict(status='none', why='no replay driver')
    tgt = os.path.join(BUILD, 'target-replay')
    os.makedirs(tgt, exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif-replay.')
    try:
        r = subprocess.run(['bash', os.path.join(src, 'build.sh'), tgt], capture_output=True, text=True, timeout=400)
        if r.returncode != 0:
            return dict(status='none', why='the replay driver does not build: ' + r.stderr[-1500:])
        exe = os.path.join(tgt, 'debug', 'replay')
        # in a session of its own: what it started ends with it; failing inputs it printed count even if it hangs afterwards
        with open(os.path.join(work, '.stdout'), 'wb') as fo, open(os.path.join(work, '.stderr'), 'wb') as fe:
            p = subprocess.Popen([exe, pid, tier, str(int(seconds))], stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, cwd=work, start_new_session=True,
                                 env={**os.environ, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
            try:
                code = p.wait(timeout=seconds + 60)
            except subprocess.TimeoutExpired:
                code = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        out, err = (open(os.path.join(work, f), errors='replace').read() for f in ('.stdout', '.stderr'))
        fails, stats = [], {}
        for line in out.splitlines():
            try:
                if line.startswith('FAIL '):
                    fails.append(json.loads(line[5:]))
                elif line.startswith('DONE '):
                    stats = json.loads(line[5:])
            except ValueError:
                pass   # a line cut off
        if fails:
            return dict(status='fail', fails=fails, **stats)
        if code == 0 and stats.get('cases'):
            return dict(status='ok', **stats)
        if code is None:
            return dict(status='none', why='the replay driver did not finish')
        return dict(status='none', why=f'the replay driver ended with {code}: {err[-1500:]}')
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f'finding: property={pid} '):
                out.append(l.split(' ', 2)[2])
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import contracts
    import registry
    if pid not in registry.ALL:
        print('unknown property', pid)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    dumps = tempfile.mkdtemp(prefix='verif-mir.')
    try:
        r = subprocess.run(['bash', os.path.join(HERE, 'mirv', 'dump.sh'), dumps], capture_output=True, text=True)
        if r.returncode != 0:
            print('the tree could not be compiled:', r.stderr[-3000:])
            return 2
        t1 = time.time()
        deadline = T0 + (420 if tier == 'quick' else 600)
        res = verify(pid, dumps, deadline)
        proof_s = time.time() - t1
    finally:
        shutil.rmtree(dumps, ignore_errors=True)
    obls = res['obls']
    failed = [o for o in obls if o['status'] == 'failed']
    unknown = [o for o in obls if o['status'] == 'unknown']
    proved = [o for o in obls if o['status'] == 'proved']
    unsupported = res['unsupported']
    if not obls and not unsupported:
        unsupported = [('verifier', 'no obligation was generated')]
    rep = None
    if failed or unknown or unsupported or tier == 'thorough':
        left = max(60, BUDGET - (time.time() - T0))
        rep = replay(pid, tier, min(left - 30, 60 if failed and tier == 'quick' else 240))
    fails = rep['fails'] if rep and rep['status'] == 'fail' else []
    outcome, note = 'proved', ''
    if failed or fails:
        outcome = 'violated'
    elif unknown or unsupported:
        outcome = 'bounded' if rep and rep['status'] == 'ok' else 'undecided'

    # ---- evidence
    used, inlined, loops = {}, set(), []
    for e in res['engines']:
        for k, n in e['used'].items():
            used[k] = used.get(k, 0) + n
        inlined |= {tuple(x) for x in e['inlined']}
        loops += e['loops']
    local = sorted(f'{c}::{p}' for c, p in inlined if c in ('bsp_server', 'bsp_types'))
    std = sorted({f'{c}::{p}' for c, p in inlined if c not in ('bsp_server', 'bsp_types')})
    trusted = sorted({contracts.DOC.get(k, k) if k not in contracts.DOC else f'{k}: {contracts.DOC[k]}' for k in used})
    cov = dict(
        obligations=len(obls), discharged=len(proved),
        checker_cmd=f'python3-vt check.py {pid} {tier}  (mirdump on rustc nightly MIR of /repo; mirv symbolic execution; Z3 {z3v()} in process)',
        trusted_base=['rustc nightly MIR construction and the mirdump driver', 'the mirv verification-condition generator', 'Z3 ' + z3v()] + trusted,
        units=[dict(u) for u in sorted(res['units'], key=lambda u: u['label'])],
        functions_under_contract=sorted(u['label'] for u in res['units']),
        functions_verified_from_their_mir=local,
        library_functions_followed_into_their_mir=std,
        loops_cut_by_inferred_invariants=[dict(fn=l['fn'], invariants=l['invariants']) for l in loops],
        back_end={'Z3 ' + z3v(): sum(e['queries'] for e in res['engines'])}, solver_queries=sum(e['queries'] for e in res['engines']),
        solver_s=round(sum(e['solver_s'] for e in res['engines']), 2), proof_s=round(proof_s, 2),
        contract_uses=used, outcome=outcome)
    if unsupported:
        cov['not_reached_by_the_verifier'] = [f'{a}: {b}' for a, b in unsupported][:40]
    if rep:
        cov['replay'] = {k: v for k, v in rep.items() if k != 'fails'}
        cov['replay']['role'] = 'bounded stand-in for the functions the verifier could not process (not counted as proved)' if outcome == 'bounded' else \
            'cross-check of the assumed contracts on concrete inputs' if outcome == 'proved' else 'search for an input that shows the violation'
    if outcome in ('bounded', 'undecided'):
        cov['explanation'] = 'not a proof: some functions are out of the verifier\'s reach on this tree; ' + (
            'the bounded replay driver found no failing input over the cases it counts' if outcome == 'bounded' else 'and the bounded driver gave no answer')
    ev = dict(property=pid, tier=tier, seed=seed, level='other' if outcome in ('bounded', 'undecided') else 'proof', coverage=cov, assumptions=registry.ASSUMPTIONS + registry.EXTRA.get(pid, []),
              wall_s=round(time.time() - T0, 2), violations=1 if outcome == 'violated' else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    # ---- verdict
    print(f'{pid}: {len(proved)} of {len(obls)} obligations discharged over {len(res["units"])} units in {proof_s:.1f} s')
    for a, b in unsupported[:10]:
        print(f'  not reached by the verifier: {a}: {b[:300]}')
    if rep:
        print('  replay driver:', {k: (v if k != 'fails' else len(v)) for k, v in rep.items()})
    for k in known(pid):
        print(f'KNOWN-FINDING: property={pid} {k}')
    if outcome == 'violated':
        d = os.path.join(BUILD, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, failing_inputs=fails[:20], failed_obligations=[dict(name=o['name'], formula=o['formula'], model=o['model'], path=o['path']) for o in failed[:40]],
                           not_reached=unsupported, replay=dict((k, v) for k, v in (rep or {}).items() if k != 'fails'),
                           how_to_replay=f'{os.path.join(BUILD, "target-replay/debug/replay")} {pid} {tier}' if fails else 'no failing input was found; the obligations above are the ones the solver refuted'), f, indent=1, default=str)
        for o in failed[:12]:
            print('  failed obligation:', o['name'])
        for x in fails[:5]:
            print('  failing input:', json.dumps(x)[:600])
        print(f'VIOLATION property={pid} replay={path}' + ('' if fails else ' no-failing-input-found'))
        return 1
    if outcome == 'undecided':
        print('undecided: neither the verifier nor the bounded check gave an answer:', (rep or {}).get('why', ''))
        return 2
    return 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())
