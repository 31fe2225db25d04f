#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property by symbolic execution of the code in /repo.

Exit 0: held on everything explored. Exit 1: a violation, confirmed by replaying the solver's model against the
real code. Exit 3: the check itself failed (build error, model that does not reproduce, unsupported code)."""
import json, os, resource, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from plan import PLAN, ASSUME, MEANING

VERIF = vbuild.VERIF
EVID = f'{VERIF}/evidence'


def fail(msg):
    print('CHECK-ERROR ' + msg)
    sys.exit(3)


def explore(exe, ll, run, seed, threads):
    out = f'{vbuild.BUILD}/out-{os.getpid()}.json'
    cmd = [exe, ll, '--main', run['main'], '--params', ','.join(map(str, run['params'])), '--time', str(run['time']),
           '--threads', str(threads), '--cap', str(run.get('cap', 60_000_000)), '--out', out, '--seed', str(seed),
           '--cross', str(run.get('cross', 64)), '--samples', '2', '--max-found', '16', '--per-key', '4',
           '--grace', '5']
    for s in run.get('stubs', []):
        cmd += ['--stub', s]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        fail(f'engine failed on {run["main"]} {run["params"]}: {r.stdout[-1500:]}')
    d = json.load(open(out))
    os.remove(out)
    return d


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def replay(exe, run, model):
    """(reproduces, output): does the real code violate a check on this model?"""
    try:
        r = subprocess.run([exe, run['main'], model, ','.join(map(str, run['params']))], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors='replace', timeout=25, preexec_fn=limit,
                           env=dict(os.environ, RUST_BACKTRACE='0', VERIF_BIN=f'{vbuild.BUILD}/native/release/mofmt'))
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = 'timeout', (e.stdout or b'').decode(errors='replace')
    ids = sorted({int(l.split()[1]) for l in out.splitlines() if l.startswith('CHECK ')})
    return rc, ids, out


def plainer(run):
    """The same run without the abstractions: concrete kinds and texts of terminals, no stubs"""
    p = list(run['params'])
    if run['main'] in ('h_fmt', 'h_layout'):
        p[4] |= 16
    if run['main'] in ('h_parse', 'h_seq'):
        p += [0] * (5 - len(p))
        p[4] |= 2
    r = dict(run, params=p, stubs=[], covers=[], plain=True)
    return None if run.get('plain') or (p == list(run['params']) and not run.get('stubs')) else r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    threads = max(1, min(8, os.cpu_count() or 1))
    num = int(pid[1:])
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith(f'{pid}-') and f.endswith('.txt') or f == f'{pid}.json':
            os.remove(f'{EVID}/{f}')
    runs = PLAN[pid][tier]
    cli = any(r['main'].startswith('h_cli') for r in runs)
    try:
        exe = vbuild.engine()
        lib = vbuild.harness_ll() if any(not r['main'].startswith('h_cli') for r in runs) else None
        cll = vbuild.harness_ll(True) if cli else None
        nat = vbuild.native(cli)
    except RuntimeError as e:
        fail(f'build: {e}')
    build_s = time.time() - t0
    known = []
    kf = f'{VERIF}/known_findings.txt'
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith('known: '):
                k = json.loads(line[7:])
                if k['property'] == pid:
                    known.append(k)
    results, violations, validated, samples = [], [], 0, []
    # on a slow machine the last runs are cut short, which the evidence says
    end = t0 + (780 if tier == 'quick' else 7200)
    seen_known = set()
    queue = list(runs)
    while queue:
        run = queue.pop(0)
        run = dict(run, time=max(3, min(run['time'], int(end - time.time()))))
        d = explore(exe, cll if run['main'].startswith('h_cli') else lib, run, seed, threads)
        results.append((run, d))
        what = f'{run["main"]} {run["params"]}'
        print(f'{what}: {run["about"]}: paths {d["paths"]} exhausted {d["exhausted"]} queries {d["queries"]} '
              f'z3 {d["z3_queries"]} ({d["z3_seconds"]} s) {d["seconds"]:.1f} s found {len(d["found"])}', flush=True)
        if d['cross_bad']:
            fail(f'{what}: the domain solver and z3 disagree on {d["cross_bad"]} queries')
        again = False
        for f in d['found']:
            if f['kind'] == 'check' and f['id'] // 100 != num:
                fail(f'{what}: check {f["id"]} does not belong to {pid}')
            rc, ids, out = replay(nat, run, f['model'])
            if f['kind'] == 'check':
                ok = f['id'] in ids or any(i // 100 == num for i in ids)
            else:
                ok = rc not in (0, 20) or any(i // 100 == num for i in ids)
            if not ok and f['kind'] in ('hang', 'oom'):
                # too long for the engine, but it comes to an end
                d['exhausted'] = False
                d['frontier'] += 1
                continue
            if not ok and plainer(run):
                # what the abstraction of texts or debug output allows is not a violation yet
                again = True
                continue
            if not ok:
                fail(f'{what}: {f["kind"]} {f["id"]} {f["msg"]} on model {f["model"]} does not reproduce: '
                     f'exit {rc}\n{out[:2000]}')
            fp = [k for k in known if k['entry'] == run['main'] and k['id'] in ([f['id']] + ids)
                  and k['match'] in out]
            if fp:
                for k in fp[:1]:
                    if k['what'] not in seen_known:
                        seen_known.add(k['what'])
                        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
                continue
            violations.append((run, f, rc, ids, out))
            if rc == 'timeout':
                break
        for s in d['samples']:
            rc, ids, out = replay(nat, run, s['model'])
            bad = [i for i in ids if i // 100 == num]
            if rc == 20:
                # the real lexer delivers other tokens than the model, or the path ends outside the claim
                continue
            if bad and not d['found']:
                if plainer(run):
                    again = True
                    continue
                fail(f'{what}: the engine finished model {s["model"]} without a violation, the real code did not '
                     f'(exit {rc}):\n{out[:2000]}')
            if rc == 0 and not bad:
                validated += 1
                if len(samples) < 6:
                    samples.append({'entry': run['main'], 'params': run['params'], 'model': s['model'],
                                    'notes': [l[5:] for l in out.splitlines() if l.startswith('NOTE ')][:6]})
        if violations:
            break
        if again:
            print(f'{what}: not decided with abstract texts, repeated with concrete ones', flush=True)
            queue.insert(0, plainer(run))
            results.pop()
            continue
        if d['unsupported']:
            fail(f'{what}: unsupported: {list(d["unsupported"].items())[:3]}')
        if d['unknown']:
            fail(f'{what}: {d["unknown"]} branches left open, the solver gave up')
        for c in run.get('covers', []):
            if not d['covers'].get(str(c)):
                fail(f'{what}: vacuous: cover {c} was never reached')
    # evidence
    def tot(k):
        return sum(d[k] for _, d in results)
    funcs = {}
    for _, d in results:
        for f in d['functions']:
            g = funcs.setdefault(f['f'], [0, f['blocks']])
            g[0] = max(g[0], f['hit'])
    sub = {
        'states': tot('paths'), 'transitions': tot('decisions'), 'traces_validated_against_impl': validated,
        'samples': samples or [{'note': 'no path ended normally before the violation'}],
        'exhaustive': all(d['exhausted'] for _, d in results),
        'explanation': 'states = explored paths (each a conjunction of branch conditions over the symbolic bytes '
                       'that stands for all values satisfying it); transitions = solver-decided branch decisions.',
        'solver': {'name': results[0][1]['solver'], 'queries': tot('queries'), 'z3_queries': tot('z3_queries'),
                   'decided_by_domain_reasoning': tot('domain'), 'cached': tot('cached'), 'sat': tot('sat'),
                   'unsat': tot('unsat'), 'gave_up': tot('gave_up'), 'conditions_enumerated_bytewise': tot('spelled'),
                   'cross_checked_with_z3': tot('cross'), 'disagreements': tot('cross_bad'),
                   'z3_seconds': round(tot('z3_seconds'), 3)},
        'assertions_solved': tot('checks_solved'), 'assertions_concrete_on_path': tot('checks_concrete'),
        'instructions': tot('instrs'),
        'runs': [{'entry': r['main'], 'params': r['params'], 'bounds': r['about'], 'exhausted': d['exhausted'],
                  'unexplored_branches': d['frontier'], 'paths': d['paths'], 'completed': d['done'],
                  'outside_the_claim': {str(i): x for i, x in enumerate(d['pruned']) if x},
                  'assumed_away': d['killed'], 'witnesses': d['covers'], 'symbolic_bytes': d['max_vars'],
                  'seconds': d['seconds']} for r, d in results],
        'functions_encoded': {k: f'{v[0]}/{v[1]} blocks' for k, v in sorted(funcs.items())},
        'functions_executed_incl_std': max(d['functions_executed'] for _, d in results),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': sub,
          'assumptions': ASSUME.get(pid, []) + ASSUME['*'], 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations)}
    sub['build_seconds'] = round(build_s, 2)
    with open(f'{EVID}/{pid}.json', 'w') as fh:
        json.dump(ev, fh, indent=1)
    for n, (run, f, rc, ids, out) in enumerate(violations):
        p = f'{EVID}/{pid}-{n + 1}.txt'
        with open(p, 'w') as fh:
            fh.write(f'property {pid}: {f["kind"]} {f["id"]} {MEANING.get(f["id"], "")}\n{f["msg"]}\n'
                     f'replay: {nat} {run["main"]} {f["model"]} {",".join(map(str, run["params"]))}\n'
                     f'exit {rc}, failed checks {ids}\n\n{out}')
        if n < 3:
            print(f'VIOLATION property={pid} replay={p}')
            text = MEANING.get(f['id'], '') + ' ' + ' | '.join(out.splitlines()[:8])
            print('  ' + ''.join(c if c.isprintable() else '?' for c in text)[:600])
    print(f'{pid}: {"violated" if violations else "held"} in {time.time() - t0:.1f} s')
    sys.exit(1 if violations else 0)


main()
