#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on /repo's current tree.

 1. every proof unit of the property: contracts + mechanically extracted current source -> Verus / Kani, all obligations
 2. meanwhile, a concrete search over the real crate (labelled bounded), whose only purposes are to replay a rejected
    obligation as a failing input, and to stand in where DESIGN.md says a function is outside the verifier's reach.
Exit 0: held; exit 1 + VIOLATION line: broken."""
import json, os, sys, subprocess, time, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, SPILL
import verus_run, kani_run

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
BIN = os.path.join(ROOT, 'harness/target/release/replay')

def build():
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(ROOT, 'harness'), capture_output=True, text=True)
    return p.returncode == 0, p.stderr[-3000:]

def explore(modes, ms, par, salt=0):
    """run all modes concurrently, `par` processes each; returns (failure or None, stats per mode)"""
    procs = []
    for k, m in enumerate(modes):
        for i in range(par):
            procs.append((m, subprocess.Popen([BIN, 'run', m, str(SEED * 1000003 + salt * 7919 + i), str(par), str(ms)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    fail, stats = None, {}
    for m, p in procs:
        try: out, _ = p.communicate(timeout=ms / 1000 + 90)
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate()
        j = None
        for l in out.split('\n'):
            if l.startswith('{"fail"') or l.startswith('{"stats"'):
                try: j = json.loads(l)
                except ValueError: j = {'fail': {'mode': m, 'seed': 0, 'msg': l[:500], 'case': ''}} if l.startswith('{"fail"') else None
        if j is None:
            j = {'fail': {'mode': m, 'seed': SEED, 'msg': 'the replay process died (exit %s)' % p.returncode, 'case': ''}}
        if 'fail' in j: fail = fail or j['fail']
        else:
            s = stats.setdefault(m, {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': []})
            s['evaluations'] += j['stats']['evaluations']; s['distinct_nontrivial'] += j['stats']['distinct_nontrivial']; s['samples'] = (s['samples'] + j['stats']['samples'])[:2]
    return fail, stats

def main():
    pid = sys.argv[1]; P = PROPS[pid]; t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    thorough = TIER == 'thorough'
    ms = (P.get('ms', 8000)) * (12 if thorough else 1)
    ex = ThreadPoolExecutor(8)
    units = [ex.submit(verus_run.run_unit, u) for u in P['units']] + [ex.submit(kani_run.run_unit, u) for u in P.get('kani', [])]
    fb = ex.submit(build) if P['modes'] else None
    fail, stats, berr = None, {}, ''
    if fb:
        ok, berr = fb.result()
        if ok: fail, stats = explore(P['modes'], ms, 2 if not thorough else 4)
        else: print('the harness does not build against this tree:\n' + berr)
    res = [u.result() for u in units]
    for r in res:
        # a unit proves several properties: a rejected obligation of a function this property does not speak about is not its violation
        if r.status == 'failed' and pid in SPILL.get(r.unit, {}):
            own = [x for x in r.failures if not re.search(SPILL[r.unit][pid], '%s | %s | %s' % (x['function'], x['obligation'], x['at']))]
            if own: r.reason = '%s: %s at `%s`' % (own[0]['function'], own[0]['obligation'], own[0]['at'])
            else: r.status, r.reason = 'undecided', 'obligation of another property rejected: ' + r.reason
    failed = [r for r in res if r.status == 'failed']
    undecided = [r for r in res if r.status == 'undecided']
    for r in res:
        print('unit %-14s %-9s verified=%d obligations=%d functions=%d probes=%d/%d solver_ms=%d wall=%.1fs %s' % (r.unit, r.status, r.verified, r.obligations, len(r.fns), r.probe_hits, r.probes, r.solver_ms, r.wall, r.reason))
    # a rejected obligation, or one the verifier could not decide: look harder for a concrete failing input
    if (failed or undecided) and not fail and P['modes'] and not berr:
        f2, s2 = explore(P['modes'], max(ms * 3, 25000 if failed else 0), max(2, 8 // len(P['modes'])), 1)
        fail = f2
        for m, s in s2.items():
            a = stats.setdefault(m, {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': []})
            a['evaluations'] += s['evaluations']; a['distinct_nontrivial'] += s['distinct_nontrivial']; a['samples'] = (a['samples'] + s['samples'])[:2]
    cex = next((r.counterexample for r in failed if getattr(r, 'counterexample', None)), None)
    viol = bool(fail or failed)
    proved = bool(res) and not failed and not undecided
    cov = {
        'obligations': sum(r.obligations for r in res), 'discharged': sum(r.obligations for r in res if r.status == 'proved'),
        'checker_cmd': '; '.join(sorted({r.cmd for r in res if r.cmd}))[:1500] or 'none',
        'trusted_base': sorted({a for r in res for a in r.axioms}) + P.get('trusted', []) + ['rustc, Verus/Z3 (Kani/CBMC where listed), vstd specifications of std', 'vp/tmpl.py: extraction and the listed rewrites'],
        'units': [{'unit': r.unit, 'backend': getattr(r, 'backend', 'Verus (Z3)'), 'status': r.status, 'reason': r.reason, 'functions_under_contract': r.fns, 'verified_items': r.verified, 'obligations': r.obligations,
                   'solver_ms': r.solver_ms, 'vacuity_probes': '%d/%d' % (r.probe_hits, r.probes), 'source_edits_by_extraction': r.edits} for r in res],
        'bounded_stand_in': {'label': 'bounded, not counted as proved', 'what': P.get('bounded', ''), 'modes': stats},
    }
    if stats:
        cov['evaluations'] = sum(s['evaluations'] for s in stats.values()); cov['distinct_nontrivial'] = sum(s['distinct_nontrivial'] for s in stats.values())
        cov['rule'] = 'bounded search: seeded random models/operation sequences run through the real crate against a brute-force oracle; non-trivial = has at least two variables, a feasible solution and at least 4 leaves (or at least a few operations), distinct by hash of the case'
        cov['samples'] = [x for s in stats.values() for x in s['samples']][:4]
    level = P['level']
    if level == 'proof' and not proved and not viol: level = 'exploration' if stats else 'other'; cov['explanation'] = 'the verifier did not decide this tree (%s): only the bounded search speaks' % '; '.join(r.reason for r in undecided)
    elif level == 'other': cov['explanation'] = P['explanation'] + (' | ALL OBLIGATIONS DISCHARGED' if proved else ' | some units undecided: ' + '; '.join(r.reason for r in undecided))
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': P['assume'], 'wall_s': round(time.time() - t0, 2), 'violations': int(viol)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    if viol:
        rp = os.path.join(ROOT, 'evidence', pid + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            if fail:
                f.write('failing input on the real code: mode=%s seed=%s\n%s\n%s\n' % (fail['mode'], fail['seed'], fail['msg'], fail['case']))
                f.write('replay: cd %s/harness && cargo build --release --offline && ./target/release/replay one %s %s 50\n' % (ROOT, fail['mode'], fail['seed']))
            if cex: f.write('verifier counterexample replayed on the real code: %s\n' % cex)
            for r in failed:
                f.write('\nfailed obligations of unit %s (%s)\n' % (r.unit, r.cmd))
                for x in r.failures: f.write('  %s\n' % json.dumps(x))
                f.write(r.output + '\n')
        if fail: print('failing input: mode=%s seed=%s: %s' % (fail['mode'], fail['seed'], fail['msg']))
        for r in failed: print('failed obligation: ' + r.reason)
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if fail or cex else ' no-failing-input-found'))
        sys.exit(1)
    print('%s: %s' % (pid, 'all obligations discharged' if proved else 'UNDECIDED by the verifier, nothing found by the bounded search (%s)' % '; '.join(r.reason for r in undecided)))
    sys.exit(0)
main()
