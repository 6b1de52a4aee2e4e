"""Kani units: proofs/NAME.kani.rs with {{EXTRACT file kind name}} placeholders, run full-domain (loop-free) or with stated unwind."""
import os, re, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
from rsx import Lost
from tmpl import Gen
from verus_run import Result, REPO, ROOT

def run_unit(unit, repo=REPO, limit=240):
    r = Result(unit); r.backend = 'Kani (CBMC)'; t0 = time.time()
    tpl = open(os.path.join(ROOT, 'proofs', unit + '.krs')).read()
    try:
        g = Gen(repo); text = g.run(tpl)
    except Lost as e:
        r.status, r.reason = 'undecided', 'anchor lost: %s' % e; return r
    r.fns, r.edits = g.fns, [e.__dict__ for e in g.edits]
    d = tempfile.mkdtemp(prefix='vpk_')
    try:
        f = os.path.join(d, unit + '.rs'); open(f, 'w').write(text)
        names = re.findall(r'#\[kani::proof\](?:\s*#\[[^\]]*\])*\s*fn\s+(\w+)', text)
        r.cmd = 'kani %s.rs -Z function-contracts' % unit
        def one(n):
            e = os.path.join(d, n); os.mkdir(e); shutil.copy(f, e)
            p = subprocess.Popen(['timeout', str(limit), 'kani', os.path.join(e, unit + '.rs'), '-Z', 'function-contracts', '--harness', n], cwd=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return p.communicate()[0]
        with ThreadPoolExecutor(6) as ex: out = '\n'.join(ex.map(one, names))
        r.output = out[-20000:]
        harn = re.findall(r'Checking harness (\S+?)\.\.\.', out)
        ok = len(re.findall(r'VERIFICATION:- SUCCESSFUL', out)); bad = len(re.findall(r'VERIFICATION:- FAILED', out))
        want = len(re.findall(r'#\[kani::proof', text))
        for a, b in re.findall(r'\*\* (\d+) of (\d+) failed', out): r.obligations += int(b)
        cov = re.findall(r'\*\* (\d+) of (\d+) cover properties satisfied', out)
        r.probes = sum(int(b) for a, b in cov); r.probe_hits = sum(int(a) for a, b in cov)
        r.solver_ms = int(sum(float(x) for x in re.findall(r'Verification Time: ([\d.]+)s', out)) * 1000)
        r.verified = ok
        for m in re.finditer(r'Check \d+: (\S+)\s*\n\s*- Status: FAILURE\s*\n\s*- Description: "([^"]*)"\s*\n(?:\s*- Location: (.*))?', out):
            r.failures.append({'function': m.group(1), 'obligation': m.group(2), 'at': (m.group(3) or '').strip(), 'label': ''})
        unw = [x for x in r.failures if 'unwinding' in x['obligation'] or 'unsupported' in x['obligation'].lower()]
        if bad and r.failures and not unw:
            r.status = 'failed'; r.reason = '%s: %s' % (r.failures[0]['function'], r.failures[0]['obligation'])
        elif ok == want and want and r.obligations and not bad and r.probe_hits == r.probes: r.status = 'proved'
        else: r.status, r.reason = 'undecided', 'kani gave no verdict: %d/%d harnesses, probes %d/%d: %s' % (ok, want, r.probe_hits, r.probes, out.strip().split('\n')[-1][:300])
    except subprocess.TimeoutExpired:
        r.status, r.reason = 'undecided', 'kani time-out'
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r.wall = time.time() - t0
    return r
if __name__ == '__main__':
    import sys
    r = run_unit(sys.argv[1]); print(r.unit, r.status, r.reason, r.verified, r.obligations, r.solver_ms, r.probe_hits, r.probes, '%.1f' % r.wall); print(r.output[-3000:])
