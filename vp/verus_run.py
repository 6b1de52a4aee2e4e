"""Runs one verification unit: extraction -> Verus, plus the vacuity probes."""
from concurrent.futures import ThreadPoolExecutor
import json, os, re, subprocess, time, tempfile, shutil
from rsx import Lost
from tmpl import Gen

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')

# verification failures (an obligation the solver rejects); anything else is a tool limit
REJECT = re.compile(r'(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|'
                    r'arithmetic underflow/overflow|division by zero|decreases not satisfied|bit shift|'
                    r'index out of bounds|unreachable|termination|possible overflow|cannot prove|could not prove)')

class Result:
    def __init__(self, unit):
        self.unit, self.status, self.reason = unit, None, ''
        self.fns, self.edits, self.failures = [], [], []
        self.verified, self.obligations, self.solver_ms, self.wall = 0, 0, 0, 0.0
        self.probes = self.probe_hits = 0
        self.axioms, self.output, self.cmd = [], '', ''

def _verus(path, extra, cwd):
    cmd = ['verus', path, '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--multiple-errors', '40', '--num-threads', '8'] + extra + ['--', '--error-format=json']
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=500)
    diags = []
    for l in p.stderr.split('\n'):
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except ValueError: pass
    try: out = json.loads(p.stdout)
    except ValueError: out = None
    return cmd, out, diags, p.stderr

def _err(d):
    return d.get('level') == 'error' and not d['message'].startswith('aborting due to')

def run_unit(unit, repo=REPO, keep=None):
    r = Result(unit)
    t0 = time.time()
    tpl = open(os.path.join(ROOT, 'proofs', unit + '.vrs')).read()
    try:
        g = Gen(repo); text = g.run(tpl)
        gp = Gen(repo, probe=True); ptext = gp.run(tpl)
    except Lost as e:
        r.status, r.reason = 'undecided', 'anchor lost: %s' % e
        return r
    r.fns, r.edits = g.fns, [e.__dict__ for e in g.edits]
    r.axioms = scan(text)
    d = tempfile.mkdtemp(prefix='vp_')
    try:
        f = os.path.join(d, unit + '.rs')
        open(f, 'w').write(text)
        log = os.path.join(d, 'log')
        ptext = re.sub(r'#\[verifier::rlimit\(\d+\)\]', '', ptext)
        open(os.path.join(d, unit + '_probe.rs'), 'w').write(ptext)
        dp = os.path.join(d, 'probe'); os.mkdir(dp)
        probing = ThreadPoolExecutor(1).submit(_verus, os.path.join(d, unit + '_probe.rs'), ['--rlimit', '5'], dp)
        cmd, out, diags, err = _verus(unit + '.rs', ['--rlimit', '60', '--log-dir', log, '--log', 'air'], d)
        r.cmd = ' '.join(cmd)
        errs = [x for x in diags if _err(x)]
        r.output = '\n'.join(x.get('rendered') or x['message'] for x in errs)[:20000]
        res = (out or {}).get('verification-results', {})
        r.verified = res.get('verified', 0)
        try: r.solver_ms = out['times-ms']['smt']['total']
        except (KeyError, TypeError): pass
        for x in os.listdir(log) if os.path.isdir(log) else []:
            r.obligations += len(re.findall(r'^\s*\(assert$', open(os.path.join(log, x)).read(), re.M))
        if out is None or res.get('encountered-vir-error') or not res:
            r.status, r.reason = 'undecided', 'not accepted by the verifier front end: ' + (errs[0]['message'] if errs else err[-300:])
        elif errs:
            rej = [x for x in errs if REJECT.search(x['message'])]
            lim = [x for x in errs if not REJECT.search(x['message'])]
            for x in rej:
                ln = next((s['line_start'] for s in x['spans'] if s['is_primary']), 0)
                lbl = next((s['label'] for s in x['spans'] if s.get('label')), '')
                where = next((n for a, b, n in g.spans if any(a <= s['line_start'] <= b for s in x['spans'] if s['is_primary'])), None)
                where = where or next((n for a, b, n in g.spans for s in x['spans'] if a <= s['line_start'] <= b), 'lemma')
                src = text.split('\n')[ln-1].strip() if ln else ''
                r.failures.append({'function': where, 'obligation': x['message'], 'at': src[:200], 'label': lbl})
            if rej: r.status = 'failed'; r.reason = '%s: %s at `%s`' % (r.failures[0]['function'], r.failures[0]['obligation'], r.failures[0]['at'])
            else: r.status, r.reason = 'undecided', 'solver limit: ' + lim[0]['message']
        elif res.get('success') and r.verified:
            r.status = 'proved'
        else: r.status, r.reason = 'undecided', 'no result'
        if r.status == 'proved':
            if g.ghost_assumes: r.status, r.reason = 'undecided', 'ghost text assumes: %s' % g.ghost_assumes
            # vacuity (a probe counts when `false` is not provable there, within a small resource limit): with `if vp_probe() { assert(false) }` at every entry and loop body each must fail
            _, out, diags, err = probing.result()
            lines = ptext.split('\n')
            hit = set()
            for x in diags:
                if _err(x) and x['message'] == 'assertion failed':
                    for s in x['spans']:
                        if 'vp_probe()' in lines[s['line_start']-1]: hit.add(s['line_start'])
                elif _err(x) and 'Resource limit' in x['message']:
                    for s in x['spans']:
                        for a, b, n in gp.spans:
                            if a <= s['line_start'] <= b: hit |= {i + 1 for i in range(a - 1, b) if 'vp_probe()' in lines[i]}
            r.probes, r.probe_hits = gp.probes, len(hit)
            if r.probe_hits < r.probes:
                want = {i + 1 for i, l in enumerate(lines) if 'if vp_probe()' in l}
                r.status, r.reason = 'undecided', 'vacuous contract: unreachable probe in %s' % sorted({n for w in want - hit for a, b, n in gp.spans if a <= w <= b})
    except subprocess.TimeoutExpired:
        r.status, r.reason = 'undecided', 'verifier time-out'
    finally:
        try: probing.exception()
        except Exception: pass
        shutil.rmtree(d, ignore_errors=True)
    r.wall = time.time() - t0
    return r

def scan(text):
    """every assumption in the verified text, mechanically"""
    out = []
    for m in re.finditer(r'assume_specification[^;]*?\[([^\]]+(?:\][^\]\(]*)?)\]\s*\(', text): out.append('assumed contract of external ' + ' '.join(m.group(1).split()))
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(fn|struct)\s+(\w+)', text):
        if m.group(2) != 'vp_probe': out.append('trusted (external_body) %s %s' % (m.group(1), m.group(2)))
    for m in re.finditer(r'#\[verifier::external_type_specification\]', text): out.append('external type specification')
    for m in re.finditer(r'\baxiom\s+fn\s+(\w+)', text): out.append('axiom ' + m.group(1))
    for m in re.finditer(r'\b(admit|assume)\s*\(', text): out.append(m.group(1) + '()')
    for m in re.finditer(r'//\s*TRUSTED:\s*(.*)', text): out.append(m.group(1))
    return sorted(set(out))

if __name__ == '__main__':
    import sys
    r = run_unit(sys.argv[1])
    print(r.unit, r.status, r.reason, '| fns', len(r.fns), 'verified', r.verified, 'obligations', r.obligations, 'smt ms', r.solver_ms, 'probes', r.probe_hits, '/', r.probes, 'wall %.1f' % r.wall)
    for a in r.axioms: print('  ASSUME', a)
    for f in r.failures: print('  FAIL', f)
    if r.status != 'proved': print(r.output[:3000])
