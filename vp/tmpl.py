"""Template processor: turns a unit template (*.vrs) plus /repo's current source into
one Verus file.  Directives (each starts a line with @@):

  @@item FILE KIND NAME            copy a struct/enum/const definition
  @@fn FILE WHERE NAME             copy a function (WHERE: `-` free fn, else tokens of its impl header)
    @@as NEW                       rename it in the verified text
    @@spec TEXT                    contract text, put between signature and body
    @@plain                          leave the return type unnamed (Kani units)
    @@attr A                         attribute of the verifier (solver set-up only)
    @@sig {{PAT}} => {{REPL}}      edit of the signature (listed in the evidence)
    @@param TEXT                     ghost parameter(s) appended to the signature
    @@rewrite[?*] {{PAT}} => {{REPL}}   desugaring of executable text (listed in the evidence)
    @@loop[?] {{PAT ending in {}}  TEXT   loop contract, put before the loop body
    @@before[?] {{PAT}} TEXT / @@after[?] {{PAT}} TEXT / @@endof[?] {{PAT ending in {}} TEXT / @@entry TEXT
  @@end

Text inserted by spec/loop/before/after/endof/entry is ghost: it is checked to contain only
ghost constructs (proof blocks, assert, let ghost, invariant/decreases/requires/ensures).
`?` = the anchor may be missing, `*` = any number of matches, otherwise exactly one.
$x in TEXT/REPL stands for what $x matched; $p1.. are the parameter names (self excluded).
"""
import os, re
import locks
from rsx import *

class Unit: pass

def _parse_pat(s):
    m = re.match(r'\s*\{\{(.*?)\}\}(?!\})\s*(?:=>\s*\{\{(.*?)\}\}(?!\}))?', s, re.S)
    if not m: raise Exception('bad directive: ' + s[:80])
    return m.group(1), m.group(2), s[m.end():]

def _subst(text, b):
    if not b: return text
    def r(m):
        n = m.group(1)
        return b[n] if n in b else m.group(0)
    return re.sub(r'\$(?:\.\.\.)?([A-Za-z_][A-Za-z0-9_]*)', r, text)

def _txt(src, run): return src[run[0].a:run[-1].b] if run else ''

def _bt(src, b): return {k: _txt(src, v) for k, v in b.items()}

GHOST_BAD = re.compile(r'\b(assume|admit|external_body)\b')

class Edit:
    def __init__(self, kind, fn, before, after): self.kind, self.fn, self.before, self.after = kind, fn, before, after

class Gen:
    def __init__(self, repo, probe=False):
        self.repo, self.probe = repo, probe
        self.cache = {}
        self.fns = []        # dicts: name, file, line, endline
        self.edits = []      # desugarings applied
        self.out = []        # output chunks
        self.probes = 0
        self.spans = []      # (first line, last line, fn label)
        self.ghost_assumes = []

    def file(self, f):
        if f not in self.cache:
            p = os.path.join(self.repo, f)
            if not os.path.exists(p): raise Lost('file %s is gone' % f)
            s = open(p).read()
            self.cache[f] = (s, lex(s))
        return self.cache[f]

    def emit(self, s): self.out.append(s)
    def line(self): return sum(c.count('\n') for c in self.out) + 1

    def run(self, template):
        lines = template.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            st = l.strip()
            if st.startswith('@@item') or st.startswith('@@fn'):
                block = [st]
                i += 1
                while lines[i].strip() != '@@end': block.append(lines[i]); i += 1
                self.directive(block)
            elif st.startswith('@@require'):
                m = re.match(r'@@require\s+(\S+)\s+\{\{(.*?)\}\}', st)
                src, t = self.file(m.group(1))
                if not find(t, m.group(2)): raise Lost('%s: `%s` not found' % (m.group(1), m.group(2)))
            elif st.startswith('@@include'):
                p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'proofs', st.split()[1])
                self.run(open(p).read())
            else:
                self.emit(l + '\n')
            i += 1
        return ''.join(self.out)

    def directive(self, block):
        head = block[0].split(None, 1)
        ops, cur = [], None
        for l in block[1:]:
            m = re.match(r'\s*@@([a-z]+)([?*]?)(.*)$', l)
            if m: cur = [m.group(1), m.group(2), m.group(3)]; ops.append(cur)
            elif cur is None:
                if l.strip(): raise Exception('text before directive: ' + l)
            else: cur[2] += '\n' + l
        if head[0] == '@@item': self.item(head[1].split(), ops)
        else: self.fn(head[1], ops)

    def _edit(self, text, op, flag, arg, label, b0):
        pat, rep, _ = _parse_pat(arg)
        pat = _subst(pat, b0)
        t = lex(text)
        ms = find(t, pat)
        if flag == '' and len(ms) != 1: raise Lost('%s: pattern `%s` matches %d times' % (label, ' '.join(pat.split()), len(ms)))
        if flag == '?' and len(ms) > 1: raise Lost('%s: pattern `%s` matches %d times' % (label, ' '.join(pat.split()), len(ms)))
        for s, e, b in reversed(ms):
            d = dict(b0); d.update(_bt(text, b))
            new = _subst(rep, d)
            old = text[t[s].a:t[e-1].b]
            nl = old.count('\n') - new.count('\n')
            self.edits.append(Edit(op, label, ' '.join(old.split()), ' '.join(new.split())))
            text = text[:t[s].a] + new + text[t[e-1].b:]
        return text

    def item(self, a, ops):
        f, kind, name = a[0], a[1], a[2]
        src, t = self.file(f)
        s, e = find_item(src, t, kind, name, f)
        text = strip_attrs(src[t[s].a:t[e].b])
        for op, flag, arg in ops:
            if op in ('derive', 'attr'): continue
            if op != 'rewrite': raise Exception('bad op ' + op)
            text = self._edit(text, 'item', flag, arg, name, {})
        if kind in ('struct', 'enum') and not text.startswith('pub'): text = 'pub ' + text
        if kind == 'struct': text = pub_fields(text)
        for op, flag, arg in ops:
            if op == 'derive': text = '#[derive(%s)]\n' % arg.strip() + text
            if op == 'attr': text = '#[%s]\n' % arg.strip() + text
        self.emit('// ---- copied from %s\n' % f + text + '\n')

    def fn(self, arg, ops):
        m = re.match(r'(\S+)\s+(?:\{\{(.*?)\}\}|(\S+))\s+(\S+)$', arg.strip())
        f, where, name = m.group(1), m.group(2) or m.group(3), m.group(4)
        src, t = self.file(f)
        fn = find_fn(src, t, name, '' if where == '-' else where, f)
        label = name if where == '-' else '%s::%s' % (os.path.basename(f)[:-3], name)
        sig = strip_attrs(src[t[fn.i].a:t[fn.o].a])
        body = src[t[fn.o].a:t[fn.c].b]
        # parameters
        b0 = {}
        st = lex(sig)
        k = next(j for j in range(len(st)) if st[j].s == 'fn') + 2
        if st[k].s == '<':
            d = 0
            while True:
                if st[k].s == '<': d += 1
                elif st[k].s == '>': d -= 1
                elif st[k].s == '>>': d -= 2
                k += 1
                if d <= 0: break
        pc = match_close(st, k)
        n, j, start = 0, k + 1, True
        for j in range(k + 1, pc):
            if start and st[j].k == 'id' and st[j].s != 'mut':
                if st[j+1].s == ':':
                    n += 1; b0['p%d' % n] = st[j].s
                start = False
            if st[j].s == ',' and _depth(st, k + 1, j) == 0: start = True
        spec = ''
        newname = name
        ins = []
        nsig = 0
        for op, flag, a in ops:
            if op == 'as': newname = a.strip()
            elif op == 'spec': spec += _subst(a, b0)
            elif op == 'sig': sig = self._edit(sig, 'sig', flag, a, label, b0)
            elif op == 'param':
                z = lex(sig); q = next(j for j in range(len(z)) if z[j].s == 'fn') + 2
                if z[q].s == '<':
                    d = 0
                    while True:
                        d += {'<': 1, '>': -1, '>>': -2}.get(z[q].s, 0); q += 1
                        if d <= 0: break
                c = match_close(z, q)
                sig = sig[:z[c].a] + ('' if z[c-1].s in ('(', ',') else ', ') + a.strip() + sig[z[c].a:]
            elif op == 'locks':
                b1, nl = locks.desugar(body, label, a.split())
                if nl: self.edits.append(Edit('locks', label, '%d guard(s)' % nl, 'explicit vp_lock / vp_unlock at the guard\'s birth and death; token vp passed on'))
                body = b1
            elif op == 'rewrite': body = self._edit(body, 'rewrite', flag, a, label, b0)
        # name the result
        st = lex(sig)
        ar = [j for j in range(len(st)) if st[j].s == '->' and _depth(st, 0, j) == 0]
        if ar:
            j = ar[0]
            e = j + 1
            while e < len(st) and st[e].s != 'where': e += 1
            ty = sig[st[j+1].a:st[e-1].b]
            if not ty.startswith('(ret') and not any(o[0] == 'plain' for o in ops):
                sig = sig[:st[j+1].a] + '(ret: ' + ty + ')' + sig[st[e-1].b:]
        if newname != name: sig = re.sub(r'\bfn\s+' + name + r'\b', 'fn ' + newname, sig, 1)
        # insertions
        bt = lex(body)
        for idx, (op, flag, a) in enumerate(ops):
            if op in ('as', 'spec', 'sig', 'param', 'rewrite', 'plain', 'attr', 'locks'): continue
            if op == 'entry':
                ins.append((bt[0].b, idx, _subst(a, b0), 0)); continue
            pat, _, txt = _parse_pat(a)
            ms = find(bt, _subst(pat, b0))
            if len(ms) != 1 and not (flag == '?' and not ms) and flag != '*':
                raise Lost('%s: pattern `%s` matches %d times' % (label, ' '.join(pat.split()), len(ms)))
            for s, e, b in ms:
                d = dict(b0); d.update(_bt(body, b))
                x = _subst(txt, d)
                if op == 'before': p = bt[s].a
                elif op == 'after': p = bt[e-1].b
                elif op == 'loop':
                    if bt[e-1].s != '{': raise Exception('loop pattern must end in {')
                    p = bt[e-1].a
                    if self.probe and 'noprobe' not in flag: ins.append((bt[e-1].b, -1, ' if vp_probe() { assert(false); } ', 0)); self.probes += 1
                elif op == 'afterloop': p = bt[match_close(bt, e-1)].b
                elif op == 'endof': p = bt[match_close(bt, e-1)].a
                else: raise Exception('bad op ' + op)
                ins.append((p, idx, x, 0))
        if self.probe and 'vp-no-probe' not in spec:
            ins.append((bt[0].b, -2, ' if vp_probe() { assert(false); } ', 0)); self.probes += 1
        ins.sort(key=lambda z: (z[0], z[1]), reverse=True)
        for p, _, x, _ in ins: body = body[:p] + '\n' + x + '\n' + body[p:]
        # hide(..) must stay the first thing in the body
        if self.probe: body = re.sub(r'( if vp_probe\(\) \{ assert\(false\); \} )(\s*)((?:hide\([^;]*;\s*)+)', lambda m: m.group(3).rstrip() + m.group(1) + m.group(2), body, count=1)
        ghost = spec + ''.join(z[2] for z in ins)
        if GHOST_BAD.search(ghost): self.ghost_assumes.append(label)
        first = self.line()
        self.emit('// ---- %s:%d-%d (impl `%s`)\n' % (f, fn.line, fn.endline, where))
        for op, flag, a in ops:
            if op == 'attr': self.emit('#[%s]\n' % a.strip())
        self.emit(sig.rstrip() + '\n' + spec.rstrip() + '\n' + body + '\n')
        self.spans.append((first, self.line() - 1, label if newname == name else label + '[' + newname + ']'))
        self.fns.append({'fn': label, 'file': f, 'lines': [fn.line, fn.endline]})

def _depth(t, lo, j):
    d = 0
    for x in t[lo:j]:
        if x.k == 'op':
            if x.s in ('(', '[', '{', '<'): d += 1
            elif x.s in (')', ']', '}', '>'): d -= 1
            elif x.s == '>>': d -= 2
    return d

def strip_attrs(text):
    while True:
        t = lex(text)
        for i in range(len(t) - 1):
            if t[i].s == '#' and t[i+1].s == '[':
                e = match_close(t, i + 1)
                text = text[:t[i].a] + text[t[e].b:]
                break
        else: return text

def pub_fields(text):
    """visibility is widened to pub (the verifier wants contracts to see the fields)"""
    t = lex(text)
    o = next((i for i, x in enumerate(t) if x.s in ('{', '(') and x.k == 'op' and _depth(t, 0, i) == 0), None)
    if o is None: return text
    c = match_close(t, o)
    at, start = [], True
    for j in range(o + 1, c):
        if start:
            if t[j].s != 'pub': at.append(t[j].a)
            start = False
        if t[j].s == ',' and _depth(t, o + 1, j) == 0: start = True
    for a in reversed(at): text = text[:a] + 'pub ' + text[a:]
    return text
