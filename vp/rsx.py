"""Token-level Rust extractor used by the verification units.

It never re-writes Rust by hand: it copies source text out of /repo's working
tree and applies the *listed* edits of a template (see tmpl.py).  Everything is
done on a token stream, so comments and white space never matter.
"""
import re

class Lost(Exception):
    """An anchor (function, struct, pattern) is not in the current source."""

_TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*)
  | (?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
  | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
  | (?P<num>\d[\dA-Za-z_]*(?:\.\d[\dA-Za-z_]*)?)
  | (?P<meta>\$\.\.\.[a-z_0-9]*|\$[A-Za-z_][A-Za-z0-9_]*(?::id)?)
  | (?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|\.\.|[-+*/%^!&|=<>@.,;:\#$?~\\]|[(){}\[\]])
''', re.X | re.S)

class Tok:
    __slots__ = ('k', 's', 'a', 'b')
    def __init__(self, k, s, a, b): self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self): return self.s

def lex(src):
    out, i, n = [], 0, len(src)
    while i < n:
        m = _TOK.match(src, i)
        if not m: raise Lost('cannot tokenize near %r' % src[i:i+30])
        k = m.lastgroup
        if k == 'h': k = 'rstr'
        if k == 'bc':
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        if k not in ('ws', 'lc'):
            s = m.group(0)
            if s == '>>' or s == '>>=' or s == '&&' or s == '||' or s == '>=':
                pass
            out.append(Tok(k, s, m.start(), m.end()))
        i = m.end()
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}

def match_close(t, i):
    """index of the token closing the bracket opened at i"""
    d = 0
    for j in range(i, len(t)):
        if t[j].s in OPEN and t[j].k == 'op': d += 1
        elif t[j].s in CLOSE and t[j].k == 'op':
            d -= 1
            if d == 0: return j
    raise Lost('unbalanced brackets')

def find(t, pat, lo=0, hi=None):
    """All non-overlapping matches of the token pattern `pat` in t[lo:hi].
    $x matches a shortest non-empty balanced run, $...x a possibly empty one, $x:id one identifier;
    a metavariable used twice must match the same tokens. Yields (start, end, binding)."""
    hi = len(t) if hi is None else hi
    p = lex(pat) if isinstance(pat, str) else pat
    res, i = [], lo
    while i < hi:
        m = _m(t, i, hi, p, 0, {})
        if m is not None:
            e, b = m
            res.append((i, e, b)); i = max(e, i + 1)
        else: i += 1
    return res

def _same(x, y): return len(x) == len(y) and all(a.s == b.s for a, b in zip(x, y))

def _m(t, i, hi, p, j, b):
    while j < len(p):
        q = p[j]
        if q.k == 'meta':
            s = q.s
            if s.endswith(':id'):
                name = s[1:-3]
                if i >= hi or t[i].k != 'id': return None
                run = t[i:i+1]
                if name in b:
                    if not _same(b[name], run): return None
                else: b = dict(b); b[name] = run
                i += 1; j += 1; continue
            empty_ok = s.startswith('$...')
            name = s[4:] if empty_ok else s[1:]
            if name and name in b:
                run = b[name]
                if not _same(run, t[i:i+len(run)]): return None
                i += len(run); j += 1; continue
            # lazily extend a balanced run
            k = i
            if empty_ok:
                r = _m(t, i, hi, p, j + 1, _bind(b, name, []))
                if r is not None: return r
            while k < hi:
                if t[k].k == 'op' and t[k].s in CLOSE: return None
                if t[k].k == 'op' and t[k].s in OPEN: k = match_close(t, k) + 1
                else: k += 1
                if k > hi: return None
                r = _m(t, k, hi, p, j + 1, _bind(b, name, t[i:k]))
                if r is not None: return r
            return None
        if i >= hi or t[i].s != q.s: return None
        i += 1; j += 1
    return i, b

def _bind(b, name, run):
    if not name: return b
    b = dict(b); b[name] = run; return b

class Fn:
    """A function found in a source file."""
    def __init__(self, src, toks, i, o, c, path, name):
        self.src, self.t = src, toks
        self.i, self.o, self.c = i, o, c       # 'fn' (or its qualifier) token, '{', '}'
        self.path, self.name = path, name
        self.line = src.count('\n', 0, toks[i].a) + 1
        self.endline = src.count('\n', 0, toks[c].b) + 1

def impls(t):
    """(header tokens, open, close) of every impl block / trait block."""
    out = []
    for i, x in enumerate(t):
        if x.k == 'id' and x.s in ('impl', 'trait') and (i == 0 or t[i-1].s in ('}', ';', ']', 'pub', '{', ')')):
            j = i
            while t[j].s != '{': j += 1
            out.append((t[i:j], j, match_close(t, j)))
    return out

def _in_test(t, i):
    """is token i inside a #[cfg(test)] module?"""
    for s, e, _ in find(t, '#[cfg(test)] mod $m:id {'):
        if s < i <= match_close(t, e - 1): return True
    return False

def find_fn(src, t, name, where=None, path=''):
    """function `name`; `where` is a token pattern the impl header must contain ('' = free function)."""
    spans = impls(t)
    c = []
    for i, x in enumerate(t):
        if x.s == 'fn' and i + 1 < len(t) and t[i+1].s == name and not _in_test(t, i):
            encl = [sp for sp in spans if sp[1] < i < sp[2]]
            if where is None: ok = True
            elif where == '': ok = not encl
            else: ok = bool(encl) and bool(find(encl[-1][0], where))
            if not ok: continue
            j = i
            while t[j].s not in ('{', ';'):
                if t[j].s in ('(', '['): j = match_close(t, j)
                j += 1
            if t[j].s == ';': continue
            s = i
            while s > 0 and (t[s-1].s in ('pub', 'const', 'unsafe', 'async')): s -= 1
            c.append(Fn(src, t, s, j, match_close(t, j), path, name))
    if len(c) != 1: raise Lost('function %s%s: %d definitions in %s' % (name, ' in `%s`' % where if where else '', len(c), path))
    return c[0]

def find_item(src, t, kind, name, path=''):
    """struct / enum / const / static / type definition, attributes dropped."""
    for i, x in enumerate(t):
        if x.s == kind and x.k == 'id' and t[i+1].s == name:
            s = i
            if s > 0 and t[s-1].s == 'pub': s -= 1
            j = i
            while t[j].s not in ('{', ';', '('): j += 1
            if t[j].s == '(':
                j = match_close(t, j)
                while t[j].s != ';': j += 1
            elif t[j].s == '{': j = match_close(t, j)
            return s, j
    raise Lost('%s %s not found in %s' % (kind, name, path))

def calls(t):
    """names called (f(..), .f(..), X::f(..)) in a token list"""
    return {t[i].s for i in range(len(t) - 1) if t[i].k == 'id' and t[i+1].s == '('}
