"""Desugaring of parking_lot guards into explicit lock / unlock calls (directive @@locks).

  let [mut] G = E.critical.lock();        ->  let mut G = vp_lock(vp);   ... vp_unlock(G, vp) where the guard dies:
        at the end of the enclosing block, before every `return` in its scope, at drop(G)
  E.critical.lock().rest                  ->  { let mut vp_g = vp_lock(vp); let vp_r = vp_g.rest; vp_unlock(vp_g, vp); vp_r }
The guard's scope is Rust's; whatever does not fit these shapes is a lost anchor."""
from rsx import *

# the functions of the solvers that take the token
NAMES = ['initialize', 'best_lb', 'maybe_update_best', 'enqueue_cutset', 'process_one_node', 'notify_node_finished', 'get_workload', 'best_value', 'best_solution', 'best_upper_bound', 'best_lower_bound']
BLOCKY = ('if', 'match', 'loop', 'while', 'for', 'unsafe', '{')

def encl(t, i):
    """indices of the innermost enclosing brace pair"""
    d = 0
    for j in range(i - 1, -1, -1):
        if t[j].k == 'op' and t[j].s in CLOSE: d += 1
        elif t[j].k == 'op' and t[j].s in OPEN:
            if d == 0:
                if t[j].s != '{': raise Lost('lock() inside an expression')
                return j, match_close(t, j)
            d -= 1
    raise Lost('no enclosing block')

def skip(t, j):
    """index after the balanced token at j"""
    return match_close(t, j) + 1 if t[j].k == 'op' and t[j].s in OPEN else j + 1

def tail(t, lo, hi):
    """(start, is_value) of the last statement without `;` of t[lo:hi], or None"""
    i = lo
    while i < hi:
        s = i
        if t[i].s in BLOCKY:
            # header up to its block(s)
            while i < hi and t[i].s != '{': i = skip(t, i) if t[i].s != '{' else i
            i = skip(t, i)
            while i < hi and t[i].s == 'else':
                while t[i].s != '{': i = skip(t, i) if t[i].s != '{' else i
                i = skip(t, i)
            if i >= hi: return s
            if t[i].s in ('.', '?') or (t[i].k == 'op' and t[i].s in ('+', '-', '*', '==', '&&', '||')) and t[s].s == 'match':
                while i < hi and t[i].s != ';': i = skip(t, i)
                if i >= hi: return s
                i += 1
            elif t[i].s == ';': i += 1
            continue
        while i < hi and t[i].s != ';': i = skip(t, i)
        if i >= hi: return s
        i += 1
    return None

def guards(text, label):
    edits = 0
    while True:
        t = lex(text)
        m = None
        for i, x in enumerate(t):
            if x.s != 'let' or x.k != 'id': continue
            j = i
            while j < len(t) and t[j].s != ';' and not (t[j].k == 'op' and t[j].s in CLOSE): j = skip(t, j)
            for pat in ('let mut $g:id = $e.critical.lock();', 'let $g:id = $e.critical.lock();'):
                ms = [z for z in find(t, pat, i, j + 1) if z[0] == i]
                if ms and m is None: m = ms[0]
        if m is None: return text, edits
        s, e, b = m
        g = b['g'][0].s
        o, c = encl(t, s)
        lo, hi = e, c
        # drop(G)
        dr = [(x, y) for x, y, _ in find(t, 'drop(%s);' % g, e, c)]
        dropped = False
        if dr:
            if len(dr) > 1 or encl(t, dr[0][0])[0] != o: raise Lost('%s: conditional drop of a guard' % label)
            hi, dropped = dr[0][0], True
        ins = []   # (position, end, text)
        # returns in scope
        i = lo
        while i < hi:
            if t[i].k == 'id' and t[i].s == 'return':
                j = i + 1
                while not (t[j].k == 'op' and (t[j].s in (';', ',') or t[j].s in CLOSE)): j = skip(t, j)
                ex = text[t[i+1].a:t[j-1].b] if j > i + 1 else ''
                if ex: new = '{ let vp_r = %s; vp_unlock(%s, vp); return vp_r; }' % (ex, g)
                else: new = '{ vp_unlock(%s, vp); return; }' % g
                end = t[j-1].b if j > i + 1 else t[i].b
                if t[j].s == ';': end = t[j].b
                ins.append((t[i].a, end, new))
                i = j
                continue
            if t[i].k == 'id' and t[i].s in ('break', 'continue'):
                # the loop must lie inside the scope
                k, ok = i, False
                while True:
                    try: k, _ = encl(t, k)
                    except Lost: break
                    if k < lo: break
                    h = k - 1
                    while h >= lo and not (t[h].k == 'op' and t[h].s in (';', '{', '}')): h -= 1
                    if t[h+1].s in ('for', 'while', 'loop') or (t[h+1].k == 'life'): ok = True; break
                if not ok: raise Lost('%s: %s out of a guard scope' % (label, t[i].s))
            if t[i].s == '?' : raise Lost('%s: `?` in a guard scope' % label)
            i += 1
        if dropped: ins.append((t[dr[0][0]].a, t[dr[0][1]-1].b, 'vp_unlock(%s, vp);' % g))
        else:
            ts = tail(t, lo, hi)
            close = t[c].a
            if ts is None:
                # last statement a return? then the end is not reached
                k = c - 1
                last = None
                q = lo
                while q < c:
                    last = q
                    if t[q].s in BLOCKY:
                        break
                    while q < c and t[q].s != ';': q = skip(t, q)
                    q += 1
                # recompute properly: find the start of the last `;` statement
                st, q = None, lo
                while q < c:
                    st = q
                    if t[q].s in BLOCKY:
                        while q < c and t[q].s != '{': q = skip(t, q)
                        q = skip(t, q)
                        while q < c and t[q].s == 'else':
                            while t[q].s != '{': q = skip(t, q)
                            q = skip(t, q)
                        if q < c and t[q].s == ';': q += 1
                        continue
                    while q < c and t[q].s != ';': q = skip(t, q)
                    q += 1
                if not (st is not None and t[st].s == 'return'): ins.append((close, close, 'vp_unlock(%s, vp); ' % g))
            elif t[ts].s == 'return': pass
            elif t[ts].s in ('while', 'for'): ins.append((close, close, 'vp_unlock(%s, vp); ' % g))
            else:
                ins.append((t[ts].a, t[ts].a, 'let vp_r = '))
                ins.append((close, close, '; vp_unlock(%s, vp); vp_r ' % g))
        ins.append((t[s].a, t[e-1].b, 'let mut %s = vp_lock(vp);' % g))
        for a, z, new in sorted(ins, key=lambda x: (x[0], x[1]), reverse=True): text = text[:a] + new + text[z:]
        edits += 1

def temps(text, label):
    edits = 0
    while True:
        t = lex(text)
        ms = find(t, '.critical.lock()')
        if not ms: return text, edits
        s, e, _ = ms[0]
        # receiver: a path
        r = s
        while r > 0 and (t[r-1].k == 'id' and t[r-1].s not in ('return', 'let', 'in', 'if', 'match', 'while', 'else') or t[r-1].s in ('.', '&', '*') and t[r-2].k in ('op', 'id')):
            if t[r-1].s in ('&', '*') : break
            r -= 1
        # statement it belongs to
        p = r - 1
        while not (t[p].k == 'op' and t[p].s in (';', '{', '}')):
            if t[p].k == 'id' and t[p].s in ('match', 'if', 'while', 'for') : raise Lost('%s: a guard lives through %s' % (label, t[p].s))
            p -= 1
        o, c = encl(t, p + 1) if t[p].s != '{' else (p, match_close(t, p))
        q = p + 1
        while q < c and t[q].s != ';': q = skip(t, q)
        if len([1 for x, y, _ in ms if p < x < q]) > 1: raise Lost('%s: two guards in one statement' % label)
        if r == p + 1 and q < c:
            # the whole statement is guarded
            rest = text[t[e].a:t[q].b]
            text = text[:t[r].a] + '{ let mut vp_g = vp_lock(vp); vp_g' + rest + ' vp_unlock(vp_g, vp); }' + text[t[q].b:]
            text = text.replace('vp_g' + rest, 'vp_g' + rest, 1)
        else:
            k = e
            while k < c:
                if t[k].s == '.' and t[k+1].k in ('id', 'num'): k += 2
                elif t[k].k == 'op' and t[k].s in ('(', '['): k = match_close(t, k) + 1
                else: break
            rest = text[t[e].a:t[k-1].b]
            text = text[:t[r].a] + '{ let mut vp_g = vp_lock(vp); let vp_r = vp_g' + rest + '; vp_unlock(vp_g, vp); vp_r }' + text[t[k-1].b:]
        edits += 1

def desugar(text, label, names):
    names = names or NAMES
    a, n = guards(text, label)
    a, m = temps(a, label)
    # thread the token through
    for nm in names:
        i = 0
        while True:
            t = lex(a)
            hit = None
            for k in range(i, len(t) - 1):
                if t[k].s == nm and t[k+1].s == '(' and t[k-1].s in ('::', '.') and t[k-2].s in ('Self', 'self'): hit = k; break
            if hit is None: break
            c = match_close(t, hit + 1)
            sep = '' if t[c-1].s in ('(', ',') else ', '
            a = a[:t[c].a] + sep + 'vp' + a[t[c].a:]
            i = hit + 1
    return a, n + m
