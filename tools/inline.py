#!/usr/bin/env python3
"""Replace calls of a helper function that has no contract by the helper's body.

A function of the source that the overlay does not know (no contract) would make every caller undecided: a caller
is checked against the contract of what it calls.  Where the call can be replaced by the body without changing what
the code does, gen.py does so before the contracts are woven in, and lists it as `inlined`; every other call
is left alone (and the caller stays undecided).  Only helpers of the same file, with no type parameters but the caller's,
not recursive, called as  self.h(..)  Self::h(..)  Type::h(..)  h(..).

  parameters   name = argument when the argument is a variable or a literal, place when it is `&place` or `&mut place`
               (a path of variables and fields); otherwise  let name: Type = argument;
  early exits  `?`, `return` in the body only where they leave the caller with the same value: the call is the
               caller's result (same return type), or it is followed by `?` (same return type up to the Ok part, `Err` only)
"""
import re, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import weave

class No(Exception): pass

def txt(src, toks): return src[toks[0].s:toks[-1].e] if toks else ''
def norm(src, toks): return ' '.join(t.t for t in toks)

def close(toks, i):
    """index of the token closing the bracket at i"""
    return weave.skip_balanced(toks, i) - 1

def functions(items, path='', ty=None):
    for it in items:
        if it.test: continue
        if it.key[0] == 'fn': yield it, path + '::' + it.key[1], ty
        elif it.kids is not None and it.key[0] == 'impl':
            yield from functions(it.kids, path + '::' + it.key[1], it.key[1])

def signature(src, it):
    """-> dict(name, self, params [(mut, name, type toks)], ret toks, body toks (without braces), public)"""
    t = it.toks
    k = next(i for i, x in enumerate(t) if x.t == 'fn')
    pre = [x.t for x in t[:k]]
    i = k + 2
    tps = []
    if t[i].t == '<':
        d = 0
        while True:
            if t[i].t == '<': d += 1
            elif t[i].t == '>' and t[i-1].t != '-':
                d -= 1
                if d == 0: break
            elif t[i].k == 'id': tps.append(t[i].t)
            elif t[i].t not in (',', '<') and t[i].k != 'life': raise No('bounds')
            i += 1
        i += 1
    e = close(t, i)
    ps, cur, d = [], [], 0
    for x in t[i+1:e]:
        if x.t in ('(', '[', '{', '<'): d += 1
        if x.t in (')', ']', '}') or (x.t == '>' and cur and cur[-1].t != '-'): d -= 1
        if x.t == ',' and d == 0: ps.append(cur); cur = []
        else: cur.append(x)
    if cur: ps.append(cur)
    slf, params = None, []
    for p in ps:
        w = [x.t for x in p]
        if w[-1] == 'self' and ':' not in w: slf = w; continue
        c = w.index(':')
        pat = w[:c]
        mut = pat[0] == 'mut'
        if mut: pat = pat[1:]
        if len(pat) != 1 or p[c-1].k != 'id' or pat[0] == '_': raise No('pattern parameter')
        params.append((mut, pat[0], p[c+1:]))
    i = e + 1
    ret = []
    if t[i].t == '-' and t[i+1].t == '>':
        i += 2
        while t[i].t not in ('{', 'where'): ret.append(t[i]); i += 1
    while t[i].t != '{': i += 1
    b = close(t, i)
    if slf and 'mut' in slf and '&' not in slf: raise No('mut self')
    return dict(name=t[k+1].t, self=slf, params=params, ret=ret, body=t[i+1:b], tps=tps, public='pub' in pre, span=(t[0].s, t[-1].e))

BLOCK = ('if', 'match', 'for', 'while', 'loop', 'unsafe', '{')

def split(body):
    """-> (index where the tail expression starts) ; len(body) when there is none"""
    i, n = 0, len(body)
    while i < n:
        s = i
        if body[i].t in BLOCK or body[i].k == 'life':
            # a block-like statement
            while True:
                while body[i].t != '{':
                    i = close(body, i) + 1 if body[i].t in ('(', '[') else i + 1
                    if i >= n: return s
                if body[s].t == 'match' or True: i = close(body, i) + 1
                if i < n and body[i].t == 'else': i += 1; continue
                break
            if i >= n: return s
            if body[i].t in ('.', '?'): pass
            else:
                if body[i].t == ';': i += 1
                continue
        while i < n and body[i].t != ';':
            i = close(body, i) + 1 if body[i].t in ('(', '[', '{') and body[i].k == 'p' else i + 1
        if i >= n: return s
        i += 1
    return n

def exits(toks):
    """early exits of a function body: list of (index, kind)"""
    out = []
    for i, x in enumerate(toks):
        if x.t == '?' and x.k == 'p' and not (i and toks[i-1].t in ('<', '+', ':')): out.append((i, '?'))
        if x.t == 'return': out.append((i, 'return'))
    return out

def in_closure(toks, at):
    for i, x in enumerate(toks):
        if x.t == '|' and i and toks[i-1].t in ('(', ',', '=', '{', 'move', '>'):
            j = i + 1
            while toks[j].t != '|': j += 1
            d, j = 0, j + 1
            while j < len(toks):
                if toks[j].k == 'p' and toks[j].t in '([{': d += 1
                elif toks[j].k == 'p' and toks[j].t in ')]}':
                    d -= 1
                    if d < 0: break
                elif toks[j].t in (',', ';') and d == 0: break
                j += 1
            if i < at < j: return True
    return False

def top_binds(toks):
    """names bound by the let statements of a body (not in nested blocks)"""
    out, i, d = set(), 0, 0
    while i < len(toks):
        x = toks[i]
        if x.k == 'p' and x.t in '{': d += 1
        elif x.k == 'p' and x.t == '}': d -= 1
        elif d == 0 and x.t == 'let' and not (i and toks[i-1].t in ('if', 'while', '&')):
            j = i + 1
            while toks[j].t not in ('=', ';'):
                if toks[j].k == 'id' and (toks[j].t[0].islower() or toks[j].t[0] == '_') and toks[j].t not in ('mut', 'ref'): out.add(toks[j].t)
                if toks[j].t == ':' and toks[j+1].t != ':' and toks[j-1].t != ':' : break
                j += 1
        i += 1
    return out

def normal(src, it):
    """`if c { ..; return v; } rest`  ->  `if c { ..; v } else { rest }`  at the top of a helper's body; -> source or None"""
    t = it.toks
    e = len(t) - 1
    b = e
    # the opening brace of the body
    for j in range(len(t)):
        if t[j].t == '{' and close(t, j) == e: b = j; break
    i = b + 1
    while i < e:
        if t[i].t == 'if':
            j = i
            while t[j].t != '{': j = close(t, j) + 1 if t[j].t in ('(', '[') else j + 1
            c = close(t, j)
            if t[c+1].t != 'else' and c + 1 < e and t[c-1].t == ';':
                # last statement of the block
                k, d = c - 2, 0
                while k > j and not (d == 0 and t[k].t in (';', '{', '}')):
                    d += t[k].t in (')', ']', '}') and t[k].k == 'p'; d -= t[k].t in ('(', '[', '{') and t[k].k == 'p'
                    k -= 1
                if t[k+1].t == 'return' and k + 2 < c - 1 and t[k+2].t != 'Err':
                    return (src[:t[k+1].s] + src[t[k+2].s:t[c-2].e] + ' ' + src[t[c].s:t[c].e] + ' else {' + src[t[c].e:t[e].s] + '} ' + src[t[e].s:])
            i = c + 1
            continue
        i = close(t, i) + 1 if t[i].k == 'p' and t[i].t in '([{' else i + 1
    return None

def leaves(src, toks, render):
    """the text of a tail expression of type Result with the Ok taken off every leaf; None: not of that form"""
    if len(toks) > 2 and toks[0].t == 'Ok' and toks[1].t == '(' and close(toks, 1) == len(toks) - 1: return render(toks[2:-1])
    if len(toks) > 2 and toks[0].t == 'Err' and toks[1].t == '(' and close(toks, 1) == len(toks) - 1: return 'return ' + render(toks)
    if toks and toks[0].t == 'if':
        out, i = '', 0
        while True:
            j = i
            while toks[j].t != '{': j = close(toks, j) + 1 if toks[j].t in ('(', '[') else j + 1
            c = close(toks, j)
            inner = toks[j+1:c]
            ti = split(inner)
            l = leaves(src, inner[ti:], render)
            if l is None: return None
            out += render(toks[i:j]) + ' { ' + render(inner[:ti]) + ' ' + l + ' }'
            if c + 1 == len(toks): return out if 'else' in [x.t for x in toks[:j]] else None
            if toks[c+1].t != 'else': return None
            i = c + 1
            out += ' '
    if toks and toks[0].t not in BLOCK and postfix(toks): return render(toks) + '?'
    return None

def one(src, names):
    """one inlining step: -> (new source, log line) or None"""
    toks0 = weave.lex(src)
    items, _ = weave.parse_items(toks0, 0, len(toks0))
    fns = list(functions(items))
    for hit, hpath, hty in fns:
        if hpath not in names: continue
        nf = normal(src, hit)
        if nf: return nf, None, None
        try: h = signature(src, hit)
        except No: continue
        if any(x.t == h['name'] for x in h['body']): continue
        if any(x.t == '!' and h['body'][i-1].k == 'id' and h['body'][i-1].t not in ('panic', 'vec', 'assert', 'unreachable') and h['body'][i+1].t in ('(', '[', '{') for i, x in enumerate(h['body'][:-1])): continue
        # occurrences outside its own definition (not in tests)
        uses = [x for it, p, ty in fns if p != hpath for i, x in enumerate(it.toks) if x.t == h['name'] and x.k == 'id' and it.toks[i-1].t != 'fn'
                and (it.toks[i+1].t == '(' or it.toks[i-1].t == ':' or (hty is None and x.t not in weave.bound(it.toks)))]
        if not uses:
            s, e = h['span']
            return src[:s] + src[e:], None, hpath
        for it, p, ty in fns:
            if p == hpath or p in names and False: continue
            for i, x in enumerate(it.toks):
                if x.t != h['name'] or x.k != 'id' or i + 1 >= len(it.toks) or it.toks[i+1].t != '(': continue
                if it.toks[i-1].t == 'fn': continue
                note = {}
                try: r = call(src, it, ty, i, h, hty, note)
                except No as ex: continue
                return r, {'helper': hpath, 'into': p, 'bound': note.get('bound', [])}, None
    return None

def call(src, it, ty, i, h, hty, note):
    t = it.toks
    # receiver
    cs = i
    if t[i-1].t == '.':
        if not h['self'] or t[i-2].t != 'self' or t[i-3].t in ('.', '&', '*'): raise No('receiver')
        if ty != hty: raise No('other type')
        cs = i - 2
    elif t[i-1].t == ':' and t[i-2].t == ':':
        if h['self']: raise No('method as function')
        j = i - 3
        if t[j].t == '>':
            d = 0
            while True:
                d += t[j].t == '>'; d -= t[j].t == '<'
                if d == 0: break
                j -= 1
            if t[j-1].t != ':' or t[j-2].t != ':': raise No('path')
            j -= 3
        if t[j].t == 'Self':
            if ty != hty: raise No('other type')
        elif hty is None or t[j].t != hty.split()[0]: raise No('path')
        if t[j-1].t == ':': raise No('path')
        cs = j
        if ty != hty and any(x.t == 'Self' for x in h['body']): raise No('Self')
    else:
        if hty is not None: raise No('path')
    ce = close(t, i + 1) + 1
    if any(x not in [y.t for y in t] and x not in (ty or '').split() for x in h['tps']): raise No('type parameters')
    # arguments
    args, cur, d = [], [], 0
    for x in t[i+2:ce-1]:
        if x.k == 'p' and x.t in '([{': d += 1
        if x.k == 'p' and x.t in ')]}': d -= 1
        if x.t == ',' and x.k == 'p' and d == 0: args.append(cur); cur = []
        else: cur.append(x)
        if x.t == '|': raise No('closure argument')
    if cur: args.append(cur)
    if len(args) != len(h['params']): raise No('arguments')
    body = h['body']
    rest = [x.t for x in t[:cs] + t[ce:]]
    binds = weave.bound(body)
    binds |= {body[n+1].t for n, x in enumerate(body[:-1]) if x.t in ('let', 'mut', 'ref') and body[n+1].k == 'id'}
    sub, lets, letnames, mutated = {}, '', set(), set()
    for (mut, name, tp), a in zip(h['params'], args):
        w = [x.t for x in a]
        for q in letnames:
            if q in w: raise No('argument mentions a parameter')
        k = 0
        ref = w[0] == '&'
        if ref: k = 2 if len(w) > 1 and w[1] == 'mut' else 1
        place = len(w) > k and all((x.k == 'id' and n % 2 == 0) or (x.t == '.' and n % 2 == 1) for n, x in enumerate(a[k:])) and len(a[k:]) % 2 == 1
        simple = (place and not ref and len(w) == 1) or (len(w) == 1 and a[0].k in ('num', 'str', 'chr'))
        deref = len(w) == 2 and w[0] == '*' and a[1].k == 'id'
        if deref: simple, place = True, False
        root = w[k] if place else w[1] if deref else None
        if root is not None and root != 'self' and any(root in [y.t for y in b] for b in args if b is not a) and (deref or 'mut' in w): raise No('aliased argument')
        if name in binds: simple = place = False
        if root is not None and root in binds: simple = place = deref = False
        if mut and place and not ref and len(w) == 1 and root not in binds and not any(y.t == root for y in t[ce:]):
            # moved into a `mut` parameter and not used again: the variable itself, made mutable
            sub[name] = ('val', root)
            lets += 'let mut %s: %s = %s; ' % (root, txt2(src, [y for y in tp if y.k != 'life']), root)
            mutated.add(root)
        elif not mut and simple: sub[name] = ('val', txt(src, a))
        elif not mut and ref and place: sub[name] = ('ref', txt(src, a[k:]), ' '.join(w[:k]).replace('& mut', '&mut ').replace('& ', '&'))
        else:
            ts = [x for x in tp if x.k != 'life']
            tt = '' if any(x.t in ('impl', 'dyn') for x in ts) else ': ' + txt2(src, ts)
            lets += 'let %s%s%s = %s; ' % ('mut ' if mut else '', name, tt, txt(src, a))
            letnames.add(name)
    binds |= letnames
    note['bound'] = sorted(letnames)
    roots = [v[1].split('.')[0].strip() for v in sub.values() if v[0] == 'ref' and 'mut' in v[2]]
    if any([y.t for b in args for y in b].count(r) > 1 for r in mutated): raise No('aliased argument')
    if any(v[0] == 'val' and v[1] in roots for v in sub.values()): raise No('aliased argument')
    # fields or methods of the same name as a parameter are not the parameter
    def render(toks):
        if not toks: return ''
        out, pos = [], toks[0].s
        for n, x in enumerate(toks):
            if x.k == 'id' and x.t in sub and not (n and toks[n-1].t == '.' and not (n > 1 and toks[n-2].t == '.')) and not (n and toks[n-1].t == ':' and toks[n-2].t == ':'):
                nx = toks[n+1].t if n + 1 < len(toks) else ''
                pv = toks[n-1].t if n else ''
                if nx == ':' and not (n + 2 < len(toks) and toks[n+2].t == ':'): continue        # Struct { name: .. }
                s = sub[x.t]
                if pv in ('{', ',') and nx in (',', '}') and brace(toks, n):
                    out.append(src[pos:x.s] + x.t + ': ' + (s[1] if s[0] == 'val' else s[2] + s[1]) if s[1] != x.t or s[0] != 'val' else src[pos:x.e]); pos = x.e
                    continue
                if s[0] == 'val': r, st = ('(' + s[1] + ')' if s[1][0] == '*' and nx in ('.', '?', '[') else s[1]), x.s
                else:
                    pl, sg = s[1], s[2]
                    if nx == '.': r, st = pl, x.s
                    elif pv == '*' and n > 0: r, st = pl, toks[n-1].s
                    else: r, st = sg + pl, x.s
                out.append(src[pos:st] + r); pos = x.e
        out.append(src[pos:toks[-1].e])
        return ''.join(out)
    ti = split(body)
    ex = exits(body)
    # tests may look like  a.b?  inside types (?Sized) only: not in bodies
    fsig = None
    k = next(n for n, x in enumerate(t) if x.t == 'fn')
    j = k + 2
    while t[j].t != '(': j += 1
    j = close(t, j) + 1
    fret = []
    if t[j].t == '-' and t[j+1].t == '>':
        j += 2
        while t[j].t not in ('{', 'where'): fret.append(t[j]); j += 1
    rt = [x.t for x in h['ret'] if x.k != 'life']; ft = [x.t for x in fret if x.k != 'life']
    prev = t[cs-1].t
    nxt = t[ce].t if ce < len(t) else ''
    q = nxt == '?'
    if q: ce += 1; nxt = t[ce].t
    stmt = prev in ('{', '}', ';') and not (prev == '{' and lit_brace(t, cs - 1))
    last = ce == len(t) - 1
    unit = not h['ret'] or rt == ['(', ')']
    st_toks, tail = body[:ti], body[ti:]
    A, B = t[cs].s, t[ce-1].e        # the text replaced
    tops = top_binds(st_toks) | letnames
    def conflict(extra=()): return (tops - set(extra)) & set(rest)
    def out(a, b, new): return src[:a] + new + src[b:]
    def err_type(r): return r[:1] == ['Result'] and split_result(r)
    isret = prev == 'return' and nxt in (';', '}') and t[cs-2].t in ('{', '}', ';')
    # early exits
    if ex:
        if any(in_closure(body, n) for n, kd in ex): raise No('exit in a closure')
        if q:
            a, b = err_type(rt), err_type(ft)
            if not a or not b or a[1] != b[1]: raise No('other error type')
            for n, kd in ex:
                if kd == 'return' and body[n+1].t != 'Err': raise No('return')
        elif (stmt and last) or isret:
            if rt != ft: raise No('other return type')
        else: raise No('early exit')
    elif q:
        a, b = err_type(rt), err_type(ft)
        if rt[:1] != ['Option'] and (not a or not b or a[1] != b[1]): raise No('other error type')
        if rt[:1] == ['Option']: raise No('option')
    S = lets + render(st_toks)
    if q:
        if len(tail) > 2 and tail[0].t == 'Ok' and tail[1].t == '(' and close(tail, 1) == len(tail) - 1:
            inner = tail[2:-1]
            T = render(inner)
            if [x.t for x in inner] == ['(', ')']: T = '()'
            blocky = bool(inner) and inner[0].t in BLOCK
        elif leaves(src, tail, render) is not None:
            T = leaves(src, tail, render)
        else:
            T = '({ let inlined_res: %s = %s; inlined_res })?' % (txt2(src, [x for x in h['ret'] if x.k != 'life']), render(tail))
            if any(n >= ti for n, kd in ex): pass
        unit_now = T == '()'
    else:
        T = render(tail)
        unit_now = unit
    tail_ids = [x.t for x in tail]
    if stmt and nxt == ';':
        if T == '()' : T = ''
        if T and not (tail and tail[0].t in BLOCK and not q): T += ';'
        new = S + ' ' + T
        if conflict(): new = '{ ' + new + ' }'
        return out(A, t[ce].e, new)
    if stmt and nxt == '}':
        if conflict() and not last: new = '{ ' + S + ' ' + T + ' }'
        else: new = S + ' ' + T
        if unit and T and not q and last is False and not T.rstrip().endswith(('}', ';')): new += ';' if not conflict() else ''
        return out(A, B, new)
    if isret:
        return out(t[cs-1].s, B, S + ' return ' + T) if T and not unit else out(t[cs-1].s, B, S + ' ' + (T + ';' if T else '') + ' return')
    if prev == '=' :
        n = cs - 2
        while n >= 0 and t[n].t not in (';', '{', '}', 'let'): n -= 1
        if n >= 0 and t[n].t == 'let' and t[n-1].t in (';', '{', '}') and nxt == ';':
            pat = [x.t for x in t[n+1:cs-1]]
            if pat[:1] == ['mut']: pat = pat[1:]
            if ':' in pat: pat = pat[:pat.index(':')]
            c = conflict(pat if len(pat) == 1 else ())
            if not c or (len(pat) == 1 and T.strip() == pat[0] and not (tops - set(pat)) & set(rest)):
                if len(pat) == 1 and T.strip() == pat[0]: return out(t[n].s, t[ce].e, S)
                return out(t[n].s, B, S + ' ' + src[t[n].s:t[cs-1].e] + ' ' + T)
            return out(A, B, '{ ' + S + ' ' + T + ' }')
        if n >= 0 and t[n].t in (';', '{', '}') and nxt == ';' and not conflict() and all(x.k == 'id' or x.t == '.' for x in t[n+1:cs-1]):
            return out(t[n+1].s, B, S + ' ' + src[t[n+1].s:t[cs-1].e] + ' ' + T)
    if any(kd == 'return' for n, kd in ex): raise No('early exit in an expression')
    if S.strip() == '':
        if prev in ('(', ',', '=', '>', 'if', 'match', 'return', 'in') and nxt in (')', ',', ';', '{', '}') and not (nxt == '{' and '{' in T) and not T.startswith('return'):
            return out(A, B, T)
        return out(A, B, '(' + T + ')')
    if prev == '>' and t[cs-2].t == '=': return out(A, B, '{ ' + S + ' ' + T + ' }')
    return out(A, B, '({ ' + S + ' ' + T + ' })')

def postfix(toks):
    i, want = 0, True
    while i < len(toks):
        x = toks[i]
        if x.k == 'p' and x.t in ('(', '['):
            i = close(toks, i) + 1; continue
        if x.k == 'id' or x.t in ('.', ':', '?'): i += 1; continue
        return False
    return True

def split_result(r):
    """['Result','<',..,',',..,'>'] -> [ok, err]"""
    if r[1:2] != ['<'] or r[-1] != '>': return None
    parts, d, cur = [], 0, []
    for n, x in enumerate(r[2:-1]):
        if x in ('<', '(', '['): d += 1
        if x in ('>', ')', ']'): d -= 1
        if x == ',' and d == 0: parts.append(cur); cur = []
        else: cur.append(x)
    parts.append(cur)
    parts = [p for p in parts if p]
    return parts if len(parts) == 2 else None

def txt2(src, toks):
    out, pos = [], None
    for x in toks:
        if pos is not None and src[pos:x.s].strip() == '' and x.s > pos: out.append(' ')
        out.append(x.t); pos = x.e
    return ''.join(out)

def brace(toks, n):
    """is token n directly inside the braces of a struct literal?"""
    d = 0
    for m in range(n - 1, -1, -1):
        x = toks[m]
        if x.k != 'p': continue
        if x.t in ')]}': d += 1
        elif x.t in '([{':
            if d == 0: return x.t == '{' and m > 0 and lit_brace(toks, m)
            d -= 1
    return False

def lit_brace(toks, m):
    p = toks[m-1]
    return p.k == 'id' and (p.t[0].isupper()) and not any(x.t in ('if', 'match', 'while', 'for', 'impl') for x in toks[max(0, m-6):m])

def inline(src, ovl, name):
    w = weave.Weave(src, ovl, name); w.run()
    names = set(w.newfns)
    log = []
    if not names: return src, log
    for _ in range(40):
        r = one(src, names)
        if r is None: break
        if r[1]: log.append(r[1])
        src = r[0]
        if r[2]: names.discard(r[2])
    return src, log

if __name__ == '__main__':
    s, l = inline(open(sys.argv[1]).read(), open(sys.argv[2]).read(), 'x')
    print(s); print(l, file=sys.stderr)
