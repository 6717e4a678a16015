#!/usr/bin/env python3
"""Weave the contracts of /verif/overlay into the current source of /repo.

overlay/<module>.rs is the text of src/<module>.rs with ghost blocks:

    /*@ text @*/                      inserted at this place (contract, invariant, proof, attribute)
    /*@< text @*/ tokens /*@>@*/      the tokens between are replaced by text (a listed rewrite)

Only the ghost blocks are taken from the overlay; every other character of the
output is copied from the current source.  The place of a block is found by
aligning the overlay's tokens with the source's tokens, item by item (functions
are matched by name within their impl), so the code that is verified is the code
in /repo, not the overlay's copy of it.  What is dropped: #[cfg(test)] items,
#[cfg(test)] use statements, doc and other comments, items in the overlay that are
marked  /*@ #[verifier::external] @*/ are kept but not verified.
"""
import re, sys, difflib, json, os

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<ghost>/\*@(?:.|\n)*?@\*/)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*(?:.|\n)*?\*/)
 |(?P<str>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h)|b?"(?:[^"\\]|\\.|\\\n)*")
 |(?P<chr>b?'(?:[^'\\]|\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<p>.)
''', re.X)

class Tok:
    __slots__ = ('t', 's', 'e', 'k')
    def __init__(self, t, s, e, k): self.t, self.s, self.e, self.k = t, s, e, k
    def __repr__(self): return self.t

def lex(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        k = m.lastgroup if m.lastgroup != 'h' else 'str'
        if k not in ('ws', 'lc', 'bc'):
            out.append(Tok(m.group(0), i, m.end(), k))
        i = m.end()
    return out

OPEN, CLOSE = '([{', ')]}'

class Item:
    """key: identity within the parent; toks: own tokens (for containers: header only)"""
    def __init__(self, key, toks, kids=None, tail=None, closing=None):
        self.key, self.toks, self.kids, self.tail, self.closing = key, toks, kids, tail or [], closing

def skip_balanced(toks, i):
    d = 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'p':
            if t.t in OPEN: d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0: return i + 1
        i += 1
    raise ValueError('unbalanced')

def parse_items(toks, i, end):
    """-> list of Items, trailing ghost tokens"""
    items, start = [], i
    while i < end:
        j = i
        # leading ghosts / attributes / visibility
        names = []
        attrs = []
        while j < end:
            t = toks[j]
            if t.k == 'ghost': j += 1; continue
            if t.t == '#':
                k = j + 1
                if toks[k].t == '!': k += 1
                e = skip_balanced(toks, k)
                attrs.append(''.join(x.t for x in toks[j:e])); j = e; continue
            if t.t == 'pub':
                j += 1
                if j < end and toks[j].t == '(': j = skip_balanced(toks, j)
                continue
            break
        if j >= end: break
        # keyword
        k = j
        while toks[k].t in ('unsafe', 'async', 'default') or (toks[k].t == 'const' and toks[k+1].t == 'fn') or (toks[k].t == 'extern' and toks[k+1].k == 'str'):
            k += 2 if toks[k].t == 'extern' else 1
        kw = toks[k].t
        if kw == 'fn':
            name = next(x.t for x in toks[k+1:] if x.k == 'id')
            e = k
            while True:
                t = toks[e]
                if t.k == 'p' and t.t in '([': e = skip_balanced(toks, e); continue
                if t.k == 'p' and t.t == '{': e = skip_balanced(toks, e); break
                if t.k == 'p' and t.t == ';': e += 1; break
                e += 1
            it = Item(('fn', name), toks[i:e])
        elif kw in ('impl', 'trait') or (kw == 'mod' and any(x.t == '{' for x in toks[k:k+3])):
            e = k
            while not (toks[e].k == 'p' and toks[e].t == '{'):
                e = skip_balanced(toks, e) if toks[e].k == 'p' and toks[e].t in '([' else e + 1
            close = skip_balanced(toks, e) - 1
            kids, tail = parse_items(toks, e + 1, close)
            hdr = [x.t for x in toks[k:e] if x.k != 'ghost']
            if kw == 'impl':
                w = hdr.index('where') if 'where' in hdr else len(hdr)
                h = hdr[1:w]
                if h and h[0] == '<':
                    d = 0
                    for n, x in enumerate(h):
                        if x == '<': d += 1
                        elif x == '>' and h[n-1] != '-':
                            d -= 1
                            if d == 0: h = h[n+1:]; break
                h = [x for x in h if not x.startswith("'")]
                key = ('impl', ' '.join(h).replace('< >', '').replace('< ,', '<').replace('  ', ' '))
            else:
                key = (kw, hdr[1])
            it = Item(key, toks[i:e+1], kids, tail, toks[close])
            e = close + 1
        else:
            e = k
            while True:
                t = toks[e]
                if t.k == 'p' and t.t == '{' and kw in ('struct', 'enum', 'union'): e = skip_balanced(toks, e); break
                if t.k == 'p' and t.t in OPEN:
                    e = skip_balanced(toks, e)
                    if kw == 'macro_rules': break
                    continue
                if t.k == 'p' and t.t == ';': e += 1; break
                e += 1
            nm = ''.join(x.t for x in toks[k+1:e]) if kw in ('use', 'extern') else toks[k+1].t
            it = Item((kw, nm), toks[i:e])
        it.test = any(re.sub(r'\s', '', a) == '#[cfg(test)]' for a in attrs)
        items.append(it)
        i = e
    return items, [t for t in toks[i:end]]

def bound(toks):
    """names of local variables a function binds: parameters, let / for / closure / match-arm patterns.
    Only these may be renamed in ghost text: paths, types, variants, fields, methods and functions never,
    so that `Terminal` replaced by `NonTerminal` in the code does not change what the contract asks for."""
    t = [x.t for x in toks if x.k != 'ghost']
    k = [x.k for x in toks if x.k != 'ghost']
    out, never = set(), set()
    def var(i): return k[i] == 'id' and (t[i][0].islower() or t[i][0] == '_') and t[i] not in ('_', 'mut', 'ref', 'box')
    for i in range(len(t)):
        if k[i] != 'id': continue
        before = t[i-1] if i else ''
        if before == '.' or (before == ':' and i > 1 and t[i-2] == ':'): never.add(t[i])
        if i + 1 < len(t) and t[i+1] == '!': never.add(t[i])
        if i + 2 < len(t) and t[i+1] == ':' and t[i+2] == ':': never.add(t[i])
    def pattern(i, j):
        d = 0
        for n in range(i, j):
            if t[n] == '{': d += 1
            elif t[n] == '}': d -= 1
            elif var(n) and not (n + 1 < j and t[n+1] in ('(', '{', ':')):
                if d == 0 or t[n-1] == ':': out.add(t[n])
                else: never.add(t[n])           # a shorthand field
    def until(i, stops):
        d = 0
        while i < len(t):
            if d == 0 and t[i] in stops and not (t[i] == ':' and ':' in (t[i-1], t[i+1] if i + 1 < len(t) else '')): return i
            if t[i] in ('(', '[', '{'): d += 1
            elif t[i] in (')', ']', '}'):
                d -= 1
                if d < 0: return i
            i += 1
        return i
    first = True
    for i in range(len(t)):
        if t[i] == 'let': pattern(i + 1, until(i + 1, ('=', ':', ';')))
        elif t[i] == 'for': pattern(i + 1, until(i + 1, ('in', '{')))
        elif t[i] == '(' and first:
            first = False
            e = until(i + 1, ())
            for n in range(i + 1, e):
                if var(n) and t[n+1] == ':' and t[n+2] != ':' and t[n-1] != ':': out.add(t[n])
        elif t[i] == '|' and t[i-1] in ('(', ',', '=', '{', 'move'):
            e = until(i + 1, ('|',))
            for n in range(i + 1, e):
                if var(n) and t[n-1] in ('|', ',', '&', '(', 'mut'): out.add(t[n])
        elif t[i] == '=' and i + 1 < len(t) and t[i+1] == '>':
            n, d = i - 1, 0
            while n >= 0:
                if t[n] in (')', ']', '}'):
                    if d == 0 and t[n] == '}' and not (n + 1 < len(t) and t[n+1] in ('=', '|', 'if')): break
                    d += 1
                elif t[n] in ('(', '[', '{'):
                    if d == 0: break
                    d -= 1
                elif d == 0 and t[n] == ',': break
                n -= 1
            e = until(n + 1, ('if', '='))
            pattern(n + 1, min(e, i))
    return out - never

def brackets(t):
    """closing position -> opening position and back"""
    st, out = [], {}
    for i, x in enumerate(t):
        if x in ('(', '[', '{'): st.append(i)
        elif x in (')', ']', '}') and st:
            o = st.pop(); out[i] = o; out[o] = i
    return out

def guards(t):
    """number of match arms with a guard in a list of token texts"""
    n = 0
    for i, x in enumerate(t):
        if x != 'if': continue
        j, d = i + 1, 0
        while j + 1 < len(t):
            if d == 0 and t[j] == '=' and t[j+1] == '>': n += 1; break
            if t[j] in ('(', '['): d += 1
            elif t[j] in (')', ']'):
                d -= 1
                if d < 0: break
            elif t[j] in ('{', ';', '}'): break
            j += 1
    return n

class Weave:
    def __init__(self, src, ovl, name):
        self.src, self.name = src, name
        self.ins = []      # (offset, order, text)
        self.dels = []     # (s, e)
        self.guards = []
        self.lost, self.rewrites, self.renames, self.newfns, self.contracts = [], [], {}, [], []
        st = lex(src)
        assert not any(t.k == 'ghost' for t in st)
        self.sitems, _ = parse_items(st, 0, len(st))
        if ovl is None: ovl = ''
        ot = lex(ovl)
        self.oitems, self.otail = parse_items(ot, 0, len(ot))
        self.n = 0

    def run(self):
        self.pair(self.oitems, self.sitems, '')
        for t in self.otail:
            if t.k == 'ghost': self.add(len(self.src), ghost_text(t.t))
        return self.emit()

    def add(self, off, text):
        self.n += 1
        self.ins.append((off, self.n, text))

    def pair(self, os_, ss, path):
        ss2 = []
        for s in ss:
            if s.test: self.dels.append((s.toks[0].s, (s.closing or s.toks[-1]).e))
            else: ss2.append(s)
        ss = ss2
        os_ = [o for o in os_ if not o.test]
        pairs, used = [], set()
        for o in os_:
            m = next((i for i, s in enumerate(ss) if i not in used and s.key == o.key), None)
            if m is not None: used.add(m)
            pairs.append([o, m])
        for p in pairs:      # fuzzy: renamed items
            if p[1] is None and p[0].key[0] != 'use':
                best, bi = 0.6, None
                for i, s in enumerate(ss):
                    if i in used or s.key[0] != p[0].key[0]: continue
                    a = [t.t for t in flat(p[0]) if t.k != 'ghost']; b = [t.t for t in flat(s)]
                    r = difflib.SequenceMatcher(None, a, b, autojunk=False).ratio()
                    if r > best: best, bi = r, i
                if bi is not None:
                    p[1] = bi; used.add(bi)
                    self.renames[p[0].key[1]] = ss[bi].key[1]
        for o, m in pairs:
            where = path + '::' + o.key[1]
            if m is None:
                if any(t.k == 'ghost' for t in flat(o)) : self.lost.append(where)
                continue
            s = ss[m]
            self.align(o.toks, s.toks, where)
            if o.kids is not None and s.kids is not None:
                self.pair(o.kids, s.kids, where)
                for t in o.tail:
                    if t.k == 'ghost': self.add(s.closing.s, ghost_text(t.t))
        for i, s in enumerate(ss):
            if i not in used:
                if s.key[0] == 'fn': self.newfns.append(path + '::' + s.key[1])
                if s.kids is not None: self.pair([], s.kids, path + '::' + s.key[1])

    def align(self, ot, st, where):
        real = [t for t in ot if t.k != 'ghost']
        a = [t.t for t in real]; b = [t.t for t in st]
        mp = {}
        ren = {}
        if a == b:
            mp = {i: i for i in range(len(a))}
            ops = []
        else:
            ops = difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes()
            bset = set(b); aset = set(a)
            cand = {}
            for op, i1, i2, j1, j2 in ops:
                if op == 'equal':
                    for d in range(i2 - i1): mp[i1 + d] = j1 + d
                elif op == 'replace' and i2 - i1 == j2 - j1:
                    for d in range(i2 - i1):
                        x, y = real[i1 + d], st[j1 + d]
                        if x.k == y.k == 'id':
                            cand.setdefault(x.t, set()).add(y.t)
                            mp[i1 + d] = j1 + d
            # a closing bracket goes with its opening one
            ma, mb = brackets(a), brackets(b)
            for i in sorted(ma, reverse=True) + sorted(ma):
                o = ma[i]
                if o > i or o not in mp or mp[o] not in mb: continue
                j = mb[mp[o]]
                if mp.get(i) == j: continue
                lo = max((mp[k] for k in mp if k < i), default=-1); hi = min((mp[k] for k in mp if k > i), default=len(b))
                if lo < j < hi: mp[i] = j
            if cand and 'fn' in a and 'fn' in b:
                bo, bs = bound(real), bound(st)
                for x, ys in cand.items():
                    y = next(iter(ys))
                    if len(ys) == 1 and x not in bset and y not in aset and x in bo and y in bs: ren[x] = y
        if ren: self.renames.update({where + '/' + k: v for k, v in ren.items()})
        def rn(text):
            for x, y in ren.items(): text = re.sub(r'(?<![\w.])(?<!::)%s(?!\w)(?!\s*(?:\(|::|!(?!=)))' % re.escape(x), y, text)
            return text
        # walk the overlay
        idx, pend = 0, None
        n_ghost = 0
        for t in ot:
            if t.k != 'ghost': idx += 1; continue
            n_ghost += 1
            g = t.t
            if g.startswith('/*@<'):
                pend = (idx, rn(g[4:-3].strip('\n')))
            elif g.startswith('/*@>'):
                i0, text = pend; pend = None
                js = [mp.get(i) for i in range(i0, idx)]
                ok = all(j is not None for j in js) and js and js == list(range(js[0], js[0] + len(js))) and all(b[j] == (ren.get(a[i], a[i])) for i, j in zip(range(i0, idx), js))
                if ok:
                    s, e = st[js[0]].s, st[js[-1]].e
                    self.rewrites.append({'where': where, 'source': ' '.join(self.src[s:e].split()), 'verified_as': ' '.join(text.split())})
                    self.dels.append((s, e)); self.add(s, text)
                else:
                    self.lost.append(where + ' (rewrite of `%s`)' % ' '.join(a[i0:idx])[:80])
            else:
                text = rn(g[3:-3])
                # after the previous matched token or before the next one
                off = None
                if idx > 0 and (idx - 1) in mp and idx < len(a) and idx in mp and mp[idx] == mp[idx-1] + 1:
                    off = st[mp[idx]].s
                elif idx > 0 and (idx - 1) in mp and (hd := re.match(r'(\s*(hide\s*\([^;]*;|broadcast use [^;]*;))+', text)):
                    self.add(st[mp[idx-1]].e, hd.group(0)); text = text[hd.end():]          # must stay the first statements
                    off = st[mp[idx]].s if idx in mp else st[mp[idx-1]].e
                elif idx < len(a) and idx in mp:
                    off = st[mp[idx]].s
                    # an inserted statement before an anchored loop/brace: keep next to the next token
                elif idx > 0 and (idx - 1) in mp:
                    off = st[mp[idx-1]].e
                elif idx == 0:
                    off = st[0].s
                elif idx == len(a):
                    off = st[-1].e
                # a ghost statement stays a statement: not inside an expression
                if off is not None and idx > 0 and a[idx-1] in (';', '{', '}') and re.match(r'\s*(proof\b|let ghost\b|let tracked\b)', text) and re.search(r'[;}]\s*$', text):
                    j = next((n for n, x in enumerate(st) if x.s >= off), len(st))
                    opens = brackets(b)
                    while 0 < j < len(st) and b[j-1] not in (';', '{', '}'):
                        if b[j-1] == '>' and b[j-2] == '=': j = -1; break
                        j = opens[j-1] if b[j-1] in (')', ']') and j - 1 in opens else j - 1
                    off = None if j < 0 else st[j].s if j < len(st) else off
                # ghost arguments at the end of a call: written with or without a trailing comma before them
                if 0 < idx < len(a) and a[idx] == ')' and idx in mp and mp[idx] > 0:
                    pv = b[mp[idx] - 1]
                    if a[idx-1] == ',' and pv not in (',', '(') and text.strip().endswith(','): text = ', ' + text.strip()
                    elif a[idx-1] != ',' and pv == ',' and text.strip().startswith(','): text = text.strip()[1:]
                if off is None: self.lost.append(where + ' (ghost `%s`)' % ' '.join(text.split())[:60])
                else: self.add(off, text)
        if guards(b) > guards(a): self.guards.append(where)
        if n_ghost: self.contracts.append(where)

    def emit(self):
        ev = []
        for off, n, t in self.ins: ev.append((off, 1, n, t, None))
        for s, e in self.dels: ev.append((s, 0, 0, None, e))
        # insertions at s come before a deletion starting at s is skipped; order by offset
        out, pos = [], 0
        pts = sorted(ev, key=lambda x: (x[0], 0 if x[1] == 1 else 1, x[2]))
        for off, kind, n, t, e in pts:
            if off > pos: out.append(self.src[pos:off]); pos = off
            if kind == 1: out.append('\n' + t.rstrip() + '\n' if '\n' in t else ' ' + t.strip() + ' ')
            else: pos = max(pos, e)
        out.append(self.src[pos:])
        return ''.join(out)

def ghost_text(g): return g[3:-3]

def flat(it):
    out = list(it.toks)
    for k in it.kids or []: out += flat(k)
    return out + list(it.tail or [])

def weave(src_text, ovl_text, name):
    w = Weave(src_text, ovl_text, name)
    out = w.run()
    return out, w

def strip_ghost(ovl_text):
    """the overlay without its ghost blocks (to see how it differs from the source)"""
    return [t.t for t in lex(ovl_text) if t.k != 'ghost']

if __name__ == '__main__':
    out, w = weave(open(sys.argv[1]).read(), open(sys.argv[2]).read(), os.path.basename(sys.argv[1]))
    sys.stdout.write(out)
    sys.stderr.write(json.dumps({'lost': w.lost, 'renames': w.renames, 'newfns': w.newfns, 'rewrites': w.rewrites}, indent=1))
