#!/usr/bin/env python3
"""Generate the crate Verus checks: gen.py REPO OUTDIR [modules]"""
import os, sys, re, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import weave, inline
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['errors', 'sets', 'parser_data', 'peekables', 'parse_funcs', 'simple_graph', 'named_graph', 'tree',
           'first_sets', 'follow_sets', 'steuer_sets', 'steuer_map', 'script_parser', 'rule_parsing',
           'vms', 'vms/counting_vm', 'vms/simple_stack_vm', 'vms/stack_vm']

# provided trait methods and other std methods Verus has no contract slot for: x.m(..) is checked as x.v_m(..)
METHODS = {'enumerate', 'peekable', 'extend', 'fetch_add', 'difference', 'copied', 'cloned', 'join', 'position'}

def mechanical(text):
    """Rewrites applied to every source file (and its overlay) before weaving; none changes a line break."""
    toks = weave.lex(text)
    code = [t for t in toks if t.k != 'ghost']
    ed, log = [], []          # (start, end, text)
    dead = []                 # what follows  continue;  or  break;  in a block is never executed
    for i, t in enumerate(code):
        if t.t in ('continue', 'break') and i + 2 < len(code) and code[i+1].t == ';' and code[i+2].t != '}':
            d, j = 0, i + 2
            while j < len(code):
                d += code[j].t in ('(', '[', '{'); d -= code[j].t in (')', ']', '}')
                if d < 0: break
                j += 1
            if j < len(code) and code[j].t == '}' and not any(code[i+1].e <= g.s < code[j].s for g in toks if g.k == 'ghost') and not (dead and dead[-1][1] >= code[i+1].e):
                dead.append((code[i+1].e, code[j].s))
    if dead:
        for s, e in reversed(dead): text = text[:s] + re.sub(r'[^\n]', ' ', text[s:e]) + text[e:]
        log.append('statements behind continue or break: dropped')
        toks = weave.lex(text); code = [t for t in toks if t.k != 'ghost']
    at = {}
    for i, t in enumerate(code): at[t.s] = i
    n = len(code)
    def tk(i): return code[i].t if 0 <= i < n else ''
    for i in range(n):
        t = tk(i)
        if t == '.' and tk(i+1) in METHODS and tk(i+2) in ('(', ':'):
            ed.append((code[i+1].s, code[i+1].e, 'v_' + tk(i+1))); log.append('.%s( -> .v_%s(' % (tk(i+1), tk(i+1)))
        elif t == 'println' and tk(i+1) == '!' and tk(i+2) == '(' and tk(i+4) == ')' and tk(i+5) == ';' and re.fullmatch(r'"\{\w+\}"', tk(i+3)):
            x = tk(i+3)[2:-2]
            ed.append((code[i].s, code[i+5].e, 'v_println(&%s); proof { out = out.push(%s as int); }' % (x, x))); log.append('println!("{x}"); -> v_println(&x); the number goes into the ghost trace of what is printed')
        elif t == '|' and tk(i+1) == '_' and tk(i+2) == '|' and tk(i-1) in ('(', ',', '=', 'move'):
            ed.append((code[i+1].s, code[i+1].e, '_u')); log.append('|_| -> |_u|')
        elif t == '_' and tk(i+1) == '=' and tk(i+2) != '>' and tk(i-1) in ('{', '}', ';'):
            ed.append((code[i].s, code[i].s, 'let ')); log.append('_ = e -> let _ = e')
        elif t == 'for' and tk(i+1) not in ('<',) and tk(i-1) in ('{', '}', ';', ':', '>'):
            j, d = i + 1, 0
            while j < n and not (tk(j) == 'in' and d == 0):
                d += tk(j) in '([{' and len(tk(j)) == 1; d -= tk(j) in ')]}' and len(tk(j)) == 1
                if tk(j) in ('{', ';'): break
                j += 1
            if tk(j) != 'in': continue
            k, d = j + 1, 0
            while k < n and not (tk(k) == '{' and d == 0):
                d += tk(k) in ('(', '['); d -= tk(k) in (')', ']'); k += 1
            lets = ''
            for m in range(i + 1, j):
                if tk(m) == '&' and code[m+1].k == 'id' and tk(m+1) not in ('mut',):
                    v = tk(m+1)
                    ed.append((code[m].s, code[m+1].e, v + '_r')); lets += ' let %s = *%s_r;' % (v, v)
                    log.append('for &%s in e {..} -> for %s_r in e { let %s = *%s_r; ..}' % (v, v, v, v))
                if tk(m) == '_':
                    ed.append((code[m].s, code[m].e, '_for')); log.append('for _ in -> for _for in')
            if lets and k < n: ed.append((code[k].e, code[k].e, lets))
    # P if c => A, P => B   is checked as   P => if c { A } else { B }
    def close(i):
        d = 0
        while i < n:
            if code[i].k == 'p':
                d += tk(i) in ('(', '[', '{'); d -= tk(i) in (')', ']', '}')
                if d == 0: return i
            i += 1
        return n
    # for .. { A; if c { B; continue; } C }   is checked as   for .. { A; if c { B } else { C } }
    def last(j, e):
        """start of the last statement of the block j..e, if it is  return ..;  continue;  or  break;"""
        if tk(e-1) != ';': return None
        k = e - 2
        while k > j and tk(k) not in (';', '{', '}'):
            if tk(k) in (')', ']'):
                d = 0
                while True:
                    d += tk(k) in (')', ']', '}'); d -= tk(k) in ('(', '[', '{')
                    if d == 0: break
                    k -= 1
            k -= 1
        return k + 1 if tk(k+1) in ('return', 'continue', 'break') else None
    for i in range(n):
        if tk(i) != 'for' or tk(i+1) == '<' or tk(i-1) not in ('{', '}', ';', ':', '>'): continue
        k = i
        while k < n and tk(k) not in ('{', ';'): k = close(k) + 1 if tk(k) in ('(', '[') else k + 1
        if tk(k) != '{': continue
        e, k = close(k), k + 1
        while k < e:
            if tk(k) == 'if':
                ends, ok, q = [], True, k
                while True:
                    while tk(q) != '{': q = close(q) + 1 if tk(q) in ('(', '[') else q + 1
                    c = close(q)
                    l = last(q, c)
                    if l is None: ok = False
                    else: ends.append((l, c))
                    q = c + 1
                    if tk(q) == 'else' and tk(q+1) == 'if': q += 1; continue
                    break
                if tk(q) == 'else': ok = False; q = close(q + 1) + 1
                if ok and q < e and any(tk(l) == 'continue' and l == c - 2 for l, c in ends) and all(tk(l) != 'continue' or l == c - 2 for l, c in ends):
                    for l, c in ends:
                        if tk(l) == 'continue': ed.append((code[l].s, code[l+1].e, ''))
                    ed.append((code[q-1].e, code[q-1].e, ' else {')); ed.append((code[e].s, code[e].s, '}'))
                    log.append('for .. { A; if c { B; continue; } C }  ->  for .. { A; if c { B } else { C } }')
                k = q; continue
            if tk(k) == 'let':
                q = k
                while q < e and tk(q) not in ('else', ';'): q = close(q) + 1 if tk(q) in ('(', '[', '{') else q + 1
                if tk(q) == 'else' and tk(q+1) == '{' and tk(q+2) == 'continue' and close(q+1) == q + 4 and tk(q+5) == ';':
                    ed.append((code[k].s, code[k].s, 'if ')); ed.append((code[q].s, code[q+5].e, '{')); ed.append((code[e].s, code[e].s, '}'))
                    log.append('for .. { let P = e else { continue; }; C }  ->  for .. { if let P = e { C } }')
                    k = q + 6; continue
            k = close(k) + 1 if tk(k) in ('(', '[', '{') else k + 1
    ghosts = [t for t in toks if t.k == 'ghost']
    def free(a, b): return not any(a <= g.s and g.e <= b for g in ghosts)
    for i in range(n):
        if tk(i) != 'match' or code[i].k != 'id': continue
        j = i + 1
        while j < n and tk(j) not in ('{', ';'): j = close(j) + 1 if tk(j) in ('(', '[') else j + 1
        if tk(j) != '{': continue
        e, k, arms = close(j), j + 1, []
        while k < e:
            p0, g = k, None
            while k < e and not (tk(k) == '=' and tk(k+1) == '>' and code[k].e == code[k+1].s):
                if tk(k) == 'if' and g is None: g = k
                k = close(k) + 1 if tk(k) in ('(', '[', '{') else k + 1
            if k >= e: break
            b0 = k + 2
            if tk(b0) == '{': b1 = close(b0)
            else:
                b1 = b0
                while b1 + 1 < e and tk(b1+1) != ',':
                    b1 = b1 + 1
                    if tk(b1) in ('(', '[', '{'): b1 = close(b1)
                if tk(b0) in ('(', '['): b1 = max(b1, close(b0))
            nx = b1 + 1 + (tk(b1+1) == ',')
            arms.append(([tk(x) for x in range(p0, g if g is not None else k)], p0, g, k, b0, b1, nx))
            k = nx
        x = 0
        while x < len(arms):
            y = x
            while y + 1 < len(arms) and arms[y][2] is not None and arms[y+1][0] == arms[x][0]: y += 1
            if y > x and arms[y][2] is None:
                grp = arms[x:y+1]
                gap = [(code[u[5]].e, code[v[4]].s) for u, v in zip(grp, grp[1:])]
                if all(free(a, b) for a, b in gap) and all(free(code[u[1]].s, code[u[4]].s) for u in grp):
                    for q, u in enumerate(grp):
                        if u[2] is None: cond = ''
                        else: cond = 'if ' + text[code[u[2]].e:code[u[3]].s].strip() + ' '
                        head = ('=> ' if q == 0 else ' else ') + cond + '{ '
                        start = code[u[2]].s if q == 0 else code[grp[q-1][5]].e
                        ed.append((start, code[u[4]].s, (head if q == 0 else ' }' + head)))
                    ed.append((code[grp[-1][5]].e, code[grp[-1][5]].e, ' }' + ('' if tk(grp[-1][5] + 1) == ',' else ',')))
                    log.append('P if c => A, P => B  ->  P => if c {A} else {B}')
            x = y + 1
    out, pos = [], 0
    for a, b, x in sorted(ed):
        out.append(text[pos:a] + x); pos = b
    return ''.join(out) + text[pos:], log

def generate(repo, out, only=None, inlining=True):
    os.makedirs(out + '/vms', exist_ok=True)
    info = {}
    mods = [m for m in MODULES if only is None or m in only]
    for m in mods:
        p = f'{repo}/src/{m}.rs'
        o = f'{HERE}/overlay/{m}.rs'
        src = open(p).read()
        ovl = open(o).read() if os.path.exists(o) else ''
        inl = []
        if inlining:
            try: src, inl = inline.inline(src, ovl, m)
            except Exception: pass
        src, mech = mechanical(src)
        ovl, _ = mechanical(ovl)
        text, w = weave.weave(src, ovl, m)
        text = re.sub(r'(?m)^(\s*)//!', r'\1// ', text)
        text = re.sub(r'(?m)^(\s*)pub mod \w+;$', r'\1', text) if m == 'vms' else text
        subs = [x[4:] for x in mods if x.startswith('vms/')] if m == 'vms' else []
        head = '#![allow(unused)]\nuse vstd::prelude::*;\nuse crate::spec::*;\nuse crate::stdspec::*;\n' + ''.join(f'pub mod {x};\n' for x in subs) + 'verus! {\n'
        head += 'broadcast use {crate::spec::group_std, crate::stdspec::group_stdspec' + ({'peekables': '', 'rule_parsing': ', crate::peekables::lemma_moved_seen'}.get(m, ', crate::peekables::group_moves')) + '};\n'
        open(f'{out}/{m}.rs', 'w').write(head + text + '\n} // verus!\n')
        info[m] = {'lost': w.lost, 'rewrites': w.rewrites, 'renames': w.renames, 'newfns': w.newfns, 'contracts': w.contracts, 'mechanical': mech, 'inlined': inl, 'guards': w.guards}
    for s in os.listdir(HERE + '/spec'):
        open(f'{out}/{s}', 'w').write(open(f'{HERE}/spec/{s}').read())
    lib = '#![feature(allocator_api)]\n#![allow(unused)]\n#![allow(non_camel_case_types)]\n'
    lib += ''.join(f'pub mod {s[:-3]};\n' for s in sorted(os.listdir(HERE + '/spec')))
    lib += ''.join(f'pub mod {m};\n' for m in mods if '/' not in m)
    open(f'{out}/lib.rs', 'w').write(lib)
    return info

if __name__ == '__main__':
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    info = generate(sys.argv[1], sys.argv[2], only)
    lost = {k: v['lost'] for k, v in info.items() if v['lost']}
    if lost: print('LOST', json.dumps(lost, indent=1))
