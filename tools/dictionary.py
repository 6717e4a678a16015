"""Literals of the code under test, as material for the generators of the harness (as fuzzers do).

Literals that the tree the contracts were written for did not have (tools/literals.json) are marked fresh and are
used more often.  This only steers the random search; it decides nothing.
"""
import ast, collections, json, os, re, sys
import weave

HERE = os.path.dirname(os.path.abspath(__file__))

NARROW = {'u8': [255, 256], 'i8': [127, 128], 'u16': [65535, 65536], 'i16': [32767, 32768]}

def literals(repo):
    c = collections.Counter()
    for d, _, fs in os.walk(repo + '/src'):
        for f in fs:
            if not f.endswith('.rs'): continue
            t = open(os.path.join(d, f), encoding='utf8', errors='replace').read()
            t = t.split('#[cfg(test)]')[0]
            for k in weave.lex(t):
                if k.k in ('chr', 'str', 'num'): c[(k.k, k.t)] += 1
                if k.t in NARROW: c[('id', k.t)] += 1
    return c

def text(lit):
    s = lit[lit.index('"') + 1:lit.rindex('"')] if '"' in lit and not lit.startswith("'") else lit[lit.index("'") + 1:-1]
    if lit.startswith('r') or lit.startswith('br'): return s
    s = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda m: chr(int(m.group(1).replace('_', ''), 16)), s)
    return re.sub(r'\\(x[0-9a-fA-F]{2}|\n\s*|.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == 'x' and len(m.group(1)) == 3 else '' if m.group(1)[0] == '\n' else m.group(1)), s)

def write(repo, path):
    base = collections.Counter()
    p = HERE + '/literals.json'
    if os.path.exists(p):
        for k, t, n in json.load(open(p)): base[(k, t)] = n
    out = []
    for (k, t), n in sorted(literals(repo).items()):
        fresh = 'f' if n > base[(k, t)] else 'o'
        try:
            if k == 'num':
                v = re.sub(r'_|(?:u|i)(?:8|16|32|64|128|size)$', '', t)
                out.append(f'{fresh} n {int(v, 0)}')
            else:
                s = text(t)
                if len(s) == 1: out.append(f'{fresh} c {ord(s)}')
                elif 1 < len(s) <= 40: out.append(f'{fresh} s {" ".join(str(ord(x)) for x in s)}')
                if k == 'str' and fresh == 'f':
                    for x in set(s): out.append(f'f c {ord(x)}')
        except (ValueError, IndexError): pass
    for (k, t), n in sorted(literals(repo).items()):
        if k == 'id' and n > base[(k, t)]: out += [f'f n {v}' for v in NARROW[t]]
    open(path, 'w').write('\n'.join(out) + '\n')

if __name__ == '__main__':
    json.dump([[k, t, n] for (k, t), n in sorted(literals(sys.argv[1]).items())], open(HERE + '/literals.json', 'w'), indent=0)
