#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree.

1. weave the contracts into /repo's current source, Verus proves every obligation (tools/gen.py, tools/weave.py)
2. every function is probed for vacuity, every assumption in the contracts is listed
3. the harness (compiled against /repo) looks for a failing input: it replays a failed obligation on the real code,
   and stands in, bounded, for the functions that are not under contract
exit 0: the property held; exit 1 and a VIOLATION line: it is broken.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/tools')
import dictionary, gen, weave, props
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()

def log(*a): print('#', *a, flush=True)

# ---------------------------------------------------------------- Verus
class Fn:
    def __init__(self, name, s, e, l0, l1, kw): self.name, self.s, self.e, self.l0, self.l1, self.kw = name, s, e, l0, l1, kw

def functions(text):
    """every fn of a woven file: name, offsets, lines, offset of its `fn` keyword's item start"""
    toks = [t for t in weave.lex(text)]
    out, stack, i = [], [], 0
    line = lambda off: text.count('\n', 0, off) + 1
    for i, t in enumerate(toks):
        if t.t == 'fn' and i + 1 < len(toks) and toks[i+1].k == 'id':
            j, d = i + 2, 0
            while j < len(toks):
                x = toks[j]
                if x.t in ('(', '['): j = weave.skip_balanced(toks, j); continue
                if x.t == '{':
                    # the body is the last brace group before the next item; a brace inside a contract is followed by more contract
                    k = weave.skip_balanced(toks, j)
                    nxt = toks[k].t if k < len(toks) else '}'
                    if nxt in (',', '&', '|', '=', 'else', ')', '{', '.', ';', 'requires', 'ensures', 'decreases', 'no_unwind', 'opens_invariants', 'via', 'when'): j = k; continue
                    j = k; break
                if x.t == ';': j += 1; break
                j += 1
            # item start: walk back over modifiers and attributes
            b = i
            while b > 0 and toks[b-1].t in ('pub', 'open', 'closed', 'broadcast', 'proof', 'spec', 'exec', 'axiom', 'uninterp', 'const', 'unsafe', ')', ']'):
                if toks[b-1].t in (')', ']'):
                    k, d = b - 1, 0
                    while True:
                        d += toks[k].t in (')', ']'); d -= toks[k].t in ('(', '[')
                        if d == 0: break
                        k -= 1
                    if toks[b-1].t == ')' and toks[k-1].t == 'pub': b = k - 1
                    elif toks[b-1].t == ']' and toks[k-1].t == '#': b = k - 1
                    else: break
                else: b -= 1
            mode = {x.t for x in toks[b:i]}
            out.append(Fn(toks[i+1].t, toks[b].s, toks[j-1].e, line(toks[b].s), line(toks[j-1].s), 'ghost' if mode & {'proof', 'spec', 'axiom'} else 'exec'))
            out[-1].fnpos = toks[i].s
            out[-1].body = next((toks[m].e for m in range(j - 1, i, -1) if toks[m].t == '{' and weave.skip_balanced(toks, m) == j), None) if toks[j-1].t == '}' else None
    return out

def run_verus(out, extra=(), timeout=600):
    p = subprocess.Popen(['verus', '--crate-type=lib', 'lib.rs', '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--error-format=json', *extra],
                         cwd=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try: stdout, stderr = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()  # the solver it started as well
        raise
    diags = []
    for l in stderr.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('$message_type') == 'diagnostic' and d.get('level') == 'error' and not d['message'].startswith('aborting due'): diags.append(d)
    try: res = json.loads(stdout)
    except ValueError: res = {}
    return p.returncode, diags, res, stderr

VERIF_MSG = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|decreases not satisfied|possible (arithmetic|division|bit|truncation)|constructed value may fail|unreachable|recommendation not met|failed this|could not (show|prove|establish)|cannot show|requires not satisfied|ensures not satisfied|index|overflow|exhausted|loop invariant|termination|might not', re.I)
RLIMIT = re.compile(r'resource limit|rlimit|timed? ?out', re.I)

class Proof: pass

def blame(d, files):
    """(module, Fn) the diagnostic is about"""
    spans = [s for s in d['spans']] or []
    if 'postcondition' in d['message']:
        ex = [s for s in spans if s.get('label') and ('end of the function body' in s['label'] or 'at this exit' in s['label'] or 'at this' in s['label'])]
        spans = ex or spans
    else:
        spans = [s for s in spans if s['is_primary']] or spans
    res = []
    for s in spans:
        m = s['file_name'][:-3]
        if m not in files: continue
        inner = [f for f in files[m] if f.l0 <= s['line_start'] <= f.l1]
        if inner: res.append((m, min(inner, key=lambda f: f.l1 - f.l0)))
        else: res.append((m, None))
    return res

def prove(pid, cfg, work, tier):
    pr = Proof()
    pr.failed, pr.notes, pr.quarantined, pr.cmd = [], [], [], ''
    out = work + '/woven'
    pr.status, pr.obligations, pr.discharged, pr.fns, pr.smt_ms, pr.info = 'inconclusive', 0, 0, [], 0, {}
    try:
        pr.info = gen.generate(REPO, out, cfg['mods'])
    except Exception as e:
        pr.notes.append('weaving failed: %r' % e); return pr
    lost = {m: i['lost'] for m, i in pr.info.items() if i['lost']}
    pr.lost = lost
    mods = [m for m in cfg['mods']]
    spec = [s[:-3] for s in os.listdir(HERE + '/spec')]
    def files(): return {m: functions(open(f'{out}/{m}.rs').read()) for m in mods + spec}
    tried = set()
    limit = 420 if tier == 'quick' else 2400
    extra = ['--log', 'air-final', '--log-dir', work + '/air', '--rlimit', '25' if tier == 'quick' else '150']
    for rnd in range(12):
        shutil.rmtree(work + '/air', ignore_errors=True)
        try: rc, diags, res, err = run_verus(out, extra, limit)
        except subprocess.TimeoutExpired:
            pr.notes.append('Verus did not finish within %d s' % limit); return pr
        open(work + '/verus.log', 'w').write(''.join(d['rendered'] for d in diags) or err[-20000:])
        vr = res.get('verification-results', {})
        done = vr.get('verified', 0) + vr.get('errors', 0) > 0
        if done: break
        # not a verdict: an unsupported construct or a type error
        if any(i['inlined'] for i in pr.info.values()):
            # perhaps because of a helper replaced by its body: without that first
            for i in pr.info.values():
                for x in i['inlined']: pr.notes.append('not inlined after all: %s into %s' % (x['helper'], x['into']))
            pr.info = gen.generate(REPO, out, cfg['mods'], inlining=False)
            lost = pr.lost = {m: i['lost'] for m, i in pr.info.items() if i['lost']}
            continue
        # Take the function out of the verified part and go on.
        fs = files(); acted = False
        for d in diags:
            for m, f in blame(d, fs):
                if f is None or (m, f.name, f.l0) in tried or f.kw == 'ghost': continue
                tried.add((m, f.name, f.l0))
                pr.quarantined.append({'module': m, 'function': f.name, 'why': d['message'].splitlines()[0][:200]})
                t = open(f'{out}/{m}.rs').read()
                # its body is only type checked now: as it is in the source
                raw = open(f'{REPO}/src/{m}.rs').read()
                nth = [x.s for x in fs[m] if x.kw == 'exec' and x.name == f.name].index(f.s)
                same = [x for x in functions(raw) if x.name == f.name]
                body = t[f.s:f.body] + raw[same[nth].body:same[nth].e] if f.body and nth < len(same) and same[nth].body else \
                     re.sub(r'\.(\s*)v_(%s)(\s*[(:])' % '|'.join(sorted(gen.METHODS | {'map', 'into_iter', 'collect'})), r'.\1\2\3', t[f.s:f.e])
                open(f'{out}/{m}.rs', 'w').write(t[:f.s] + '#[verifier::external_body] ' + body + t[f.e:])
                acted = True; break
            if acted: break
        if not acted:
            pr.notes.append('Verus does not accept the woven code: ' + (diags[0]['message'].splitlines()[0][:300] if diags else err[-300:])); return pr
    else:
        pr.notes.append('too many functions outside the subset'); return pr
    fs = files()
    inset = lambda m, name: any(m == a and re.fullmatch(b, name) for a, b in cfg['fns'])
    # per function results
    for mt in res.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        m = mt['module'].replace('::', '/')
        for f in mt.get('function-breakdown', []):
            q = f['function'].split('::', 1)[1]
            short = q[len(mt['module']) + 2:] if q.startswith(mt['module']) else q
            pr.fns.append({'module': m, 'function': short, 'mode': f['mode:'], 'ms': f['time-micros'] / 1000, 'ok': f['success'], 'property': inset(m, short) or m in spec})
    pr.smt_ms = res.get('times-ms', {}).get('smt', {}).get('smt-run', 0)
    # obligations in the verification conditions
    byfile = {}
    for a in os.listdir(work + '/air') if os.path.isdir(work + '/air') else []:
        t = open(f'{work}/air/{a}').read()
        for q in t.split('(check-valid')[1:]:
            byfile[a] = byfile.get(a, 0) + max(1, len(re.findall(r'\n\s*\("[^"]', q)))
    pr.obligations_total = sum(byfile.values())
    keep = {m.replace('/', '__') for m, _ in cfg['fns']} | set(spec)
    pr.obligations = sum(n for a, n in byfile.items() if re.sub(r'(-final)?\.air$', '', a) in keep)
    errs = []
    texts = {m: open(f'{out}/{m}.rs').read() for m in mods}
    newfns = [x for i in pr.info.values() for x in i['newfns']]
    for d in diags:
        hit = [(m, f) for m, f in blame(d, fs)]
        rl = bool(RLIMIT.search(d['message']))
        for m, f in hit:
            name = f.name if f else '?'
            mine = any(m == a for a, b in cfg['fns']) and any(m == a and (f is None or re.fullmatch(b, f.name) or any(x['module'] == m and x['function'].split('::')[-1] == f.name and x['property'] for x in pr.fns)) for a, b in cfg['fns'])
            if not (mine or m in spec): pr.notes.append(f'obligation of another property fails: {m}::{name}: {d["message"].splitlines()[0]}'); continue
            why = None
            if rl: why = 'the solver ran out of resources'
            elif m in spec: why = 'a lemma of the specification'
            elif any(('::' + name) in x.split(' (')[0].split('/')[0] for x in lost.get(m, [])): why = 'its annotations could not be placed in the changed code'
            # Verus loses track of a mutable reference in a match with guards (a limit of this version)
            elif f is not None and any(x.split('::')[-1] == f.name for x in pr.info[m]['guards']): why = 'it has a match arm with a guard that the contract was not written for'
            elif f is not None and any(x['bound'] and x['into'].split('::')[-1] == f.name for x in pr.info[m]['inlined']): why = 'a helper without a contract was replaced by its body, its parameters are new variables'
            else:
                # helpers without a contract that it calls (a function taken out of the subset keeps its contract)
                new = [x for x in newfns if f is None or re.search(r'\b%s\b' % re.escape(x.split('::')[-1].split(' ')[-1]), texts[m][f.s:f.e])]
                if new: why = 'new functions without a contract: ' + ', '.join(new)
            src = d['spans'][0]['text'][0]['text'].strip() if d['spans'] and d['spans'][0].get('text') else ''
            e = {'function': f'{m}::{name}', 'obligation': d['message'].splitlines()[0], 'at': src, 'undecided_because': why, 'output': d['rendered']}
            if not any(x['function'] == e['function'] and x['obligation'] == e['obligation'] and x['at'] == e['at'] for x in errs): errs.append(e)
            break
    pr.failed = [e for e in errs if not e['undecided_because']]
    pr.undecided = [e for e in errs if e['undecided_because']]
    pr.discharged = max(0, pr.obligations - len(errs))
    outq = [q for q in pr.quarantined if any(q['module'] == a for a, _ in cfg['fns'])]
    relevant_lost = {m: v for m, v in lost.items() if any(m == a for a, _ in cfg['fns'])}
    if pr.failed: pr.status = 'failed'
    elif pr.undecided or outq or relevant_lost: pr.status = 'inconclusive'
    else: pr.status = 'proved'
    for m, v in lost.items(): pr.notes.append(f'annotations not placed in {m}: ' + '; '.join(v)[:500])
    for q in pr.quarantined: pr.notes.append(f"outside the verified subset now: {q['module']}::{q['function']} ({q['why']})")
    for e in pr.undecided: pr.notes.append(f"undecided: {e['function']}: {e['obligation']} ({e['undecided_because']})")
    return pr

def vacuity(cfg, work):
    """assert(false) at the start of every function body with a contract must fail: the assumptions are satisfiable"""
    out, vac = work + '/woven', work + '/vacuity'
    shutil.rmtree(vac, ignore_errors=True); shutil.copytree(out, vac)
    probes, want = 0, {}
    for m in sorted({a for a, _ in cfg['fns']}):
        t = open(f'{vac}/{m}.rs').read()
        fl = [f for f in functions(t) if f.kw == 'exec' and f.body and 'external' not in t[f.s:f.fnpos]]
        for f in sorted(fl, key=lambda f: -f.body):
            b = f.body   # a hide(..) or broadcast use must stay the first statement
            while (h := re.match(r'\s*(?://[^\n]*\n\s*)*(?:hide\s*\([^;]*;|broadcast use [^;]*;)', t[b:])): b += h.end()
            t = t[:b] + ' assert(false); ' + t[b:]
            want[(m, f.name)] = want.get((m, f.name), 0) + 1; probes += 1
        open(f'{vac}/{m}.rs', 'w').write(t)
    rc, diags, res, err = run_verus(vac, ['--multiple-errors', '1'])
    bad = [f"{mt['module']}: {f['function']}" for mt in res.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []) for f in mt.get('function-breakdown', [])
           if f['mode:'] == 'exec' and f['success'] and f['rlimit'] > 10 and any(m.replace('/', '::') == mt['module'] and f['function'].split('::')[-1] == n for m, n in want)]
    n = res.get('verification-results', {}).get('errors', 0)
    if not n: log('the vacuity run gave no answer:', err[-600:] if err else '')
    return probes, n, bad

def trusted(work, mods):
    """every assumption in the generated text"""
    out = []
    spec = [s[:-3] for s in os.listdir(HERE + '/spec')]
    code = ' '.join(open(f'{work}/woven/{m}.rs').read() for m in mods)
    for m in sorted(spec) + list(mods):
        t = open(f'{work}/woven/{m}.rs').read()
        for x in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]*?)\s*\]\s*\(', t):
            if m == 'stdmore' and not re.search(r'(?:\.|::)%s\s*\(' % re.search(r'(\w+)\W*$', x.group(1)).group(1), code): continue   # nothing calls it
            out.append(f'{m}: assumed contract of {" ".join(x.group(1).split())}')
        for x in re.finditer(r'axiom fn (\w+)', t): out.append(f'{m}: axiom {x.group(1)}')
        for x in re.finditer(r'#\[verifier::(external_body|external)\]\s*((?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:open |proof |broadcast |const |unsafe )*)(fn|struct|impl|trait|enum)\s+([^{;(]*)', t):
            out.append(f'{m}: {x.group(1)}: {x.group(3)} {" ".join(x.group(4).split())[:80]}')
        for x in re.finditer(r'exec_allows_no_decreases_clause\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?fn\s+(\w+)', t): out.append(f'{m}: termination of {x.group(1)} not proved')
        for x in re.finditer(r'\b(assume|admit)\s*\(', t): out.append(f'{m}: {x.group(1)}(..)')
    return out

# ---------------------------------------------------------------- harness
def build_harness(work, pid):
    tgt = HERE + '/harness/target'
    d = HERE + '/harness'
    if REPO != '/repo':   # development: against a scratch copy
        d = work + '/harness'; shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(HERE + '/harness', d, ignore=shutil.ignore_patterns('target'))
        t = open(d + '/Cargo.toml').read().replace('"/repo"', '"%s"' % REPO); open(d + '/Cargo.toml', 'w').write(t); tgt = os.environ.get('VERIF_TARGET', work + '/target')
    feat = next(f for f, ps in (('parse', '05 06 07 08'), ('sets', '01 02 03 04 09 12 13'), ('text', '14 15 22'), ('structs', '16 17 18 19 20'), ('view', '10 11'), ('vm', '21')) if pid[1:] in ps.split())
    for opt in ([], ['--no-default-features', '--features', feat]):   # all of it, or only what this property needs
        p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet', '--target-dir', tgt] + opt, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0: return tgt + '/release/harness', ''
    return None, p.stdout[-3000:]

def search(pid, exe, work, seed, secs, procs):
    ps = []
    for k in range(procs):
        st = f'{work}/state{k}'
        o = open(f'{work}/search{k}.out', 'wb+')
        lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        ps.append((subprocess.Popen([exe, 'search', pid, str(seed * 1000003 + k), str(secs), st], stdout=o, stderr=subprocess.DEVNULL, preexec_fn=lim, cwd=work), o, st))
    tot = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[])
    fails = []
    end = time.time() + secs + 60
    for p, o, st in ps:
        try: p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        o.seek(0); txt = o.read().decode('utf8', 'replace')
        for l in txt.splitlines():
            i = l.find('HARNESS ')
            if i < 0: continue
            l = l[i + 8:]
            if l.startswith('COUNT'): a = l.split(); tot['evaluations'] += int(a[1]); tot['distinct_nontrivial'] += int(a[3])
            elif l.startswith('RULE'): tot['rule'] = l[5:]
            elif l.startswith('SAMPLE'): tot['samples'].append(l[7:])
            elif l.startswith('FAIL'):
                a = l.split(' ', 3); fails.append((a[1], a[2], a[3] if len(a) > 3 else ''))
        if p.returncode not in (0, 1):
            s = open(st).read().split()
            if len(s) == 2: fails.append((s[0], s[1], f'the process dies (status {p.returncode}): stack, memory or abort'))
    tot['samples'] = tot['samples'][:3]
    return tot, sorted(fails, key=lambda f: (int(f[1]), len(f[2])))

def conform():
    """the assumed contracts of std, run against std (conform/): not a proof, the check that they are written down right"""
    r = subprocess.run(['cargo', 'run', '--release', '--offline', '--quiet', '--target-dir', HERE + '/harness/target/conform'], cwd=HERE + '/conform', capture_output=True, text=True)
    return ('passed: ' if r.returncode == 0 else 'FAILED: ') + (r.stdout + r.stderr).strip()[-300:]

# ---------------------------------------------------------------- main
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = props.PROPS[pid]
    work = f'{HERE}/work/{pid}'
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work + '/woven'); os.makedirs(HERE + '/evidence', exist_ok=True)
    exe, why = build_harness(work, pid)
    os.environ['VERIF_DICT'] = work + '/dict'
    dictionary.write(REPO, work + '/dict')
    pr = prove(pid, cfg, work, tier) if cfg.get('fns') else None
    vac = None
    tr = []
    if pr is not None:
        log(f'{pid}: proof {pr.status}: {pr.discharged}/{pr.obligations} obligations, {len([f for f in pr.fns if f["property"]])} functions, solver {pr.smt_ms} ms')
        for n in pr.notes: log(n)
        if pr.status == 'proved':
            vac = vacuity(cfg, work)
            log(f'vacuity: {vac[0]} functions probed, {vac[1]} probes fail as they must' + (f'; NOT failing: {vac[2]}' if vac[2] else ''))
        try: tr = trusted(work, cfg['mods'])
        except OSError: pass
    conf = conform() if tier == 'thorough' else None
    if conf: log('assumed contracts of std, run: ' + conf)
    secs = cfg.get('secs', 25) if tier == 'quick' else 240
    procs = 7
    fails, tot = [], dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[])
    if exe is None: log('the harness does not compile against this tree:', why[-600:])
    else:
        tot, fails = search(pid, exe, work, seed, secs, procs)
        why2 = 'an obligation fails' if pr is not None and pr.failed else 'the proof is not complete' if pr is not None and pr.status != 'proved' else None
        if not fails and why2 and tier == 'quick':
            log(why2 + ': looking longer for a failing input')
            t2, fails = search(pid, exe, work, seed + 77, 100, procs)
            for k in ('evaluations', 'distinct_nontrivial'): tot[k] += t2[k]
        log(f'{pid}: {tot["evaluations"]} cases run on the real code, {tot["distinct_nontrivial"]} distinct and non-trivial, {len(fails)} failing')
    viol = None
    rp = f'{HERE}/work/{pid}-replay.txt'
    if fails:
        cs, size, msg = fails[0]
        with open(rp, 'w') as f:
            f.write(f'property {pid}\nreplayed on the real code: {msg}\nreproduce: cd /verif/harness && cargo run --release --offline -- case {pid} {int(cs)} {int(size)}\n')
            for e in (pr.failed if pr else []): f.write(f"\nfailed obligation: {e['function']}: {e['obligation']} at `{e['at']}`\n{e['output']}\n")
        viol = f'VIOLATION property={pid} replay={rp}'
        log(msg[:600])
    elif pr is not None and pr.failed:
        with open(rp, 'w') as f:
            f.write(f'property {pid}\nno failing input found ({tot["evaluations"]} cases)\n')
            for e in pr.failed: f.write(f"\nfailed obligation: {e['function']}: {e['obligation']} at `{e['at']}`\n{e['output']}\n")
        viol = f'VIOLATION property={pid} replay={rp} no-failing-input-found'
        for e in pr.failed[:5]: log('failed obligation:', e['function'], e['obligation'], 'at', e['at'])
    level = cfg.get('level', 'proof')
    cov = dict(evaluations=tot['evaluations'], distinct_nontrivial=tot['distinct_nontrivial'], rule=tot['rule'], samples=tot['samples'])
    if pr is not None:
        cov.update(obligations=pr.obligations, discharged=pr.discharged, checker_cmd='cd %s/woven && verus --crate-type=lib lib.rs --triggers-mode silent' % work, trusted_base=tr,
                   proof_status=pr.status, back_end='Verus 0.2026.09.13 with Z3', solver_ms=pr.smt_ms,
                   functions_under_contract=[dict(f, function=f['module'] + '::' + f['function']) for f in pr.fns if f['property']],
                   rewrites={m: i['rewrites'] for m, i in pr.info.items() if i['rewrites']},
                   mechanical={m: sorted(set(i['mechanical'])) for m, i in pr.info.items() if i['mechanical']},
                   inlined={m: i['inlined'] for m, i in pr.info.items() if i['inlined']},
                   outside_verified_subset=pr.quarantined, notes=pr.notes, failed=[{k: e[k] for k in ('function', 'obligation', 'at')} for e in pr.failed])
        if vac: cov['vacuity'] = dict(probed=vac[0], failing_as_required=vac[1], suspicious=vac[2])
    if conf: cov['assumed_std_contracts_run'] = conf
    cov['bounded'] = cfg.get('bounded', [])
    if level == 'other': cov['explanation'] = cfg.get('explanation', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=tr + cfg.get('assume', []), wall_s=round(time.time() - T0, 1), violations=1 if viol else 0)
    json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
    for l in open(HERE + '/known-findings.txt') if os.path.exists(HERE + '/known-findings.txt') else []:
        if l.startswith('KNOWN-FINDING: property=%s ' % pid): print(l.strip())
    if viol: print(viol, flush=True); sys.exit(1)
    if exe is None and (pr is None or pr.status != 'proved'): log('no verdict'); sys.exit(2)
    log(f'{pid}: held')
if __name__ == '__main__': main()
