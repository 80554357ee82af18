#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's working tree.

1. tools/vx extracts the functions under contract from /repo/src and joins them with the contracts in units/.
2. Verus proves every obligation of the property's units (the deciding step).
3. tools/probe runs the compiled crate against an independent oracle: it looks for a failing input for a failed
   obligation, and it is the bounded stand-in for functions that fell out of the verifier's reach.
"""
import json, os, re, subprocess, sys, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
CFG = json.load(open(f'{V}/bin/config.json'))
VX = f'{V}/target/vx/debug/vx'
PROBE = f'{V}/target/probe/release/probe'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
VERUS = ['verus', '--edition', '2024', '--triggers-mode', 'silent', '--output-json', '--time', '--error-format=json']
T0 = time.time()
def log(*a): print(f'[{time.time()-T0:6.1f}s]', *a, flush=True)
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **k)

def build_vx():
    e = dict(os.environ, CARGO_TARGET_DIR=f'{V}/target/vx')
    r = sh(['cargo', 'build', '--offline', '-q'], cwd=f'{V}/tools/vx', env=e)
    if r.returncode: log('building vx failed:\n' + r.stderr); sys.exit(2)
def build_probe():
    e = dict(os.environ, CARGO_TARGET_DIR=f'{V}/target/probe')
    r = sh(['cargo', 'build', '--release', '--offline', '-q'], cwd=f'{V}/tools/probe', env=e)
    return None if r.returncode == 0 else r.stderr[-4000:]

def deps(unit, seen=None):
    """units whose contracts are used as stubs by `unit` (to be proved too), and the files included"""
    seen = set() if seen is None else seen
    out = []
    def walk(u):
        if u in seen: return
        seen.add(u)
        for l in open(f'{V}/units/{u}.vu'):
            m = re.match(r'\s*//%\s*use\s+(\w+)(\s+stub)?', l)
            if m:
                if m.group(2): out.append(m.group(1))
                walk(m.group(1))
    walk(unit)
    return out

class Unit:
    def __init__(s, name):
        s.name = name; s.failed = {}; s.degraded = {}; s.whole = None; s.verified = 0; s.errors = 0; s.smt_ms = 0; s.meta = None; s.log = ''; s.trusted = []; s.cmd = ''; s.rl = []; s.fns = {}

def owner(lines, n):
    """id of the extracted function whose text holds line n (1-based)"""
    cur = None
    for i in range(n - 1, -1, -1):
        l = lines[i]
        if l.startswith('// @vx end') and i != n - 1: return None
        m = re.match(r'// @vx fn (.*)', l)
        if m: return m.group(1).strip()
    return None

def run_unit(name, work, extra_stub=(), rlimit=None, vacuity=False, threads=4, extra=()):
    u = Unit(name)
    stubs, bare = list(extra_stub), []
    tag = name + ('_vac' if vacuity else '')
    for attempt in range(14):
        rs, mj = f'{work}/{tag}.rs', f'{work}/{tag}.json'
        g = sh([VX, 'gen', '--repo', REPO, '--units', f'{V}/units', '--unit', name, '--out', rs, '--meta', mj, '--baseline', f'{V}/units/baseline.tsv', '--stub', '\n'.join(stubs), '--bare', '\n'.join(bare)] + (['--vacuity'] if vacuity else []))
        if g.returncode: u.whole = 'extractor: ' + (g.stderr.strip()[-500:] or f'exit {g.returncode}'); return u
        u.meta = json.load(open(mj))
        u.fns = {f['id']: f for f in u.meta['fns']}
        u.degraded = {f['id']: f['degraded'] for f in u.meta['fns'] if f['degraded'] and not f['tentative']}
        tentative = {f['id']: f['degraded'] for f in u.meta['fns'] if f['tentative']}
        u.adapted = sorted(tentative)
        cmd = VERUS + ['--num-threads', str(threads), os.path.basename(rs)] + (['--rlimit', str(rlimit)] if rlimit else []) + ['--multiple-errors', '3'] + list(extra)
        u.cmd = ' '.join(cmd)
        try: r = sh(cmd, cwd=work, timeout=600)
        except subprocess.TimeoutExpired: u.whole = 'the verifier did not finish in 600 s'; return u
        lines = open(rs).read().split('\n')
        u.log = ''
        diags = []
        for l in r.stderr.splitlines():
            try: d = json.loads(l)
            except ValueError: u.log += l + '\n'; continue
            if d.get('level') == 'error': diags.append(d)
        try: out = json.loads(r.stdout)
        except ValueError: out = {}
        vr = out.get('verification-results', {})
        hard, soft = [], []   # (function id or None, message, rendered)
        for d in diags:
            msg = d.get('message', '')
            if msg.startswith('aborting due to'): continue
            sp = [s for s in d.get('spans', []) if os.path.basename(s['file_name']) == os.path.basename(rs)]
            prim = [s for s in sp if s['is_primary']]; sec = [s for s in sp if not s['is_primary']]
            order = (sec + prim) if 'postcondition' in msg else (prim + sec)
            o = None
            for s in order:
                o = owner(lines, s['line_start'])
                if o: break
                if 'postcondition' not in msg: break
            (soft if VERIF_MSG(msg) else hard).append((o, msg, d.get('rendered', msg)))
        if hard or not vr:
            new = [o for o, _, _ in hard if o and o not in stubs]
            u.log += ''.join(x[2] for x in hard)[:6000]
            if new and attempt < 13:
                for o in dict.fromkeys(new): (stubs if o in bare else bare).append(o)
                continue
            u.whole = 'the unit does not pass the verifier\'s front end: ' + (hard[0][1] if hard else r.stderr[-300:]); return u
        u.verified, u.errors = vr.get('verified', 0), vr.get('errors', 0)
        u.smt_ms = out.get('times-ms', {}).get('smt', {}).get('total', 0)
        u.slow = slow(out)
        # a function tried with annotations that were not written for its text: unproved means out of reach, not wrong
        again = [o for o in dict.fromkeys(o for o, _, _ in soft) if o in tentative]
        if again and attempt < 13:
            for o in again: (bare if o not in bare and all('assertion failed' in m for q, m, _ in soft if q == o) else stubs).append(o)
            continue
        for o, msg, ren in soft:
            if 'rlimit' in msg or 'Resource limit' in msg: u.rl.append((o, ren))
            else: u.failed.setdefault(o or '(lemma)', []).append((msg, ren))
        u.text = '\n'.join(lines)
        return u
    return u

def slow(out):
    v = []
    for m in out.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []): v.append((f.get('time', 0), f.get('function', '')))
    return sorted(v, reverse=True)[:5]

def VERIF_MSG(m):
    # type and trait errors of the front end share words with the verifier's messages
    if 'trait bound' in m or 'the trait `' in m or 'mismatched types' in m or 'not supported' in m or 'unsupported' in m: return False
    return any(k in m for k in ('not satisfied', 'assertion failed', 'possible arithmetic', 'possible division', 'invariant', 'decreases', 'rlimit', 'Resource limit', 'recommendation', 'precondition', 'postcondition', 'possible bit shift', 'unreached', 'might not', 'could not prove', 'assert_', 'termination', 'possible '))

def settle(name, work, threads):
    """Run a unit; give anything unproved further tries (separate solver per function, larger resource limit, other seeds)
    before calling it failed.  An obligation counts as failed only if no run discharges it."""
    u = run_unit(name, work, threads=threads)
    for extra, rl in ((['-V', 'spinoff-all', '--smt-option', 'smt.random_seed=3'], 30), (['-V', 'spinoff-all', '--smt-option', 'smt.random_seed=11'], 60)):
        if u.whole or not (u.failed or u.rl): break
        v = run_unit(name, work, rlimit=rl, threads=threads, extra=extra)
        if v.whole: break
        bad_v = set(v.failed) | {o or '(lemma)' for o, _ in v.rl}
        bad_u = set(u.failed) | {o or '(lemma)' for o, _ in u.rl}
        if '(lemma)' in bad_u and '(lemma)' in bad_v: both = bad_u & bad_v
        else: both = (bad_u & bad_v) - {'(lemma)'}
        v.failed = {f: e for f, e in list(v.failed.items()) + [(f, e) for f, e in u.failed.items() if f not in v.failed] if f in both}
        v.rl = [(o, r) for o, r in v.rl if (o or '(lemma)') in both and (o or '(lemma)') not in v.failed]
        v.verified, v.errors = v.verified + v.errors - len(both), len(both)
        v.cmd = u.cmd + ' [then ' + ' '.join(extra) + ']'
        v.smt_ms += u.smt_ms
        u = v
    for o, ren in u.rl:
        u.degraded.setdefault(o or '(lemma)', []).append('resource limit of the solver exceeded')
        u.log += ren
    return u

def trusted(u):
    t = set()
    L = u.text.split('\n')
    for i, l in enumerate(L):
        m = re.search(r'assume_specification(?:<[^>]*>)?\s*\[\s*([^\]]+(?:\])?[^\]]*)\]\s*\(', l)
        if m and len(re.findall(r'\.%s\(' % m.group(1).strip().split('::')[-1], u.text)) > 0: t.add('std: ' + m.group(1).strip())
        if 'external_body' in l:
            for j in range(i, min(i + 4, len(L))):
                m = re.search(r'\bfn (\w+)', L[j])
                if m:
                    n = m.group(1)
                    if not n.startswith('vx_') or n == 'vx_panic': break
                    uses = len(re.findall(r'\b%s\b' % n, u.text))
                    if uses > (3 if '_to_' in n and '_bytes' in n else 1):
                        b = next((re.search(r'\{ (.*?) \}\s*\}?\s*$', x) for x in L[j:j + 4] if re.search(r'\{ (.*?) \}\s*\}?\s*$', x)), None)
                        t.add(f'assumed contract: {n}' + (f' (stands for {b.group(1)[-90:]})' if b else ''))
                    break
        if re.search(r'\b(assume|admit)\(', l) and 'assume_spec' not in l: t.add('ASSUME in text: ' + l.strip()[:80])
        if 'axiom' in l and 'fn' in l: t.add('axiom: ' + l.strip()[:80])
    return t

def main():
    prop = sys.argv[1]
    if prop not in CFG: print('unknown property', prop); sys.exit(2)
    c = CFG[prop]
    thorough = TIER == 'thorough'
    work = f'{V}/target/work/{prop}'
    os.makedirs(work, exist_ok=True); os.makedirs(f'{V}/evidence', exist_ok=True); os.makedirs(f'{V}/replay', exist_ok=True)
    build_vx()
    log('extractor built')
    pool = cf.ThreadPoolExecutor(8)
    fprobe = pool.submit(build_probe)
    names = list(c['units'])
    filt = dict(c['units'])
    for n in list(names):
        for d in deps(n):
            if d not in names: names.append(d); filt[d] = c.get('deps', {}).get(d, '.*')
    fu = {n: pool.submit(settle, n, work, 4 if len(names) > 1 else 8) for n in names}
    units = [fu[n].result() for n in names]
    perr = fprobe.result()
    bounded, failed = [], []          # (unit, function, why)
    for u in units:
        log(f'unit {u.name}: {u.verified} discharged, {u.errors} failed, {len(u.degraded)} not under contract' + (f' -- {u.whole}' if u.whole else ''))
        if u.whole: bounded.append((u.name, '*', u.whole)); continue
        for p in u.meta['problems']: bounded.append((u.name, '*', p))
        rx = re.compile(filt[u.name])
        for f, why in u.degraded.items():
            if u.fns.get(f, {}).get('stub') : continue   # judged in its own unit
            if f == '(lemma)' or rx.search(f): bounded.append((u.name, f, '; '.join(why)))
        for f, errs in u.failed.items():
            if f == '(lemma)': bounded.append((u.name, f, 'a lemma of the proof did not go through: ' + errs[0][0])); continue
            if f in u.degraded: continue
            if rx.search(f): failed.append((u.name, f, errs))
    for b in bounded: log('bounded stand-in:', *b)
    for f in failed: log('FAILED obligation:', f[0], f[1], f[2][0][0])
    # ---- the compiled code against the oracle
    probe, pfail = None, False
    pcase = f'{work}/case.txt'
    if os.path.exists(pcase): os.remove(pcase)
    def run_probe(secs, deep):
        r = sh([PROBE, prop, '--seed', str(SEED), '--secs', str(secs), '--threads', '8', '--src', f'{REPO}/src', '--out', pcase] + (['--deep'] if deep else []))
        try: d = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception: d = None
        if d is None:
            # the process died: the code under test overflowed the stack or aborted
            d = dict(evaluations=0, distinct_nontrivial=0, samples=[], fail=True, case='', why='the probe process died: ' + (r.stderr.strip()[-300:] or f'status {r.returncode}'), secs=secs)
            open(pcase, 'w').write('why: ' + d['why'] + '\n')
        return d
    if perr: log('the probe does not build against this tree:\n' + perr)
    else:
        probe = run_probe(120 if thorough else 8, thorough)
        log(f"probe: {probe['evaluations']} evaluations, {probe['distinct_nontrivial']} distinct, fail={probe['fail']}")
        if not probe['fail'] and (failed or bounded):
            p2 = run_probe(60, True)
            log(f"probe (deep): {p2['evaluations']} evaluations, fail={p2['fail']}")
            p2['evaluations'] += probe['evaluations']; p2['distinct_nontrivial'] += probe['distinct_nontrivial']; p2['samples'] = probe['samples']
            probe = p2
        pfail = probe['fail']
    # ---- vacuity (thorough): every contracted body must be reachable, so assert(false) at its start must fail
    vac = None
    if thorough and not failed:
        vac = dict(checked=0, vacuous=[])
        for n in names:
            uv = run_unit(n, work, vacuity=True, threads=8)
            if uv.whole: continue
            for f in uv.meta['fns']:
                if f['stub'] or f['trusted'] or f['degraded']: continue
                vac['checked'] += 1
                if f['id'] not in uv.failed: vac['vacuous'].append(f['id'])
        log('vacuity:', vac)
    # ---- report
    n_ob = sum(u.verified + u.errors for u in units); n_ok = sum(u.verified for u in units)
    under = sorted({f['id'] for u in units if not u.whole for f in u.meta['fns'] if not f['stub'] and not f['trusted'] and f['id'] not in u.degraded and re.search(filt[u.name], f['id'])})
    notes = sorted({x for u in units if not u.whole for f in u.meta['fns'] if not f['stub'] for x in f['notes']})
    tb = sorted(set().union(*[trusted(u) for u in units if not u.whole])) if any(not u.whole for u in units) else []
    tb += sorted({'trusted fn of /repo: ' + f['id'] for u in units if not u.whole for f in u.meta['fns'] if f['trusted']})
    proved = not bounded and not failed
    level = 'proof' if proved and c.get('level', 'proof') == 'proof' else 'exploration'
    cov = dict(obligations=n_ob, discharged=n_ok, checker_cmd='; '.join(u.cmd for u in units if u.cmd), trusted_base=tb,
        backend='Verus 0.2026.09.13 (Z3)', solver_time_ms=sum(u.smt_ms for u in units), functions_under_contract=under, n_functions_under_contract=len(under),
        units={u.name: dict(discharged=u.verified, failed=u.errors, smt_ms=u.smt_ms, slowest=[f'{a} ms {b}' for a, b in getattr(u, 'slow', [])]) for u in units},
        extraction_notes=notes, bounded_stand_ins=[f'{a}: {b}: {w}' for a, b, w in bounded])
    if probe:
        cov.update(evaluations=probe['evaluations'], distinct_nontrivial=probe['distinct_nontrivial'], samples=probe['samples'],
          rule='boundary, dictionary (literals of the current source) and seeded random inputs of the property run through the compiled crate and compared with an independent oracle; a case is non-trivial if its fields are not all empty; counted once per distinct case')
    if vac: cov['vacuity'] = vac
    viol = 0
    rp = f'{V}/replay/{prop}.txt'
    code = 0
    if pfail or failed:
        viol = 1; code = 1
        with open(rp, 'w') as f:
            f.write(f'property {prop}\n')
            if pfail:
                f.write(open(pcase).read() if os.path.exists(pcase) else 'why: ' + probe['why'] + '\n')
                f.write(f'\nrerun against the compiled crate: {PROBE} replay {rp}\n')
            for un, fid, errs in failed:
                f.write(f'\nfailed obligation: unit {un}, function {fid}\n')
                for m, ren in errs: f.write(ren + '\n')
            for b in bounded: f.write('\nnot under contract on this tree: ' + ' '.join(b) + '\n')
        if pfail: print('failing input:', probe['case'][:300], '--', probe['why'][:300])
        print(f'VIOLATION property={prop} replay={rp}' + ('' if pfail else ' no-failing-input-found'))
    elif perr and bounded:
        print('no answer: neither the proof nor the probe can run on this tree'); code = 2
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=SEED, level=level, coverage=cov, violations=viol,
        assumptions=c.get('assumptions', []) + CFG['*']['assumptions'] + (['BOUNDED on this tree, not proved: ' + '; '.join(f'{b}' for _, b, _ in bounded)] if bounded else []), wall_s=round(time.time() - T0, 2))
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for l in open(f'{V}/known-findings.txt'):
        if l.startswith(f'KNOWN-FINDING: property={prop} '): print(l.rstrip())
    log('done:', 'VIOLATION' if code == 1 else ('holds, every obligation discharged' if proved else 'holds on everything explored'))
    sys.exit(code)
if __name__ == '__main__': main()
