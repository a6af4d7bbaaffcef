"""Checks decided by Kani (CBMC) over the real source; counterexamples are replayed against the real crates."""
import json, os, re, time
import common
from common import VERIF, Broken

SMALL = {'RUSTFLAGS': None}

def flags(crate=None):
    e = common.env()
    return {'RUSTFLAGS': e['RUSTFLAGS'] + ' --cfg phantom_verif_' + ('mid_ram' if crate == 'kf' else 'small_ram')}

BASE = ['cargo', 'kani', '--lib', '-Z', 'stubbing', '-Z', 'unstable-options', '--no-assertion-reach-checks']
CBMC = ['--cbmc-args', '--max-field-sensitivity-array-size', '600']
PREFIX = {'kani': 'proofs::', 'km': 'proofs::', 'ke': 'front::proofs::', 'kf': 'front::proofs::'}

def place(crate):
    """km: kani over generated sources; kf: ke with the larger memory"""
    return f'{VERIF}/' + {'km': 'kani/gen/kp', 'kf': 'ke'}.get(crate, crate)

def put(path, data):
    if not os.path.exists(path) or open(path, 'rb').read() != data:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, 'wb').write(data)

def generate():
    """kani/gen: the harnesses of kani over /repo's sources, copied now, with the standard maps replaced by association
    lists where the lattice library is not involved"""
    gen, seen = f'{VERIF}/kani/gen', set()
    for d, sub, fs in os.walk(common.REPO):
        sub[:] = [x for x in sub if x not in ('target', '.git', 'node_modules')]
        for f in fs:
            src = os.path.join(d, f)
            rel = os.path.relpath(src, common.REPO)
            if not (rel in ('Cargo.toml', 'Cargo.lock') or rel.startswith(('fhevm/', 'compiler/'))) or not os.path.isfile(src):
                continue
            data = open(src, 'rb').read()
            if rel.startswith('fhevm/src/') and f.endswith('.rs') and b'poulpy' not in data:
                data = re.sub(rb'(?<![\w:])(::)?std::collections\b', rb'shadow::collections', data)
            if rel == 'fhevm/Cargo.toml':
                data = re.sub(rb'^\[dependencies\]', b'[dependencies]\nshadow = { path = "../../../shadow" }', data, flags=re.M)
            put(f'{gen}/repo/{rel}', data)
            seen.add(rel)
    for d, sub, fs in os.walk(f'{gen}/repo'):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), f'{gen}/repo') not in seen:
                os.remove(os.path.join(d, f))
    put(f'{gen}/kp/Cargo.toml', b'[package]\nname = "kp"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[lib]\npath = "../../src/lib.rs"\n\n'
        b'[dependencies]\nfhevm = { path = "../repo/fhevm" }\n\n[lints.rust]\nunexpected_cfgs = { level = "allow" }\n')
    lock = f'{gen}/kp/Cargo.lock'
    if not os.path.exists(lock):
        put(lock, open(f'{VERIF}/kani/Cargo.lock', 'rb').read())

class H:
    """one harness; kind 'hold': all its checks succeed; 'refuse': its marked point is unreachable"""
    def __init__(self, crate, name, kind='hold', solver=None):
        self.crate, self.name, self.kind, self.solver = crate, name, kind, solver
        self.state, self.failed, self.stats, self.checks, self.functions = 'not run', [], {}, 0, set()
        # an unwinding assertion failed, nothing else
        self.short = False

def call(run, crate, hs, limit, solver=None, jobs=8, unwind=None):
    out_json = f'{VERIF}/evidence/{run.prop}.kani.json'
    if os.path.exists(out_json):
        os.remove(out_json)
    cmd = BASE + ['-j', str(jobs), '--output-format', 'terse', '--exact', '--harness-timeout', f'{int(limit)}s', '--export-json', out_json]
    if solver:
        cmd += ['--solver', solver]
    if unwind:
        cmd += ['--unwind', str(unwind)]
    for h in hs:
        cmd += ['--harness', PREFIX[crate] + h.name]
    rc, out = common.sh(cmd + CBMC, cwd=place(crate), timeout=max(30, 840 - (time.time() - run.t0)) if run.tier == 'quick' else 4 * 3600, extra=flags(crate))
    if re.search(r'^error(\[|:)', out, re.M) and not os.path.exists(out_json):
        errs = [l for l in out.splitlines() if l.startswith('error')]
        raise Broken(f'{crate} does not build against /repo: ' + '; '.join(errs[:4]))
    if not os.path.exists(out_json):
        return
    d = json.load(open(out_json))
    os.remove(out_json)
    stats = {c['harness_id'].split('::')[-1]: c for c in d.get('cbmc', [])}
    for r in d['verification_results']['results']:
        name = r['harness_id'].split('::')[-1]
        h = next((x for x in hs if x.name == name), None)
        if h is None:
            continue
        judge(h, r.get('checks') or [])
        c = stats.get(name) or {}
        s = c.get('cbmc_stats') or {}
        h.stats = {'time_s': round(r['duration_ms'] / 1000, 1), 'solver': (c.get('configuration') or {}).get('solver'),
                   'steps': s.get('size_program_expression'), 'vccs': s.get('vccs_generated'), 'vccs_to_solver': s.get('vccs_remaining'),
                   'solver_s': s.get('runtime_decision_procedure_s')}

def judge(h, checks):
    h.short = False
    if not checks:
        h.state = 'no answer'
        return
    h.checks = len(checks)
    h.functions = {c['function'] for c in checks if c['function'] and re.match(r'(<?fhevm|<?compiler|.*alloc::real)', c['function'])}
    st = lambda c: c['status'].lower()
    cover = {re.sub(r'\W', '', c['description']): st(c) for c in checks if c['category'] == 'cover'}
    bad = [c for c in checks if c['category'] != 'cover' and st(c) not in ('success', 'unreachable')]
    if cover.get('reached') not in ('satisfied', 'success'):
        vacuous = True
    else:
        vacuous = False
    if h.kind == 'refuse':
        a = cover.get('accepted')
        if a in ('satisfied', 'success'):
            h.state, h.failed = 'failed', ['accepted']
        elif a in ('unsatisfiable', 'unreachable') and not vacuous and not [c for c in bad if 'unwind' in c['category'] or 'unsupported' in c['category']]:
            h.state = 'proved'
        else:
            h.state = 'undecided'
            h.short = any('unwind' in c['category'] or 'unwinding' in c['description'] for c in bad)
        return
    soft = [c for c in bad if c['category'] in ('unwind', 'unsupported_construct') or st(c) == 'undetermined' or 'unwinding' in c['description']]
    hard = [c for c in bad if c not in soft and st(c) == 'failure']
    if hard:
        h.state, h.failed = 'failed', [f"{c['description']} at {c['location'].get('file')}:{c['location'].get('line')}" for c in hard]
    elif soft:
        h.state, h.failed = 'undecided', [c['description'] for c in soft[:3]]
        h.short = any(st(c) == 'failure' and (c['category'] == 'unwind' or 'unwinding' in c['description']) for c in soft)
    elif vacuous:
        h.state, h.failed = 'undecided', ['the end of the harness is not reachable']
    else:
        h.state = 'proved'

def counterexamples(run, h):
    """value lists that make the harness fail, from CBMC's traces"""
    cmd = BASE + ['-Z', 'concrete-playback', '--concrete-playback=print', '--exact', '--harness', PREFIX[h.crate] + h.name]
    found = []
    for solver in (None, 'cadical'):
        if run.tier == 'quick' and time.time() - run.t0 > 780:
            break
        rc, out = common.sh(cmd + (['--solver', solver] if solver else []) + CBMC, cwd=place(h.crate),
                            timeout=max(30, 800 - (time.time() - run.t0)) if run.tier == 'quick' else 3600, extra=flags(h.crate))
        for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
            vals = [bytes(int(x) for x in re.findall(r'\d+', v)) for v in re.findall(r'^\s*vec!\[([\d, ]*)\]', m.group(1), re.M)]
            if vals not in found:
                found.append(vals)
        if found:
            break
    return found

def replay(run, h, vals):
    target = 'target/replay' + ('-mid' if h.crate == 'kf' else '')
    rc, out = common.sh(['cargo', 'build', '--offline', '-q', '--target-dir', target], cwd=f'{VERIF}/kani', timeout=600, extra=flags(h.crate))
    if rc != 0:
        raise Broken('the replay program does not build: ' + out[-400:])
    data = f'# {h.name}\n' + ''.join(v.hex() + '\n' for v in vals)
    path = f'{VERIF}/evidence/replay/{run.prop}.in'
    open(path, 'w').write(data)
    rc, out = common.sh([f'{VERIF}/kani/{target}/debug/kp', h.name, path], timeout=240, extra={'RUST_BACKTRACE': '0'})
    return rc, out, data

def decide(run, spec):
    s = spec(run.tier)
    run.assumptions = s['assumptions']
    hs = [h for h in s['harnesses']]
    limit = s.get('limit', 400 if run.tier == 'quick' else 3600)
    if any(h.crate == 'km' for h in hs):
        generate()
    for crate in ('km', 'kani', 'ke', 'kf'):
        mine = [h for h in hs if h.crate == crate]
        if mine and crate == 'km':
            try:
                call(run, crate, mine, limit, jobs=s.get('jobs', 8))
            except Broken:
                # the sources use more of the maps than the model has
                for h in mine:
                    h.crate = 'kani'
        elif mine:
            call(run, crate, mine, s.get('first', limit) if run.tier == 'quick' else limit, jobs=s.get('jobs', 8))
    # another solver for what is left
    for crate in ('km', 'kani', 'ke', 'kf'):
        rest = [h for h in hs if h.crate == crate and h.state in ('no answer', 'not run')]
        if rest and (run.tier != 'quick' or time.time() - run.t0 < 500):
            call(run, crate, rest, min(limit, max(60, 800 - (time.time() - run.t0))) if run.tier == 'quick' else limit, solver=s.get('second', 'cadical'), jobs=s.get('jobs', 8))
    # loops that need more rounds than the harness gives them
    for n in s.get('unwind', (72, 160)):
        for crate in ('km', 'kani', 'ke', 'kf'):
            rest = [h for h in hs if h.crate == crate and h.short]
            if rest and (run.tier != 'quick' or time.time() - run.t0 < 500):
                call(run, crate, rest, min(limit, max(60, 800 - (time.time() - run.t0))) if run.tier == 'quick' else limit, jobs=s.get('jobs', 8), unwind=n)
    report(run, s, hs)
    notes = []
    for h in [h for h in hs if h.state == 'failed']:
        for vals in counterexamples(run, h):
            rc, out, data = replay(run, h, vals)
            run.cov['replays'].append({'harness': h.name, 'exit': rc, 'output': out[-300:]})
            if rc == 1 or (isinstance(rc, int) and (rc < 0 or rc == 101)):
                run.violation('cex.in', data, f'{h.name}: {"; ".join(h.failed[:3])}\nreplayed against the real code: {out.strip()[-400:]}')
                return
        notes.append(f'{h.name}: {"; ".join(h.failed[:2])}')
        h.state = 'undecided'
    report(run, s, hs)
    if notes:
        raise Broken('the solver reports a failure that the real code does not show: ' + ' | '.join(notes))
    done = [h for h in hs if h.state == 'proved']
    if 2 * len(done) < len(hs) or not done:
        raise Broken('too little was decided: ' + '; '.join(f'{h.name}: {h.state} {h.failed[:1]}' for h in hs if h.state != 'proved'))

def report(run, s, hs):
    fn = sorted(set().union(*[h.functions for h in hs]))
    run.cov.setdefault('replays', [])
    run.cov.update({
        'explanation': s['explanation'],
        'harnesses': len(hs), 'harnesses_proved': sum(h.state == 'proved' for h in hs),
        'undecided': [f'{h.name}: {h.state} {h.failed[:2]}' for h in hs if h.state not in ('proved', 'failed')],
        'checks_discharged': sum(h.checks for h in hs if h.state == 'proved'),
        'queries': sum((h.stats.get('vccs') or 0) for h in hs), 'solver_s': round(sum((h.stats.get('solver_s') or 0) for h in hs), 1),
        'solver': 'CBMC 6.11 (cadical; z3 where noted) through Kani 0.68',
        'functions_encoded': {'count': len(fn), 'names': fn},
        'bounds': s['bounds'],
        'samples': [dict(harness=h.name, status=h.state, checks=h.checks, **h.stats) for h in hs],
    })
