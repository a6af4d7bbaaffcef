"""Checks of the encrypted machine: symbolic execution of fhevm + SMT (symex), native replay."""
import os, json, subprocess, threading, time, signal
import common
from common import VERIF, Broken

ASSUME = [
    'ideal arithmetic: ciphertexts carry exact messages in Z_4, circuit bootstrapping returns the message bit '
    '(noise growth is outside; the model is compared with the real library by native replays)',
    'memory accesses are naturally aligned and inside RAM, the pc is 4-aligned and inside the program',
    'JAL offsets lie in [-2^19, 2^19)',
    'bits of words that hold no operand are those of the RV32I encoding',
]

def block(cex, cycles, threads, fresh=0, verbose=0):
    j = lambda v: ' '.join(str(x) for x in v)
    return (f'cycles {cycles}\nthreads {threads}\nfresh {fresh}\nverbose {verbose}\nrom {j(cex["rom"])}\nregs {j(cex["regs"])}\n'
            f'ram {j(cex["ram"])}\nend\n')

def replay_once(run, cases, timeout=None):
    binary = common.cargo_build('native')
    path = f'{VERIF}/evidence/replay/{run.prop}.in'
    with open(path, 'w') as f:
        f.write(''.join(block(*c) for c in cases))
    rc, out = common.sh([binary, path], timeout=timeout or max(60, min(500, 880 - (time.time() - run.t0))), quiet=True)
    lines = [l for l in out.splitlines() if l.startswith('case ')]
    return rc, lines, out

def shows(l):
    """which deviation a verdict line reports, without the values (None: none)"""
    if 'PANICS' in l:
        return 'PANICS'
    return l.split(':')[1] + ' ' + ' '.join(w.split('=')[0] for w in l.split(':')[-1].split() if '=' in w) if 'DIFFERS' in l else None

def replay(run, cases, timeout=None):
    """cases: list of (cex, cycles, threads) -> verdict lines of the real machine.  The noise of the real
    arithmetic varies from run to run and can flip a bit: a deviation counts if a second run shows it again."""
    t = time.time()
    rc, lines, out = replay_once(run, cases, timeout)
    took = time.time() - t
    bad = [i for i, l in enumerate(lines) if shows(l)]
    # (where a second run does not fit the time a check has, the first one stands)
    for i in bad:
        if run.tier == 'quick' and time.time() - run.t0 + took > 800:
            break
        again = []
        for _ in range(2):
            r2, l2, _o = replay_once(run, [cases[i]], timeout)
            again.append(shows(l2[0]) if l2 else None)
            if r2 == 'timeout' or again[-1] == shows(lines[i]):
                break
        if r2 != 'timeout' and shows(lines[i]) not in again:
            lines[i] = lines[i].replace('DIFFERS', 'deviated once (two more runs did not)').replace('PANICS', 'broke off once (two more runs did not)')
    if bad and not any(shows(l) for l in lines):
        rc = 0
    return rc, lines, out

def replay_cex(run, case):
    """one counterexample; a single-threaded one is tried with eight threads first (faster)"""
    if case[2] == 1:
        c8 = (case[0], case[1], 8) + tuple(case[3:])
        rc, lines, out = replay(run, [c8])
        if any(shows(l) for l in lines):
            return c8, rc, lines, out
    rc, lines, out = replay(run, [case])
    return case, rc, lines, out

class Job:
    def __init__(self, args, timeout=60, weight=1):
        self.args, self.timeout, self.weight = args, timeout, weight
        self.res, self.state = None, 'not run'

def run_jobs(run, binary, jobs, workers, threads):
    lock = threading.Lock()
    todo = list(jobs)
    stop = []
    procs = set()

    def work():
        while True:
            with lock:
                if stop or not todo or run.left() < 10:
                    return
                j = todo.pop(0)
            e = common.env({'SYMEX_JOBS': str(threads), 'RUST_BACKTRACE': '0'})
            p = subprocess.Popen([binary] + j.args.split() + [f'timeout={j.timeout}'], stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=e, start_new_session=True, text=True, errors='replace')
            with lock:
                procs.add(p)
            try:
                out, err = p.communicate(timeout=max(5, run.left()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                j.state = 'out of time'
                continue
            finally:
                with lock:
                    procs.discard(p)
            if stop and p.returncode != 0:
                j.state = 'stopped'
                continue
            line = [l for l in out.splitlines() if l.startswith('{')]
            if p.returncode == 0 and line:
                j.res = json.loads(line[-1])
                j.state = j.res['status']
            else:
                j.state = 'crash'
                j.res = {'stderr': err[-1500:], 'rc': p.returncode}
            if j.state in ('cex', 'crash'):
                with lock:
                    stop.append(j)
                    for q in procs:
                        try:
                            os.killpg(q.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                return

    ts = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return stop

def decide(run, spec):
    run.level = 'other'
    run.assumptions = list(ASSUME)
    binary = common.cargo_build('symex')
    jobs = [Job(*j) if isinstance(j, tuple) else Job(j) for j in spec(run.tier)['jobs']]
    native = spec(run.tier).get('native', [])
    s = spec(run.tier)
    stop = run_jobs(run, binary, jobs, s.get('workers', 4), s.get('threads', 2))
    summarise(run, binary, jobs)
    if stop:
        j = stop[0]
        if j.state == 'cex':
            r = j.res
            case = (r['cex'], r['cycles'], r['threads'], int('fresh=1' in j.args), int('verbose=1' in j.args))
            why = f'{j.args}: solver counterexample ({r["what"]})'
        else:
            # the symbolic run broke off: does the real machine break off as well?
            p = subprocess.run([binary] + j.args.split() + ['sample=1'], stdout=subprocess.PIPE, env=common.env(), text=True)
            if p.returncode != 0:
                raise Broken(f'{j.args}: {j.res["stderr"]}')
            r = json.loads(p.stdout.splitlines()[-1])
            case = (r['cex'], r['cycles'], r['threads'], int('fresh=1' in j.args), int('verbose=1' in j.args))
            why = f'{j.args}: the symbolic run broke off: {j.res["stderr"][-300:]}'
        case, rc, lines, out = replay_cex(run, case)
        if rc != 0 and (any(shows(l) for l in lines) or (isinstance(rc, int) and rc < 0)):
            run.cov['replays'] = lines
            run.violation('cex.in', block(*case), why + '\nreal machine: ' + ' '.join(lines))
            return
        run.cov['replays'] = lines or [out[-500:]]
        raise Broken(f'{why}; the real machine does not show it: {lines or out[-300:]}')
    if native:
        cases = [(c, n, t) for c, n, t in native]
        rc, lines, out = replay(run, cases)
        run.cov['native_traces'] = lines
        run.cov['traces_validated_against_impl'] = sum('agrees' in l for l in lines)
        bad = [i for i, l in enumerate(lines) if shows(l)]
        if bad:
            i = bad[0]
            run.violation('native.in', block(*cases[i]), 'the real machine leaves the proved model: ' + lines[i])
            return
        if rc == 'timeout':
            run.cov['native_traces'] = ['out of time']
    done = [j for j in jobs if j.state == 'proved']
    if not done:
        raise Broken('nothing was decided: ' + '; '.join(f'{j.args}: {j.state}' for j in jobs[:6]))

def summarise(run, binary, jobs):
    rs = [j.res for j in jobs if j.res and 'queries' in j.res]
    tot = lambda k: sum(r.get(k, 0) for r in rs)
    und = [f'{j.args}: {j.state}' + (f' {j.res["unknown"][:3]}' if j.state == 'unknown' else '') for j in jobs if j.state not in ('proved', 'cex')]
    fn = common.functions_of(binary)
    run.cov.update({
        'explanation': 'the repository\'s fhevm crate is executed symbolically (its real code, with the lattice library replaced by '
                       'an exact message domain whose coefficients are literals of one graph); the resulting state is compared '
                       'with an RV32I specification and every equality is decided by z3 over all operand fields, registers and '
                       'memory contents of the family',
        'families': len(jobs), 'families_proved': sum(j.state == 'proved' for j in jobs), 'undecided': und,
        'obligations': tot('obligations'), 'closed_structurally': tot('trivial'), 'queries': tot('queries'),
        'same_form_as_a_decided_query': tot('cached'), 'unsat': tot('unsat'), 'sat_on_free_cuts': tot('sat'),
        'cubes': tot('cubes'), 'graph_nodes': tot('nodes'), 'bootstraps_modelled': tot('boots'),
        'largest_query_nodes': max([r.get('max_query_nodes', 0) for r in rs] or [0]),
        'slowest_query_s': max([r.get('max_query_s', 0) for r in rs] or [0]),
        'solver_s': round(tot('solver_s'), 1), 'solver': 'z3-new (SMT-LIB2, QF_BV)',
        'functions_encoded': {'count': len(fn), 'names': fn},
        'bounds': [{'family': r['family'], 'rom_words': r.get('rom'), 'ram_words': r.get('ram'), 'cycles': r.get('cycles'),
                    'threads': r.get('threads'), 'symbolic_bits': r.get('vars'), 'status': r.get('status'),
                    'queries': r.get('queries'), 'solver_s': r.get('solver_s')} for r in rs],
        'samples': [{'family': r['family'], 'obligations': r.get('obligations'), 'queries': r.get('queries'),
                     'status': r.get('status')} for r in rs[:3]],
    })
