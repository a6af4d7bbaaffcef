"""Shared by all checks: environment, building, evidence, verdicts."""
import os, re, sys, time, json, subprocess, signal, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

class Broken(Exception):
    """The check could not give an answer."""

def env(extra=None):
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', f'. {VERIF}/env.sh; env -0'], stdout=subprocess.PIPE, check=True).stdout
    for kv in out.decode().split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            e[k] = v
    e.pop('CARGO_TARGET_DIR', None)
    if extra:
        e.update(extra)
    return e

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        # a check is given 900 s; thorough runs longer
        self.deadline = self.t0 + (float(os.environ.get('VERIF_BUDGET', 0)) or (600 if tier == 'quick' else 6 * 3600))
        self.level = 'other'
        self.cov = {}
        self.assumptions = []
        self.violations = []      # (replay path, text)
        self.error = None
        self.log = []
        os.makedirs(f'{VERIF}/evidence/replay', exist_ok=True)

    def left(self):
        return self.deadline - time.time()

    def violation(self, name, data, text):
        path = f'{VERIF}/evidence/replay/{self.prop}-{name}'
        with open(path, 'w') as f:
            f.write(data)
        self.violations.append((path, text))
        print(text)
        print(f'VIOLATION property={self.prop} replay={path}')
        sys.stdout.flush()

    def write(self):
        d = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
             'coverage': self.cov or {'explanation': 'no answer: ' + str(self.error)},
             'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1),
             'violations': len(self.violations)}
        if self.error:
            d['error'] = self.error
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.prop}.json', 'w') as f:
            json.dump(d, f, indent=1)

    def finish(self):
        self.write()
        if self.violations:
            return 1
        print(f'property={self.prop} tier={self.tier}: held on everything explored '
              f'({round(time.time() - self.t0)} s)')
        return 0

def sh(cmd, cwd=VERIF, timeout=900, extra=None, quiet=False):
    """(rc, output); the whole process group is ended on time-out."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT if not quiet else subprocess.PIPE,
                         start_new_session=True, text=True, errors='replace')
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return 'timeout', ''
    if quiet and p.returncode != 0:
        out += err
    return p.returncode, out

def cargo_build(crate, timeout=600):
    rc, out = sh(['cargo', 'build', '--offline', '-q'], cwd=f'{VERIF}/{crate}', timeout=timeout)
    if rc != 0:
        errs = [l for l in out.splitlines() if l.startswith('error')]
        raise Broken(f'{crate} does not build against /repo: ' + '; '.join(errs[:5]) + ('' if errs else out[-500:]))
    return f'{VERIF}/{crate}/target/debug/{crate}'

def functions_of(binary, crates=('fhevm', 'compiler')):
    """functions of the repository that are compiled into the executor"""
    rc, out = sh(['nm', '-C', binary], quiet=True)
    c = '|'.join(crates)
    names = set()
    for l in out.splitlines():
        if not re.search(rf'\b({c})::', l) or ' t ' not in l.lower():
            continue
        for m in re.finditer(rf'<((?:{c})::\w+(?:::\w+)*)(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>)?(?: as [\w:]+(?:<[\w:, ]*>)?)?>::(\w+)', l):
            names.add(f'{m.group(1)}::{m.group(2)}')
        for m in re.finditer(rf'(?:^|[ <])((?:{c})::\w+::[a-z_0-9:]+)::<', l):
            names.add(m.group(1))
        for m in re.finditer(rf' t ((?:{c})::\w+::[\w:]+)$', l, re.I):
            names.add(m.group(1))
    return sorted(names)
