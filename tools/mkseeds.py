#!/usr/bin/env python3
"""Development aid (not a check): writes /verif/seeded/<id>/ for the planted bugs listed here.
Each is a textual edit of /repo's HEAD plus a demonstration that runs the real code."""
import os, sys, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import plan
R, I, S, B, J, U = plan.asm()
LW = lambda rd, rs1, imm: I(imm, rs1, 2, rd, 3)
only = set(sys.argv[1:])

def patch(edits):
    d = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {d} && cd {d} && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, check=True)
    for f, old, new in edits:
        p = f'{d}/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    out = subprocess.run(['git', '-C', d, 'diff'], stdout=subprocess.PIPE, check=True, text=True).stdout
    shutil.rmtree(d)
    return out

def put(id, prop, needs, breaks, edits):
    d = f'{V}/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(patch(edits))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    return d

def vm(id, prop, needs, breaks, edits, cases):
    """demonstration: cases (rom, regs, ram, cycles, threads) on the real encrypted machine"""
    if only and id not in only:
        return
    d = put(id, prop, needs, breaks, edits)
    T = V + '/tools/demo'
    shutil.copytree(T + '/src', d + '/src')
    for f in ('Cargo.toml.in', 'Cargo.lock', 'demo.sh'):
        shutil.copy(f'{T}/{f}', d)
    with open(d + '/case.txt', 'w') as f:
        for rom, regs, ram, cycles, threads in cases:
            rg = [0] * 32
            for k, v in regs.items():
                rg[k] = v & 0xffffffff
            j = lambda l: ' '.join(str(x & 0xffffffff) for x in l)
            f.write(f'cycles {cycles}\nthreads {threads}\nrom {j(rom)}\nregs {j(rg)}\nram {j(ram)}\nend\n')
    print(id)

def prog(id, prop, needs, breaks, edits, main, deps=('compiler',)):
    """demonstration: a small program against the repository's crates"""
    if only and id not in only:
        return
    d = put(id, prop, needs, breaks, edits)
    T = V + '/tools/demo2'
    shutil.copy(T + '/demo.sh', d)
    open(d + '/Cargo.toml.in', 'w').write(open(T + '/Cargo.toml.in').read().replace('@DEPS@', '\n'.join('%s = { path = "@REPO@/%s" }' % (x, x) for x in deps)))
    if deps:
        lock = open(V + '/kani/Cargo.lock').read().replace('name = "kp"', 'name = "demo"')
        open(d + '/Cargo.lock', 'w').write(lock)
    open(d + '/main.rs', 'w').write(main.lstrip())
    print(id)

NOP = I(0, 0, 0, 0)
JAL0 = J(0, 0)
exec(open(V + '/tools/seeds.py').read())
