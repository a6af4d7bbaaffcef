//! Symbolic inputs through the public API, families of programs, obligations, queries.
use crate::isa::{self, Op, Vm, RAM_BASE};
use crate::machine::Ctx;
use crate::solve::{self, Stats, Verdict};
use crate::spec::{self, Cuts, State};
use crate::words::*;
use fhevm::interpreter::Interpreter;
use poulpy_cpu_avx::FFT64Avx as BE;
use poulpy_hal::verif::{aig, Aig, DecMode, EncMode, Lit, Pat, F, P, T};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

/// classes of obligations that are split into cubes
pub const RAM: u8 = 1;
pub const REGS: u8 = 2;

pub const NS: usize = 64 * P;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.next() >> 33) % n as u64) as u32
    }
    pub fn word(&mut self) -> u32 {
        match self.below(8) {
            0 => [0, 1, 2, u32::MAX, 0x8000_0000, 0x7fff_ffff, 0xffff_fffe, 4][self.below(8) as usize],
            1 => self.below(64),
            2 => (self.below(64) as i32).wrapping_neg() as u32,
            _ => (self.next() >> 16) as u32,
        }
    }
}


#[derive(Clone, Debug)]
pub struct Slot {
    pub op: Op,
    pub base: u32,
    /// symbolic bits
    pub mask: u32,
    /// slots of one group share their symbolic bits
    pub group: usize,
}

/// A family of programs and states: which input bits are variables.
#[derive(Clone)]
pub struct Family {
    pub name: String,
    pub slots: Vec<Slot>,
    pub groups: usize,
    pub regs_mask: [u32; 32],
    pub ram: usize,
    pub cycles: usize,
    pub threads: usize,
    /// slot 0 is a jump to the address in x31, executed in the first cycle only
    pub launch: bool,
    pub timeout: u64,
    /// compare only these parts of the final state
    pub parts: Vec<String>,
    /// compare after every cycle, not only after the last
    pub each: bool,
    /// the registers are left as the machine creates them
    pub fresh: bool,
}

#[derive(Clone)]
pub struct Inputs {
    pub rom: Vec<u32>,
    pub regs: [u32; 32],
    pub ram: Vec<u32>,
}

#[derive(Clone)]
pub struct Sym {
    pub rom: Vec<W>,
    pub regs: Vec<W>,
    pub ram: Vec<W>,
}

pub const LAUNCH: u32 = 0x000f_8067;

pub fn mkvars(scen: &[Inputs], get: impl Fn(&Inputs) -> u32, mask: u32, base: u32) -> W {
    let mut g = aig();
    let mut w = konst(base);
    for b in 0..32 {
        if (mask >> b) & 1 == 1 {
            let mut p: Pat = [0; P];
            for (s, x) in scen.iter().enumerate() {
                p[s / 64] |= (((get(x) >> b) & 1) as u64) << (s % 64);
            }
            w[b] = g.var_with(p);
        }
    }
    w
}

/// value of the words in pass k (None: base)
pub fn passval(w: &W, k: Option<u32>) -> u32 {
    let mut r = 0;
    for b in 0..32 {
        let v = match (w[b], k) {
            (l, _) if l < 2 => l,
            (_, None) => 0,
            (l, Some(k)) => (l >> k) & 1,
        };
        r |= v << b;
    }
    r
}


/// Number of bits of a literal.
pub fn litbits() -> u32 {
    32 - (aig().nodes.len() as u32 * 2).leading_zeros()
}

/// Runs `load` (which hands concrete words to the code under test, which encrypts them) once per
/// literal bit, so that the ciphertexts end up holding the literals; then checks on the scenarios
/// that what was encrypted is indeed the literal of each place.
pub fn feed_with(mut load: impl FnMut(EncMode, Option<u32>, Option<usize>)) -> Result<(), usize> {
    let n = litbits();
    let mut go = |m: EncMode, k: Option<u32>, s: Option<usize>| {
        aig().set_enc(m);
        load(m, k, s);
    };
    go(EncMode::Base, None, None);
    for k in 0..n {
        go(EncMode::Pass(k), Some(k), None);
    }
    go(EncMode::Finish, None, None);
    aig().enc_mismatch = 0;
    for k in 0..24 {
        let k = k * (NS / 24);
        go(EncMode::Check(k), None, Some(k));
        if aig().enc_mismatch > 0 {
            aig().set_enc(EncMode::Concrete);
            return Err(k);
        }
    }
    go(EncMode::Finish, None, None);
    aig().set_enc(EncMode::Concrete);
    Ok(())
}

fn feed(ctx: &mut Ctx, it: &mut Interpreter<BE>, s: &Sym, scen: &[Inputs], fresh: bool) -> Result<(), usize> {
    feed_with(|_, k, sc| {
        let (rom, regs, ram) = match sc {
            Some(i) => (scen[i].rom.clone(), scen[i].regs.to_vec(), scen[i].ram.clone()),
            None => (
                s.rom.iter().map(|w| passval(w, k)).collect(),
                s.regs.iter().map(|w| passval(w, k)).collect(),
                s.ram.iter().map(|w| passval(w, k)).collect(),
            ),
        };
        ctx.load_rom(it, &rom);
        if !fresh {
            ctx.load_regs(it, &regs);
        }
        ctx.load_ram(it, &ram);
    })
}

pub struct Out {
    pub regs: Vec<W>,
    pub pc: W,
    pub ram: Vec<W>,
}

pub fn read_out(ctx: &mut Ctx, it: &mut Interpreter<BE>, ram: usize) -> Out {
    let mut o = Out { regs: vec![[F; 32]; 32], pc: [F; 32], ram: vec![[F; 32]; ram] };
    let nbits = 32 - (aig().nodes.len() as u32 * 2).leading_zeros();
    for k in 0..nbits {
        aig().dec = DecMode::Bit(k);
        let put = |w: &mut W, v: u32| {
            for b in 0..32 {
                w[b] |= ((v >> b) & 1) << k;
            }
        };
        aig().hi_tag = REGS;
        for (w, v) in o.regs.iter_mut().zip(ctx.regs(it)) {
            put(w, v);
        }
        aig().hi_tag = 0;
        put(&mut o.pc, ctx.pc(it));
        aig().hi_tag = RAM;
        for (w, v) in o.ram.iter_mut().zip(ctx.ram(it, ram)) {
            put(w, v);
        }
        aig().hi_tag = 0;
    }
    aig().dec = DecMode::Concrete;
    o
}

pub struct Obl {
    pub name: String,
    /// to be split into cubes where a split is given
    pub big: u8,
    /// pairs that have to be equal
    pub pairs: Vec<(Lit, Lit)>,
}


pub fn concrete_run(ctx: &mut Ctx, x: &Inputs, cycles: usize, threads: usize) -> Vm {
    let mut it = ctx.interpreter(x.rom.len(), x.ram.len(), threads);
    ctx.load_rom(&mut it, &x.rom);
    if x.regs != [0; 32] {
        ctx.load_regs(&mut it, &x.regs);
    }
    ctx.load_ram(&mut it, &x.ram);
    for _ in 0..cycles {
        ctx.cycle(&mut it);
    }
    let regs = ctx.regs(&it);
    Vm { regs: regs.try_into().unwrap(), pc: ctx.pc(&it), ram: ctx.ram(&mut it, x.ram.len()) }
}

pub fn reference_run(x: &Inputs, cycles: usize) -> Result<Vm, String> {
    let mut vm = Vm { regs: x.regs, pc: 0, ram: x.ram.clone() };
    for _ in 0..cycles {
        vm.step(&x.rom)?;
    }
    Ok(vm)
}

pub fn val_of_model(w: &W, m: &HashMap<u32, bool>) -> u32 {
    let mut r = 0u32;
    for b in 0..32 {
        let l = w[b];
        let v = if l < 2 { l == T } else { *m.get(&(l >> 1)).unwrap_or(&false) ^ (l & 1 == 1) };
        r |= (v as u32) << b;
    }
    r
}
fn scen_of_model(s: &Sym, m: &HashMap<u32, bool>) -> Inputs {
    let val = |w: &W| val_of_model(w, m);
    let mut regs = [0; 32];
    for (i, w) in s.regs.iter().enumerate() {
        regs[i] = val(w);
    }
    Inputs { rom: s.rom.iter().map(val).collect(), regs, ram: s.ram.iter().map(val).collect() }
}

fn goals_of(o: &Obl) -> Vec<Lit> {
    let mut goals = vec![];
    let mut g = aig();
    for (a, b) in &o.pairs {
        let x = g.xor(*a, *b);
        if x == T {
            return vec![T];
        }
        if x != F {
            goals.push(x);
        }
    }
    goals.sort_unstable();
    goals.dedup();
    goals
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Trivial,
    Cached,
    Decided(Verdict),
}

type Set = Mutex<HashSet<u128>>;

/// Decides assume /\ goals on one graph: first with the cut variables free, then with their definitions.
fn solve_goals(
    g: &Aig,
    assume: &[Lit],
    goals: &[Lit],
    defs: &HashMap<Lit, Lit>,
    proved: &Set,
    failed: &Set,
    st: &mut Stats,
    timeout: u64,
    name: &str,
) -> Outcome {
    for expand in [false, true] {
        let canon = solve::canonical(g, assume, goals, defs, expand);
        if proved.lock().unwrap().contains(&canon) {
            st.cached += 1;
            return Outcome::Cached;
        }
        if !expand && failed.lock().unwrap().contains(&canon) {
            continue;
        }
        let q = solve::build(g, assume, goals, defs, expand);
        st.queries += 1;
        st.nodes += q.size;
        st.max_nodes = st.max_nodes.max(q.size);
        let (v, t) = solve::solve(&q, timeout);
        st.time += t;
        st.max_time = st.max_time.max(t);
        if std::env::var("SYMEX_VERBOSE").is_ok() {
            eprintln!(
                "  {name} goals={} nodes={} free_cuts={} expand={expand} {t:.2}s {}",
                goals.len(),
                q.size,
                q.free_cuts,
                match &v {
                    Verdict::Holds => "unsat",
                    Verdict::Cex(_) => "sat",
                    Verdict::Unknown(_) => "unknown",
                }
            );
        }
        match &v {
            Verdict::Holds => {
                proved.lock().unwrap().insert(canon);
                st.unsat += 1;
                return Outcome::Decided(v);
            }
            Verdict::Cex(_) => st.sat += 1,
            Verdict::Unknown(_) => st.unknown += 1,
        }
        if q.free_cuts == 0 || expand {
            return Outcome::Decided(v);
        }
        failed.lock().unwrap().insert(canon);
    }
    unreachable!()
}

/// The goals with the variables of `fix` fixed: free cuts first, definitions inlined second.
fn solve_cube(
    g: &Aig,
    assume: &[Lit],
    todo: &[(usize, Vec<Lit>)],
    defs: &HashMap<Lit, Lit>,
    fix: &HashMap<u32, bool>,
    proved: &Set,
    st: &mut Stats,
    timeout: u64,
    names: &dyn Fn(usize) -> String,
) -> Vec<(usize, Outcome)> {
    let none = HashMap::new();
    let never: Set = Default::default();
    let mut out = vec![];
    let mut todo: Vec<(usize, Vec<Lit>)> = todo.to_vec();
    for expand in [false, true] {
        if todo.is_empty() {
            break;
        }
        let mut l = solve::Local::new(g, fix, if expand { Some(defs) } else { None });
        let mut asm: Vec<Lit> = assume.iter().map(|a| l.import(*a)).collect();
        asm.extend(l.fixed_defs());
        asm.retain(|a| *a != T);
        let mut again = vec![];
        for (i, goals) in todo {
            let mut lg: Vec<Lit> = goals.iter().map(|x| l.import(*x)).collect();
            lg.retain(|x| *x != F);
            if lg.is_empty() || asm.contains(&F) {
                st.trivial += 1;
                out.push((i, Outcome::Trivial));
                continue;
            }
            let o = solve_goals(&l.g, &asm, &lg, &none, proved, &never, st, timeout, &names(i));
            match o {
                Outcome::Decided(Verdict::Cex(m)) => {
                    if !expand && !defs.is_empty() {
                        again.push((i, goals));
                        continue;
                    }
                    let mut r: HashMap<u32, bool> = HashMap::new();
                    for (k, v) in m {
                        if let Some(b) = l.back.get(&k) {
                            r.insert(*b, v);
                        }
                    }
                    for (k, v) in fix {
                        r.insert(*k, *v);
                    }
                    out.push((i, Outcome::Decided(Verdict::Cex(r))));
                }
                Outcome::Decided(Verdict::Unknown(_)) if !expand => again.push((i, goals)),
                o => out.push((i, o)),
            }
        }
        todo = again;
    }
    out
}

/// Every obligation, on all solver jobs; stops early after the first counterexample.
/// `split`: variables on whose values the queries are split into cubes.
fn prove_all(
    assume: &[Lit],
    obls: &[Obl],
    defs: &HashMap<Lit, Lit>,
    splits: &[(u8, Vec<Lit>)],
    st: &mut Stats,
    timeout: u64,
) -> Vec<Option<Verdict>> {
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    static PROVED: OnceLock<Set> = OnceLock::new();
    static FAILED: OnceLock<Set> = OnceLock::new();
    let proved = PROVED.get_or_init(Default::default);
    let failed = FAILED.get_or_init(Default::default);
    let jobs = std::env::var("SYMEX_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize);
    let goals: Vec<Vec<Lit>> = obls.iter().map(goals_of).collect();
    let guard = aig();
    let g: &Aig = &guard;
    let mut res: Vec<Option<Verdict>> = vec![None; obls.len()];
    // one representative per form
    let canons: Vec<u128> = {
        let next = AtomicUsize::new(0);
        let all = Mutex::new(vec![0u128; obls.len()]);
        std::thread::scope(|sc| {
            for _ in 0..jobs {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= obls.len() {
                        break;
                    }
                    if !goals[i].is_empty() {
                        let c = solve::canonical(g, assume, &goals[i], defs, true);
                        all.lock().unwrap()[i] = c;
                    }
                });
            }
        });
        all.into_inner().unwrap()
    };
    let mut rep: HashMap<u128, usize> = HashMap::new();
    let mut reps: Vec<usize> = vec![];
    for i in 0..obls.len() {
        if goals[i].is_empty() {
            st.trivial += 1;
            res[i] = Some(Verdict::Holds);
        } else if !rep.contains_key(&canons[i]) {
            rep.insert(canons[i], i);
            reps.push(i);
        } else {
            st.cached += 1;
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done: Mutex<(HashMap<usize, Verdict>, Stats)> = Default::default();
    let mut plain: Vec<usize> = vec![];
    let mut cubed: Vec<(&Vec<Lit>, Vec<(usize, Vec<Lit>)>)> =
        splits.iter().filter(|(_, v)| !v.is_empty()).map(|(_, v)| (v, vec![])).collect();
    let classes: Vec<u8> = splits.iter().filter(|(_, v)| !v.is_empty()).map(|(c, _)| *c).collect();
    for i in &reps {
        match classes.iter().position(|c| *c == obls[*i].big) {
            Some(k) => cubed[k].1.push((*i, goals[*i].clone())),
            None => plain.push(*i),
        }
    }
    // (class, cube)
    let mut cubes: Vec<(usize, usize)> = vec![];
    for (k, (v, t)) in cubed.iter().enumerate() {
        if !t.is_empty() {
            cubes.extend((0..1usize << v.len()).map(|c| (k, c)));
        }
    }
    std::thread::scope(|sc| {
        for _ in 0..jobs {
            sc.spawn(|| {
                let mut s = Stats::default();
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= plain.len() + cubes.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let outs = if k < plain.len() {
                        let i = plain[k];
                        vec![(i, solve_goals(g, assume, &goals[i], defs, proved, failed, &mut s, timeout, &obls[i].name))]
                    } else {
                        let (class, c) = cubes[k - plain.len()];
                        let (split, todo) = &cubed[class];
                        let fix: HashMap<u32, bool> =
                            split.iter().enumerate().map(|(b, l)| (l >> 1, (c >> b & 1 == 1) ^ (l & 1 == 1))).collect();
                        s.cubes += 1;
                        solve_cube(g, assume, todo, defs, &fix, proved, &mut s, timeout, &|i| obls[i].name.clone())
                    };
                    let mut d = done.lock().unwrap();
                    for (i, o) in outs {
                        let v = match o {
                            Outcome::Trivial | Outcome::Cached => Verdict::Holds,
                            Outcome::Decided(v) => v,
                        };
                        if matches!(v, Verdict::Cex(_)) {
                            stop.store(true, Ordering::SeqCst);
                        }
                        let e = d.0.entry(i).or_insert(Verdict::Holds);
                        if matches!((&e, &v), (_, Verdict::Cex(_)) | (Verdict::Holds, Verdict::Unknown(_))) {
                            *e = v;
                        }
                    }
                }
                done.lock().unwrap().1.add(&s);
            });
        }
    });
    let (d, s) = done.into_inner().unwrap();
    st.add(&s);
    let stopped = stop.load(Ordering::SeqCst);
    for i in 0..obls.len() {
        if res[i].is_some() {
            continue;
        }
        let r = rep[&canons[i]];
        res[i] = match d.get(&r) {
            // after an early stop only counterexamples count
            Some(v) if !stopped || matches!(v, Verdict::Cex(_)) => match v {
                // the model is the representative's
                Verdict::Cex(_) if r != i => None,
                v => Some(v.clone()),
            },
            _ => None,
        };
    }
    res
}

fn jx(x: &Inputs) -> String {
    format!("{{\"rom\":{:?},\"regs\":{:?},\"ram\":{:?}}}", x.rom, x.regs.to_vec(), x.ram)
}

/// Random operands, then patched so that the run is inside the assumptions.
fn scenario(r: &mut Rng, f: &Family) -> Inputs {
    let mut tries = 0;
    'again: loop {
        tries += 1;
        assert!(tries < 200_000, "no scenario for {}", f.name);
        let mut regs = [0u32; 32];
        for (i, x) in regs.iter_mut().enumerate() {
            *x = r.word() & f.regs_mask[i];
        }
        let ram: Vec<u32> = (0..f.ram).map(|_| r.word()).collect();
        let mut bits: Vec<u32> = (0..f.groups).map(|_| r.next() as u32).collect();
        if f.launch {
            regs[31] = 4 * (1 + r.below(f.slots.len() as u32 - 1));
        }
        for s in &f.slots {
            if s.op == Op::JAL && s.mask != 0 {
                let b = &mut bits[s.group];
                *b = (*b & 0x7fff_ffff) | ((*b >> 19) & 1) << 31;
            }
        }
        if r.below(4) == 0 {
            // equal operands
            let w = bits[r.below(f.groups as u32) as usize];
            let (a, b) = ((w >> 15) & 31, (w >> 20) & 31);
            if a != 31 && b != 31 && a != 0 && b != 0 {
                regs[b as usize] = regs[a as usize];
            }
        }
        // two memory accesses of a run meet in half of the scenarios
        let near = r.below(4 * f.ram as u32);
        let meet = r.below(2) == 0;
        for _ in 0..2 * f.cycles + 2 {
            let rom: Vec<u32> = f.slots.iter().map(|s| if s.mask == 0 { s.base } else { s.base | (bits[s.group] & s.mask) }).collect();
            let mut vm = Vm { regs, pc: 0, ram: ram.clone() };
            let mut written = 0u32;
            let mut ok = true;
            let mut last: Option<u32> = None;
            for _ in 0..f.cycles {
                let at = (vm.pc / 4) as usize;
                let here = vm.pc;
                match vm.step(&rom) {
                    Ok(op) => {
                        if op.writes_rd() {
                            written |= 1 << ((rom[at] >> 7) & 31);
                        }
                        last = Some(here);
                    }
                    Err(_) => {
                        if at >= rom.len() || vm.pc % 4 != 0 {
                            // somewhere else: send the jump that led here into the program
                            let Some(from) = last else { continue 'again };
                            let from: u32 = from;
                            let slot = &f.slots[(from / 4) as usize];
                            let w = rom[(from / 4) as usize];
                            let t = 4 * r.below(rom.len() as u32);
                            let a = ((w >> 15) & 31) as usize;
                            if (slot.op.is_branch() || slot.op == Op::JAL) && slot.mask >> 31 & 1 == 1 {
                                let e = isa::put_imm(t.wrapping_sub(from), slot.op.enc().1);
                                let m = isa::put_imm(u32::MAX, slot.op.enc().1);
                                let b = &mut bits[slot.group];
                                *b = (*b & !m) | e;
                            } else if slot.op == Op::JALR && a != 0 && f.regs_mask[a] == u32::MAX && written >> a & 1 == 0 {
                                regs[a] = t.wrapping_sub(isa::imm(w, slot.op.enc().1));
                            } else {
                                continue 'again;
                            }
                            ok = false;
                            break;
                        }
                        let (op, w) = (f.slots[at].op, rom[at]);
                        let a = ((w >> 15) & 31) as usize;
                        if a == 0 || (f.launch && a == 31) || f.regs_mask[a] != u32::MAX || written >> a & 1 == 1 {
                            if f.slots[at].mask & (31 << 15) == 0 {
                                continue 'again;
                            }
                            let b = &mut bits[f.slots[at].group];
                            *b = (*b & !(31 << 15)) | (1 + r.below(30)) << 15;
                        } else {
                            let addr = (if meet { near ^ r.below(8) } else { r.next() as u32 }) % (4 * f.ram as u32);
                            let addr = addr & !(op.size() - 1);
                            regs[a] = addr.wrapping_add(RAM_BASE).wrapping_sub(isa::imm(w, op.enc().1));
                        }
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Inputs { rom, regs, ram };
            }
        }
    }
}

/// One member of the family (for replays where the symbolic run breaks off).
pub fn sample(f: &Family) -> String {
    let mut r = Rng(0x1234_5678_9abc_def1);
    let x = scenario(&mut r, f);
    format!("{{\"cycles\":{},\"threads\":{},\"cex\":{}}}", f.cycles, f.threads, jx(&x))
}

fn differs(f: &Family, x: &Inputs, want: &Vm, have: &Vm) -> bool {
    let part = |p: &str| f.parts.is_empty() || f.parts.iter().any(|x| x == p);
    let frame = || {
        let (mut rd, mut st) = (HashSet::new(), HashSet::new());
        let mut vm = Vm { regs: x.regs, pc: 0, ram: x.ram.clone() };
        for _ in 0..f.cycles {
            let w = x.rom[(vm.pc / 4) as usize];
            let a = vm.regs[(w >> 15 & 31) as usize].wrapping_sub(RAM_BASE);
            if let Ok(op) = vm.step(&x.rom) {
                if op.writes_rd() && (w >> 7 & 31) != 0 {
                    rd.insert((w >> 7 & 31) as usize);
                }
                if op.is_store() {
                    st.insert((a.wrapping_add(isa::imm(w, op.enc().1)) / 4) as usize);
                }
            }
        }
        (0..32).any(|i| !rd.contains(&i) && have.regs[i] != x.regs[i])
            || (0..x.ram.len()).any(|i| !st.contains(&i) && have.ram[i] != x.ram[i])
    };
    (part("regs") && want.regs != have.regs)
        || (part("pc") && want.pc != have.pc)
        || (part("ram") && want.ram != have.ram)
        || (f.parts.iter().any(|x| x == "frame") && frame())
}

/// The number of cycles after which the run of a member differs from the ISA.
fn first_difference(ctx: &mut Ctx, f: &Family, x: &Inputs) -> Option<usize> {
    let from = if f.each { 1 } else { f.cycles };
    (from..=f.cycles).find(|c| {
        let (want, have) = (reference_run(x, *c), concrete_run(ctx, x, *c, f.threads));
        differs(f, x, &want.unwrap(), &have)
    })
}

/// Decides whether `cycles` cycles of the machine agree with the ISA for every member of the family.
pub fn check(ctx: &mut Ctx, f: &Family) -> String {
    let mut disabled: Vec<String> = vec![];
    let mut extra: Vec<Inputs> = vec![];
    let t0 = Instant::now();
    let mut total = Stats::default();
    let n = f.slots.len();
    loop {
        let mut r = Rng(0x1234_5678_9abc_def1);
        let mut scen: Vec<Inputs> = (0..NS).map(|_| scenario(&mut r, f)).collect();
        for (k, x) in extra.iter().enumerate() {
            scen[NS - 1 - k] = x.clone();
        }
        // variables
        let mut groups: Vec<Option<W>> = vec![None; f.groups];
        let mut sym = Sym { rom: vec![], regs: vec![], ram: vec![] };
        for (i, s) in f.slots.iter().enumerate() {
            if s.mask == 0 {
                sym.rom.push(konst(s.base));
                continue;
            }
            let all = f.slots.iter().filter(|t| t.group == s.group).fold(0, |m, t| m | t.mask);
            assert!(all == s.mask, "groups share the mask");
            let w = *groups[s.group].get_or_insert_with(|| mkvars(&scen, |x| x.rom[i], s.mask, 0));
            let mut v = konst(s.base);
            for b in 0..32 {
                if s.mask >> b & 1 == 1 {
                    v[b] = w[b];
                }
            }
            sym.rom.push(v);
        }
        for i in 0..32 {
            sym.regs.push(mkvars(&scen, |x| x.regs[i], f.regs_mask[i], 0));
        }
        for i in 0..f.ram {
            sym.ram.push(mkvars(&scen, |x| x.ram[i], u32::MAX, 0));
        }
        let mut it = ctx.interpreter(n, f.ram, f.threads);
        if let Err(k) = feed(ctx, &mut it, &sym, &scen, f.fresh) {
            // what is encrypted is not a copy of the operand bits: compare this scenario's outcome
            let x = &scen[k];
            let differs = reference_run(x, f.cycles).unwrap() != concrete_run(ctx, x, f.cycles, f.threads);
            let status = if differs { "cex" } else { "error" };
            return format!(
                "{{\"family\":\"{}\",\"status\":\"{status}\",\"what\":\"operand decoding\",\"cycles\":{},\"threads\":{},\"cex\":{}}}",
                f.name, f.cycles, f.threads, jx(x)
            );
        }
        // specification
        let mut cuts = Cuts { disabled: disabled.clone(), ..Default::default() };
        let mut assume = vec![];
        let mut may = vec![F; 32 + f.ram];
        let mut mids: Vec<State> = vec![];
        let mut st = State { regs: sym.regs.clone(), pc: [F; 32], ram: sym.ram.clone() };
        {
            let mut g = aig();
            g.clear_candidates();
            let prog: Vec<(Op, W)> = f.slots.iter().zip(&sym.rom).map(|(s, w)| (s.op, *w)).collect();
            for (s, w) in f.slots.iter().zip(&sym.rom) {
                if s.op == Op::JAL {
                    let x = g.xor(w[31], w[19]);
                    if x != F {
                        assume.push(x ^ 1);
                    }
                }
            }
            assume.sort_unstable();
            assume.dedup();
            for c in 0..f.cycles {
                let mut skip = None;
                if c > 0 {
                    let lt = ult(&mut g, &st.pc, &konst(4 * n as u32));
                    assume.push(lt);
                    assume.push(st.pc[0] ^ 1);
                    assume.push(st.pc[1] ^ 1);
                    if f.launch {
                        let nz = eq(&mut g, &st.pc, &konst(0)) ^ 1;
                        assume.push(nz);
                        skip = Some(0);
                    }
                }
                let fe = spec::fetch(&mut g, &prog, &st.pc, skip);
                let s = spec::step(&mut g, &fe, &st, &mut cuts, &format!("{c}:"));
                assume.push(s.assume);
                for (a, b) in may.iter_mut().zip(s.may_regs.iter().chain(&s.may_ram)) {
                    *a = g.or(*a, *b);
                }
                st = s.next;
                if f.each && c + 1 < f.cycles {
                    mids.push(st.clone());
                }
            }
            assume.retain(|l| *l != T);
            g.cuts.clear();
            g.hi_obl.clear();
        }
        let t_sym = Instant::now();
        let mut obls = vec![];
        for c in 0..f.cycles {
            ctx.cycle(&mut it);
            if let Some(m) = mids.get(c) {
                let o = read_out(ctx, &mut it, f.ram);
                slices(&format!("cycle {c} registers"), &o.regs, &m.regs, 1, 0, &mut obls);
                slices(&format!("cycle {c} pc"), &[o.pc], &[m.pc], 1, 0, &mut obls);
                slices(&format!("cycle {c} ram"), &o.ram, &m.ram, 8, 0, &mut obls);
            }
        }
        let out = read_out(ctx, &mut it, f.ram);
        let t_sym = t_sym.elapsed().as_secs_f64();
        // obligations
        obls.splice(0..0, cut_obligations(&cuts));
        let (nodes, boots, ncuts, uncut) = {
            let g = aig();
            (g.nodes.len(), g.boots, g.cuts.len(), g.uncut)
        };
        let want = |p: &str| f.parts.is_empty() || f.parts.iter().any(|x| x == p);
        if want("regs") {
            slices("registers", &out.regs, &st.regs, 1, REGS, &mut obls);
        }
        if f.parts.iter().any(|x| x == "frame") {
            // what the instructions do not name is as before (whatever they write)
            let mut mask = |have: &[W], want: &[W], may: &[Lit]| -> Vec<W> {
                let mut g = aig();
                have.iter().zip(want).zip(may).map(|((h, w), m)| ite(&mut g, *m, w, h)).collect()
            };
            let r = mask(&out.regs, &sym.regs, &may[..32]);
            slices("other registers", &r, &sym.regs, 1, REGS, &mut obls);
            let m = mask(&out.ram, &sym.ram, &may[32..]);
            slices("other memory", &m, &sym.ram, 8, RAM, &mut obls);
        }
        if want("pc") {
            slices("pc", &[out.pc], &[st.pc], 1, 0, &mut obls);
        }
        if want("ram") {
            slices("ram", &out.ram, &st.ram, 8, RAM, &mut obls);
        }
        // the upper address bits of the last access
        let split: Vec<Lit> = match cuts.words.iter().rev().find(|(n, _)| n.ends_with("addr")) {
            Some((_, w)) if f.ram > 16 => {
                w[6..2 + spec::bits_for(f.ram)].iter().map(|l| *l & !1).filter(|l| *l > 1).collect()
            }
            _ => vec![],
        };
        // the destination registers of the last cycles
        let mut rsplit: Vec<Lit> = vec![];
        for c in (1..f.cycles).rev().take(2) {
            if let Some((_, w)) = cuts.words.iter().find(|(n, _)| *n == format!("{c}:rd index")) {
                rsplit.extend(w[..5].iter().map(|l| *l & !1).filter(|l| *l > 1));
            }
        }
        rsplit.sort_unstable();
        rsplit.dedup();
        // a scenario may refute an obligation before any query is made
        let hit = obls.iter().find_map(|o| {
            let gl = goals_of(o);
            let g = aig();
            gl.iter().find_map(|l| {
                let p = g.pat(*l);
                (0..NS).find(|k| p[k / 64] >> (k % 64) & 1 == 1).map(|k| (o.name.clone(), k))
            })
        });
        let hit = hit.filter(|(_, k)| first_difference(ctx, f, &scen[*k]).is_some());
        let res = match hit {
            Some((name, k)) => Decided { bad: Some((name, Bad::Scenario(k))), unknown: vec![] },
            None => decide(&assume, &obls, &cuts, &[(RAM, split), (REGS, rsplit)], f.timeout, &mut total),
        };
        let mut cex = String::from("null");
        let mut what = String::new();
        let mut shown = f.cycles;
        if let Some((name, m)) = res.bad {
            let x = match m {
                Bad::Model(m) => scen_of_model(&sym, &m),
                Bad::Scenario(k) => scen[k].clone(),
            };
            if let Err(e) = reference_run(&x, f.cycles) {
                panic!("counterexample outside the assumptions: {e}");
            }
            let first = first_difference(ctx, f, &x);
            if let Some(c) = first {
                shown = c;
            } else {
                // The intermediate value differs, the outcome does not: the cut was guessed wrongly.
                // Learn the scenario; after some attempts do without that cut.
                let c = name.strip_prefix("cut:").map(|s| s.to_string()).unwrap_or_else(|| panic!("spurious {name}"));
                eprintln!("{}: cut {c} refuted", f.name);
                extra.push(x);
                if extra.len() % 4 == 0 {
                    assert!(!disabled.contains(&c), "spurious {c}");
                    disabled.push(c);
                }
                continue;
            }
            cex = jx(&x);
            what = name;
        }
        let status = if cex != "null" {
            "cex"
        } else if res.unknown.is_empty() {
            "proved"
        } else {
            "unknown"
        };
        return format!(
            "{{\"family\":\"{}\",\"status\":\"{status}\",\"rom\":{n},\"ram\":{},\"threads\":{},\"cycles\":{},\"nodes\":{nodes},\"vars\":{},\"boots\":{boots},\"cuts\":{ncuts},\"uncut\":{uncut},\"refined\":{},\"obligations\":{},\"trivial\":{},\"queries\":{},\"cached\":{},\"cubes\":{},\"unsat\":{},\"sat\":{},\"max_query_nodes\":{},\"max_query_s\":{:.2},\"solver_s\":{:.2},\"exec_s\":{t_sym:.2},\"wall_s\":{:.2},\"unknown\":{:?},\"disabled\":{disabled:?},\"what\":\"{what}\",\"cex\":{cex}}}",
            f.name, f.ram, f.threads, shown, aig().nvars, extra.len(), obls.len(), total.trivial, total.queries, total.cached, total.cubes, total.unsat, total.sat, total.max_nodes, total.max_time, total.time, t0.elapsed().as_secs_f64(), res.unknown
        );
    }
}

pub fn slices(name: &str, have: &[W], want: &[W], chunk: usize, class: u8, obls: &mut Vec<Obl>) {
    for b in 0..32 {
        for (h, w) in have.chunks(chunk).zip(want.chunks(chunk)) {
            let p = h.iter().zip(w).map(|(h, w)| (h[b], w[b])).collect();
            obls.push(Obl { name: format!("{name} bit {b}"), big: class, pairs: p });
        }
    }
}

/// The equalities that the cuts made so far rest on, and that bootstrapped messages are bits.
pub fn cut_obligations(cuts: &Cuts) -> Vec<Obl> {
    let mut obls = vec![];
    let g = aig();
    let mut m: BTreeMap<u32, Vec<(Lit, Lit)>> = BTreeMap::new();
    for c in &g.cuts {
        m.entry(c.group).or_default().push((c.l, c.s));
    }
    for (gr, p) in m.iter_mut() {
        p.sort_unstable();
        p.dedup();
        let name = if *gr == u32::MAX { "const".to_string() } else { cuts.names[*gr as usize].clone() };
        for x in p.iter() {
            obls.push(Obl { name: format!("cut:{name}"), big: 0, pairs: vec![*x] });
        }
    }
    let mut h = g.hi_obl.clone();
    h.sort_unstable();
    h.dedup();
    for (l, t) in h {
        obls.push(Obl { name: "bit-valued".into(), big: t, pairs: vec![(l, F)] });
    }
    obls
}

pub enum Bad {
    Model(HashMap<u32, bool>),
    Scenario(usize),
}

pub struct Decided {
    pub bad: Option<(String, Bad)>,
    pub unknown: Vec<String>,
}

pub fn decide(assume: &[Lit], obls: &[Obl], cuts: &Cuts, splits: &[(u8, Vec<Lit>)], timeout: u64, total: &mut Stats) -> Decided {
    let mut d = Decided { bad: None, unknown: vec![] };
    let mut left = 0;
    for (o, v) in obls.iter().zip(prove_all(assume, obls, &cuts.defs, splits, total, timeout)) {
        match v {
            Some(Verdict::Holds) => {}
            Some(Verdict::Cex(m)) => {
                if d.bad.is_none() {
                    d.bad = Some((o.name.clone(), Bad::Model(m)));
                }
            }
            Some(Verdict::Unknown(u)) => d.unknown.push(format!("{}: {u}", o.name)),
            None => left += 1,
        }
    }
    assert!(d.bad.is_some() || left == 0);
    d
}
