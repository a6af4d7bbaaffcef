"""Which families decide which property."""
ALU = 'LUI AUIPC ADDI SLTI SLTIU XORI ORI ANDI SLLI SRLI SRAI ADD SUB SLL SLT SLTU XOR SRL SRA OR AND ECALL'.split()
CTL = 'JAL JALR BEQ BNE BLT BGE BLTU BGEU'.split()
LOADS = 'LB LH LW LBU LHU'.split()
STORES = 'SB SH SW'.split()
OPS = ALU + CTL + LOADS + STORES

def ops(l, extra=''):
    return [f'op op={o} {extra}'.strip() for o in l]

def v01(tier):
    j = ops(ALU, 'rom=8 ram=16') + ops(['ADD', 'AUIPC', 'SRAI'], 'first=1 rom=8 ram=16') + ops(['AUIPC'], 'rom=2049 ram=4')
    if tier == 'thorough':
        j += ops(ALU, 'first=1 rom=8 ram=16') + ops(ALU, 'rom=64 ram=64') + ops(ALU, 'rom=1024 ram=16') + ops(ALU, 'rom=8 ram=16 threads=8')
        j += [(x, 300) for x in ops(ALU, 'rom=1500 ram=1024')]
    return {'jobs': j}

def v02(tier):
    j = ops(CTL, 'rom=8 ram=16') + ops(CTL, 'rom=1024 ram=4') + ops(['JAL', 'JALR', 'BGE'], 'rom=2049 ram=4') + ops(CTL, 'first=1 rom=8 ram=16')
    if tier == 'thorough':
        j += ops(CTL, 'rom=64 ram=64') + ops(CTL, 'rom=2048 ram=4') + ops(CTL, 'rom=100 ram=16 threads=8') + ops(CTL, 'rom=3000 ram=4')
    return {'jobs': j}

def v03(tier):
    j = ops(LOADS, 'rom=8 ram=16') + ops(LOADS, 'rom=8 ram=3') + [(x, 60) for x in ops(LOADS, 'rom=8 ram=64')] + ops(LOADS, 'first=1 rom=8 ram=8')
    j = [(x, 120) for x in ops(['LB', 'LHU'], 'rom=2 ram=1024')] + j
    if tier == 'thorough':
        j += [(x, 300) for r in (1, 2, 24, 100, 256, 1000, 1024, 1500) for x in ops(LOADS, f'rom=8 ram={r}')]
    return {'jobs': j}

def v04(tier):
    j = ops(STORES, 'rom=8 ram=16') + ops(STORES, 'rom=8 ram=3') + [(x, 60) for x in ops(STORES, 'rom=8 ram=64')] + ops(STORES, 'first=1 rom=8 ram=8')
    j = [(x, 120) for x in ops(['SB', 'SH'], 'rom=2 ram=1024')] + j
    if tier == 'thorough':
        j += [(x, 300) for r in (1, 2, 24, 100, 256, 1000, 1024, 1025) for x in ops(STORES, f'rom=8 ram={r}')]
    return {'jobs': j}

def v05(tier):
    j = ops(OPS, 'rom=8 ram=16 parts=frame')
    if tier == 'thorough':
        j += ops(OPS, 'rom=8 ram=64 parts=frame') + ops(OPS, 'rom=8 ram=16 threads=8 parts=frame') + ops(OPS, 'first=1 rom=8 ram=16 parts=frame')
        j += [(x, 300) for x in ops(['ADD', 'BEQ', 'JALR', 'LB', 'SB', 'SW'], 'rom=8 ram=1024 parts=frame')]
    return {'jobs': j}

MIX = 'ADDI,SW,BEQ,LBU,JAL,SRA,LUI'
def v06(tier):
    t = [2, 3, 4, 5, 7, 8, 16, 32, 33]
    rep = [f'op op={o} rom=8 ram=16 threads={k} verbose=1' for o, k in (('ADD', 1), ('SW', 8), ('BNE', 3))]
    j = [f'fetch ops={MIX} rom=16 ram=16 threads={k}' for k in t]
    j += [f'op op={o} rom=8 ram=16 threads={k}' for o, k in [('SUB', 3), ('SRL', 8), ('SB', 6), ('LH', 10), ('BLT', 12), ('SH', 31), ('JALR', 13), ('SLT', 64)]]
    j = [(f'op op={o} rom=8 ram=1024 threads=8', 120) for o in ('LW', 'SW')] + j + rep
    if tier == 'thorough':
        j += [f'fetch ops={MIX} rom=16 ram=16 threads={k}' for k in list(range(9, 32)) + [48, 64, 128]]
        j += [f'op op={o} rom=8 ram=16 threads={k}' for o in OPS for k in (2, 3, 5, 8, 32)]
        j += [(f'op op={o} rom=8 ram=1024 threads=8', 300) for o in ('LB', 'SB', 'ADD')]
    return {'jobs': j}

def v07(tier):
    j = [(f'fetch ops=ADDI,SW,BEQ rom={n} ram=8', 120) for n in (1024, 1025)]
    j += [f'fetch ops={MIX} rom={n} ram=8' for n in (2, 3, 5, 8, 10, 33, 64, 100)]
    j += [f'op op={o} rom=2 ram={n}' for o in ('LW', 'SW') for n in (1, 2, 3, 5, 24, 100)]
    j = [(x, 120) for x in ops(['SW', 'LW'], 'rom=2 ram=1024')] + j + [('op op=SW rom=2 ram=256', 120)]
    if tier == 'thorough':
        j += [(f'fetch ops={MIX} rom={n} ram=8', 300) for n in list(range(4, 40)) + [127, 128, 129, 500, 1000, 1023, 1500, 2047, 2048, 2049, 3000, 4096]]
        j += [(f'op op={o} rom=2 ram={n}', 300) for o in ('LW', 'SW', 'SB', 'LBU') for n in (4, 6, 7, 9, 31, 32, 33, 127, 128, 129, 256, 512, 1000, 1023, 1024, 1025, 1500, 2048)]
    return {'jobs': j, 'workers': 3, 'threads': 3}

def v09(tier):
    j = [f'boot ram={r} rom={n} fresh={f}' for r, n in ((1, 2), (2, 3), (3, 5), (16, 8), (100, 64), (1023, 1025), (1024, 1024), (1025, 33), (2050, 2)) for f in (0, 1)]
    R, I, S, B, J, U = asm()
    # registers as the machine creates them, memory arbitrary
    p = [U(0x40, 5), I(8, 5, 2, 6, 3), R(0, 6, 7, 0, 8), S(3, 8, 5, 0), R(0, 5, 31, 6, 9), J(-16, 30)]
    j += ops(['ADD', 'BEQ', 'AUIPC'], 'first=1 fresh=1 rom=8 ram=16')
    j += [f'prog words={hexes(p)} cycles=10 ram=16 fresh=1 each=1']
    if tier == 'thorough':
        j += [f'boot ram={r} rom={n} fresh={f}' for r in (4, 5, 7, 33, 500, 2048, 3000, 4096) for n in (2, 100, 3000) for f in (0, 1)]
        j += ops(ALU + CTL, 'first=1 fresh=1 rom=8 ram=16') + ops(['ADD', 'BNE', 'JAL'], 'first=1 fresh=1 rom=1025 ram=16')
    return {'jobs': j}

def asm():
    R = lambda f7, rs2, rs1, f3, rd, op=0x33: f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
    I = lambda imm, rs1, f3, rd, op=0x13: (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
    S = lambda imm, rs2, rs1, f3: ((imm >> 5) & 127) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | 0x23
    B = lambda imm, rs2, rs1, f3: ((imm >> 12) & 1) << 31 | ((imm >> 5) & 63) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | ((imm >> 1) & 15) << 8 | ((imm >> 11) & 1) << 7 | 0x63
    J = lambda imm, rd: ((imm >> 20) & 1) << 31 | ((imm >> 1) & 0x3ff) << 21 | ((imm >> 11) & 1) << 20 | ((imm >> 12) & 0xff) << 12 | rd << 7 | 0x6f
    U = lambda imm, rd, op=0x37: imm << 12 | rd << 7 | op
    return R, I, S, B, J, U

def hexes(l):
    return ','.join('%08x' % (x & 0xffffffff) for x in l)

def programs():
    R, I, S, B, J, U = asm()
    return {
        # count down and accumulate
        'loop': ([R(0, 2, 1, 0, 1), I(-1, 3, 0, 3), B(-8, 0, 3, 1), R(0x20, 2, 1, 0, 4)], 6),
        # larger of two, stored
        'max': ([B(12, 2, 1, 4), R(0, 0, 1, 0, 3), J(8, 0), R(0, 0, 2, 0, 3), S(0, 3, 5, 2)], 4),
        # call and return
        'call': ([J(12, 1), S(0, 10, 5, 2), J(0, 0), R(0, 11, 10, 4, 10), I(0, 1, 0, 0, 0x67)], 5),
        # byte-wise rewriting of one word, read back
        'bytes': ([S(0, 6, 5, 0), S(1, 7, 5, 0), S(2, 8, 5, 1), I(0, 5, 2, 9, 3), I(1, 5, 0, 10, 3), I(2, 5, 5, 11, 3)], 6),
        # swap two words
        'swap': ([I(0, 5, 2, 1, 3), I(4, 5, 2, 2, 3), S(0, 2, 5, 2), S(4, 1, 5, 2)], 4),
        # address of the table from lui/auipc
        'lui': ([U(0x40, 5), I(2, 6, 1, 7), R(0, 7, 5, 0, 5), I(0, 5, 2, 8, 3), U(1, 9, 0x17), R(0, 9, 8, 0, 8)], 6),
        # conditional skip of a store, infinite loop at the end
        'skip': ([B(8, 0, 1, 0), S(0, 2, 5, 2), I(0, 5, 2, 3, 3), J(0, 0)], 5),
    }

def native_trace():
    """a concrete program for the real machine: every part of the data path within a few cycles"""
    R, I, S, B, J, U = asm()
    rom = [U(0x40, 5), I(-3, 0, 0, 6), S(5, 6, 5, 0), I(5, 5, 0, 7, 3), R(0x20, 7, 6, 0, 8), B(8, 0, 8, 0),
           I(1, 0, 0, 9), R(0x20, 7, 6, 5, 10), J(8, 1), I(1, 0, 0, 9), I(4, 5, 1, 11, 3)]
    regs = [0] + [(i * 0x9E3779B1) & 0xffffffff for i in range(1, 32)]
    regs[7] = 1
    ram = [(i * 0x85EBCA6B + 77) & 0xffffffff for i in range(8)]
    return ({'rom': rom, 'regs': regs, 'ram': ram}, 9, 8)

def long_program():
    """30 instructions over the whole data path, several with destination x0, then back to the start"""
    R, I, S, B, J, U = asm()
    L = lambda imm, rs1, f3, rd: I(imm, rs1, f3, rd, 3)
    return [U(0x40, 5), I(7, 1, 0, 0), R(0, 2, 1, 0, 3), S(0, 3, 5, 2), L(0, 5, 2, 0), R(0, 0, 0, 0, 4), L(3, 5, 4, 6), S(5, 6, 5, 0),
            L(4, 5, 1, 7), R(0x20, 7, 3, 5, 8), J(8, 1), I(1, 0, 0, 9), U(0x12345, 0), R(0, 0, 8, 3, 9), B(8, 0, 0, 0), I(1, 9, 0, 9),
            R(0, 9, 8, 4, 10), I(-1, 10, 6, 11), S(10, 11, 5, 1), L(8, 5, 2, 12), J(4, 0), I(1, 0, 2, 13), U(1, 14, 0x17),
            R(0, 12, 11, 7, 15), I(0, 0, 0, 0), S(12, 15, 5, 2), L(12, 5, 2, 16), R(0, 1, 16, 1, 0), R(0, 0, 16, 0, 17), I(5, 17, 5, 18),
            J(-116, 2)]

def v08(tier):
    I = asm()[1]
    seqs = ['SW,LW', 'SB,LBU', 'SH,LH', 'LW,ADD,SW', 'SB,LB,ADD', 'ADDI,ADDI,SLT', 'SW,SB,LW', 'LUI,ADDI,SUB', 'ECALL,SW,LW', 'SB,LB,ADD,BEQ', 'AUIPC,JALR']
    j = [(f'seq ops={s} ram=4', 120) for s in seqs]
    for n, (w, c) in programs().items():
        if n != 'loop' or tier == 'thorough':
            j.append((f'prog words={hexes(w)} cycles={c} ram=4 each=1', 120))
    j.insert(0, (f'prog words={hexes(long_program())} cycles=56 ram=4 each=1', 120))
    # every cycle writes x0
    j.insert(0, (f'prog words={hexes([I(7, 0, 0, 0)] * 70)} cycles=70 ram=4 each=1', 60))
    if tier == 'thorough':
        for a in ('ADD', 'SW', 'LBU', 'BLT', 'SRA', 'SH', 'LH', 'JAL', 'XORI'):
            for b in ('SUB', 'SB', 'LW', 'SLTU', 'AUIPC'):
                j.append((f'seq ops={a},{b} ram=8', 300))
        j += [(f'seq ops={s} ram=4', 300) for s in ('SW,LW,SH,LHU', 'ADD,SUB,XOR', 'SB,LB,ADD,BEQ,SW', 'SLL,SRL,SRA', 'SB,SB,SB,LW')]
        j += [(f'seq ops={s} ram=4 threads=8', 300) for s in ('SW,LW', 'SB,LB,ADD')]
    return {'jobs': j, 'native': [native_trace()], 'workers': 3, 'threads': 3}

from kani import H

CLASSES = 'alu_imm alu_reg lui auipc jal jalr branch load store'.split()
MEXT = 'mul mulh mulhsu mulhu div divu rem remu'.split()
STEP = ['registers, memory and program words hold arbitrary values', 'the step is an RV32I computational, control-transfer, load or store instruction',
        'accesses are naturally aligned and inside memory, the next pc is 4-aligned']

T01 = ['branch'] + [c for c in CLASSES if c != 'branch'] + ['far_' + c for c in 'load load_top store store_top auipc jal jalr branch alu_imm'.split()]

def t01(tier):
    return {'harnesses': [H('ke', f't01_{c}') for c in T01], 'assumptions': STEP,
            'explanation': 'the plain machine (its real source) executes one instruction word whose operand fields are symbolic, from symbolic '
                           'registers and memory; every register, every memory byte and the pc are compared with an independent RV32I step',
            'bounds': {'program words': '2 (pc 4); far: 1024 (any pc)', 'memory bytes': '16 (all symbolic); far: 4096 (one word symbolic)', 'steps': 1, 'unwinding': 34}}

def t02(tier):
    return {'harnesses': [H('ke', 't02_regs')] + [H('ke', f't02_{c}') for c in MEXT] + [H('kani', f'i01_{c}') for c in MEXT], 'first': 150,
            'assumptions': ['operands are arbitrary 32-bit values', 'the second forms of the upper product halves in the specification denote the same number'],
            'explanation': 'the eight RV32M instructions on arbitrary operands: one step of the plain machine, and the mirror machine\'s evaluation of the decoded word, '
                           'against an independent specification',
            'bounds': {'register numbers': 'plain machine: rs1=5 rs2=6 rd=7 for all values, any registers for values -2..1; mirror: any', 'steps': 1}}

def t03(tier):
    return {'harnesses': [H('ke', f't03_{c}') for c in ('long', 'low', 'odd', 'high', 'apart', 'run')],
            'assumptions': ['the declared input and output areas lie inside memory'],
            'explanation': 'the plain machine with arbitrary memory contents and an arbitrary tape: output tape after 0..11 cycles against what the declared areas hold',
            'bounds': {'memory bytes': '24 (all symbolic), 384 (some)', 'tape bytes': '8 (all symbolic), 269 (some)', 'layouts': 5, 'programs': 1, 'cycles': [0, 2, 3, 4, 6, 7, 11]}}

def e01(tier):
    return {'harnesses': [H('ke', f'e01_{c}') for c in ('low', 'odd', 'high', 'apart', 'run0', 'run4', 'run7')] + [H('kf', 'e01_long')],
            'assumptions': ['the encrypted machine keeps its contract (V01-V08): it is replaced by one RV32I step per cycle on the plain values it is given',
                            'the lattice library, tqdm and num_cpus are replaced by stand-ins; the environment variables are all unset or all "1"',
                            'memory has 32 or 128 bytes (cfg phantom_verif_small_ram, phantom_verif_mid_ram) instead of 4096'],
            'explanation': 'the real code that boots an encrypted machine, runs it and reads its output, on arbitrary memory contents and an arbitrary tape',
            'bounds': {'memory bytes': '32 (all symbolic), 128 (some)', 'tape bytes': '8 (all symbolic), 70 (some)', 'layouts': 6, 'cycles': [0, 4, 7]}}

def l01(tier):
    return {'harnesses': [H('ke', f'l01_{c}') for c in ('plain', 'bss', 'only_bss', 'three', 'full')],
            'assumptions': ['the ELF parsing library reports headers as they are in the file (replaced by a stand-in with the same interface)',
                            'memory has 32 bytes (cfg phantom_verif_small_ram) instead of 4096', 'segments are in address order and do not overlap'],
            'explanation': 'the real loader on ELF files with arbitrary contents and tape areas, five layouts of segments (order, gaps, zero-initialised tails, unloaded segments)',
            'bounds': {'file bytes': 444, 'memory bytes': 32, 'layouts': 5, 'segments': 4}}

I01 = ['far_' + c for c in 'jal auipc branch load store load_top store_top'.split()] + CLASSES

def i01(tier):
    return {'harnesses': [H('km', f'i01_{c}') for c in I01], 'assumptions': STEP + ['the standard maps are replaced by association lists (the sources are otherwise as they are)'],
            'explanation': 'the mirror machine (its real source, with the real decoder) executes one instruction word whose operand fields are symbolic, from symbolic '
                           'registers and memory; every register, every memory word and the pc are compared with an independent RV32I step',
            'bounds': {'program words': '2 (pc 4); far: 70 (pc 268)', 'memory words': '4 (all symbolic); far: 512 (one symbolic)', 'steps': 1, 'unwinding': '66..520'}}

def d01(tier):
    return {'harnesses': [H('kani', 'd02_refuse', 'refuse')],
            'assumptions': ['SYSTEM words are no-ops by design; the reserved patterns of SLLI (upper bits) and JALR (funct3) are outside'],
            'explanation': 'the real decoder on every 32-bit word that is not RV32IM: it never returns',
            'bounds': {'words': 'all 2^32'}}

def a01(tier):
    return {'harnesses': [H('ke', 'a01_fits'), H('ke', 'a01_full', 'refuse')],
            'assumptions': ['reading the stack pointer is replaced by a value the harness chooses', 'addresses are 64 bits wide here, 32 on the guest'],
            'explanation': 'the guest allocator\'s real source: five allocations of arbitrary size and alignment under an arbitrary stack pointer',
            'bounds': {'allocations': 5, 'alignment': '1..4096', 'room bytes': '0..1048576', 'refused size': 'any below 2^32'}}

PLAN = {
    'V01': ('vm', v01), 'V02': ('vm', v02), 'V03': ('vm', v03), 'V04': ('vm', v04),
    'V05': ('vm', v05), 'V06': ('vm', v06), 'V07': ('vm', v07), 'V08': ('vm', v08), 'V09': ('vm', v09),
    'T01': ('kani', t01), 'T02': ('kani', t02), 'T03': ('kani', t03), 'E01': ('kani', e01), 'L01': ('kani', l01), 'I01': ('kani', i01),
    'D01': ('kani', d01), 'A01': ('kani', a01),
}
