#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, technique=None, note=None, na=None, thorough=True, level='other'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  hook=hook, technique=technique, note=note, na=na, thorough=thorough, level=level))

SYM = 'symbolic execution of the real fhevm code over literals + z3 (SMT), counterexamples replayed on the real lattice code'
SYMNOTE = ('Solver verdict for every operand field, register and memory content within the stated sizes (ROM/RAM words, threads, cycles). '
           'Trusts the exact-message model of the lattice library (shim), the RV32I specification in symex/src/spec.rs, and z3. '
           'Noise growth is outside.')
KANI = 'Kani (CBMC + SAT/SMT) bounded model checking of the compiled code, counterexamples replayed natively'
HOOK = 'decrypting accessors for registers and pc (cfg phantom_verif)'
CYC = [{'name': 'the cycle: fetch, operand read, evaluation, register/RAM/pc update', 'where': 'fhevm/src/interpreter.rs (Interpreter::cycle and the functions it calls)'}]

prop('V01', 'Encrypted integer instructions compute the RV32I result',
     'For every register-register, register-immediate, LUI and AUIPC instruction executed by the encrypted machine, decrypting the machine after the cycle shows the RV32I result in the destination register (x0 stays zero), the pc advanced by 4, and every other register and all of RAM unchanged. This holds whatever the operand registers, immediates and register contents are, including source and destination being the same register.',
     ['inputs', 'programs'], 'all operand fields and all register/RAM contents, wherever in the program the instruction stands',
     'The tests evaluate single encrypted operations on a few random operands; the whole-cycle tests are skipped, and none covers every operand, register alias or boundary value.',
     ['fhevm/src/interpreter.rs', 'fhevm/src/rd_update.rs', 'fhevm/src/instructions/mod.rs', 'fhevm/src/codegen', 'fhevm/src/prepare.rs', 'fhevm/src/memory.rs'],
     CYC + [{'name': 'destination value selection', 'where': 'fhevm/src/rd_update.rs'}], ['registers, pc and RAM decrypted after a cycle'], HOOK, SYM, SYMNOTE)
prop('V02', 'Encrypted jumps and branches follow RV32I control flow',
     'After an encrypted JAL, JALR or conditional branch the pc is the RV32I target if the jump is taken and pc+4 otherwise, and JAL/JALR leave pc+4 in the destination register. Signed and unsigned comparisons, negative offsets, JALR clearing bit 0 and a destination equal to the base register all behave as the ISA says; nothing else changes.',
     ['inputs', 'programs'], 'all operand fields, register contents and instruction addresses in the program; JAL offsets within +-2^19',
     'The pc tests draw random operands for one instruction at a time, outside the machine; boundary comparisons, aliasing rd/rs1 and the interplay with fetch are not covered.',
     ['fhevm/src/interpreter.rs', 'fhevm/src/pc_update.rs', 'fhevm/src/codegen/codegen_pc_update.rs', 'fhevm/src/instructions'],
     CYC + [{'name': 'next-pc circuit and branch conditions', 'where': 'fhevm/src/pc_update.rs'}], ['pc and registers decrypted after a cycle'], HOOK, SYM, SYMNOTE)
prop('V03', 'Encrypted loads return the addressed memory with the right extension',
     'An encrypted LB, LH, LW, LBU or LHU leaves in the destination register exactly the byte, half-word or word at base + offset in RAM, sign- or zero-extended, for every naturally aligned address inside RAM and every RAM content. RAM and all other registers stay as they were, and the pc advances by 4.',
     ['inputs', 'programs', 'configurations'], 'all aligned addresses in RAM, all byte offsets, offsets of either sign, RAM contents, RAM sizes within the bounds',
     'No test loads sub-words at non-zero byte offsets through the machine or checks the extension for all values.',
     ['fhevm/src/interpreter.rs', 'fhevm/src/ram_offset.rs', 'fhevm/src/memory.rs', 'fhevm/src/rd_update.rs'],
     CYC + [{'name': 'oblivious RAM read and sub-word extraction', 'where': 'fhevm/src/memory.rs, fhevm/src/rd_update.rs'}], ['registers and RAM decrypted after a cycle'], HOOK, SYM, SYMNOTE)
prop('V04', 'Encrypted stores change exactly the addressed bytes',
     'An encrypted SB, SH or SW replaces exactly the addressed byte, half-word or word of RAM by the low bits of the source register, for every naturally aligned address inside RAM. Every other byte of RAM, every register, and the pc apart from advancing by 4, stay as they were.',
     ['inputs', 'programs', 'configurations'], 'all aligned addresses in RAM, all register and RAM contents, RAM sizes within the bounds',
     'Tests write a few addresses; neighbours of the written bytes and all offsets within a word are not quantified over.',
     ['fhevm/src/interpreter.rs', 'fhevm/src/ram_offset.rs', 'fhevm/src/ram_update.rs', 'fhevm/src/memory.rs'],
     CYC + [{'name': 'read-modify-write of the addressed word', 'where': 'fhevm/src/ram_update.rs, fhevm/src/memory.rs'}], ['RAM and registers decrypted after a cycle'], HOOK, SYM, SYMNOTE)
prop('V05', 'No encrypted instruction disturbs state it does not name',
     'Whatever instruction the encrypted machine executes, every register other than its destination and every RAM word other than the one a store addresses decrypt to what they held before, and x0 always reads zero. In particular instructions without a destination change no register, and instructions other than stores change no RAM, even though the machine obliviously reads and rewrites both in every cycle.',
     ['inputs', 'programs'], 'all 38 RV32I instructions, all operand fields and contents',
     'The machine rewrites a RAM word and a register in every cycle at data-dependent places; tests look at the expected result, not at everything else for all operands.',
     ['fhevm/src/interpreter.rs', 'fhevm/src/memory.rs', 'fhevm/src/ram_update.rs'], CYC, ['registers and RAM decrypted after a cycle'], HOOK, SYM, SYMNOTE)
prop('V06', 'Neither thread count nor timing report changes what a cycle computes',
     'For every number of worker threads the encrypted machine is configured with, a cycle produces the same registers, pc and RAM: those RV32I prescribes. This includes thread counts that do not divide the work, that exceed it, and a single thread, and it is so whether or not the machine reports timings.',
     ['configurations', 'schedules', 'inputs'], 'thread counts 1..33 (thorough: up to 128), all operands and contents; the partition of the work is executed as the code makes it',
     'Tests use one or two thread counts on sampled data; a wrong partition drops or repeats work for particular counts only.',
     ['fhevm/src/interpreter.rs', 'fhevm/src/memory.rs', 'fhevm/src/prepare.rs', 'fhevm/src/rd_update.rs'],
     [{'name': 'splitting of per-bit and per-candidate work over scoped threads', 'where': 'fhevm/src/memory.rs, fhevm/src/prepare.rs, fhevm/src/interpreter.rs'}], ['state decrypted after a cycle'], HOOK, SYM,
     SYMNOTE + ' Interleavings: the threads share only disjoint mutable chunks (enforced by the borrow checker), so one schedule per partition is executed.')
prop('V07', 'Every instruction and RAM word is reachable at every memory size',
     'For every program length and RAM size, the encrypted machine fetches exactly the instruction at the pc (each position holding its own instruction) and loads and stores reach exactly the addressed RAM word. Sizes that are not powers of two and sizes beyond one ciphertext behave like all others.',
     ['configurations', 'inputs', 'programs'], 'program lengths and RAM sizes within the listed bounds, all instruction words of the mixes, all pcs and addresses',
     'Tests use one size and a few addresses; the oblivious selection tree has a different shape for every size.',
     ['fhevm/src/memory.rs', 'fhevm/src/parameters.rs', 'fhevm/src/interpreter.rs'],
     [{'name': 'oblivious selection by address bits, packing and trace', 'where': 'fhevm/src/memory.rs'}], ['state decrypted after a cycle'], HOOK, SYM, SYMNOTE)
prop('V08', 'Programs run over several cycles as on a RISC-V machine',
     'Running the encrypted machine for any number of cycles gives the registers, pc and RAM of an RV32I machine after as many instructions: what one cycle writes to a register or to RAM is what later cycles read, branches taken on encrypted data lead to the right instruction, and no hidden state leaks from one cycle to the next.',
     ['histories', 'programs', 'inputs'], 'instruction sequences of 2-6 cycles with all operands, and small programs (loops, calls, conditional stores) over all data',
     'The multi-cycle tests are skipped in the suite (minutes per cycle), and cover one concrete program.',
     ['fhevm/src/interpreter.rs', 'fhevm/src/memory.rs'], CYC + [{'name': 'statefull read / write-back of RAM', 'where': 'fhevm/src/memory.rs'}], ['state decrypted after the last cycle'], HOOK, SYM,
     SYMNOTE + ' One concrete 9-cycle program is also run on the real lattice code to validate the model.')

prop('V09', 'A booted encrypted machine holds exactly the image it was given',
     'Before its first cycle the encrypted machine decrypts to exactly the RAM image and registers it was given, at every RAM and program size, with the pc at the start; registers nobody set read zero. Decrypting the RAM returns every word at its place and does not disturb the machine.',
     ['inputs', 'configurations'], 'all RAM and register contents, sizes within the listed bounds (powers of two and not, one and several ciphertexts)',
     'Tests encrypt and decrypt one size with a few values.',
     ['fhevm/src/interpreter.rs', 'fhevm/src/memory.rs'], [{'name': 'encryption of ROM, RAM and registers; decryption of RAM', 'where': 'fhevm/src/interpreter.rs, fhevm/src/memory.rs (encrypt_sk, decrypt)'}],
     ['RAM, registers and pc decrypted before and after the first cycle'], HOOK, SYM, SYMNOTE)

exec(open(f'{V}/tools/more.py').read()) if os.path.exists(f'{V}/tools/more.py') else None

with open(f'{V}/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': p['hook']}}) + '\n')
        assert len(p['title']) <= 80, p['id']
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'hooks': {'guard': 'cfg(phantom_verif), cfg(phantom_verif_small_ram), cfg(phantom_verif_mid_ram)', 'enable': 'RUSTFLAGS="--cfg phantom_verif" (env.sh); the front-end harnesses also set --cfg phantom_verif_small_ram or phantom_verif_mid_ram', 'source_commits': open(f'{V}/tools/hooks.txt').read().split()},
       'checks': [], 'not_applicable': [],
       'notes': 'Every check builds from /repo\'s working tree into /verif/*/target and writes evidence/<id>.json; counterexamples land in evidence/replay/. Findings: FINDINGS.md.'}
for p in P:
    if p['na']:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        c = {'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} quick', 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
        if p['thorough']:
            c['thorough_cmd'] = f'python3 check.py {p["id"]} thorough'
        man['checks'].append(c)
json.dump(man, open(f'{V}/MANIFEST.json', 'w'), indent=1)
