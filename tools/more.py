
KNOTE = ('Solver verdict over all values within the stated bounds; Kani also checks every panic, overflow and bounds check on the way. '
         'Trusts the RV32I specification in kani/src/isa.rs, the stand-ins listed in the evidence, Kani/CBMC and the SAT/SMT back end.')
PHOOK = 'constructor and state accessors of the plain machine (cfg phantom_verif)'

prop('T01', 'The plain test machine executes RV32I exactly',
     'One step of the plain (unencrypted) test machine leaves the registers, the memory and the pc that RV32I prescribes, for every computational, jump, branch, load and store instruction with every operand field and from every register and memory content. It never panics on a well-formed program, x0 stays zero, and a destination register equal to a source register is read before it is written.',
     ['inputs', 'programs'], 'all operand fields of all RV32I instructions, all register and memory contents; aligned accesses inside memory',
     'No test in the suite drives the plain machine instruction by instruction; the example program exercises one input.',
     ['compiler/src/interpreter/testvm.rs', 'compiler/src/interpreter.rs'],
     [{'name': 'decode and execute of one instruction', 'where': 'compiler/src/interpreter/testvm.rs'}], ['registers, pc and memory after a step'], PHOOK, KANI, KNOTE)
prop('T02', 'Multiplication and division follow RV32M, including the corner cases',
     'MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM and REMU give the RISC-V result for every pair of operands, on the plain test machine and on the unencrypted mirror of the encrypted machine. Division by zero and the overflow of the most negative number by -1 give the values the ISA defines and never trap.',
     ['inputs'], 'all pairs of 32-bit operands',
     'The defined results of division by zero and of signed overflow, and the mixed-sign upper halves, are single points and half-planes that sampled operands miss.',
     ['compiler/src/interpreter/testvm.rs', 'fhevm/src/rd_update.rs', 'fhevm/src/debug.rs'],
     [{'name': 'evaluation of the M extension', 'where': 'compiler/src/interpreter/testvm.rs, fhevm/src/rd_update.rs (eval_plain)'}], ['destination register after a step'], PHOOK, KANI, KNOTE)
prop('T03', 'The plain test machine reads its input and returns its output exactly',
     'Writing an input tape to the plain test machine puts its bytes, and nothing else, at the declared input area, and the output tape is exactly the declared output area after the program ran, whatever the sizes and alignments of the two areas are. Running the machine for a number of cycles executes exactly that many instructions.',
     ['inputs', 'configurations', 'programs'], 'all tape and memory contents; layouts of the two areas within the bounds, numbers of cycles within the bounds',
     'The example uses one layout, where both areas are whole words at the start of memory.',
     ['compiler/src/interpreter/testvm.rs', 'compiler/src/interpreter.rs'],
     [{'name': 'input and output tape', 'where': 'compiler/src/interpreter.rs, compiler/src/interpreter/testvm.rs'}], ['memory after loading the input, output tape'], PHOOK, KANI, KNOTE)
prop('E01', 'An encrypted run starts from the loaded image and returns the declared output',
     'Creating an encrypted machine from a loaded program and an input tape gives the encrypted machine the program words, the memory image with the input bytes at the declared input area, zero registers and the entry pc; executing runs it for exactly the requested number of cycles, and the output tape decrypts exactly the bytes of the declared output area. So for every input the encrypted run and the plain run return the same output.',
     ['inputs', 'configurations', 'programs'], 'all tape and memory contents; layouts, programs and cycle counts within the bounds; the machine itself by its contract (V01-V08)',
     'Booting an encrypted machine takes minutes; the suite runs one example with one input and does not compare the two machines.',
     ['compiler/src/interpreter.rs'],
     [{'name': 'booting, execution and output of the encrypted machine', 'where': 'compiler/src/interpreter.rs'}], ['output tape of the encrypted run'], PHOOK, KANI, KNOTE)
prop('L01', 'Loading an ELF file reproduces its memory image',
     'Loading a guest ELF file yields exactly the program words of its executable segment and a data memory in which every loaded segment lies at its address, with zero-initialised parts and gaps zero, together with the input and output areas the file declares. This holds for segments that are partly or wholly zero-initialised and for read-only as well as writable data.',
     ['inputs', 'configurations'], 'all segment contents and tape areas; four layouts of segments (order, gaps, zero-initialised tails, unloaded segments)',
     'The suite loads one compiled guest; a different linker layout (data with .bss, rodata, gaps) takes other paths.',
     ['compiler/src/interpreter.rs', 'compiler/src/lib.rs'],
     [{'name': 'segment selection and copying', 'where': 'compiler/src/interpreter.rs (from_elf)'}], ['program words, memory image and tape areas of the loaded program'], PHOOK, KANI,
     KNOTE + ' The ELF parsing library itself is replaced by a stand-in with its interface.')
prop('I01', 'The unencrypted mirror machine agrees with RV32I',
     'One step of the unencrypted mirror of the encrypted machine, which the debug mode and the tests compare it with, gives the registers, memory and pc of RV32I for every instruction word, operand and content: the decoder extracts every operand field and immediate as the ISA lays them out, and the evaluation uses them so.',
     ['inputs', 'programs'], 'all operand fields of all RV32I instructions, all register and memory contents',
     'The tests use the mirror as their oracle, so an error in it (or in the decoder both share) is invisible to them.',
     ['fhevm/src/debug.rs', 'fhevm/src/instructions/mod.rs', 'fhevm/src/rd_update.rs', 'fhevm/src/pc_update.rs', 'fhevm/src/ram_update.rs'],
     [{'name': 'decoder and plain evaluation', 'where': 'fhevm/src/instructions/*.rs, fhevm/src/debug.rs'}], ['registers, pc and memory of the mirror after a step'], 'plain-interpreter hooks (cfg phantom_verif)', KANI, KNOTE)
prop('D01', 'Words that are not instructions are refused, never misexecuted',
     'The instruction decoder shared by the encrypted machine and its mirror never accepts a word that is not an RV32IM instruction: it stops instead of returning some other instruction.',
     ['inputs'], 'all 2^32 words (SYSTEM words are no-ops by design; the reserved patterns of SLLI and JALR are outside)',
     'A test can only try some of the four billion words.',
     ['fhevm/src/instructions/mod.rs'], [{'name': 'decoder', 'where': 'fhevm/src/instructions/mod.rs, r_type.rs, i_type.rs, s_type.rs, b_type.rs'}], ['acceptance of a word'], 'decode hook (cfg phantom_verif)', KANI, KNOTE)
prop('A01', 'Guest allocations never overlap each other or the stack',
     'Every pointer the guest allocator returns is aligned as asked, lies above the end of static data, and the allocation ends below the stack with the safety gap kept; successive allocations never overlap. When there is no room left it stops instead of handing out memory.',
     ['inputs', 'histories'], 'three successive allocations of any size and alignment, any stack pointer, any room within the bounds',
     'No test in the suite runs the allocator: it is only linked into guests.',
     ['runtime/src/alloc.rs'], [{'name': 'bump allocator', 'where': 'runtime/src/alloc.rs'}], ['returned pointers'], None, KANI, KNOTE)

prop('N01', 'Noise stays within the decryption bound over long runs',
     'However many cycles the encrypted machine runs, the noise of every ciphertext it keeps stays below the threshold at which decryption (and so every later cycle) would go wrong.',
     ['histories', 'inputs'], 'all numbers of cycles and all data', 'Tests run a few cycles.',
     ['fhevm/src/interpreter.rs', 'fhevm/src/prepare.rs', 'fhevm/src/parameters.rs'], [{'name': 'refreshing by circuit bootstrapping, parameter choice', 'where': 'fhevm/src/prepare.rs, fhevm/src/parameters.rs'}], ['noise of decrypted state'],
     na='Noise is a probabilistic bound over real-valued Gaussian and rounding errors of FFT-based lattice arithmetic in an external library; it has no finite bit-precise encoding an SMT solver can decide, and replacing it by a worst-case interval refutes the property on correct code.')
prop('N02', 'The server learns nothing about the data it computes on',
     'Nobody without the secret key learns anything about the input, the memory or the control flow of an encrypted run from the ciphertexts, the keys given to the server or the sequence of operations the server performs.',
     ['inputs', 'histories'], 'all inputs and all observations of the server', 'Confidentiality is not observable in a run.',
     ['compiler/src/interpreter.rs', 'fhevm/src/keys.rs', 'fhevm/src/interpreter.rs'], [{'name': 'key generation and encryption', 'where': 'fhevm/src/keys.rs, compiler/src/interpreter.rs'}], ['ciphertexts and operation trace'],
     na='Semantic security is a computational-hardness and randomness-quality claim (LWE), not an assertion over values. (The data-independence of the operation sequence is a by-product of V01-V08: under the symbolic library no branch of a cycle can depend on an encrypted value, or the run would stop with no answer; see DESIGN.md, which also notes the constant seeds.)')
prop('N03', 'Guests compile to programs the machines accept',
     'Compiling a guest crate produces an ELF file whose instructions are all in the supported set and whose input and output areas match the guest\'s declarations.',
     ['programs'], 'all guest crates', 'Two example guests are compiled.',
     ['compiler/src/lib.rs', 'macros/src/lib.rs', 'runtime/src/lib.rs', 'compiler/build.rs'], [{'name': 'invocation of cargo for the guest target, linker script', 'where': 'compiler/src/lib.rs'}], ['the produced ELF file'],
     na='The behaviour is that of an external compiler and linker started as processes (and the riscv target is not installed here); there is no code of the repository to encode beyond composing a command line.')
