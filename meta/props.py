def run(a, c="default", **o):
    r = {"analysis": a, "config": c}
    if o: r["opts"] = o
    return r
LIB = "lib/libloong/"
HOSTSIZE = "host-supplied arena sizes are below 2^56 bytes"
PROPS = [
dict(id="P01", title="Guest loads and stores never touch host memory outside the guest arena",
  statement="Every load, store and atomic access executed by guest code, in whichever execution loop and instruction form, either touches only bytes of the guest memory arena (including the slack reserved behind it) or raises a guest exception. This holds for every register value, address, immediate and access width, with and without masked addressing.",
  over=["inputs", "programs", "configurations"], quant="all guest programs, all address/offset register values, all access widths, checked and masked addressing",
  why="Tests execute a handful of compiled guest programs with in-range addresses; the guarantee is about every address value on each of some hundred access sites.",
  files=[LIB+"memory_inline.hpp", LIB+"bytecode_impl.cpp", LIB+"la_instr_impl.hpp", LIB+"la_instr_atomic.hpp", LIB+"threaded_dispatch.cpp"],
  mech=[("bounds check in front of typed guest accesses", LIB+"memory_inline.hpp"), ("address masking", LIB+"memory_inline.hpp")],
  technique="abstract interpretation of the compiler IR (linear inequalities over path conditions)", level="proof",
  note="Every access through the arena pointer reachable from the dispatch loops and instruction handlers is an obligation; trusts clang, LLVM normalisation and the analyser, and the bounds relation decided by P03.",
  explain="Both dispatch loops and every instruction handler found through the instruction descriptors are inlined; every load, store, atomic, memory intrinsic or library call through the arena pointer is an obligation 'offset + size <= arena size + 64', discharged from the dominating branch conditions by a linear-inequality domain with wrap-around case splits. Arena pointers escaping to unknown code, and stores to the bounds fields while guest code runs, are violations.",
  assume=["the relation between the cached bounds that P03 decides", "binary translation is not built in"],
  runs=[run("arena", mode="bounds", roots="cpu"), run("arena", "masked", mode="bounds", roots="cpu")],
  thorough_runs=[run("arena", "masked32", mode="bounds", roots="cpu")]),
dict(id="P02", title="Guest code and system calls never write below the start of writable data",
  statement="With checked (unmasked) addressing, no store executed by guest code and no system call acting for it modifies a byte below the start of the program's writable data: text and read-only data never change while the guest runs. Such an attempt raises a guest exception and leaves memory unchanged.",
  over=["inputs", "programs"], quant="all guest programs, all store addresses and widths, all system call arguments",
  why="The tests contain one or two out-of-range stores; the guarantee covers every store instruction and every system call buffer for every address.",
  files=[LIB+"memory_inline.hpp", LIB+"memory_rw.cpp", LIB+"bytecode_impl.cpp", LIB+"la_instr_impl.hpp", LIB+"linux/syscalls.cpp", LIB+"machine_accelerate.cpp"],
  mech=[("writable range check", LIB+"memory.hpp"), ("typed guest store", LIB+"memory_inline.hpp")],
  technique="abstract interpretation of the compiler IR (linear inequalities over path conditions)", level="proof",
  note="Every write through the arena pointer in the dispatch loops, instruction handlers and system calls; same trusted base as P01.",
  explain="As P01, with the obligation 'offset >= start of writable data' for every write through the arena pointer reachable from the dispatch loops, the instruction handlers and the system call handlers.",
  assume=["the relation between the cached bounds that P03 decides"],
  runs=[run("arena", mode="write", roots="cpu,sys")]),
dict(id="P03", title="Cached memory limits always describe the arena that is in use",
  statement="Whenever a machine's memory is set up or re-dimensioned, the limits that later access checks rely on are consistent on return: read-only start <= writable start <= arena size, the cached extents equal arena size minus the respective start, and the allocation behind the arena covers its size plus the access slack. This holds for every program header content, every option value and every custom arena size.",
  over=["inputs", "configurations", "histories"], quant="all ELF headers, machine options, custom arena sizes and sequences of re-dimensioning",
  why="Tests use well-formed programs and default sizes; the relation has to survive any header and option combination.",
  files=[LIB+"memory.cpp", LIB+"elf_loader.cpp", LIB+"memory.hpp"],
  mech=[("arena allocation and donation", LIB+"memory.cpp"), ("program header validation", LIB+"elf_loader.cpp")],
  technique="abstract interpretation with ghost state for the five bounds fields and the allocation size", level="proof",
  note="Proved at every normal return of every public function that stores a bounds field, from any header or option values.",
  explain="Each public function that (transitively) stores one of the five bounds fields is inlined, the fields and the size of the block behind the arena pointer are tracked as ghost variables, and on every normal return the six relations are obligations for the linear-inequality domain (loop invariants between header phis are inferred).",
  assume=[HOSTSIZE, "a host that donates an arena states its true size"],
  runs=[run("bounds"), run("bounds", "masked")]),
dict(id="P04", title="Loading any ELF image never reads outside the image",
  statement="Constructing a machine from an arbitrary byte string reads only bytes of that byte string: whatever its headers, section tables, string tables and symbol tables claim, the loader either rejects the image with an exception, skips the malformed part, or stays inside it.",
  over=["inputs"], quant="all byte strings offered as a program image",
  why="The loader tests use a few valid binaries; a malformed header field needs one particular value at one particular offset.",
  files=[LIB+"elf_loader.cpp", LIB+"memory.cpp", LIB+"elf.hpp"],
  mech=[("header validation", LIB+"elf_loader.cpp"), ("symbol table parsing", LIB+"memory.cpp")],
  technique="abstract interpretation of the compiler IR (linear inequalities over path conditions)", level="proof",
  note="Every read derived from the image pointer in the loader is an obligation against the image size; assumes the image is not modified while it is being loaded.",
  explain="Every function that reads the image pointer is inlined; every access derived from it (including library calls such as memcpy, strnlen, strcmp and the segment copy) is an obligation 'offset + size <= image size'.",
  assume=["the image bytes do not change during loading", "the image is smaller than 2^62 bytes"],
  runs=[run("elf")]),
dict(id="P05", title="System call and host API ranges are validated as whole ranges",
  statement="Every system call buffer, accelerated heap/string call and public bulk accessor (copies, fills, compares, string reads, array views) validates its complete guest range, for every address, length and element count including those whose end wraps around the address space, before touching it. An invalid range raises an exception.",
  over=["inputs", "programs"], quant="all addresses, lengths and counts passed by a guest or a host",
  why="Tests pass short in-range buffers; the failing inputs are lengths near the end of the arena or of the address space.",
  files=[LIB+"memory_rw.cpp", LIB+"memory_inline.hpp", LIB+"memory.cpp", LIB+"linux/syscalls.cpp", LIB+"machine_accelerate.cpp"],
  mech=[("range overloads of the access checks", LIB+"memory.hpp"), ("bulk accessors", LIB+"memory_rw.cpp")],
  technique="abstract interpretation of the compiler IR (linear inequalities over path conditions)", level="proof",
  note="Every access through the arena pointer in the system call handlers and in the public API that touches the arena; trusted base as P01.",
  explain="As P01 for the system call handlers (functions taking a machine reference whose address is taken) and every public function that reads the arena pointer; handing out a checked view is allowed for the API.",
  assume=["the relation between the cached bounds that P03 decides"],
  runs=[run("arena", mode="bounds", roots="sys,api"), run("arena", "masked", mode="bounds", roots="sys,api")]),
dict(id="P30", title="Guest code reaches the host OS only for output, clocks and plain memory",
  statement="Nothing a guest program does - executing instructions, making any of the installed system calls with any arguments, calling accelerated heap or string functions - reaches a host operating-system service other than writing to standard output or standard error, reading a clock, and allocating or releasing anonymous memory. No guest action opens, reads, writes or removes host files, starts processes or threads, sends signals, exits the host process or makes executable mappings.",
  over=["inputs", "programs"], quant="all guest programs and system call arguments, all call paths from guest-reachable entry points",
  why="A test shows that particular calls return an error; that no path to a host service exists is a statement about the whole call graph.",
  files=[LIB+"linux/syscalls.cpp", LIB+"machine.cpp", LIB+"machine_accelerate.cpp", LIB+"threaded_dispatch.cpp", LIB+"posix/threads.cpp"],
  mech=[("emulated system calls", LIB+"linux/syscalls.cpp"), ("accelerated calls", LIB+"machine_accelerate.cpp")],
  technique="effect analysis over the call graph (call-site resolution of descriptors, protection and flags)", level="proof",
  note="Closure over direct calls, address-taken functions, virtual tables and indirect calls by type; every external function must be in a list of effect-free, clock or memory functions, descriptors of writes must resolve to 1 or 2 and mappings must be anonymous and not executable.",
  explain="From the dispatch loops, every instruction handler and every installed system call handler the call graph is closed (indirect calls by type); each external callee is an obligation: it must be effect-free, a clock read, an allocation, or a write/mapping whose descriptor/protection/flag arguments resolve (through merges and all call sites) to the permitted constants.",
  assume=["host callbacks installed by the embedding program are the host's own choice", "the C and C++ runtime libraries behave as documented"],
  runs=[run("effects")]),
dict(id="P31", title="Every system call delivers a result on every path",
  statement="When a guest system call returns to the guest, the handler has decided its result: on every path through every installed system call handler the result register is stored (or the machine is stopped, the program counter or register file replaced by a thread switch or signal, control passed to a host callback, or an exception raised). The guest never continues with whatever its own argument register happened to hold.",
  over=["inputs", "programs", "histories"], quant="all system call arguments, all paths of all installed handlers, threaded and unthreaded machines",
  why="Error paths of rarely used calls (futex, tgkill, sched_yield with one thread) are exactly the ones tests do not execute.",
  files=[LIB+"linux/syscalls.cpp", LIB+"machine.cpp", LIB+"posix/threads.cpp", LIB+"posix/threads.hpp", LIB+"machine_accelerate.cpp"],
  mech=[("result registers", LIB+"machine.hpp"), ("installed handlers", LIB+"linux/syscalls.cpp")],
  technique="typestate dataflow over every path of every handler", level="proof",
  note="Must-analysis over the inlined control-flow graph of each installed handler; handlers whose ABI is a void function (heap free) are exempt.",
  explain="Every function installed in the system call table is inlined; a forward must-analysis tracks 'result delivered' (store to the result register, stop, pc or register-file replacement, host callback) and each normal return is an obligation.",
  assume=["an installed host callback delivers its own result"],
  runs=[run("results")]),
dict(id="P33", title="System calls disclose nothing of the host's memory",
  statement="Whatever a system call handler or a host accessor puts into guest memory or guest registers is data that was produced for the guest: every byte stored or copied there was written before on every path (no uninitialised local variable, structure padding or array tail), no byte comes from beyond the end of the host object that is copied (a string's terminator aside, at most its length), and no value is the address of a host object or is computed from one.",
  over=["inputs", "programs", "histories"], quant="all arguments of all installed system calls and of the bulk accessors, all paths, including failing host calls",
  why="The leaked bytes are whatever the host stack or heap held; tests compare the fields they know and never look at padding, tails and failure paths.",
  files=[LIB+"linux/syscalls.cpp", LIB+"linux/syscalls_threads.cpp", LIB+"memory_rw.cpp", LIB+"memory_inline.hpp", LIB+"machine_inline.hpp", LIB+"posix/signals.hpp"],
  mech=[("results and copies to the guest", LIB+"linux/syscalls.cpp"), ("bulk copies", LIB+"memory_rw.cpp")],
  technique="initialised-bytes dataflow and pointer provenance over every store and copy into guest memory or registers", level="proof",
  note="Bytes of a C++ container's buffer count as written once something fills the buffer; a host call that fills a structure counts only where its success was tested. Plain members of host objects (thread, signal and machine state) are guest state and may be copied up to the member's size.",
  explain="Every scalar and padding byte of every local object is first given a distinct 'never set' value, before the optimiser may choose one; after flattening each installed handler and accessor, every store, atomic and copy whose destination is the guest arena or a guest register is an obligation: its source may not be a never-set value on any path (bytes written are tracked per byte through joins), a host pointer, or bytes beyond the source object's extent.",
  assume=["what an embedder passes to the public copy functions is meant for the guest", "installed host callbacks"],
  runs=[run("leak", roots="sys"), run("leak", roots="api")]),
dict(id="P10", title="The zero register always reads as zero",
  statement="Whenever a guest instruction starts executing, general register 0 holds zero: no instruction, in either execution loop, in its specialised or generic form, when single-stepped, and no system call leaves another value in it, whatever the destination field of the instruction word. This includes instructions that raise a guest exception and instructions executed one at a time by the host.",
  over=["inputs", "programs"], quant="all instruction words of every instruction, every execution loop, single stepping, all system calls",
  why="Compilers practically never emit an instruction whose destination is the zero register, so the tests run none of the several hundred forms.",
  files=[LIB+"bytecode_impl.cpp", LIB+"la_instr_impl.hpp", LIB+"la_instr_atomic.hpp", LIB+"threaded_rewriter.cpp", LIB+"cpu.cpp", LIB+"linux/syscalls.cpp"],
  mech=[("rewriting of zero destinations", LIB+"threaded_rewriter.cpp"), ("re-zeroing after generic handlers", LIB+"bytecode_impl.cpp")],
  technique="dataflow over every decoded instruction joined with the code its bytecode selects", level="proof",
  note="For each of the instructions in both loops: every store to the register file either cannot select register 0 (decoding facts about the word decide it) or is followed by a zeroing on every path, including exceptional ones.",
  explain="The decoding step of the decoder-cache builder is specialised for each instruction descriptor and joined with the code of the bytecode it selects; every store into the register file with an index that may be 0 must be followed by a store of zero to register 0 on all paths to the next instruction, the loop exit or an exception. Handlers, system call handlers and every function that runs a decoded instruction are checked the same way.",
  assume=["host code that writes registers through the public API keeps register 0 zero"],
  runs=[run("cpu", check="r0")]),
dict(id="P11", title="Guest division never faults the host",
  statement="No integer division or remainder in the instruction handlers, the specialised code of both execution loops, the instruction printers and the system call handlers is ever executed with a zero divisor, or, when signed, with the smallest value divided by -1: whatever a guest puts in its registers, dividing cannot raise a host SIGFPE.",
  over=["inputs"], quant="all register contents and instruction words reaching any division in the interpreter or the system calls",
  why="x86 and other hosts trap on division by zero and on the single overflowing quotient of each width; a test has to pick exactly that operand pair for each of the division instructions and each of their two implementations.",
  files=[LIB+"la_instr_impl.hpp", LIB+"bytecode_impl.cpp", LIB+"linux/syscalls.cpp", LIB+"linux/syscalls_threads.cpp"],
  mech=[("division instructions", LIB+"la_instr_impl.hpp"), ("specialised division", LIB+"bytecode_impl.cpp")],
  technique="marked divisions with symbolic bounds and condition reasoning over flattened handlers and composed decode+execute functions", level="proof",
  note="Floating-point division does not trap and is out of scope, as is code only a host program reaches.",
  explain="Before anything is simplified, each integer division with a divisor that is not a harmless constant gets a marker carrying 'divisor is 0' and 'smallest value by -1'; after inlining every handler, printer, system call and decode+execute composition, both conditions must be refuted by the conditions that dominate the marker.",
  assume=[],
  runs=[run("guards", check="div")]),
dict(id="P12", title="No guest operand makes a host shift by the width or more",
  statement="Every shift in the instruction handlers, the specialised code of both execution loops, the instruction printers and the system call handlers shifts by less than the width of the shifted host value, for every register content and every immediate field of every instruction word, so no guest shift, rotate, bit-field or mask operation depends on undefined host behaviour.",
  over=["inputs"], quant="all register contents, all instruction words",
  why="A shift by the width gives a different result per host, compiler and optimisation level, and happens for single operand values (a full-width bit field, amount 32 or 64) that tests rarely pick.",
  files=[LIB+"la_instr_impl.hpp", LIB+"bytecode_impl.cpp", LIB+"la_instr_printers.hpp", LIB+"la_instr.hpp"],
  mech=[("bit-field and shift instructions", LIB+"la_instr_impl.hpp"), ("specialised shifts", LIB+"bytecode_impl.cpp"), ("immediate extraction", LIB+"la_instr.hpp")],
  technique="marked shifts with symbolic bounds over flattened handlers and composed decode+execute functions", level="proof",
  note="Accessors that a host program calls with its own index (Registers::cf, set_cf) are the host's responsibility and not decided.",
  explain="Before anything is simplified, each scalar shift by an amount that is not a constant below the width gets a marker carrying the amount and the width; after inlining every handler, printer, system call and decode+execute composition, amount <= width-1 must be proved at the marker. Constant amounts that reach the width are obligations too.",
  assume=[],
  runs=[run("guards", check="shift")]),
dict(id="P13", title="Guest values never index outside host arrays",
  statement="In the instruction handlers, the specialised code of both execution loops, the instruction printers and the system call handlers, every access to a local object or constant table and every step into a fixed-size array (register file, vector lanes, condition flags, poll and iovec buffers, name tables) stays inside it, for every instruction word, register content and system call argument.",
  over=["inputs"], quant="all instruction words, register contents and system call arguments",
  why="An index one past the end reads or corrupts neighbouring machine state without failing; which operand reaches it differs per instruction, and hundreds of access sites exist.",
  files=[LIB+"la_instr_impl.hpp", LIB+"la_instr_printers.hpp", LIB+"bytecode_impl.cpp", LIB+"registers.hpp", LIB+"linux/syscalls.cpp", LIB+"linux/syscalls_threads.cpp"],
  mech=[("register file access", LIB+"registers.hpp"), ("vector instructions", LIB+"la_instr_impl.hpp"), ("local buffers of system calls", LIB+"linux/syscalls.cpp")],
  technique="symbolic index bounds over flattened handlers and composed decode+execute functions", level="proof",
  note="Accesses inside std::string follow the library's own size invariant. Functions only a host program calls with its own index are not decided. Handlers and printers are assumed to be called with words that decode to their instruction.",
  explain="For each local object and constant table every access through it, including calls with a length, must be proved inside [0,size); each variable step through a fixed array type must be proved below the element count. What does not hold for arbitrary words is decided again after the decoding step of the instruction.",
  assume=["snprintf writes at most its size argument", "system calls fill at most the length they are given"],
  runs=[run("guards", check="arrays")]),
dict(id="P14", title="An instruction's specialised code and its generic handler have the same effect",
  statement="For every instruction that the interpreter executes through a specialised bytecode, the decoding and rewriting step followed by the specialised code has, for every instruction word and machine state, the same effect as the handler that the decoder assigns to that word and that single-stepping executes: the same registers (general, vector, condition flags) and memory get the same values, the same calls are made, it faults exactly when the handler faults, and the next instruction is the same.",
  over=["inputs", "programs"], quant="all instruction words of all specialised instructions, all register and memory contents, both execution loops",
  why="There are two implementations of some 160 instructions and a rewriting step between them; tests reach only one of them for most operand patterns (destination r0, full-width bit fields, extreme offsets).",
  files=[LIB+"bytecode_impl.cpp", LIB+"threaded_rewriter.cpp", LIB+"la_instr_impl.hpp", LIB+"decoder_cache.cpp"],
  mech=[("rewriting into specialised form", LIB+"threaded_rewriter.cpp"), ("specialised code", LIB+"bytecode_impl.cpp")],
  technique="value-graph comparison of the specialised code and the handler, path-sensitive over their acyclic control flow", level="proof",
  note="Branches that leave the execute segment are rewritten to the invalid instruction by design and are not compared. System calls are decided by P22. An instruction whose both forms are wrong in the same way is not detected here (see P18).",
  explain="The decoding step specialised to one instruction is joined with the code its bytecode selects, and separately with the handler the decoder returns; loops are unrolled, every way through each is turned into canonical values for everything it writes, and each pair of ways whose conditions are compatible must write the same values to the same places, make the same calls, end alike and continue at the same program counter.",
  assume=["shift amounts are below the width (P12)"],
  runs=[run("agree", "default")]),
dict(id="P16", title="Every decodable instruction is executed by its own handler",
  statement="Each instruction the emulator describes is reached by some instruction word, and the decoder entry built for such a word selects, in both execution loops, either specialised code or exactly the handler of that instruction: bytecode and handler index of the entry together hold the handler's number, and the generic code looks it up at that place, for every number of registered handlers.",
  over=["inputs", "programs"], quant="all instruction descriptors, all decoder entries, both execution loops",
  why="More than 256 handlers exist, so the index is split over two fields; whether a rarely used instruction lands on its own handler depends on the order in which a program first uses instructions.",
  files=[LIB+"la64.cpp", LIB+"decoder_cache.cpp", LIB+"decoder_cache.hpp", LIB+"threaded_bytecodes.hpp", LIB+"bytecode_impl.cpp", LIB+"threaded_dispatch.cpp", LIB+"threaded_inaccurate_dispatch.cpp"],
  mech=[("handler index split over bytecode and entry", LIB+"decoder_cache.cpp"), ("generic bytecodes", LIB+"bytecode_impl.cpp")],
  technique="per-instruction specialisation of the decoding step and canonical value comparison", level="proof",
  note="Handler numbering itself (linear search of one shared table) is trusted.",
  explain="The decoding step is specialised for each descriptor; every handler it mentions must be that descriptor's own, the stored bytecode must be first generic bytecode + index/256 with the entry keeping index%256, and the code of each generic bytecode must load its handler from table[256*k + index]. Every fixed bytecode selected must have code in both loops.",
  assume=[],
  runs=[run("cpu", check="table")]),
dict(id="P15", title="Every instruction word is decoded to the instruction it encodes or rejected",
  statement="For each of the 2^32 instruction words: if the LoongArch architecture assigns the word to an instruction, the decoder returns that instruction's descriptor or, when the emulator does not implement the instruction, the unimplemented one; it never returns the descriptor of a different instruction. An instruction that is implemented is decoded for all words of its encoding: no register or immediate field value turns it into something else.",
  over=["inputs", "programs"], quant="all 32-bit instruction words, 2031 architectural encodings (base, LSX, LASX, LBT, LVZ)",
  why="The decoder is a hand-written chain of some 350 masked comparisons; tests decode the words a compiler happens to emit, and an overlap between two patterns shows for one field value of a rare instruction.",
  files=[LIB+"la64.cpp"],
  mech=[("instruction decoder", LIB+"la64.cpp")],
  technique="abstract interpretation of the decoder over sets of words (cubes), compared with the architecture's encoding table", level="proof",
  note="The encoding table was extracted from LLVM 18's LoongArch disassembler and is trusted. Words that encode no instruction are not judged.",
  explain="CPU::decode is inlined and interpreted over sets of instruction words (fixed bits minus excluded patterns), which partitions the word space by returned descriptor; each part is intersected with each of the 2031 encodings. A non-empty intersection with a differently named descriptor, an implemented instruction with rejected words, and a descriptor that no word of its own encoding reaches are violations.",
  assume=["LLVM 18's LoongArch disassembler tables are right"],
  runs=[run("isa")]),
dict(id="P17", title="Execution continues at the instruction the program counter names",
  statement="In both execution loops, after every instruction the decoder entry executed next is the one decoded from the address in the guest program counter: sequentially the following instruction, after a direct branch the entry of its target, which always lies inside the segment the branch was decoded for, and after any jump or system call an entry of a segment whose limits contain the program counter. No branch offset, register value or segment layout makes the loop execute an entry that belongs to another address.",
  over=["inputs", "programs"], quant="all instruction words, branch offsets, jump targets and segment layouts",
  why="The entry pointer and the program counter are advanced separately in each of about a hundred pieces of code; a disagreement shows only for particular offsets or at segment edges.",
  files=[LIB+"bytecode_impl.cpp", LIB+"threaded_dispatch.cpp", LIB+"threaded_inaccurate_dispatch.cpp", LIB+"threaded_rewriter.cpp", LIB+"decoder_cache.cpp"],
  mech=[("entry and program counter advance", LIB+"threaded_dispatch.cpp"), ("branch rewriting", LIB+"threaded_rewriter.cpp")],
  technique="canonical linear forms over the decoder entry and program counter, per instruction", level="proof",
  note="Branches outside the segment are decoded to an invalid instruction by design. Segment limits are taken as constant after construction.",
  explain="For each instruction joined with its bytecode's code, and for each shared tail of the loops, the continuation's decoder entry and program counter are brought into canonical linear form: entry offset must equal the program counter offset divided by 4 entries, plus the length of the block entered; direct targets must be proven inside [begin, end-4]; a new segment must be tested to contain the program counter.",
  assume=["the limits of a decoded segment do not change after its construction"],
  runs=[run("cpu", check="flow")]),
dict(id="P18", title="Every instruction computes what the LoongArch architecture defines",
  statement="For every implemented instruction, every word of its encoding and every guest state, executing it writes exactly the registers, vector elements, condition flags and guest memory that the LoongArch architecture says it writes, with the values the architecture says, and continues at the program counter the architecture says; this holds for its handler and for its specialised code in both execution loops.",
  over=["inputs", "programs"], quant="all words of 444 encodings of 344 instructions, all register and memory contents",
  why="Tests run an instruction on a few values; sign extension, lane order, operand aliasing, immediates at the edges of their range and the rarely used conditions differ only for others.",
  files=[LIB+"la_instr_impl.hpp", LIB+"la_instr_atomic.hpp", LIB+"registers.hpp", LIB+"bytecode_impl.cpp", LIB+"la_instr.hpp"],
  mech=[("instruction handlers", LIB+"la_instr_impl.hpp"), ("atomic instructions", LIB+"la_instr_atomic.hpp"), ("specialised code", LIB+"bytecode_impl.cpp")],
  technique="comparison of canonical values (linear forms, bit vectors, decision diagrams over bits) of handler and reference definition, on every pair of ways", level="proof",
  note="Not judged: floating-point exception flags and rounding modes, NaN payloads, whether a multiply-add rounds once or twice, conversions of numbers out of range, the upper half of a vector register after a 128-bit instruction. An instruction may reject a word of its encoding with an exception (privileged or unimplemented forms). Exempt: SYSCALL, BREAK, CPUCFG, RDTIME.D.",
  explain="A reference definition of each instruction, written from the architecture manual (tool/spec/spec.cc), is compiled to the same intermediate representation as the handlers. Both are inlined, unrolled and turned into canonical values of everything written along each way, with comparisons and selections kept as ordered decision diagrams over bits; for each pair of ways whose conditions can hold together, the places written, the values, the memory accesses in order and the end must be identical. Handler and specialised code are then compared as in P14.",
  assume=["the reference definitions state the architecture", "shift amounts are below the width (P12)", "floating-point operations of the host round as the guest expects"],
  runs=[run("sem", "spec"), run("agree", "default")]),
dict(id="P19", title="Straight-line blocks end exactly at the instructions that leave them",
  statement="An instruction is marked as the end of its block exactly when its execution does not simply continue with the following decoder entry: every instruction that can branch, jump, trap into a system call or stop is decoded with a zero remaining block length, and every instruction whose code continues with the next entry is not. Each entry records the distance to the end of its block, so that program counters and instruction counts are right for every sequence of instructions.",
  over=["inputs", "programs"], quant="all instruction words of all instructions, both execution loops",
  why="The two sides are kept in step by hand in different files (a list of opcodes and the code of each bytecode); only uncommon encodings fall between them.",
  files=[LIB+"decoder_cache.cpp", LIB+"bytecode_impl.cpp", LIB+"threaded_rewriter.cpp"],
  mech=[("classification of diverging instructions", LIB+"decoder_cache.cpp"), ("block continuation", LIB+"bytecode_impl.cpp")],
  technique="per-instruction specialisation and canonical value comparison", level="proof",
  note="Decided for each instruction on the decoding step joined with its code, and for the accumulated lengths on the loop that builds the entries; that lengths of 65536 bytes and more do not fit their field is a recorded finding.",
  explain="For each instruction joined with its bytecode's code: a continuation with the next entry requires that the block length stored for the word is provably nonzero, any other continuation or way out requires that it is provably zero. In the loop that builds the entries, what is stored must be what is carried on to the word before, and that is zero or four more.",
  assume=[],
  runs=[run("cpu", check="block"), run("builder", check="blocks")]),
dict(id="P20", title="No guest loop runs on without comparing the instruction limit",
  statement="In the counting execution loop every taken direct branch, every jump and every entry of another block through the slow path is preceded by a comparison of the instruction counter with the limit, and once the limit is reached the loop is left. Whenever either loop returns, the program counter of the next instruction, and in the counting loop the instruction counter, have been written back, so that execution can be resumed.",
  over=["programs", "histories"], quant="all guest programs, all limits, every way out of the execution loops",
  why="A test with a limit interrupts one or two kinds of loop; that no backward transfer exists without the comparison is a statement about every branch in every bytecode.",
  files=[LIB+"bytecode_impl.cpp", LIB+"threaded_dispatch.cpp", LIB+"threaded_inaccurate_dispatch.cpp"],
  mech=[("limit comparison", LIB+"threaded_dispatch.cpp"), ("registers written back", LIB+"threaded_dispatch.cpp")],
  technique="linear-inequality facts at every continuation of every instruction", level="proof",
  note="Fall-through into the next block is not compared (it only moves forward); termination of a single instruction is not part of this property.",
  explain="At every non-sequential continuation of each instruction and at every transition in the shared tails 'counter + 1 <= limit' must follow from the dominating branches; at every exit the stores of program counter and counter must cover all paths and hold the canonical value of the next instruction's address and the counter.",
  assume=[],
  runs=[run("cpu", check="budget")]),
dict(id="P21", title="Entering a block counts exactly the instructions of that block",
  statement="In the counting execution loop the instruction counter grows by exactly the number of instructions in a block when the block is entered, however it is entered (fall-through, taken branch, jump, return from a system call, start of execution), and changes nowhere else. No instruction is executed uncounted and none is counted twice.",
  over=["programs", "histories"], quant="all guest programs, all ways of entering a block",
  why="Tests compare counter values of a few programs; each of some hundred continuations has its own addition.",
  files=[LIB+"bytecode_impl.cpp", LIB+"threaded_dispatch.cpp"],
  mech=[("counter update on block entry", LIB+"threaded_dispatch.cpp")],
  technique="canonical linear forms over the instruction counter, per instruction", level="proof",
  note="Blocks are counted as a whole on entry; an exception in the middle of a block leaves the whole block counted (by design).",
  explain="At every continuation of each instruction joined with its code, and at every transition of the shared tails, the new counter minus the old one must have the canonical form of (block length of the entered entry)/4 + 1, and 0 inside a block and on the way out.",
  assume=[],
  runs=[run("cpu", check="count")]),
dict(id="P22", title="A stop request ends execution before the next instruction",
  statement="When a system call handler, an accelerated call or host callback stops the machine or moves the guest program counter, the execution loop that made the call notices before it executes another instruction: the limit is read again after every such call, a limit of zero leaves the loop, and execution goes on in the block only if the program counter is unchanged.",
  over=["programs", "histories"], quant="all system calls, both execution loops, every code path that calls out of the loop",
  why="Tests stop machines from one kind of call; each bytecode that can call out has its own copy of the check.",
  files=[LIB+"bytecode_impl.cpp", LIB+"threaded_dispatch.cpp", LIB+"threaded_inaccurate_dispatch.cpp", LIB+"machine.hpp"],
  mech=[("limit reloaded after system calls", LIB+"bytecode_impl.cpp")],
  technique="dominance and linear-inequality facts at every continuation after a call out of the loop", level="proof",
  note="Stops requested from another host thread are not covered.",
  explain="For every call through a function pointer taking the machine in the code of an instruction, each continuation reached afterwards must use a limit loaded after the call, have proven it nonzero, and have proven the stored program counter unchanged; block transitions in the shared tails must have proven the limit nonzero.",
  assume=["machines are stopped by the thread that runs them"],
  runs=[run("cpu", check="stop")]),
dict(id="P23", title="What is executed at an address are the words loaded at that address",
  statement="For every program image and every execute segment: each address inside the limits of a segment has a decoder entry, built from the instruction word at exactly that address and for that address; the entries end in an invalid instruction, which stops execution that runs past the last word; the table of entries is never accessed outside its allocation while it is built; each entry records the distance to the end of its straight-line block; segments begin at multiples of four and end where their words end; the words decoded for an address are the ones the loader placed in guest memory at that address, inside the arena; and shared segments are identified by a checksum of all the words they are built from.",
  over=["inputs", "programs"], quant="all program images and program headers, all segment addresses and lengths, all sequences of instruction words",
  why="Tests load a few well-formed programs with one text section; an off-by-one at the end of a table, a section at an unusual offset in its segment or a very long block shows only for particular images.",
  files=[LIB+"decoder_cache.cpp", LIB+"decoder_cache.hpp", LIB+"decoded_exec_segment.hpp", LIB+"memory.cpp", LIB+"elf_loader.cpp", LIB+"cpu.cpp"],
  mech=[("building of the entries", LIB+"decoder_cache.cpp"), ("segment creation", LIB+"memory.cpp"), ("loading", LIB+"elf_loader.cpp")],
  technique="scalar evolution of the building loop, must-pass paths and linear inequalities", level="proof",
  note="That different words have different checksums is not decided (shared segments are found by a 32-bit checksum). Guest memory written after loading is not re-decoded: self-modifying code keeps its old meaning by design.",
  explain="In the function that fills the decoder entries: the loop over the words visits each index once (start, step and exit count by scalar evolution), every iteration stores every field of the entry at its word's index on every path, the address given to the decoding is begin plus the word's offset, every access to the table lies inside its allocation, the final entry is stored on every path that publishes the table, and the number published covers the length given. Block lengths: what is stored is what is carried on, zero or four more, starting from zero. In the function that makes segments: begin, end, alignment and every consumer of the words agree. In the loader: the decoded range and address agree with the copy into the arena, for every way the text section is selected.",
  assume=["operator new[] either returns the requested bytes or throws", "the public function that makes an execute area is given a readable range"],
  runs=[run("builder")]),
dict(id="P32", title="Nothing a guest does can end the host process",
  statement="Whatever a guest program contains or does, and whatever arguments the public functions are given, a failure reaches the embedding program as a C++ exception derived from std::exception. No code the interpreter, the instruction handlers and printers, the system calls or the public functions can reach calls exit, abort, terminate or a failing assertion; no exception is thrown through a function or destructor that must not throw (which would terminate the process); nothing recurses without a bound or re-enters the execution loop on the same host stack on behalf of the guest; and no stack object is sized at run time.",
  over=["inputs", "programs"], quant="all guest programs, all system call arguments, all images, every function reachable from the public interface",
  why="A stray assertion, a throwing destructor or an exception out of a noexcept helper only kills the process for the one input that reaches it; tests that survive say nothing about the remaining paths.",
  files=[LIB+"machine.cpp", LIB+"machine.hpp", LIB+"memory.cpp", LIB+"elf_loader.cpp", LIB+"cpu.cpp", LIB+"linux/syscalls.cpp", LIB+"posix/threads.cpp", LIB+"native/heap.hpp"],
  mech=[("guest exceptions", LIB+"machine.hpp"), ("system calls", LIB+"linux/syscalls.cpp")],
  technique="call-graph reachability and exception-effect analysis", level="proof",
  note="Process-ending calls that inlining proves unreachable are discharged. Exhaustion of host memory in one-time initialisers and throwing deleters of standard objects are assumed away; hardware traps (division, invalid memory) are P01, P05 and P11.",
  explain="The call graph reachable from the execution loops, handlers, printers, system calls and public functions is closed (indirect calls by type); every process-ending call, every call inside a no-throw region whose callees may throw, every throw of a type not derived from std::exception, every cycle of the call graph, every path from guest-called code back into an execution loop and every run-time sized stack object is reported.",
  assume=["host callbacks only throw exceptions derived from std::exception", "one-time static initialisers do not run out of memory"],
  runs=[run("terminate")]),
dict(id="P50", title="Machines in different threads share no unsynchronised state",
  statement="Machines that different host threads create, load, run and destroy at the same time do not race with each other: every variable shared by all machines is constant after its initialisation, or written only by host configuration functions that no machine operation calls, or accessed only with its lock held (slots that are filled once may be read without it); the members of the cache of shared execute segments are used only with their mutex held; a decoded segment is complete before other machines can find it and is not written afterwards; a shared segment is found only under a key that agrees in every component; and locks are always taken in one order, so that machines cannot deadlock.",
  over=["schedules", "histories"], quant="all interleavings of machines created, run and destroyed in different threads",
  why="A data race needs two threads in the same few instructions; the multi-threaded tests run a handful of schedules of one program.",
  files=[LIB+"shared_exec_segment.hpp", LIB+"shared_exec_segment.cpp", LIB+"memory.cpp", LIB+"decoder_cache.cpp", LIB+"decoder_cache.hpp", LIB+"machine.cpp", LIB+"machine.hpp", LIB+"la_instr_printers.hpp"],
  mech=[("cache of shared segments", LIB+"shared_exec_segment.hpp"), ("publication of a segment", LIB+"memory.cpp"), ("table of handlers", LIB+"decoder_cache.cpp")],
  technique="lockset, publication and lock-order analysis over the whole program", level="proof",
  note="One machine is used by one thread at a time; installing handlers and other process-wide settings is host configuration done before machines run. Binary translation is not built in.",
  explain="All functions of the program are analysed with must-held locksets (also across calls). Every mutable global, every access to a member of a class that carries a mutex, every store to a decoded segment or its entries, every publication of a segment, every member of a key compared, and every pair of nested locks is an obligation.",
  assume=["one machine is used by one thread at a time", "process-wide handlers are installed before machines run"],
  runs=[run("shared")]),
]
