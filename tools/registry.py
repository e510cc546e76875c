"""What each check runs. `models` lists design models ((spec, cfg), options); `run` binds to the code."""
CHECKS = {}


def check(pid, crate, part=None, level="model_checking"):
    """`part`: the feature of the harness crate that holds what this check needs"""
    def deco(cls):
        CHECKS[pid] = dict(crate=crate, part=part, level=level, run=cls.run, models=getattr(cls, "models", lambda c: []),
                           technique=cls.technique, note=cls.note)
        return cls
    return deco


def M(spec, cfg=None, **kw):
    return ((spec, cfg), kw)


# ---------------------------------------------------------------- concurrency
@check("L01", "conc")
class L01:
    technique = "TLA+ spec of the cell (RefCell) refined by an instruction-level model, TLC; linearizability + happens-before trace validation of the real cell under controlled schedules"
    note = "All interleavings up to 2 preemptions of the enumerated scenarios (4 in thorough), random schedules beyond; up to 3 threads; atomics observed through a shim"

    @staticmethod
    def models(ctx):
        return [M("RefCellImpl"), M("RefCellImpl", "RefCellImplNeg.cfg", expect_violation=True)]

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["cell", "--n", ctx.scale(700, 12000), "--shards", ctx.scale(4, 8)])
        ctx.validate("RefCellTrace", d, dfs=True)


@check("L02", "conc")
class L02:
    technique = "TLA+ spec of the lock (Lock) refined by an instruction-level model with fairness, TLC; linearizability + happens-before trace validation of the real lock under controlled schedules"
    note = "All interleavings up to 2 preemptions of the enumerated scenarios (4 in thorough), random schedules beyond; up to 3 threads; atomics observed through a shim"

    @staticmethod
    def models(ctx):
        return [M("LockImpl")]

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["lock", "--n", ctx.scale(700, 12000), "--shards", ctx.scale(4, 8)])
        ctx.validate("LockTrace", d, dfs=True)


# ---------------------------------------------------------------- mathematics
@check("S01", "math", "combo")
class S01:
    technique = "TLA+ spec of combination enumeration, ranking and counting (Combos), TLC; exhaustive small and random large histories of the real code validated against it"
    note = "All n up to 8 (11 thorough) completely; larger sets sampled, as long as the count fits 64 bits"

    @staticmethod
    def models(ctx):
        return [M("CombosModel")]

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["combo", "--n", ctx.scale(120, 3000), "--shards", 6])
        ctx.validate("CombosTrace", d)


@check("S02", "math", "zq")
class S02:
    technique = "TLA+ register machine over the integers modulo q (ZqRing); histories of the real ring types validated by TLC with exact wide arithmetic"
    note = "47 moduli from 2 to 2^1023 over 1..16 limbs, small rings completely, others by boundary-biased random histories; power-of-two rings of each word size"

    @staticmethod
    def models(ctx):
        return [M("WideTest")]

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["zq", "--n", ctx.scale(60, 600), "--shards", 6])
        ctx.validate("ZqTrace", d)


@check("S03", "math", "poly")
class S03:
    technique = "TLA+ spec of polynomials over a ring (RingPoly); histories of the real polynomials validated by TLC, all small pairs exhaustively"
    note = "Nine coefficient rings; lengths up to 40; division checked through the uniqueness of quotient and remainder"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["poly", "--n", ctx.scale(120, 1500), "--shards", 6])
        ctx.validate("PolyTrace", d)


@check("S04", "math", "stats")
class S04:
    technique = "TLA+ spec of sample statistics and half-space regions (Stats), validated against recorded histories with exact integer arithmetic"
    note = "Samples and half-spaces with exactly representable coordinates; results compared after rounding to hundredths"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["stats", "--n", ctx.scale(400, 6000), "--shards", 4])
        ctx.validate("StatsTrace", d)


@check("S05", "math", "security")
class S05:
    technique = "TLA+ spec of the validated region, monotonicity and inversion of the security estimate (Security); grid histories of the real functions validated by TLC"
    note = "Every fifth dimension (all of them in thorough) at 110 levels; Gaussian tail in steps of 0.03 (0.01); tolerance 0.1 bit"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["security", "--shards", 6])
        ctx.validate("SecurityTrace", d)


# ---------------------------------------------------------------- TFHE
@check("T06", "tfhe", "ring")
class T06:
    technique = "TLA+ register machine over Z_q[X]/(X^N+1) (NegaRing); histories of the real polynomial operations on every vector path validated by TLC"
    note = "Degrees 1 to 256, 32- and 64-bit words over the whole range, scalar, AVX2 and AVX-512 paths (those the machine has)"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["ring", "--n", ctx.scale(5000, 60000), "--shards", 6])
        ctx.validate("NegaRingTrace", d)


@check("T07", "tfhe", "torus")
class T07:
    technique = "TLA+ spec of torus words and their rounding (TorusScalar); histories of the real operations validated by TLC with exact wide arithmetic"
    note = "All plaintext widths of both word sizes, boundary-biased messages and perturbations"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["torus", "--n", ctx.scale(5000, 60000), "--shards", 6])
        ctx.validate("TorusScalarTrace", d)


@check("T08", "tfhe", "radix")
class T08:
    technique = "TLA+ spec of signed gadget decomposition (Radix); histories of the real scalar and polynomial decomposition validated by TLC with exact wide arithmetic"
    note = "Every legal radix and digit count of 32-bit words, half of those of 64-bit words per run (all in thorough), values around every rounding and carry boundary"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["radix", "--n", ctx.scale(200, 3000), "--shards", 6])
        ctx.validate("RadixTrace", d)


@check("T12", "tfhe", "fft")
class T12:
    technique = "TLA+ spec of Fourier-domain registers carrying an exact ring value and an error bound (Fourier); histories of the real transforms validated by TLC with exact wide arithmetic"
    note = "Degrees 8 to 2048, operands up to the precision budget; error bound derived from operand sizes"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["fft", "--n", ctx.scale(2000, 20000), "--shards", 6])
        ctx.validate("FourierTrace", d)


@check("T09", "tfhe", "scratch")
class T09:
    technique = "TLA+ spec of the per-thread pool (Scratch) model-checked with TLC; recorded allocation, write and release histories of the real pool (addresses observed through a counting allocator) validated against it"
    note = "Up to 2 threads and 3 live buffers in the model; histories of up to 4 threads with nested and out-of-order release on the real pool. Blocks are given back at no time: a thread's exit is outside the property"

    @staticmethod
    def models(ctx):
        return [M("ScratchModel"), M("ScratchModel", "ScratchModel1.cfg")]

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["scratch", "--n", ctx.scale(600, 8000), "--shards", 8])
        ctx.validate("ScratchTrace", d)


@check("T10", "tfhe", "views")
class T10:
    technique = "TLA+ spec of the layout of every structured object as a tree of parts (Views), tiling and order checked with TLC; every view and traversal of the real objects validated against it"
    note = "All entity kinds with parameters up to degree 8, size 3, dimension 4, count 3; shared, mutable, reversed, mixed and parallel traversals"

    @staticmethod
    def models(ctx):
        return [M("ViewsModel")]

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["views", "--n", ctx.scale(40, 600), "--shards", 8])
        ctx.validate("ViewsTrace", d)


@check("T13", "tfhe", "fresh")
class T13:
    technique = "TLA+ spec of what encryption draws (Fresh: the words drawn, tallies of the noise and of coin flips); histories of every encryption routine and key generator of the real library, on up to three threads and in further processes, validated by TLC"
    note = "Degrees 16 and 32, sizes 1 to 3, 32- and 64-bit words, five noise levels; distinctness of masks is exact (with an ordering as witness), spread and balance are statistical with bounds at 7 deviations and beyond"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["fresh", "--n", ctx.scale(32, 600), "--shards", 8])
        ctx.validate("FreshTrace", d)


HOM = "TLA+ spec of homomorphic registers seen through decryption (Hom): each operation acts on phases, exactly or within the error its parameters allow; "
for pid, cmd, q, t, tech, note in [
    ("T01", "lin", 320, 6000, "histories of linear operations of the real library validated by TLC with exact wide arithmetic",
     "Degrees 1 to 2048, sizes 1 to 3, 32- and 64-bit words, binary and uniform keys, with and without noise, every vector path; phases computed from raw ciphertext and key words, decryption itself checked against them"),
    ("T02", "sel", 1000, 20000, "histories of GGSW selection and products of the real library validated by TLC with exact wide arithmetic",
     "Degrees 1 to 1024, sizes 1 to 3, radices up to the whole word, bits, monomials and small polynomials as selectors; error budgets some bits above the largest error ever observed"),
    ("T03", "pbs", 500, 10000, "histories of programmable bootstrapping of the real library validated by TLC; the spec decides from the input's exact phase when a reading is certain",
     "Degrees 16 to 2048, LWE dimensions up to 10 with crafted masks at the rounding boundaries, every message of the padded space, univariate, multi-output, bivariate and constant tables"),
    ("T04", "cbs", 250, 5000, "histories of circuit bootstrapping (both variants) and of what its selectors select, validated by TLC",
     "Degrees 16 to 1024, digit counts 1 to 7, LWE dimensions up to 6, chains of select, extract, switch, bootstrap"),
    ("T05", "ks", 600, 10000, "histories of switches between keys, functional switches, trace and scheme switching, validated by TLC",
     "Degrees 16 to 512, sizes 1 to 3, LWE dimensions up to 20, radices up to the whole word"),
    ("T11", "reuse", 300, 6000, "histories of every family in which each operation is repeated into outputs left in arbitrary states, validated by TLC",
     "Each operation three times into zero, all-ones, random or used outputs; operands compared bit by bit before and after"),
]:
    def run(ctx, b, cmd=cmd, q=q, t=t):
        d = ctx.harness(b, [cmd, "--n", ctx.scale(q, t), "--shards", 8])
        ctx.validate("HomTrace", d)
    check(pid, "tfhe", cmd)(type(pid, (), {"technique": HOM + tech, "note": note, "run": staticmethod(run)}))


# ---------------------------------------------------------------- the computer
@check("C04", "cpu", "mem")
class C04:
    technique = "TLA+ spec of guest memory (Mem: pages, byte map, allocations, stack), refined by a model of the allocator and stack algorithms (MemModel), TLC; histories of the real memory and ELF loader validated by TLC"
    note = "Images of up to 3 segments around page edges, 45 calls per history at and around every edge of what is mapped and of the address space; all supported plain widths, arrays and encrypted integers"

    @staticmethod
    def models(ctx):
        return [M("MemModel")]

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["mem", "--n", ctx.scale(400, 8000), "--shards", 8])
        ctx.validate("MemTrace", d)


CPU = "TLA+ spec of the computer executing one instruction after the other (Cpu, Isa: memory, registers, program counter, gas, faults, calling convention); "


@check("C01", "cpu", "cpu")
class C01:
    technique = CPU + "runs of random programs with plain and encrypted data on the real out-of-order computer validated instruction by instruction by TLC"
    note = "Programs of up to about 60 instructions with register and memory hazards, loops and branches; tiny encryption parameters; the decrypted memory, registers shown to debug handlers, return values and gas of every call compared"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["prog", "--n", ctx.scale(400, 8000), "--shards", 8])
        ctx.validate("CpuTrace", d)


@check("C02", "cpu", "isa")
class C02:
    technique = CPU + "every instruction run on the real computer at all widths and operand kinds, results validated by TLC with exact wide arithmetic"
    note = "Every opcode, widths 1 to 128 for plain operands, mostly up to 20 for encrypted ones (multiplication and encrypted shift amounts up to 9), boundary and random values, operands that do not go together, shared and overwritten registers"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["ops", "--n", ctx.scale(4000, 60000), "--shards", 8])
        ctx.validate("CpuTrace", d)


@check("C03", "cpu", "cpu")
class C03:
    technique = CPU + "sequences of succeeding and failing runs on one real computer, with gas limits at and around what is used, validated by TLC"
    note = "Every class of fault raised in programs with and without pending encrypted operations; several runs per computer; a watchdog turns a hang into a violation"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["faults", "--n", ctx.scale(500, 8000), "--shards", 8])
        ctx.validate("CpuTrace", d)


@check("C05", "cpu", "isa")
class C05:
    technique = "TLA+ spec of the instruction encoding (Isa: Encode, Decode), shown lossless by TLC (IsaModel); encodings and decodings by the real library, and real runs of programs holding arbitrary words, validated by TLC"
    note = "The model covers every opcode over the edges of every field and every one-bit change; the library is compared on every opcode with random and edge fields, on damaged encodings and on random words"

    @staticmethod
    def models(ctx):
        return [M("IsaModel")]

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["enc", "--n", ctx.scale(250, 4000), "--shards", 8])
        ctx.validate("IsaTrace", d)
        d = ctx.harness(b, ["words", "--n", ctx.scale(1500, 20000), "--shards", 8])
        ctx.validate("CpuTrace", d)


@check("C06", "cpu", "cpu")
class C06:
    technique = CPU + "calls with random argument lists and return types on the real computer validated by TLC against the layout the convention assigns"
    note = "Plain and encrypted integers of every width, arrays, raw bytes with any alignment, several calls per memory; the callee's view is what a debug handler, loads and the memory around the stack show"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["calls", "--n", ctx.scale(500, 8000), "--shards", 8])
        ctx.validate("CpuTrace", d)


@check("M01", "cpu", "mux")
class M01:
    technique = "TLA+ spec of multiplexer circuits (Mux: evaluation of a circuit on many inputs at once, the integer function each family is named for, what transformations preserve); circuits built and transformed by the real library are evaluated by TLC"
    note = "All inputs for up to 8 input bits, edge and random operands at widths up to 33 (multipliers up to 6 by 6 built, 8, 16 and 64 bits as shipped; shifters up to 8); arbitrary circuits optimised, remapped and restored in sequence"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["mux", "--n", ctx.scale(1200, 20000), "--shards", 8])
        ctx.validate("MuxTrace", d)


@check("R02", "cpu", "fluent")
class R02:
    technique = "TLA+ spec of integer expressions (Fluent: widths, two's complement, wrapping, comparison, selection, resizing, products); random programs of the fluent API over all ciphertext kinds are built, run by the circuit processor and decrypted, and TLC checks every output against the specification"
    note = "Up to 20 operations on signed or unsigned values of up to 32 bits (encryption alone up to 128 bits), multiplication of up to 8 bits, with operands of different lengths up to 20 bits; parameters without security whose noise does not matter"

    @staticmethod
    def run(ctx, b):
        d = ctx.harness(b, ["fluent", "--n", ctx.scale(960, 16000), "--shards", 8])
        ctx.validate("FluentTrace", d)
