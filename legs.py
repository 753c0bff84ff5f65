"""What each property's check runs: configurations ("legs") of the real
library sources with the simulator, and how many simulated runs each."""
import glob, os
import simbuild as B

LIBS = ["-lgmpxx", "-lgmp", "-lsodium", "-lcrypto"]
S_MODES = {
    "bin": ["-DBINARY_OUTPUT", "-DMONTGOMERY_OUTPUT", "-DUSE_ASM"],
    "text": ["-DUSE_ASM"],
    "bin-unc": ["-DBINARY_OUTPUT", "-DMONTGOMERY_OUTPUT", "-DNO_PT_COMPRESSION", "-DUSE_ASM"],
    "text-mont-unc": ["-DMONTGOMERY_OUTPUT", "-DNO_PT_COMPRESSION"],
    "debug": ["-DBINARY_OUTPUT", "-DNO_PT_COMPRESSION", "-UNDEBUG", "-DDEBUG=1", "-D_GLIBCXX_ASSERTIONS", "-DUSE_MIXED_ADDITION", "-DUSE_ASM"],
    # the other combinations of output options: the five above meet every pair of them
    "text-mont": ["-DMONTGOMERY_OUTPUT", "-DUSE_ASM"],
    "text-unc": ["-DNO_PT_COMPRESSION", "-DUSE_ASM"],
    "bin-plain": ["-DBINARY_OUTPUT"],
}
S_DEEP = ["text-mont", "text-unc", "bin-plain"]     # thorough only
CURVES = ["ALT", "BLS", "MNT4", "MNT6", "EDW"]
SAN = ["-fsanitize=address"]
V = B.VERIF + "/sim/"

def core_obj():
    return (["g++", "-std=gnu++14", "-O2", "-w", "-fno-threadsafe-statics"], V + "core.cpp", "plain")

def bin_s(b, mode):
    cmd = ["g++"] + B.BASE + ["-O1"] + S_MODES[mode] + SAN + ["-fsanitize-coverage=trace-pc"]
    sp = [(cmd + ["-DSIM_" + c], V + "s_types.cpp", "repo") for c in CURVES + ["GF"]]
    sp += [(cmd, s, "repo") for s in B.lib_sources()]
    sp += [(["g++"] + B.BASE + ["-O1"] + S_MODES[mode] + SAN, V + "check_s.cpp", "repo"), core_obj()]
    futs = b.objects(sp)
    return lambda: b.link(futs, SAN + ["-no-pie"], LIBS)

# simulated threads: library code calls the simulator for memory accesses, OpenMP, locks and clocks
WRAP = ["-Wl," + ",".join("--wrap=__gmpn_" + f for f in "add_n sub_n mul_1 addmul_1 submul_1 lshift rshift mul_n sqr mul tdiv_qr gcdext copyi copyd set_str".split())]
MC_MODES = {
    "mc-asm": ["-DMULTICORE", "-DUSE_ASM"],
    "mc-noasm": ["-DMULTICORE"],
    "mc-mixed": ["-DMULTICORE", "-DUSE_ASM", "-DUSE_MIXED_ADDITION"],
    "mc-debug": ["-DMULTICORE", "-DUSE_ASM", "-DUSE_MIXED_ADDITION", "-UNDEBUG", "-DDEBUG=1", "-DLOWMEM=1"],
    # clang's instrumentation also reports the objects that a call's result is copied to, which gcc's does not
    "mc-clang": ["-DMULTICORE"],
    "mc-clang-asm": ["-DMULTICORE", "-DUSE_ASM", "-DUSE_MIXED_ADDITION"],
}
def rt_obj(extra=()):
    return (["g++", "-std=gnu++14", "-O2", "-w", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fno-threadsafe-statics", "-minline-all-stringops", "-mmemcpy-strategy=rep_byte:-1:noalign", "-mmemset-strategy=rep_byte:-1:noalign"] + list(extra), V + "simrt.cpp", "plain")

def instrumented(mode):
    ins = B.BASE + ["-O1"] + MC_MODES[mode] + ["-fopenmp", "-fsanitize=thread"]
    return ["clang++", "-I" + V + "clang"] + ins if "clang" in mode else ["g++"] + ins

def bin_mt(b, mode, types, check):
    """types: list of (source, defines) built like the library; check: driver, not instrumented."""
    ins = instrumented(mode)
    sp = [(ins + d, V + s, "repo") for s, d in types]
    sp += [(ins, s, "repo") for s in B.lib_sources()]
    sp += [(["g++"] + B.BASE + ["-O1"] + MC_MODES[mode], V + check, "repo"), core_obj(), rt_obj()]
    futs = b.objects(sp)
    return lambda: b.link(futs, ["-no-pie", "-rdynamic"] + WRAP, LIBS + ["-ldl", "-lpthread"])

M_TYPES = [("m_types.cpp", ["-DSIM_TOY"])] + [("m_types.cpp", ["-DSIM_" + c]) for c in CURVES]
def bin_m(b, mode): return bin_mt(b, mode, M_TYPES, "check_m.cpp")

R_TYPES = [("r_types.cpp", ["-DSIM_" + c]) for c in CURVES + ["GF"]]
def bin_r(b, mode): return bin_mt(b, mode, R_TYPES, "check_r.cpp")

T_TYPES = [("t_types.cpp", ["-DSIM_" + c]) for c in CURVES + ["GF"]]
def bin_t(b, mode): return bin_mt(b, mode, T_TYPES, "check_t.cpp")

def bin_i(b, mode): return bin_mt(b, mode, T_TYPES, "check_i.cpp")

A_TYPES = [("t_types.cpp", ["-DSIM_A", "-DSIM_" + c]) for c in CURVES + ["GF"]]
def bin_a(b, mode):
    cmd = ["g++"] + B.BASE + ["-O1"] + S_MODES[mode] + SAN
    sp = [(cmd + d, V + s, "repo") for s, d in A_TYPES] + [(cmd + ["-fsanitize-coverage=trace-pc"], s, "repo") for s in B.lib_sources()] + [(cmd, V + "check_a.cpp", "repo"), core_obj()]
    futs = b.objects(sp)
    return lambda: b.link(futs, SAN + ["-no-pie"], LIBS)

def bin_a_mt(b, mode):
    ins = instrumented(mode)
    sp = [(ins + d, V + s, "repo") for s, d in A_TYPES]
    sp += [(ins, s, "repo") for s in B.lib_sources()]
    sp += [(["g++"] + B.BASE + ["-O1", "-DSIM_MT"] + MC_MODES[mode], V + "check_a.cpp", "repo"), core_obj(), rt_obj(["-DSIMRT_NO_NEW"])]
    futs = b.objects(sp)
    return lambda: b.link(futs, ["-no-pie", "-rdynamic"] + WRAP, LIBS + ["-ldl", "-lpthread"])

P_MODES = {
    "mc-asm": MC_MODES["mc-asm"] + ["-fopenmp"],
    "plain": ["-DUSE_ASM"],                                # the profiling code with its assertions
    "op-counts": ["-DUSE_ASM", "-DPROFILE_OP_COUNTS"],
}
def bin_p(b, mode):
    if mode in MC_MODES: return bin_mt(b, mode, [], "check_p.cpp")
    cmd = ["g++"] + B.BASE + ["-O1"] + P_MODES[mode]
    sp = [(cmd + (["-UNDEBUG"] if s.endswith("profiling.cpp") else []), s, "repo") for s in B.lib_sources()] + [(cmd, V + "check_p.cpp", "repo"), core_obj(), rt_obj()]
    futs = b.objects(sp)
    return lambda: b.link(futs, ["-no-pie", "-rdynamic"] + WRAP, LIBS + ["-ldl", "-lpthread"])

class Leg:
    """One configuration of one check.  quick/thorough: (runs, seconds cap)."""
    def __init__(self, name, make, quick, thorough, args=()):     # quick None: thorough only
        self.name, self.make, self.quick, self.thorough, self.args = name, make, quick, thorough, list(args)

def s_legs(quick, thorough):
    return [Leg(m, (lambda m: lambda b: bin_s(b, m))(m), None if m in S_DEEP else quick if m != "debug" else (quick[0] // 2, quick[1]), thorough) for m in S_MODES]

def m_legs(modes, make, quick, thorough):
    return [Leg(m, (lambda m: lambda b: make(b, m))(m), quick, thorough) for m in modes]

S_REAL = ["all of libff's serialization: common/serialization, common/utils, bigint, prime, extension and binary fields, the groups and pairing precomputations of alt_bn128, bls12_381, edwards, mnt4, mnt6", "libstdc++ stream formatting", "GMP"]
S_STUB = ["the stream buffers (input and output devices) behind std::istream and std::ostream", "operator new (counts bytes)"]

MT_REAL = ["all of libff, built with MULTICORE and OpenMP and instrumented for memory accesses", "GMP (its limb kernels report the memory they touch)", "OS threads carry the simulated threads; exactly one runs at a time"]
MT_STUB = ["OpenMP runtime (teams, loops, barriers, critical sections)", "pthread and static-initialisation locks", "clocks", "operator new (forgets freed memory in the race detector)", "toy groups (elements are their own logarithms) beside the real curves"]

R_REAL = ["random_element, randomize and random_element_* of every prime, extension and binary field and every group; SHA512_rng; instrumented for memory accesses", "GMP, OpenSSL SHA-512"]
R_STUB = ["std::random_device, randombytes_buf, getrandom, getentropy, arc4random, RAND_bytes (the entropy source)", "rand, random and relatives", "clocks", "thread scheduling"]

A_REAL = ["all of libff: field, group and pairing operations, multi-exponentiation and window tables, containers and conversions, serialization, initialisers", "libstdc++ containers and streams", "GMP (its allocator only counts)"]
A_STUB = ["operator new and delete (the allocator that fails)", "GMP's allocation functions (count live blocks)"]

CHECKS = {
    "S01": dict(legs=s_legs((9000, 40), (400000, 900)), real=S_REAL, stub=S_STUB,
        rule="a run draws 1-7 objects of 1-3 types, writes them, and reads them back through a stream whose deliveries (lengths of successive refills) are drawn; non-trivial: more than 4 bytes were read through more than one delivery, or a word decoding was damaged; distinct: by hash of encoding and events"),
    "S02": dict(legs=s_legs((9000, 40), (400000, 900)), real=S_REAL, stub=S_STUB,
        rule="a run draws 1-4 objects, an offset inside their encoding, a way for input to end there (end of file, device error, device error with stream exceptions) and deliveries; non-trivial: the failure was met by a reader; distinct: by hash of encoding and events"),
    "S03": dict(legs=s_legs((9000, 40), (400000, 900)), real=S_REAL, stub=S_STUB,
        rule="a run draws 1-3 objects and 1-4 acts of damage to their encoding (or to machine words); non-trivial: the damaged bytes differ from the original; distinct: by hash of encoding and events"),
    "S04": dict(legs=s_legs((9000, 40), (400000, 900)), real=S_REAL, stub=S_STUB,
        rule="a run draws 1-5 objects, a capacity below the length of their encoding, a failure kind and a buffer size of the output device; non-trivial: the failure was met; distinct: by hash of encoding and events"),
    "M01": dict(legs=m_legs(["mc-asm", "mc-clang", "mc-clang-asm"], bin_m, (8000, 60), (400000, 900)) + m_legs(["mc-debug"], bin_m, (3000, 40), (400000, 900)) + m_legs(["mc-noasm", "mc-mixed"], bin_m, None, (400000, 900)), real=MT_REAL, stub=MT_STUB,
        rule="a run draws a group, inputs, method, chunk and thread counts, profiling state and, at instrumented accesses and synchronisations, who runs next; non-trivial: at least two context switches; distinct: by hash of inputs and complete schedule; states: distinct schedules"),
    "M02": dict(legs=m_legs(["mc-asm", "mc-clang", "mc-clang-asm"], bin_m, (20000, 60), (400000, 900)) + m_legs(["mc-debug"], bin_m, (6000, 40), (400000, 900)) + m_legs(["mc-noasm", "mc-mixed"], bin_m, None, (400000, 900)), real=MT_REAL, stub=MT_STUB,
        rule="a run draws a group, scalars, window and table settings, thread count and, at instrumented accesses and synchronisations, who runs next; non-trivial: at least two context switches; distinct: by hash of inputs and complete schedule; states: distinct schedules"),
    "R01": dict(legs=m_legs(["mc-asm", "mc-clang"], bin_r, (30000, 60), (1500000, 900)) + m_legs(["mc-noasm"], bin_r, None, (1500000, 900)), real=R_REAL, stub=R_STUB,
        rule="a run draws a type, a way to draw it and a history of the entropy source (words stuck, boundary values of the modulus, long unacceptable runs, bit flips, failures); non-trivial: the history contains one of these or the draw is compared with another; distinct: by hash of history and elements"),
    "R02": dict(legs=m_legs(["mc-asm", "mc-clang"], bin_r, (30000, 60), (1500000, 900)) + m_legs(["mc-noasm"], bin_r, None, (1500000, 900)), real=R_REAL, stub=R_STUB,
        rule="a run draws 1-4 sequences of draws with their entropy, and repeats them under another clock, memory and generator state or concurrently under a drawn schedule; non-trivial: environment changed or at least two context switches; distinct: by hash of sequences and schedule"),
    "T01": dict(legs=m_legs(["mc-asm", "mc-clang", "mc-clang-asm"], bin_t, (10000, 45), (600000, 900)) + m_legs(["mc-debug"], bin_t, (4000, 30), (600000, 900)) + m_legs(["mc-noasm"], bin_t, (5000, 25), (600000, 900)), real=MT_REAL, stub=MT_STUB,
        rule="a run draws a program of field operations over shared operands for each of 1-4 threads, a thread schedule, and compares every result with the same operation in a process of its own; non-trivial: at least two context switches; distinct: by hash of programs, results and complete schedule; states: distinct schedules"),
    "T02": dict(legs=m_legs(["mc-asm", "mc-clang-asm"], bin_t, (5000, 45), (400000, 900)) + m_legs(["mc-debug"], bin_t, (2500, 30), (400000, 900)) + m_legs(["mc-noasm", "mc-clang"], bin_t, None, (400000, 900)), real=MT_REAL, stub=MT_STUB,
        rule="a run draws a program of group operations over shared points for each of 1-4 threads, a thread schedule, and compares every result with the same operation in a process of its own; non-trivial: at least two context switches; distinct: by hash of programs, results and complete schedule; states: distinct schedules"),
    "T03": dict(legs=m_legs(["mc-asm", "mc-clang-asm"], bin_t, (1500, 50), (200000, 900)) + m_legs(["mc-debug"], bin_t, (600, 30), (200000, 900)) + m_legs(["mc-noasm", "mc-clang"], bin_t, None, (200000, 900)), real=MT_REAL, stub=MT_STUB,
        rule="a run draws a program of pairing operations over shared points and precomputations for each of 1-4 threads, the profiling state, a thread schedule, and compares every result and the counted blocks with the same operations in processes of their own; non-trivial: at least two context switches; distinct: by hash of programs, results and complete schedule; states: distinct schedules"),
    "P01": dict(legs=m_legs(["mc-asm", "mc-clang", "plain", "op-counts"], bin_p, (40000, 30), (4000000, 900)), real=["profiling.cpp with asserts, the library operations it counts, batch normalisation and pairing precomputation with blocks of their own", "stdio formatting", "OS threads carry the simulated threads; exactly one runs at a time"], stub=["clock_gettime (all clocks)", "the device behind stdout", "pthread mutexes", "thread scheduling"],
        rule="a run draws a history of entering and leaving blocks, passing time, stepping the wall clock, failing the processor clock, inhibiting output or counters, clearing and printing; or programs of these for 2-4 threads with a schedule; non-trivial: at least 3 blocks or two context switches; distinct: by hash of history, times and schedule; states: distinct schedules"),
    "A01": dict(legs=m_legs(["bin", "text"], bin_a, (16000, 60), (1000000, 900)) + m_legs(["debug"], bin_a, (4000, 40), (1000000, 900)) + m_legs(["mc-asm"], bin_a_mt, (4000, 60), (400000, 900)) + m_legs(["mc-clang-asm"], bin_a_mt, None, (400000, 900)), real=A_REAL, stub=A_STUB + ["in the mc-asm configuration: the OpenMP runtime and the scheduling of its threads"],
        rule="a run draws 1-3 operations with their arguments, and for each up to 4 allocations that fail (alone or with all after them), then repeats it with memory available; reference: the operation in a process of its own; non-trivial: an allocation failed; distinct: by hash of operations, failures and outcomes"),
    "I01": dict(legs=m_legs(["bin", "text"], bin_a, (16000, 45), (1500000, 900)) + m_legs(["debug"], bin_a, (4000, 30), (1500000, 900)), real=A_REAL, stub=A_STUB,
        rule="a run draws a history of up to 9 complete initialisations, initialisations interrupted by an allocation failure, and operations, over 2-6 curves; parameters are compared after each with those of a process that initialised one curve once; non-trivial: two initialisations or an interruption; distinct: by hash of history and results; states: which curves are initialised or interrupted, and the last one touched"),
    "I02": dict(legs=m_legs(["mc-asm", "mc-clang-asm"], bin_i, (16000, 45), (800000, 900)) + m_legs(["mc-debug"], bin_i, (4000, 30), (800000, 900)) + m_legs(["mc-noasm", "mc-clang"], bin_i, None, (800000, 900)), real=MT_REAL, stub=MT_STUB,
        rule="a run draws which curves are initialised beforehand and which thread initialises which of the others, a program of initialisations and operations for each of 2-4 threads, and a thread schedule; operations are compared with the same in a process that initialised only their curve, parameters afterwards with such a process; non-trivial: an initialisation and at least two context switches; distinct: by hash of programs, results and complete schedule; states: distinct schedules"),
}
