"""Which monitored workloads decide which property."""
SOURCES = ["main.cpp", "diff.cpp", "checks_diff.cpp", "stacks.cpp", "ops_gates.cpp", "ops_alu.cpp", "ops_meas.cpp", "mod_par.cpp", "mod_bigint.cpp", "mod_circuit.cpp", "mod_capi.cpp", "limits.cpp", "ops_clone.cpp", "probes.cpp", "mod_wide.cpp", "mod_neuron.cpp", "mod_exp.cpp", "mod_bad.cpp", "mod_noise.cpp"]
SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=79:second_deadlock_stack=1:history_size=4"},
}
DIFF_RULE = ("A case is a random program (seeded) run on the real simulator and on an independent dense model in double "
             "precision; distinct = different operation sequence with arguments (hash); non-trivial = at least one state "
             "comparison was made. Distinct states are hashes of the model's amplitudes up to phase at comparison points.")


CIRC_RULE = ("A case is a random gate list appended to a circuit object, whose run on a simulator (also of its inverse, clone, "
             "concatenation, light cone, reloaded text) is compared with an independent dense model; distinct = different gate list.")


def diff(check, quick, thorough, **kw):
    return dict(check=check, cases=(quick, thorough), **kw)


MEMCHECK = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=9", "--leak-check=no"]
THREADS = [{"QRACK_PSTRIDEPOW": "1"}, {"QRACK_PSTRIDEPOW": "2"}, {"QRACK_PSTRIDEPOW": "3"}, {"QRACK_PSTRIDEPOW": "3", "VF_HWRNG": "1"}]
LIMITS = [{"QRACK_MAX_CPU_QB": str(k)} for k in (2, 3, 5, 2, 4, 3, 1, 6)]
ENVS = [{"QRACK_PSTRIDEPOW": "1"}, {"QRACK_MAX_PAGE_QB": "2"}, {"QRACK_PSTRIDEPOW": "3"}, {"QRACK_QPAGER_DEVICES": "-1,-1"},
        {"QRACK_QUNIT_SEPARABILITY_THRESHOLD": "0"}, {"QRACK_PSTRIDEPOW": "2", "QRACK_MAX_PAGE_QB": "3"},
        {"QRACK_NONCLIFFORD_ROUNDING_THRESHOLD": "0", "QRACK_MAX_PAGE_QB": "1"}, {"QRACK_QBDT_HYBRID_THRESHOLD": "1", "VF_HWRNG": "1"}]
SAN_RULE = ("A case is one random program of the workload of another property (which one: jobs), run in a build with the sanitizer; "
            "distinct = different operation sequence. Any report of the sanitizer ends the process and is a violation.")

PROPERTIES = {
    "P01": {"rule": DIFF_RULE, "jobs": [
        diff("p01", 24000, 600000),
        diff("p01", 6000, 200000, name="threads", envs=[{"QRACK_PSTRIDEPOW": str(k)} for k in (1, 2, 3, 1)]),
    ]},
    "P02": {"rule": DIFF_RULE, "jobs": [diff("p02", 10000, 300000), diff("p02g", 12000, 400000)]},
    "P03": {"rule": DIFF_RULE, "jobs": [diff("p03", 24000, 600000), diff("stabwide", 2400, 60000),
                                        diff("stabwide", 1600, 40000, variant="big", name="stabwide-big")]},
    "P13": {"rule": "A case is a program on a register of 20 to 127 qubits (up to 250 in the wide-integer variant): permutation and "
                    "classical arithmetic against big-integer arithmetic, entangled groups against small dense models placed at random "
                    "positions, Clifford circuits against an independent generator model; distinct = different program.",
            "jobs": [diff(k, n, 30 * n, variant=v, name=k + "-" + v) for v in ("plain", "big") for k, n in
                     (("classwide", 12000), ("groupwide", 12000), ("stabwide", 1200))]},
    "P06": {"rule": DIFF_RULE, "jobs": [diff("p06", 10000, 300000)]},
    "P08": {"rule": DIFF_RULE, "jobs": [diff("p08", 14000, 400000)]},
    "P09": {"rule": DIFF_RULE, "jobs": [diff("p09", 12000, 400000)]},
    "P10": {"rule": DIFF_RULE, "jobs": [diff("p10", 12000, 300000)]},
    "P11": {"rule": DIFF_RULE, "jobs": [diff("p11", 12000, 300000)]},
    "P12": {"rule": DIFF_RULE, "jobs": [diff("p12", 14000, 400000)]},
    "P15": {"rule": "A case is a sequence of trainings, predictions and changes of neurons on one simulator (a QNeuron object, or one behind "
                    "the C interface), judged by a dense model of one RY per input permutation; distinct = different sequence.",
            "jobs": [diff("neuron", 8000, 200000), diff("neuron-capi", 60000, 1500000)]},
    "P25": {"rule": DIFF_RULE + " Each program is then run again from the same seed (some under processor load from other threads): all samples, "
                    "measurement results, the register size and the final amplitudes' magnitudes must be the same.",
            "jobs": [diff("p25", 10000, 300000), diff("p25", 4000, 100000, name="p25-threads", envs=THREADS[:3])]},
    "P23": {"rule": "A case is a program on a noisy simulator with noise of random strength; after every gate the monitor finds which branch of the "
                    "documented channel the simulator took on each qubit, and follows it; distinct = different program. In the rate cases the "
                    "frequencies of the branches are compared with their probabilities.",
            "technique": "online monitor that follows each stochastic trajectory of the real noise layer against a Kraus-operator model, with statistical bounds of 6.5 sigma",
            "jobs": [diff("noise", 40000, 1200000), diff("noise-rate", 1600, 60000), diff("noise", 3000, 100000, variant="double", name="noise-double"),
                     diff("noise", 3000, 100000, name="noise-env", envs=[{"QRACK_GATE_DEPOLARIZATION": x} for x in ("0", "0.3", "1")])]},
    "P29": {"rule": "A case is a program of gates, growth and measurement on a dense, paged or separable simulator with a limit of 1 to 6 qubits, "
                    "on registers below, at and above it; refused calls must leave the state, and programs within the limit must be exact; "
                    "distinct = different program.",
            "jobs": [diff("memlimit", 80000, 2000000, envs=LIMITS), diff("memlimit", 8000, 200000, variant="asan", name="memlimit-asan", envs=LIMITS)]},
    "P26": {"rule": "A case is a random program on one simulator in which some calls get an index, range, mask or control list that is outside "
                    "the register or repeats a qubit; such a call must throw and the state must still be the ideal one; distinct = different program.",
            "jobs": [diff("bad", 60000, 2000000), diff("bad", 8000, 300000, variant="asan", name="bad-asan")]},
    "P27": {"rule": DIFF_RULE + " Matrix exponentials are compared with a power series in extended precision.",
            "jobs": [diff("p27", 10000, 300000), diff("p27", 2000, 60000, variant="double", name="p27-double"),
                     diff("expm", 120000, 3000000), diff("expm", 60000, 1500000, variant="double", name="expm-double")]},
    "P14": {"rule": CIRC_RULE, "jobs": [diff("circuit", 16000, 400000), diff("circuit-inc", 6000, 200000)]},
    "P16": {"rule": CIRC_RULE, "jobs": [diff("circuit-ser", 12000, 300000)]},
    "P19": {"rule": "A case is a sequence of exported C calls on several simulators, circuits and qubit IDs, each with an independent model "
                    "addressed by the same IDs; distinct = different call sequence. All observations go through IDs of the C interface.",
            "jobs": [diff("capi", 80000, 2000000), diff("capi", 6000, 200000, variant="asan", name="capi-asan"),
                     diff("neuron-capi", 20000, 600000)]},
    "P20": {"rule": "A case is 2-4 threads, each with a random sequence of C calls on simulators and circuits of its own, and on two qubits of a "
                    "simulator that all share; then the shared one is destroyed while in use. distinct = different interleaving of the "
                    "calls on the shared simulator (logged order). Every thread's results are judged by its own model.",
            "technique": "ThreadSanitizer and online model-based monitors on concurrent random workloads of the C interface",
            "jobs": [diff("capi-conc", 8000, 300000), diff("capi-conc", 1600, 60000, variant="tsan", name="capi-conc-tsan"),
                     diff("capi-conc", 800, 30000, variant="asan", name="capi-conc-asan")]},
    "P21": {"rule": "A case is one parallel loop (kind, range, mask, stride, worker count) whose body calls are all logged, or one "
                    "history of queue/finish/dump/isFinished calls by 1-4 threads with the order in which the items ran; distinct "
                    "= different parameters (loops) or different logged order (queue); the body delays itself at random points.",
            "jobs": [diff("parfor", 40000, 600000), diff("dispatch", 60000, 1000000),
                     diff("parfor", 2400, 40000, variant="tsan", name="parfor-tsan"),
                     diff("dispatch", 8000, 100000, variant="tsan", name="dispatch-tsan")]},
    "P22": {"rule": "A case is a pair of operands (runs of ones, values around word boundaries, random limbs) and a shift amount, on "
                    "which about 50 operations are compared with schoolbook arithmetic on 32-bit limbs; distinct = different operands.",
            "jobs": [diff("bigint", 24000, 400000)] + [diff("bigint", 16000, 300000, variant=v, name="bigint-" + v)
                     for v in ("big", "int512", "int1024", "word64", "word64x128")]},
    "P17": {"rule": SAN_RULE, "technique": "AddressSanitizer + UndefinedBehaviorSanitizer and Valgrind memcheck on randomized workloads of every part",
            "jobs": [diff("p28", 2000, 60000, variant="asan"), diff("p03", 2000, 60000, variant="asan"),
                     diff("p28", 200, 10000, variant="asan", name="p28-threads", envs=THREADS)] +
                    [diff(k, n, 30 * n, variant="asan") for k, n in (("circuit", 8000), ("circuit-inc", 2400), ("circuit-ser", 4000), ("bigint", 12000), ("neuron", 1200), ("neuron-capi", 8000), ("expm", 4000),
                     ("parfor", 8000), ("dispatch", 8000), ("classwide", 1200), ("groupwide", 1200), ("stabwide", 120))] +
                    [diff("p28", 80, 3000, name="p28-memcheck", wrap=MEMCHECK, timeout=120)]},
    "P18": {"rule": SAN_RULE, "technique": "ThreadSanitizer on randomized workloads with small parallel grain, so that each gate runs on several threads",
            "jobs": [diff("p28", 1600, 50000, variant="tsan"), diff("p28", 400, 12000, variant="tsan", name="p28-threads", envs=THREADS),
                     diff("p03", 800, 20000, variant="tsan"), diff("circuit", 1600, 40000, variant="tsan", envs=THREADS),
                     diff("p12", 240, 8000, variant="tsan", envs=THREADS)]},
    "P28": {"rule": DIFF_RULE + " The same programs run in builds with double precision, 64-bit and 256-bit registers indices, and "
                    "under each tuning environment variable.",
            "jobs": [diff("p28", 5600, 160000, variant=v, name="p28-" + v) for v in ("double", "big", "cap6")] +
                    [diff("p28", 4800, 160000, name="p28-env", envs=ENVS)]},
}
