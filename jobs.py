"""What is run for each property: builds, monitors, time."""

MODEL = ("Each case is drawn at random from the seed: an operation with arguments, a vector (size, number space, "
         "domain, data), and the circumstances (number type, statically or dynamically checked type, storage, "
         "unused capacity filled with garbage, scratch buffer, thread settings, instruction set). "
         "Non-trivial: the oracle decided the case. Distinct: the combination of number type, operation and its "
         "integer arguments, kind and size class of the vector, and circumstances.")

PAIRS = ("Each case is an operation with arguments and a vector, drawn at random from the seed, which is run twice "
         "or more; the executions are compared. Non-trivial: both executions ran and could be compared. Distinct: the "
         "combination of number type, operation, kind and size class of the vector and of the circumstances of both "
         "executions. Compared are ")
HIST = ("Each case is a history of operations on one vector with one buffer; after every step the state is compared "
        "with the model, and the invariants of all states are checked. Non-trivial: the oracle decided the step. "
        "Distinct: the number type, kind of the start vector, sequence of operations and instruction set.")


def model(secs=14, thorough=420, **kw):
    d = {
        "quick": [{"build": "simd", "secs": secs}],
        "thorough": [{"build": "simd", "secs": thorough}, {"build": "full", "secs": thorough // 4}],
        "rule": MODEL,
        "min": 1500,
    }
    d.update(kw)
    return d


def full(secs=14, thorough=420, **kw):
    d = model(**kw)
    d["quick"] = [{"build": "full", "secs": secs}]
    d["thorough"] = [{"build": "full", "secs": thorough}]
    return d


CONV = ("Each case creates a vector from random numbers in a container and takes the elements out again in some way, "
        "with operations in between. Non-trivial: the elements were compared. Distinct: the way in, the way out, the "
        "kind of vector and the length.")
RESP = ("Each case evaluates a response function or a lookup table made from random parameters at random and special "
        "arguments. Non-trivial: the value was compared with the definition. Distinct: the function, the class of its "
        "parameters and the class of the argument.")
MAT = ("Each case is an operation on a matrix with random rows which are alike or differ in length or metadata; every "
       "row is compared with a vector which went through the same operation. Non-trivial: the rows were compared. "
       "Distinct: the type of matrix, the number of rows, the operation, kind and size class of the rows and kind of "
       "argument.")

FFI = ("Each case is a history of operations on a vector which exists twice: behind the functions exported with the C "
       "calling convention by a library which was loaded at run time, and as a vector of this process. Non-trivial: "
       "return codes, results and data of a step were compared. Distinct: the number type, operation, kind and "
       "size class of the vector and the way the vector was created.")

MEM = ("Each case drives the library from safe code while AddressSanitizer or the interpreter Miri watches all "
       "accesses: an operation on a vector of any storage, a history of operations, callbacks which panic or return "
       "values that own memory, positions outside of the storage, conversions, responses, or a case of another monitor. "
       "Non-trivial: the code under test ran under the sanitizer to the end or to a panic. Distinct: number type, "
       "operation and arguments, kind and size class of the vector and circumstances.")
RACE = ("Each case runs an operation on worker threads, operations in several user threads at the same time, or several "
        "threads which share what is only read, while ThreadSanitizer (thorough: Miri too) watches all accesses; without "
        "it the threads are delayed at random and nothing may change after an operation returned. Non-trivial: the "
        "operations ran. Distinct: number type, operation and arguments, kind and size class, thread settings.")

FIXED = ("Each case is an operation on a vector in a borrowed slice or an array with exactly, more or less memory than the "
         "operation needs. Non-trivial: the oracle decided that the result is right, or that the operation failed where the "
         "memory isn't enough. Distinct: the combination of number type, operation and its integer arguments, kind and size "
         "class of the vector, and circumstances.")

PROPS = {
    "C01": model(),
    "C07": model(),
    "C08": model(),
    "C09": model(),
    "C10": model(),
    "C11": model(),
    "C12": model(),
    "C13": model(),
    "C14": model(),
    "C15": model(),
    "C19": model(),
    "C22": model(),
    "C02": model(rule=PAIRS + "thread counts.", min=500, must=["exactly-once", "concurrent"]),
    "C03": model(rule=PAIRS + "instruction sets and alignments."),
    "C04": model(rule=PAIRS + "storages, buffers and unused capacity.", min=800),
    "C05": {
        "quick": [{"build": "asan", "secs": 20}, {"build": "miri", "secs": 80}],
        "thorough": [{"build": "asan", "secs": 400}, {"build": "miri", "secs": 900}],
        "rule": MEM, "min": 3000, "must": ["asan:ms:matrix", "miri:ms:operation", "callbacks:panicked", "positions:refused", "rows:panicked", "rows:returned"],
    },
    "C06": {
        "quick": [{"build": "tsan", "secs": 25}, {"build": "simd", "secs": 8, "late": True}],
        "thorough": [{"build": "tsan", "secs": 420}, {"build": "simd", "secs": 200, "late": True},
                     {"build": "miri", "secs": 500}],
        "rule": RACE, "min": 3000, "must": ["worker-threads", "panics", "shared:4", "calibrated", "side-by-side"],
    },
    "C16": model(rule=HIST, min=3000, must=["states:invalid", "clones"]),
    "C17": model(rule=PAIRS + "statically typed vectors and vectors with run time checks.",
                 must=["forbidden-operations", "rededicate"]),
    "C18": model(rule=CONV, min=20000),
    "C20": full(rule=MAT, min=2000),
    "C21": full(rule=FFI, min=2000, must=["exported", "callbacks", "further"]),
    "C23": model(rule=RESP, min=20000),
    "C24": model(rule=FIXED, min=3000, must=["fits:slice:result", "fits:array:result", "too-small:slice:error",
                                             "too-small:slice:panic"]),
}

PROPS["C02"]["quick"].append({"build": "simd", "secs": 8, "late": True})
PROPS["C02"]["thorough"].append({"build": "simd", "secs": 200, "late": True})

# Without the standard library there are no threads, storage is borrowed or has a fixed size
for p in ("C01", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C18", "C19", "C22", "C23", "C24"):
    PROPS[p]["quick"].append({"build": "nostd", "secs": 4})
    PROPS[p]["thorough"].append({"build": "nostd", "secs": 60})
# The histories also with the stable toolchain and without vector instructions, as most users build it
PROPS["C16"]["quick"].append({"build": "plain", "secs": 5})
PROPS["C16"]["thorough"].append({"build": "plain", "secs": 60})

M = "runtime monitoring: "
TECHNIQUE = {
    "C02": M + "differential oracle between one and several threads, exactly-once monitor of map callbacks, with injected thread delays",
    "C03": M + "differential oracle between instruction sets and alignments, with guard zones around the data",
    "C04": M + "differential oracle between storages, capacities filled with garbage and hostile scratch buffers",
    "C05": "AddressSanitizer and Miri (tree borrows) over random operations, histories, panicking callbacks and matrices",
    "C06": "ThreadSanitizer over worker threads, concurrent users and shared data; monitor for threads which are late under injected delays",
    "C16": M + "online checker of histories against a reference model with invariants of every state",
    "C17": M + "differential oracle between statically and dynamically typed vectors, checker of rededications",
    "C18": M + "conservation oracle over containers, conversions, indexers and iterators",
    "C20": M + "differential oracle between a matrix and its rows as single vectors",
    "C21": M + "differential oracle between the loaded C library and the Rust API over histories of handles",
    "C23": M + "reference oracle of response functions and lookup tables",
    "C24": M + "reference oracle under limited memory, with guard zones around the memory",
}
DIFF = ("Every judged pair of executions of the real code agreed (where they differ by more than regrouping allows, a "
        "reference model decides). Nothing is claimed for inputs and schedules which weren't executed; a defect which all "
        "compared executions share is left to the properties with a reference model.")
NOTE = {
    "C02": DIFF, "C03": DIFF, "C04": DIFF, "C17": DIFF,
    "C05": "No sanitizer report on the executions which were observed; Miri only sees small sizes and no SIMD registers, "
           "AddressSanitizer sees the SIMD code. Leaks aren't judged.",
    "C06": "No race reported on the executions which were observed (without SIMD code, as ThreadSanitizer needs a rebuilt "
           "standard library, which the toolchain with SIMD lacks). Trusts ThreadSanitizer's happens-before relation.",
    "C20": "Bitwise agreement of each row with the vector operation; that the vector operation is right is decided by the "
           "other properties. Combinations of matrix types and operations are sampled.",
    "C21": "Bitwise agreement of the C functions with the Rust operation, for all exported functions; panics inside of the "
           "library abort by design and aren't provoked.",
}
for p, t in TECHNIQUE.items():
    PROPS[p]["technique"] = t
for p, t in NOTE.items():
    PROPS[p]["note"] = t

NA = {}
