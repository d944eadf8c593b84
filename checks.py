"""What is built and run for each property (see DESIGN.md)."""

# the library and the harness are instrumented for ThreadSanitizer, but linked with our own
# runtime, in which every memory access is a possible preemption point
CTL = ["-O1", "-g", "-fsanitize=thread"]
ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-O1", "-g", "-fsanitize=thread"]
LIBS = ["-lyaml-cpp", "-ldl", "-lpthread"]

EXES = {
    "sync": {"support": ["vsched.cxx", "hx.cxx"], "harness": ["h_barrier.cxx", "h_mailbox.cxx"], "flags": CTL, "lib_flags": CTL,
             "link": ["-rdynamic"] + LIBS},
    "mbseq": {"support": ["hx.cxx"], "harness": ["h_mbseq.cxx"], "flags": ASAN, "lib_flags": ASAN, "link": ["-fsanitize=address,undefined"] + LIBS},
    "race": {"support": ["hx.cxx"], "harness": ["h_race.cxx"], "flags": TSAN, "lib_flags": TSAN, "link": ["-fsanitize=thread"] + LIBS},
    "raceasan": {"support": ["hx.cxx"], "harness": ["h_race.cxx"], "flags": ASAN, "lib_flags": ASAN, "link": ["-fsanitize=address,undefined"] + LIBS},
}

SCHED = ["the controlled scheduler interleaves at pthread operations, clock reads and (sampled) memory accesses of the library, sequentially consistently",
         "virtual time stands for the steady and system clocks"]


def job(exe, case, quick, thorough, **kw):
    return dict(exe=exe, case=case, quick=quick, thorough=thorough, **kw)


T_SYNC = "controlled-schedule and stress execution with virtual time; offline checker over the log of calls and returns"
N_SYNC = "held on the executions counted in the evidence; the schedules are sampled, and memory is sequentially consistent under the controlled scheduler (native runs and C01 cover the rest)"

PROPS = {
    "B01": {"technique": T_SYNC, "note": N_SYNC,
            "jobs": [job("sync", "B01", 16000, 1000000, pin=True)], "assumptions": SCHED,
            "rule": "an execution of a random barrier program (N, threads, rounds, timeouts, delays, schedule); non-trivial: at least two threads and two wait calls; distinct by program and sequence of context switches"},
    "B02": {"technique": T_SYNC, "note": N_SYNC,
            "jobs": [job("sync", "B02", 8000, 400000, pin=True)], "assumptions": SCHED,
            "rule": "an execution of a random barrier program made of complete groups; non-trivial: at least two threads and two wait calls; distinct by program and sequence of context switches"},
    "B03": {"technique": T_SYNC, "note": N_SYNC,
            "jobs": [job("sync", "B03", 16000, 1000000, pin=True)], "assumptions": SCHED,
            "rule": "an execution of a random barrier program in which waits expire; non-trivial: at least two threads and two wait calls; distinct by program and sequence of context switches"},
    "M01": {"technique": T_SYNC, "note": N_SYNC,
            "jobs": [job("sync", "M01", 40000, 400000, pin=True)], "assumptions": SCHED,
            "rule": "a multi-threaded or sequential mailbox history with put, get, clear, subscription churn; non-trivial: more than three operations; distinct by program and sequence of context switches"},
    "M02": {"technique": T_SYNC, "note": N_SYNC,
            "jobs": [job("sync", "M02", 40000, 400000, pin=True)], "assumptions": SCHED,
            "rule": "a multi-threaded or sequential mailbox history with several subscriptions; non-trivial: more than three operations; distinct by program and sequence of context switches"},
    "M03": {"technique": T_SYNC, "note": N_SYNC,
            "jobs": [job("sync", "M03", 40000, 400000, pin=True)], "assumptions": SCHED,
            "rule": "a multi-threaded or sequential mailbox history with no-echo puts; non-trivial: more than three operations; distinct by program and sequence of context switches"},
    "M04": {"technique": T_SYNC, "note": N_SYNC,
            "jobs": [job("sync", "M04", 60000, 600000, pin=True)], "assumptions": SCHED,
            "rule": "a multi-threaded mailbox history searched for a linearization, or a sequential one compared with the exact model; non-trivial: more than three operations; distinct by program and sequence of context switches"},
    "M05": {"technique": "AddressSanitizer execution of histories against an exact ownership model (liveness of every message after every operation, heap growth of repeated operations), and controlled-schedule execution", "note": N_SYNC,
            "jobs": [job("mbseq", "M05", 16000, 1000000), job("sync", "M05c", 20000, 400000, pin=True)], "assumptions": SCHED,
            "rule": "a mailbox history (one-threaded with liveness judged after every operation, or multi-threaded with liveness judged at the end); non-trivial: more than three operations; distinct by operations"},
    "M06": {"technique": "AddressSanitizer execution of histories with foreign and ended subscriptions over several mailboxes, against an exact model of every queue", "note": "held on the histories counted in the evidence",
            "jobs": [job("mbseq", "M06", 24000, 1000000)],
            "rule": "a one-threaded history over 2-5 mailboxes with wrong uses, or a set of conversions; non-trivial: more than three operations; distinct by operations"},
    "C01": {"technique": "ThreadSanitizer (happens-before race detection) and AddressSanitizer over native stress executions, with hand-over monitors", "note": "a race is seen when both accesses are executed without synchronization between them, whatever their timing",
            "jobs": [job("race", "C01", 4000, 200000), job("raceasan", "C01", 2000, 100000)],
            "rule": "a native multi-threaded execution of barrier or mailbox operations; all are non-trivial (at least two operations, mostly two or more threads); distinct by program"},
    "C02": {"technique": "ThreadSanitizer over native executions of threads with separate objects, and comparison of all their results with the same work done alone", "note": "held on the executions counted in the evidence; yaml-cpp itself is not instrumented",
            "jobs": [job("race", "C02", 1600, 60000)],
            "rule": "an execution of 2-8 threads each working on objects of its own; all are non-trivial; distinct by program"},
}
EXES.update({
    "format": {"support": ["hx.cxx"], "harness": ["h_format.cxx"], "flags": ASAN, "lib_flags": ASAN, "link": ["-fsanitize=address,undefined"] + LIBS},
})
T_TEXT = "execution under AddressSanitizer, UndefinedBehaviorSanitizer and library assertions with generated inputs, every result judged by an independent model"
N_TEXT = "held on the inputs counted in the evidence; inputs are generated (boundary values, values found in the sources, random bytes), not enumerated"


def text(pid, exe, quick, thorough, rule, **kw):
    PROPS[pid] = dict({"technique": T_TEXT, "note": N_TEXT, "jobs": [job(exe, pid, quick, thorough)], "rule": rule}, **kw)


text("F01", "format", 300000, 3000000, "a template with a sequence of fills, reads, resets and copies; non-trivial: the template is not empty; distinct by template and operations")
for f, what in (("F02", "an addI call"), ("F03", "an addU call"), ("F04", "an addF call in fixed, scientific or general format, or with a non-finite value"), ("F05", "an addF call in engineering format"), ("F06", "an addS, addC or addB call")):
    text(f, "format", 600000, 4000000, what + " (value, width, separator, ...); all are non-trivial; distinct by arguments")
text("F07", "format", 240000, 3000000, "a template filled through the extension template on originals and copies in parallel with the plain formatter; all are non-trivial; distinct by template and calls")
EXES["options"] = {"support": ["hx.cxx"], "harness": ["h_options.cxx"], "flags": ASAN, "lib_flags": ASAN, "link": ["-fsanitize=address,undefined"] + LIBS}
text("O01", "options", 600000, 3000000, "a set of options of random types and a command line (mostly acceptable) in one of its three forms; non-trivial: the line is not empty; distinct by options and line")
text("O02", "options", 600000, 3000000, "a set of options of random types and a command line with errors; non-trivial: the line is not empty; distinct by options and line")
text("O03", "options", 360000, 2000000, "a command line passed in all three ways; non-trivial: the line is not empty; distinct by options and spelling")
text("O04", "options", 180000, 1500000, "a sequence of command lines on one object, each also on a fresh one; all are non-trivial; distinct by options and lines")
text("O05", "options", 600000, 3000000, "a set of options and a key=value list in one of its four forms; all are non-trivial; distinct by options and list")
text("O06", "options", 360000, 2000000, "a set of options, parsed lines and queries; all are non-trivial; distinct by options and lines")
text("O07", "options", 360000, 2000000, "a set of options and 1-3 command lines or key=value lists, with what is written to the standard streams; all are non-trivial; distinct by options and lines")
EXES["utils"] = {"support": ["hx.cxx"], "harness": ["h_utils.cxx"], "flags": ASAN, "lib_flags": ASAN, "link": ["-fsanitize=address,undefined"] + LIBS}
text("U01", "utils", 240000, 4000000, "a string; non-trivial: it contains a space; distinct by content")
text("U02", "utils", 240000, 4000000, "a string and a delimiter set; non-trivial: there are at least two pieces; distinct by content")
EXES["tree"] = {"support": ["hx.cxx"], "harness": ["h_tree.cxx"], "flags": ASAN, "lib_flags": ASAN, "link": ["-fsanitize=address,undefined"] + LIBS}
text("P01", "tree", 80000, 1000000, "a generated YAML document, every path of which and a dozen absent ones are looked up; non-trivial: it has a map entry; distinct by document and paths")
text("P02", "tree", 48000, 800000, "a generated YAML document, up to 12 places of which are read as 11 types, with and without exceptions; non-trivial: it has a map entry; distinct by document")
text("P03", "tree", 120000, 1000000, "a generated YAML document whose tree is walked and dumped; non-trivial: it has an entry; distinct by document")
text("P04", "tree", 48000, 800000, "a generated YAML document, then missing, empty and malformed files (mutated documents), then another document; all are non-trivial; distinct by files")
text("P05", "tree", 48000, 800000, "a sequence of 2-8 reads of 2-4 documents into 1-3 trees; all are non-trivial; distinct by documents and sequence")

EXES["errors"] = {"support": ["hx.cxx"], "harness": ["h_errors.cxx"], "flags": ASAN, "lib_flags": ASAN, "link": ["-fsanitize=address,undefined"] + LIBS}
text("E01", "errors", 24000, 400000, "a sequence of 1-10 failing operations on barriers, mailboxes, property trees and formats with arbitrary names; all are non-trivial; distinct by sequence")

# hostile arguments: the same generators, wider; nothing is compared, the sanitizers and the clock judge
PROPS["S01"] = {"technique": "AddressSanitizer, UndefinedBehaviorSanitizer, library assertions and a progress watchdog over executions with hostile arguments", "note": N_TEXT + "; yaml-cpp itself is not instrumented",
                "jobs": [job(e, p, q, t, hostile=True) for e, p, q, t in (
                    ("format", "F01", 20000, 600000), ("format", "F02", 20000, 600000), ("format", "F03", 20000, 600000), ("format", "F04", 20000, 600000), ("format", "F05", 20000, 600000), ("format", "F06", 20000, 600000), ("format", "F07", 20000, 600000),
                    ("options", "O01", 20000, 600000), ("options", "O02", 20000, 600000), ("options", "O03", 10000, 300000), ("options", "O04", 10000, 300000), ("options", "O05", 20000, 600000), ("options", "O06", 10000, 300000), ("options", "O07", 10000, 300000),
                    ("utils", "U01", 8000, 200000), ("utils", "U02", 8000, 200000),
                    ("tree", "P01", 4000, 200000), ("tree", "P02", 4000, 200000), ("tree", "P03", 4000, 200000), ("tree", "P04", 4000, 200000), ("tree", "P05", 4000, 200000))],
                "rule": "a case of the checks F01-F07, O01-O07, U01, U02, P01-P05 with hostile arguments (any bytes, long names, huge widths, malformed documents); all are non-trivial; distinct by case"}
