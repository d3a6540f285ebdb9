"""What each check builds and runs. Case counts bound every run (not seconds)."""
import os
import subprocess

HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")


def protoc(repo, builddir):
    plugin = subprocess.run(["which", "grpc_cpp_plugin"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    subprocess.run(["protoc", "-I.", "--cpp_out=" + builddir, "--grpc_out=" + builddir, "--plugin=protoc-gen-grpc=" + plugin, "rpc.proto"], cwd=HARNESS, check=True, timeout=120)


ASAN = ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-finstrument-functions"]
INJ = ["-O0", "-g1", "-fno-omit-frame-pointer", "-finstrument-functions", "-D_GLIBCXX_ASSERTIONS", "-DVH_INJECT"]


def moc(repo, builddir):
    tool = next(t for t in ["/usr/lib/qt6/libexec/moc", "/usr/lib/qt6/bin/moc", "moc"] if os.path.exists(t) or not t.startswith("/"))
    subprocess.run([tool, "qt_sender.hpp", "-o", os.path.join(builddir, "moc_qt_sender.cpp")], cwd=HARNESS, check=True, timeout=120)


QT = "/usr/include/x86_64-linux-gnu/qt6"

VARIANTS = {
    "asan": {"cxx": "clang++", "flags": ASAN},
    # gcc: clang 18 miscompiles aggregates holding an empty [[no_unique_address]] scheduler (see DESIGN.md)
    "gasan": {"cxx": "g++", "flags": ASAN},
    # libstdc++ debug mode: every use of an invalidated iterator is seen
    "dbg": {"cxx": "clang++", "flags": [x for x in ASAN if x != "-D_GLIBCXX_ASSERTIONS"] + ["-D_GLIBCXX_DEBUG"]},
    "tsan": {"cxx": "clang++", "flags": TSAN, "sources": ["vh_inject.cpp"], "plain_flags": ["-O2", "-g1", "-fsanitize=thread"]},
    "ainj": {"cxx": "clang++", "flags": ASAN + ["-finstrument-functions", "-DVH_INJECT"], "sources": ["vh_inject.cpp"], "plain_flags": ["-O2", "-g1"]},
    "inj": {"cxx": "clang++", "flags": INJ, "sources": ["vh_inject.cpp"], "plain_flags": ["-O2", "-g1"]},
}

PIPE = ["h_pipe.cpp", "impl_src.cpp", "impl_unary1.cpp", "impl_unary2.cpp", "impl_flat.cpp", "impl_nary1.cpp", "impl_nary2.cpp", "impl_fused0.cpp", "impl_fused1.cpp", "impl_fused2.cpp", "impl_fused3.cpp"]

BINARIES = {
    "h_pipe": {"sources": PIPE},
    "h_ret": {"sources": ["h_ret.cpp", "vclock.cpp"]},
    "h_typed": {"sources": ["h_typed.cpp", "typed_bool.cpp", "typed_string.cpp", "typed_double.cpp", "typed_record.cpp", "typed_pointer.cpp", "typed_optional.cpp"]},
    "h_form": {"sources": ["h_form.cpp", "vclock.cpp"] + ["form_%d.cpp" % i for i in range(8)]},
    "h_hist": {"sources": ["h_hist.cpp", "vclock.cpp"]},
    "h_sched": {"sources": ["h_sched.cpp", "sched_p15.cpp", "sched_p17.cpp", "sched_p18.cpp", "vclock.cpp"]},
    "h_win": {"sources": ["h_win.cpp"]},
    "h_comb": {"sources": ["h_comb.cpp"]},
    "h_val": {"sources": ["h_val.cpp"]},
    "h_grpc": {
        "sources": ["h_grpc.cpp", "h_grpc_pb.cpp"],
        "plain": ["h_grpc_pb.cpp"],
        "prepare": protoc,
        "cflags": lambda r, b: ["-I" + os.path.join(r, "src/extensions/rppgrpc"), "-I" + b],
        "ldflags": ["-lgrpc++", "-lgrpc", "-lgpr", "-labsl_synchronization", "-lprotobuf"],
    },
    "h_work": {"sources": ["h_conc.cpp", "conc_f.cpp"], "cflags": lambda r, b: ["-DVH_WORKERS_ONLY"]},
    "h_asio": {"sources": ["h_asio.cpp"], "cflags": lambda r, b: ["-I" + os.path.join(r, "src/extensions/rppasio")]},
    "h_qt": {
        "sources": ["h_qt.cpp", "qt_moc.cpp"],
        "prepare": moc,
        "cflags": lambda r, b: ["-fPIC", "-I" + os.path.join(r, "src/extensions/rppqt"), "-I" + b, "-isystem", QT, "-isystem", QT + "/QtCore"],
        "ldflags": ["-lQt6Core"],
    },
    "h_conc": {"sources": ["h_conc.cpp", "conc_a.cpp", "conc_b.cpp", "conc_c.cpp", "conc_d.cpp", "conc_e.cpp", "conc_f.cpp", "conc_g.cpp"]},
}

HIST_RULE = "random histories of operations, also issued from inside callbacks, executed on the real library and on a reference model; distinct = different (history, observed event log) hashes with at least one event"

PIPE_RULE = "random pipelines (AST of sources and operators), scripts of source events and dispose points, each executed on the real library and on an independent reference model; distinct = different (pipeline shape, script, observed event log) hashes with at least one event"


T_MODEL = "runtime monitoring: online comparison of recorded events with a reference model, under ASan/UBSan"


def pipe(mode, quick, thorough, note, extra=(), rule=PIPE_RULE, assumptions=()):
    return {"jobs": [{"bin": "h_pipe", "mode": mode, "quick": quick, "thorough": thorough}] + list(extra), "rule": rule, "assumptions": list(assumptions), "technique": T_MODEL, "note": note}


def hist_job(mode, quick, thorough):
    return {"bin": "h_hist", "mode": mode, "quick": quick, "thorough": thorough}


def hist(mode, quick, thorough, note, extra=(), assumptions=()):
    return {"jobs": [hist_job(mode, quick, thorough)] + list(extra), "rule": HIST_RULE, "assumptions": list(assumptions), "technique": T_MODEL, "note": note}


SCHED_RULE = "random task programs and time scripts on a virtual clock, executed on the real schedulers and on a reference model; distinct = different (program, observed event log) hashes with at least one event"


def sched_job(mode, quick, thorough):
    return {"bin": "h_sched", "variant": "gasan", "mode": mode, "quick": quick, "thorough": thorough}


def sched(mode, quick, thorough, note, extra=(), assumptions=()):
    return {"jobs": [sched_job(mode, quick, thorough)] + list(extra), "rule": SCHED_RULE, "assumptions": list(assumptions), "technique": T_MODEL, "note": note}


CONC_RULE = "concurrent scenarios (2-5 threads with injected delays at function entries and in callbacks); distinct = different orders of begin and end of all source calls and subscriber callbacks"
T_LOG = "runtime monitoring: concurrent stress with injected delays, online overlap monitors and offline checkers over recorded event logs"
T_TSAN = "runtime monitoring: ThreadSanitizer over concurrent stress with injected delays"


def conc_job(mode, quick, thorough, variant="inj"):
    return {"bin": "h_conc", "variant": variant, "mode": mode, "quick": quick, "thorough": thorough, "concurrent": True, "hang": 25}


def conc(mode, quick, thorough, note, extra=(), assumptions=()):
    return {"jobs": [conc_job(mode, quick, thorough)] + list(extra), "rule": CONC_RULE, "assumptions": list(assumptions), "technique": T_LOG, "note": note}


NOT_APPLICABLE = {}

PROPERTIES = {
    "P01": pipe("P01", 60000, 1500000, "generated pipelines with ill-behaved sources; grammar automaton on every subscriber"),
    "P02": conc("P02", 50000, 600000, "overlap flag and terminal-order monitor on every subscriber under 2-5 threads"),
    "P03": conc("P03", 50000, 600000, "per-operator offline conservation and order checkers over ticketed logs"),
    "P04": pipe("P04", 60000, 1500000, "generated chains of single-source operators against an independent reference model, over several item types, sequences up to 5000 items and extreme counts", extra=[{"bin": "h_typed", "mode": "P04", "quick": 60000, "thorough": 3000000}]),
    "P05": pipe("P05", 60000, 1500000, "generated combining pipelines, and histories over hot sources that act while being subscribed, against independent reference models", extra=[{"bin": "h_comb", "mode": "P05", "quick": 200000, "thorough": 8000000}]),
    "P06": pipe("P06", 60000, 1500000, "generated windowing/grouping pipelines, and histories of outer and inner subscribers that come late and leave early, against independent reference models", extra=[{"bin": "h_win", "mode": "P06", "quick": 200000, "thorough": 8000000}]),
    "P07": pipe("P07", 60000, 1500000, "dispose at every kind of position, silence and upstream-liveness monitors", extra=[conc_job("P07", 8000, 200000)]),
    "P08": pipe("P08", 60000, 1500000, "instance counters, dispose counters, finalizer counters, heap growth over repeated cycles of events and LeakSanitizer", extra=[{"bin": "h_ret", "mode": "P08", "quick": 800, "thorough": 60000}, hist_job("P08", 40000, 1000000), sched_job("P08", 20000, 600000), conc_job("P08", 8000, 200000)]),
    "P09": pipe("P09", 60000, 1500000, "one throwing callback at a random call index per case"),
    "P10": pipe("P10", 60000, 1500000, "recovery operators against a reference model, liveness and stack monitors"),
    "P11": hist("P11", 200000, 5000000, "random subject histories with re-entrant operations against a reference model", extra=[{"bin": "h_hist", "variant": "dbg", "mode": "P11", "quick": 60000, "thorough": 1000000}]),
    "P12": conc("P12", 40000, 600000, "subjects under emitting, joining and leaving threads, offline order and contiguity checkers"),
    "P13": hist("P13", 150000, 4000000, "random connect/ref_count histories and pipelines with shared nodes against reference models, upstream liveness monitor", extra=[{"bin": "h_pipe", "mode": "P13", "quick": 30000, "thorough": 1000000}, conc_job("P13", 12000, 200000)]),
    "P14": hist("P14", 150000, 4000000, "random disposable trees with re-entrant cleanups against a reference model, exactly-once counters", extra=[conc_job("P14", 20000, 300000)]),
    "P15": sched("P15", 150000, 5000000, "random task programs on every scheduler with a virtual clock, against a queue model, and on real worker threads with several producers, against offline order, due-time and exactly-once checkers", extra=[{"bin": "h_work", "variant": "inj", "mode": "P15", "quick": 24000, "thorough": 400000, "concurrent": True, "hang": 25}, {"bin": "h_work", "variant": "tsan", "mode": "P20", "quick": 4000, "thorough": 100000, "concurrent": True, "hang": 25}], assumptions=["time is the monitor's virtual clock: sleeping advances it"]),
    "P16": conc("P16", 30000, 300000, "thread id and order monitors on observe_on, subscribe_on, delay and hops"),
    "P17": sched("P17", 100000, 4000000, "time operators, interval and timer under random scripts on test_scheduler, run_loop, current_thread and immediate with a virtual clock, against a timing model"),
    "P18": sched("P18", 50000, 1000000, "generated current_thread pipelines against a trampoline model, nesting and stack monitors"),
    "P19": conc("P19", 20000, 300000, "calls of as_blocking against recorded source logs and thread ids"),
    "P20": {"jobs": [conc_job("P20", 40000, 1000000, "tsan")], "rule": CONC_RULE, "assumptions": ["TSan reports races it has seen executed; libstdc++'s exception reference counts are suppressed (uninstrumented)"], "technique": T_TSAN, "note": "every concurrent scenario under ThreadSanitizer with a monitor that adds no synchronisation"},
    "P21": pipe("P21", 60000, 1500000, "hostile scripts under ASan, LeakSanitizer and UBSan, and every concurrent scenario under ASan and UBSan", extra=[conc_job("P21", 20000, 400000, "ainj")] + [{"bin": b, "variant": "dbg", "mode": "P21", "quick": 60000, "thorough": 2000000, "only": ("crash", "asan", "ubsan")} for b in ("h_hist", "h_win", "h_comb")]),
    "P22": {"jobs": [{"bin": "h_val", "mode": "P22", "quick": 100000, "thorough": 3000000}], "rule": "random chains of up to 5 operators with consuming callbacks, sharing points and consumers aside; distinct = different (chain, source, consumers, items received) hashes", "assumptions": ["copy bounds are those the repository's copy-count tests document, one more for each additional consumer"], "technique": "runtime monitoring: items with identity, moved-from marker and copy counters, under ASan/UBSan", "note": "every consumer spoils what it receives; every other consumer, retained copy and the user's original must still be intact"},
    "P23": pipe("P23", 60000, 1500000, "several interleaved subscriptions of the same or copied observables against the model"),
    "P27": {
        "jobs": [{"bin": "h_ret", "mode": "P27", "quick": 3200, "thorough": 200000}],
        "rule": "random long-lived pipelines, subjects, connectables and disposables with a random cycle of events, repeated until the heap settles or keeps growing; distinct = different (pipeline, cycle, items received) hashes",
        "assumptions": ["growth is judged between later rounds of the same cycle, so that containers which keep their capacity are not blamed"],
        "technique": "runtime monitoring: live heap bytes (ASan's allocator) after every round of a repeated cycle of events, on a virtual clock",
        "note": "the same cycle of events repeated on one live pipeline must stop allocating memory it keeps",
    },
    "P28": {
        "jobs": [{"bin": "h_form", "mode": "P28", "quick": 50000, "thorough": 2000000}],
        "rule": "150 statically typed chains of up to 3 operators over 18 kinds of sources, each under random scripts and subscribed in up to 19 ways; distinct = different (chain, observed event log) hashes",
        "assumptions": ["an exception thrown by defer's factory leaves subscribe and is not generated"],
        "technique": "runtime monitoring: differential comparison of recorded events between every way of subscribing and the fully type-erased chain, under ASan/UBSan",
        "note": "events, cleanups, upstream state and handle of every form compared with those of the type-erased chain",
    },
    "P29": {
        "jobs": [
            dict(conc_job("P29", 24000, 600000), only="hang"),
            dict(hist_job("P11", 60000, 1000000), only="hang"),
            dict(hist_job("P13", 30000, 600000), only="hang"),
            dict(hist_job("P14", 30000, 600000), only="hang"),
            dict(sched_job("P15", 30000, 600000), only="hang"),
            dict(sched_job("P18", 10000, 200000), only="hang"),
            {"bin": "h_pipe", "mode": "P13", "quick": 20000, "thorough": 600000, "only": "hang"},
        ],
        "rule": CONC_RULE + "; and random sequential pipelines and subject histories with re-entrant operations, distinct by shape, script and events",
        "assumptions": ["a call is judged not to return after 25 s (60 s where sequential) without progress, twice"],
        "technique": "runtime monitoring: hang watchdog over concurrent stress with injected delays and over re-entrant sequential histories",
        "note": "random webs of multi-source operators over subjects shared by the threads, every other concurrent scenario, and re-entrant histories; every case must finish",
    },
    "P26": {
        "jobs": [{"bin": "h_grpc", "variant": "ainj", "mode": "P26", "quick": 30000, "thorough": 1500000, "concurrent": True, "hang": 25}],
        "rule": "calls of the three streaming kinds over an in-process gRPC channel, 0-2 producers on each end, ended by completion, error, client cancellation, server cancellation or deadline, with injected delays at function entries; distinct = different (kind, producers, way of ending, received sequences) hashes",
        "assumptions": ["gRPC itself is not instrumented; its own assertions and ASan's heap checks see misuse of it"],
        "technique": "runtime monitoring: concurrent stress with injected delays under ASan/UBSan, online overlap monitors and offline comparison of sent and received items",
        "note": "both ends of every call monitored: order, conservation, one truthful end, release of the reactors",
    },
    "P24": {
        "jobs": [{"bin": "h_asio", "variant": "ainj", "mode": "P24", "quick": 16000, "thorough": 400000, "concurrent": True, "hang": 25}, {"bin": "h_asio", "variant": "tsan", "mode": "P24", "quick": 8000, "thorough": 200000, "concurrent": True, "hang": 25}],
        "rule": "random task programs (delays, repetitions, nested current_thread work, disposals) and streams on strands of one io_context run by 1-4 threads; distinct = different orders of task begins and ends, or different streams with the events received",
        "assumptions": ["order is judged among tasks without a delay: asio gives no order between expired timers"],
        "technique": "runtime monitoring: concurrent stress with injected delays under ASan/UBSan and ThreadSanitizer, offline order, due-time and exactly-once checkers",
        "note": "begin/end record of every task, overlap flag per worker, and plain per-worker state that TSan watches",
    },
    "P25": {
        "jobs": [{"bin": "h_qt", "variant": "ainj", "mode": "P25", "quick": 24000, "thorough": 800000, "concurrent": True, "hang": 25}],
        "rule": "random scripts of signal emissions, listeners coming and leaving (also inside callbacks) and sender destruction, and task programs and streams on the main thread scheduler from several threads; distinct = different (script, items received) or task order hashes",
        "assumptions": ["Qt is not instrumented", "due times are judged to a millisecond, the resolution of Qt's timers"],
        "technique": "runtime monitoring: comparison of recorded events with a reference model, and offline due-time, thread and exactly-once checkers over concurrent runs, under ASan/UBSan",
        "note": "every listener's items against the model; every task's thread, due time and number of runs",
    },
}
