"""What each check is made of."""

SEQ_ASSUME = ["single-threaded use, as the interface requires without a mutex type",
              "gcc 13 and its AddressSanitizer/UBSan report the memory errors an execution makes"]
CONC_ASSUME = ["interleavings are sequentially consistent; weaker memory orders are judged by the happens-before relation they establish (a missing release or acquire shows as a data race)",
               "the code is instrumented by gcc's -fsanitize=thread; libstdc++'s compiled part and glibc are not, apart from the thread, clock, allocation and memory calls that the runtime replaces",
               "executions with the same happens-before relation are explored once; states are counted as distinct happens-before histories"]
LEVEL_NOTES = {}


def seq(harness, *defs, srcs=None, extra=(), explain="", assumptions=None, units=None):
    u = units or [dict(harness=harness, defs=list(defs), mode="seq", srcs=srcs, extra=list(extra))]
    return dict(units=u, explain=explain, assumptions=assumptions or SEQ_ASSUME)


def conc(harness, *defs, srcs=None, extra=(), srcdefs=(), explain="", assumptions=None, units=None):
    u = units or [dict(harness=harness, defs=list(defs), mode="conc", srcs=srcs, extra=list(extra), srcdefs=list(srcdefs))]
    return dict(units=u, explain=explain, assumptions=assumptions or CONC_ASSUME)


CHECKS = {}
PS = ("Depth-first enumeration of every operation sequence within the bounds, executed on the real PagedStack and compared after each step "
      "with a plain vector; states are distinct (page layout, contents size, configuration) combinations.")
for n in (1, 2, 3, 4, 5, 6, 8):
    CHECKS["C%02d" % n] = seq("ps_seq.cpp", "PROP=%d" % n, explain=PS)

for n in (1, 2, 3, 4, 5, 6, 8):
    CHECKS["C%02d" % n]["units"] += [dict(harness="ps_types.cpp", defs=["PROP=%d" % n, "TYPES=%d" % t], mode="seq") for t in (0, 1, 2)]
CHECKS["C05"]["units"].append(dict(harness="ps_conc.cpp", defs=["PROP=5"], mode="conc"))
CHECKS["C05"]["assumptions"] = SEQ_ASSUME[1:] + CONC_ASSUME
CHECKS["C07"] = conc("ps_conc.cpp", "PROP=7", explain="Depth-first enumeration of the programs and thread schedules within the bounds on the real PagedStack; each history of calls is "
                     "checked for linearizability against a plain vector, all data accesses for races.")

IT = ("Depth-first enumeration of every value of a bounded domain and every operation sequence within the bounds, executed on the real classes "
      "and compared with an independent reference after each step; memory is accounted block by block.")
for n in (24, 25, 26, 27):
    CHECKS["C%02d" % n] = seq("item_seq.cpp", "PROP=%d" % n, srcs="engine", explain=IT)

FT = ("Depth-first enumeration of every combination of test behaviours, texts, options and runs within the bounds, executed on the real "
      "framework; verdicts, captured streams, console output and the parsed XML report are compared with an independent reference.")
for n in (28, 29, 30, 31, 32, 33):
    CHECKS["C%02d" % n] = seq("fut_seq.cpp", "PROP=%d" % n, srcs="fut", explain=FT)

SY = ("Depth-first enumeration of the thread schedules of the real primitives (and of the programs, where bounds say so), with all data accesses "
      "checked for races and every wait for termination; executions are merged when they are equivalent.")
for n in (9, 10, 11, 12):
    CHECKS["C%02d" % n] = conc("sync_conc.cpp", "PROP=%d" % n, srcs="engine" if n in (9, 11) else None, explain=SY)
CHECKS["C11"]["units"].append(dict(harness="sync_seq.cpp", mode="seq", srcs="engine"))
CHECKS["C13"] = conc("singleton_conc.cpp", explain="Depth-first enumeration of accessor choices and thread schedules of the first accesses, each execution in a process of its own.")

LG = ("Depth-first enumeration of the programs (messages, calls, settings) and thread schedules within the bounds, executed on the real log system with its service "
      "thread; deliveries are compared with what the history of calls makes due, all data accesses are checked for races, memory for leaks and use after release.")
for n in range(14, 21):
    CHECKS["C%02d" % n] = conc("log_conc.cpp", "PROP=%d" % n, srcs="engine", explain=LG)

for n in (21, 22):
    CHECKS["C%02d" % n] = conc("logger_conc.cpp", "PROP=%d" % n, srcs="engine", explain=LG)
# (the engine is built with the default level, as a library is)
LV = [(-1, "LLDISABLE"), (0, "LLCRIT"), (1, "LLERR"), (2, "LLWARN"), (3, "LLINFO"), (4, "LLDEBUG"), (5, None)]
CHECKS["C23"] = conc("", units=[
    dict(harness="logger_ct.cpp", defs=["CTLEVEL=%d" % n] + (["FALCON_MIN_LOG_LEVEL=::falcon::" + s] if s else []), mode="conc", srcs="engine",
         extra=[["logger_ct2.cpp"] + (["FALCON_MIN_LOG_LEVEL=::falcon::" + s] if s else [])]) for n, s in LV],
    explain="Enumeration of the full product of compile-time levels (one build each), runtime levels, statement levels and forms on the real logger.")
