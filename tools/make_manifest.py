#!/usr/bin/python3
"""Writes /verif/MANIFEST.json: every property of properties.jsonl is either claimed or not applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection: "

CLAIMED = {
    "C01": (SIM + "seeded baton-passing thread scheduler over the real package, outcome of every call compared with the "
            "same call alone in a fresh process",
            "Samples schedules at line and bytecode granularity; a clean batch is evidence, not proof. Assumes that a process forked "
            "right after import is a fresh process, and that threads switch only inside Python code of the package."),
    "C02": (SIM + "seeded call histories with virtual-clock jumps, forks, collections and failing calls, every answer compared with a fresh process",
            "Samples histories (up to tens of thousands of calls in one process); an effect that needs a longer or "
            "more specific history is missed."),
    "C03": (SIM + "exceptions injected at seeded points inside calls (KeyboardInterrupt, MemoryError, RecursionError by real "
            "stack exhaustion, arbitrary exceptions), alone and among other threads, then follow-up calls",
            "Samples injection points at the granularity at which CPython 3.12 delivers them."),
    "C04": (SIM + "callers that edit arguments and results after or, from another simulated thread, during calls",
            "Samples edits and schedules."),
    "C05": (SIM + "each run is a fresh interpreter whose hash seed, flags, locale, environment, clock, random generator, "
            "allocations and stack are chosen by the seed; outcomes compared across processes",
            "Samples process environments and a seeded set of calls per batch."),
    "C06": (SIM + "imports interrupted at seeded points and retried, or raced by simulated threads over the real import system",
            "Samples interruption points and schedules; import locks are simulated."),
    "C07": (SIM + "interactive sessions run over simulated raw devices (split, delayed and interrupted reads and short writes), "
            "transcript compared with a model of the session fed by fresh-process library answers",
            "Samples session scripts and I/O schedules; the terminal is simulated below Python's text layer."),
    "C08": (SIM + "interactive sessions with end of input, read and write errors, Ctrl-C and hostile lines at seeded points; "
            "liveness as a bound on device operations, safety as a prefix of the undisturbed transcript",
            "Samples fault points and line contents."),
    "C09": (SIM + "the real generator scripts over a simulated network and an interposed disk (bad documents, resets, truncation, "
            "timeouts, failing reads), files compared byte for byte afterwards",
            "Samples faults; the HTTP server is simulated at the socket-response level below the HTTP client the scripts use."),
    "C10": (SIM + "the real generator scripts over an interposed disk that kills, fails, shortens or interrupts them at seeded file "
            "operations and lines, several runs in a row; files compared with the old and new contents after every run",
            "Samples crash points and faults; a crash is the end of the process, not of the machine (no lost page cache)."),
    "C11": (SIM + "the real generator scripts in separate interpreters whose hash seed, locale, environment, clock, delivery, previous "
            "outputs and aborted earlier runs the seed decides; bytes compared across runs and with a reference model of the tables",
            "Samples configurations and exports shaped like jbovlaste's."),
    "C12": (SIM + "the real page and library in a simulated browser: seeded edits, clicks and a virtual clock whose timers fire late or "
            "are overtaken by user events; table compared after every event with the library called in fresh realms",
            "The DOM and the browser's event loop are models; samples event orders and texts."),
    "C13": (SIM + "the real page and library in a simulated browser: seeded sequences of edits, choices, resets and runs; display compared "
            "after every event with the library called in fresh realms",
            "The DOM is a model; samples event sequences and texts."),
    "C14": (SIM + "the real Rust program over an interposed C library: seeded sessions with split, interrupted and failing reads and writes, "
            "end of input, kills, failing allocations and bytes that are no text; transcript compared with fresh processes line by line",
            "Samples sessions and fault points; allocation failures are those of the program, not of the kernel."),
    "C15": (SIM + "the real Rust program run repeatedly on the same arguments and input with seeded hash seeds, environments, heap layouts, "
            "clocks and split, interrupted and delayed I/O; bytes and status compared",
            "Samples inputs and configurations; address layout is varied by the heap only (ASLR is off, so that runs repeat)."),
    "C24": (SIM + "calls started on the same thread at seeded points inside other calls where CPython runs handlers, nested and among other "
            "simulated threads, every outcome compared with the same call alone in a fresh process",
            "Samples points and nestings; a handler is modelled as Python code run at an instruction boundary where CPython checks for signals."),
    "C25": (SIM + "real forks at seeded points of a simulated schedule with calls in progress, child and parent go on under the simulator, "
            "every outcome compared with the same call alone in a fresh process",
            "Samples schedules and fork points; forks during the import of the package are excluded (the interpreter's import locks)."),
    "C26": (SIM + "seeded histories of calls, edits by callers, calls cut off by the end of the stack, reentrant settings, clock jumps, timers, "
            "collections and locales in one realm, every answer compared with a fresh realm",
            "Samples histories and stack depths; V8 runs interpreted, so optimised code is not covered; sources run with types stripped by node."),
    "C27": (SIM + "the compiled library with a switch point in every basic block, a simulated kernel below its locks, threads, clock and random "
            "numbers; seeded switches at first visits, late points and random gaps, interrupted and spurious waits, panicking calls; every outcome "
            "compared with the same call alone in a fresh process",
            "Samples schedules and histories; memory is sequentially consistent and only the library crate's own blocks are switch points."),
}


def main():
    checks, na = [], []
    reasons = {}
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        if pid in CLAIMED:
            tech, note = CLAIMED[pid]
            checks.append(dict(property=pid, quick_cmd=f"/usr/bin/python3 run_check.py {pid}",
                               thorough_cmd=f"VERIF_TIER=thorough /usr/bin/python3 run_check.py {pid}",
                               evidence_file=f"evidence/{pid}.json", technique=tech, level="exploration", level_note=note))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, "The check is still being built.")))
    m = dict(version=1, setup_cmd="/usr/bin/python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="Every check rebuilds what it needs from /repo's working tree; /repo carries no hooks, only 'fix:' commits.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


PURE = ("A pure function of its input: no schedule, clock, I/O or fault can make it fail that would not also fail it for the "
        "same input on its own, so simulation has nothing to decide (the parts that do depend on these are claimed in C01-C15 and C24-C27). ")
NA = {
    "C16": PURE + "Deciding it is input generation or proof over the morphology.",
    "C17": PURE + "Deciding it is input generation or proof over the morphology.",
    "C18": PURE + "Optimality over all candidate lujvo needs exhaustive comparison per input, not schedules.",
    "C19": PURE + "Deciding it is input generation.",
    "C20": PURE + "The oracle (Camxes, jbovlaste) is an external grammar; nothing in it depends on schedule or faults.",
    "C21": PURE + "Which exception a given string raises does not depend on schedule or faults.",
    "C22": PURE + "It compares three pure functions input by input (differential testing).",
    "C23": PURE + "A metamorphic relation between inputs.",
}

if __name__ == "__main__":
    main()
